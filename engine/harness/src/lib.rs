//! Entry points of the analysis.  Nothing here is ever executed: each `h_*` function is a root from which the
//! driver collects the monomorphic MIR of everything reachable, and the abstract interpreter starts in it with
//! unknown ("top") arguments.  `prim_*` functions stand for unknown code (user handlers, user futures, ...);
//! `m_*` functions are source-level models of library functions (their doc comment names the modelled item).
#![feature(try_trait_v2)]
#![allow(dead_code, unused, clippy::all)]
mod models;
#[cfg(feature = "spawn")]
mod extra;
#[cfg(feature = "derive")]
mod derived;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::ops::ControlFlow;
use std::pin::Pin;
use std::task::{Context as Cx, Poll};
use xtra::prelude::*;
use xtra::refcount::{Either, RefCounter, Strong, Weak};
use xtra::WeakAddress;

// ------------------------------------------------------------------ unknown code
#[inline(never)]
pub fn prim_any<T>() -> T { loop {} }
#[inline(never)]
pub fn prim_ev<T: ?Sized>(_what: &'static str, _x: &T) { loop {} }
#[inline(never)]
pub fn prim_user_poll<T>(_what: &'static str, _cx: &mut Cx<'_>) -> Poll<T> { loop {} }
#[inline(never)]
pub fn prim_next<I: ?Sized, T>(_i: &mut I) -> Option<T> { loop {} }

/// A future owned by the user: anything may happen when it is polled, nothing is known about when it completes.
pub struct UserFut<T>(&'static str, std::marker::PhantomData<fn() -> T>, Tok);
/// something with a destructor
pub struct Tok(u64);
impl Drop for Tok { fn drop(&mut self) { prim_ev("drop_tok", self) } }
impl<T> UserFut<T> { pub fn new(s: &'static str) -> Self { UserFut(s, std::marker::PhantomData, prim_any()) } }
impl<T> Unpin for UserFut<T> {}
impl<T> Future for UserFut<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<T> { prim_user_poll(self.0, cx) }
}

pub struct W(u64);
pub struct Msg(u64);
pub struct Ret(u64);
pub struct Stp(u64);
pub struct Bc(u64);
impl Drop for W { fn drop(&mut self) { prim_ev("drop_actor", self) } }
impl Drop for Msg { fn drop(&mut self) { prim_ev("drop_msg", self) } }
impl Drop for Ret { fn drop(&mut self) { prim_ev("drop_ret", self) } }
impl Drop for Bc { fn drop(&mut self) { prim_ev("drop_bc", self) } }
impl Clone for Bc { fn clone(&self) -> Bc { prim_ev("clone_src", self); let b = prim_any(); prim_ev("clone_bc", &b); b } }

impl Actor for W {
    type Stop = Stp;
    async fn started(&mut self, mb: &Mailbox<Self>) -> Result<(), Stp> {
        prim_ev("started", self);
        let r = UserFut::<Result<(), Stp>>::new("started").await;
        prim_ev(if r.is_ok() { "started_ok" } else { "started_err" }, &r);
        r
    }
    async fn stopped(self) -> Stp {
        prim_ev("stopped", &self);
        let r = UserFut::<Stp>::new("stopped").await;
        prim_ev("stop_value", &r);
        r
    }
}
impl Handler<Msg> for W {
    type Return = Ret;
    async fn handle(&mut self, m: Msg, c: &mut Context<Self>) -> Ret {
        prim_ev("handle_act", self);
        prim_ev("handle_ctx", c);
        prim_ev("handle", &m);
        while prim_any::<bool>() { c.stop_self(); prim_ev("stop_self", &m); }
        let r = UserFut::<Ret>::new("handle").await;
        prim_ev("handled", &r);
        r
    }
}
impl Handler<Bc> for W {
    type Return = ();
    async fn handle(&mut self, m: Bc, c: &mut Context<Self>) {
        prim_ev("handle_act", self);
        prim_ev("handle_ctx", c);
        prim_ev("handle_bc", &m);
        UserFut::<()>::new("handle").await;
        if prim_any::<bool>() { c.stop_self(); prim_ev("stop_self", &m); }
        prim_ev("handled_bc", &m);
    }
}

// ------------------------------------------------------------------ entries
fn unk_of<F>(_f: impl FnOnce() -> F) -> F { prim_any() }
fn poll1<F: Future + Unpin>(f: &mut F, cx: &mut Cx<'_>) -> Poll<F::Output> { Pin::new(f).poll(cx) }

// --- sending: creation + first poll, any later poll, cancellation
pub fn h_send_first(addr: &Address<W>, m: Msg, cx: &mut Cx<'_>) {
    let mut f = addr.send(m);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}
pub fn h_send_again(addr: &Address<W>, m: Msg, cx: &mut Cx<'_>) {
    let mut f = unk_of(|| addr.send(m));
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}
pub fn h_send_drop(addr: &Address<W>, m: Msg) { drop(unk_of(|| addr.send(m))); }
pub fn h_send_detached_first(addr: &Address<W>, m: Msg, cx: &mut Cx<'_>) {
    let mut f = addr.send(m).detach();
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}
pub fn h_send_detached_again(addr: &Address<W>, m: Msg, cx: &mut Cx<'_>) {
    let mut f = unk_of(|| addr.send(m).detach());
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}
pub fn h_bcast_first(addr: &Address<W>, m: Bc, cx: &mut Cx<'_>) {
    let mut f = addr.broadcast(m);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}
pub fn h_bcast_again(addr: &Address<W>, m: Bc, cx: &mut Cx<'_>) {
    let mut f = unk_of(|| addr.broadcast(m));
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}
pub fn h_bcast_drop(addr: &Address<W>, m: Bc) { drop(unk_of(|| addr.broadcast(m))); }
pub fn h_chsend_first(ch: &MessageChannel<Msg, Ret>, addr: Address<W>, m: Msg, cx: &mut Cx<'_>) {
    let ch = MessageChannel::new(addr);
    let mut f = ch.send(m);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}

// --- receiving
pub fn h_recv_first(mb: &Mailbox<W>, cx: &mut Cx<'_>) {
    let mut f = mb.next();
    let r = poll1(&mut f, cx);
    prim_ev("received", &r);
    std::mem::forget((r, f));
}
pub fn h_recv_again(mb: &Mailbox<W>, cx: &mut Cx<'_>) {
    let mut f = unk_of(|| mb.next());
    let r = poll1(&mut f, cx);
    prim_ev("received", &r);
    std::mem::forget((r, f));
}
pub fn h_recv_drop(mb: &Mailbox<W>) { drop(unk_of(|| mb.next())); }

// --- reference counting
pub fn h_addr_drop(a: Address<W>) { drop(a) }
pub fn h_waddr_drop(a: WeakAddress<W>) { drop(a) }
pub fn h_eaddr_drop(a: Address<W, Either>) { drop(a) }
pub fn h_mailbox_drop(m: Mailbox<W>) { drop(m) }
pub fn h_new_unbounded() -> (Address<W>, Mailbox<W>) { Mailbox::unbounded() }
pub fn h_new_bounded(n: usize) -> (Address<W>, Mailbox<W>) { Mailbox::bounded(n) }
pub fn h_addr_clone(a: &Address<W>) -> Address<W> { a.clone() }
pub fn h_waddr_clone(a: &WeakAddress<W>) -> WeakAddress<W> { a.clone() }
pub fn h_eaddr_clone(a: &Address<W, Either>) -> Address<W, Either> { a.clone() }
pub fn h_addr_downgrade(a: &Address<W>) -> WeakAddress<W> { a.downgrade() }
pub fn h_eaddr_downgrade(a: &Address<W, Either>) -> WeakAddress<W> { a.downgrade() }
pub fn h_addr_either(a: &Address<W>) -> Address<W, Either> { a.as_either() }
pub fn h_waddr_either(a: &WeakAddress<W>) -> Address<W, Either> { a.as_either() }
pub fn h_eaddr_either(a: &Address<W, Either>) -> Address<W, Either> { a.as_either() }
pub fn h_waddr_upgrade(a: &WeakAddress<W>) -> Option<Address<W>> { a.try_upgrade() }
pub fn h_mailbox_clone(m: &Mailbox<W>) -> Mailbox<W> { m.clone() }
pub fn h_mailbox_address(m: &Mailbox<W>) -> WeakAddress<W> { m.address() }
pub fn h_mailbox_next(m: &Mailbox<W>) -> impl Future { m.next() }

// --- queries
pub fn h_len(a: &Address<W>) -> usize { a.len() }
pub fn h_is_empty(a: &Address<W>) -> bool { a.is_empty() }
pub fn h_capacity(a: &Address<W>) -> Option<usize> { a.capacity() }
pub fn h_is_connected(a: &Address<W>) -> bool { a.is_connected() }
pub fn h_wis_connected(a: &WeakAddress<W>) -> bool { a.is_connected() }

// --- identity
pub fn h_same_actor(a: &Address<W, Either>, b: &Address<W, Either>) -> bool { a.same_actor(b) }
pub fn h_eq(a: &Address<W, Either>, b: &Address<W, Either>) -> bool { a == b }
pub fn h_partial_cmp(a: &Address<W, Either>, b: &Address<W, Either>) -> Option<std::cmp::Ordering> { a.partial_cmp(b) }
pub fn h_cmp(a: &Address<W, Either>, b: &Address<W, Either>) -> std::cmp::Ordering { a.cmp(b) }
pub fn h_eq_sw(a: &Address<W>, b: &WeakAddress<W>) -> bool { a == b }
pub struct Hs;
impl Hasher for Hs {
    fn finish(&self) -> u64 { prim_any() }
    fn write(&mut self, b: &[u8]) { prim_ev("hash_bytes", b) }
    fn write_usize(&mut self, x: usize) { prim_ev("hash", &x) }
    fn write_u8(&mut self, x: u8) { prim_ev("hash", &x) }
    fn write_u16(&mut self, x: u16) { prim_ev("hash", &x) }
    fn write_u32(&mut self, x: u32) { prim_ev("hash", &x) }
    fn write_u64(&mut self, x: u64) { prim_ev("hash", &x) }
    fn write_u128(&mut self, x: u128) { prim_ev("hash", &x) }
    fn write_i8(&mut self, x: i8) { prim_ev("hash", &x) }
    fn write_i16(&mut self, x: i16) { prim_ev("hash", &x) }
    fn write_i32(&mut self, x: i32) { prim_ev("hash", &x) }
    fn write_i64(&mut self, x: i64) { prim_ev("hash", &x) }
    fn write_isize(&mut self, x: isize) { prim_ev("hash", &x) }
}
pub fn h_hash(a: &Address<W, Either>) { a.hash(&mut Hs) }

// --- message channels
type Ch<Rc> = MessageChannel<Msg, Ret, Rc>;
pub fn h_ch_same_actor(a: Address<W, Either>, b: Address<W, Either>) -> bool { let r = Ch::new(a).same_actor(&Ch::new(b)); r }
pub fn h_ch_eq(a: Address<W, Either>, b: Address<W, Either>) -> bool { Ch::new(a) == Ch::new(b) }
pub fn h_ch_hash(a: Address<W, Either>) { Ch::new(a).hash(&mut Hs) }
pub fn h_ch_len(a: Address<W>) -> usize { let c = Ch::new(a); let r = c.len(); std::mem::forget(c); r }
pub fn h_ch_is_empty(a: Address<W>) -> bool { let c = Ch::new(a); let r = c.is_empty(); std::mem::forget(c); r }
pub fn h_ch_capacity(a: Address<W>) -> Option<usize> { let c = Ch::new(a); let r = c.capacity(); std::mem::forget(c); r }
pub fn h_ch_is_connected(a: Address<W>) -> bool { let c = Ch::new(a); let r = c.is_connected(); std::mem::forget(c); r }
pub fn h_ch_join(a: Address<W>) -> xtra::address::ActorJoinHandle { let c = Ch::new(a); let r = c.join(); std::mem::forget(c); r }
pub fn h_ch_new(a: Address<W>) -> Ch<Strong> { Ch::new(a) }
pub fn h_ch_drop(a: Address<W>) { drop(Ch::new(a)) }
pub fn h_ch_clone(a: Address<W>) -> (Ch<Strong>, Ch<Strong>) { let c = Ch::new(a); let d = c.clone(); (c, d) }
pub fn h_ch_wclone(a: WeakAddress<W>) -> (Ch<Weak>, Ch<Weak>) { let c = Ch::new(a); let d = c.clone(); (c, d) }
pub fn h_ch_downgrade(a: Address<W>) -> (Ch<Strong>, Ch<Weak>) { let c = Ch::new(a); let d = c.downgrade(); (c, d) }
pub fn h_ch_edowngrade(a: Address<W, Either>) -> (Ch<Either>, Ch<Weak>) { let c = Ch::new(a); let d = c.downgrade(); (c, d) }
pub fn h_ch_either(a: Address<W>) -> (Ch<Strong>, Ch<Either>) { let c = Ch::new(a); let d = c.as_either(); (c, d) }
pub fn h_ch_weither(a: WeakAddress<W>) -> (Ch<Weak>, Ch<Either>) { let c = Ch::new(a); let d = c.as_either(); (c, d) }

// --- what a pending send holds
pub fn h_send_keep(a: Address<W>, m: Msg) { let f = a.send(m); std::mem::forget(f); std::mem::forget(a); }
pub fn h_wsend_keep(a: WeakAddress<W>, m: Msg) { let f = a.send(m); std::mem::forget(f); std::mem::forget(a); }
pub fn h_esend_keep(a: Address<W, Either>, m: Msg) { let f = a.send(m); std::mem::forget(f); std::mem::forget(a); }
pub fn h_chsend_keep(a: Address<W>, m: Msg) { let c = Ch::new(a); let f = c.send(m); std::mem::forget(f); std::mem::forget(c); }
pub fn h_wchsend_keep(a: WeakAddress<W>, m: Msg) { let c = Ch::new(a); let f = c.send(m); std::mem::forget(f); std::mem::forget(c); }
pub fn h_echsend_keep(a: Address<W, Either>, m: Msg) { let c = Ch::new(a); let f = c.send(m); std::mem::forget(f); std::mem::forget(c); }

// --- priorities
pub fn h_send_prio(addr: &Address<W>, m: Msg, p: u32, cx: &mut Cx<'_>) {
    let mut f = addr.send(m).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}
pub fn h_bcast_prio(addr: &Address<W>, m: Bc, p: u32, cx: &mut Cx<'_>) {
    let mut f = addr.broadcast(m).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}
pub fn h_chsend_prio(addr: Address<W>, m: Msg, p: u32, cx: &mut Cx<'_>) {
    let ch = Ch::new(addr);
    let mut f = ch.send(m).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}

// --- liveness of actors
pub fn h_join_new(a: &WeakAddress<W>) -> xtra::address::ActorJoinHandle { a.join() }
pub fn h_join_poll(j: &mut xtra::address::ActorJoinHandle, cx: &mut Cx<'_>) { let r = Pin::new(j).poll(cx); prim_ev("result", &r); }
pub fn h_scoped_new(a: &WeakAddress<W>, f: UserFut<Ret>) -> xtra::scoped_task::ScopedTask<UserFut<Ret>> { xtra::scoped(a, f) }
pub fn h_scoped_poll(t: &mut xtra::scoped_task::ScopedTask<UserFut<Ret>>, cx: &mut Cx<'_>) {
    let r = unsafe { Pin::new_unchecked(t) }.poll(cx);
    prim_ev("result", &r);
    std::mem::forget(r);
}
pub fn h_stop_all(c: &Context<W>) { c.stop_all() }
pub fn h_stop_self(c: &mut Context<W>) { c.stop_self() }

// --- event loop
fn drive<F: Future>(f: F, cx: &mut Cx<'_>) -> F::Output {
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(cx) { return x; }
        prim_ev("suspended", &());
    }
}
pub fn h_run(mb: Mailbox<W>, w: W, cx: &mut Cx<'_>) -> Stp { drive(xtra::run(mb, w), cx) }
fn out_of<F: Future>(_f: impl FnOnce() -> F) -> F::Output { prim_any() }
pub fn h_dispatch(mb: &Mailbox<W>, w: &mut W, cx: &mut Cx<'_>) -> ControlFlow<()> {
    let m = out_of(|| mb.next());
    prim_ev("message", &m);
    drive(m.dispatch_to(w), cx)
}
#[cfg(feature = "instr")]
pub fn h_dispatch_span(mb: &Mailbox<W>, w: &mut W, cx: &mut Cx<'_>) -> ControlFlow<()> {
    let m = out_of(|| mb.next());
    prim_ev("message", &m);
    let mut f = m.dispatch_to(w);
    let _ = f.span();
    drive(f, cx)
}
#[cfg(feature = "instr")]
pub fn h_dispatch_span_later(mb: &Mailbox<W>, w: &mut W, cx: &mut Cx<'_>) -> ControlFlow<()> {
    let m = out_of(|| mb.next());
    prim_ev("message", &m);
    let mut f = m.dispatch_to(w);
    if let Poll::Ready(x) = poll1(&mut f, cx) { return x; }
    prim_ev("suspended", &());
    let _ = f.span();
    drive(f, cx)
}
pub fn h_yield_once(mb: &Mailbox<W>, w: &mut W, cx: &mut Cx<'_>) -> ControlFlow<()> { drive(xtra::yield_once(mb, w), cx) }
pub fn h_select(mb: &Mailbox<W>, w: &mut W, f: UserFut<Ret>, cx: &mut Cx<'_>) -> futures_util::future::Either<Ret, UserFut<Ret>> {
    drive(xtra::select(mb, w, f), cx)
}
pub fn h_join(mb: &Mailbox<W>, w: &mut W, f: UserFut<Ret>, cx: &mut Cx<'_>) -> Ret { drive(xtra::join(mb, w, f), cx) }

// an actor that does not override `started`
pub struct D(u64);
impl Actor for D {
    type Stop = Stp;
    async fn stopped(self) -> Stp {
        prim_ev("stopped", &self);
        let r = UserFut::<Stp>::new("stopped").await;
        prim_ev("stop_value", &r);
        r
    }
}
impl Handler<Msg> for D {
    type Return = Ret;
    async fn handle(&mut self, m: Msg, c: &mut Context<Self>) -> Ret {
        prim_ev("handle_act", self);
        prim_ev("handle_ctx", c);
        prim_ev("handle", &m);
        if prim_any::<bool>() { c.stop_self(); prim_ev("stop_self", &m); }
        let r = UserFut::<Ret>::new("handle").await;
        prim_ev("handled", &r);
        r
    }
}
pub fn h_send_default_actor(addr: &Address<D>, m: Msg, cx: &mut Cx<'_>) {
    let mut f = addr.send(m);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    std::mem::forget(f);
}
pub fn h_run_default(mb: Mailbox<D>, w: D, cx: &mut Cx<'_>) -> Stp { drive(xtra::run(mb, w), cx) }

// ------------------------------------------------------------------ whole life of an operation
pub fn h_send_poll_drop(addr: &Address<W>, m: Msg, cx: &mut Cx<'_>) {
    let mut f = addr.send(m);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    drop(f);
    prim_ev("after", &r);
}
pub fn h_send_new_drop(addr: &Address<W>, m: Msg) { drop(addr.send(m)); }
pub fn h_wsend_poll_drop(addr: &WeakAddress<W>, m: Msg, cx: &mut Cx<'_>) {
    let mut f = addr.send(m);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    drop(f);
    prim_ev("after", &r);
}
pub fn h_esend_poll_drop(addr: &Address<W, Either>, m: Msg, cx: &mut Cx<'_>) {
    let mut f = addr.send(m);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    drop(f);
    prim_ev("after", &r);
}
pub fn h_detached_poll_drop(addr: &Address<W>, m: Msg, cx: &mut Cx<'_>) {
    let mut f = addr.send(m).detach();
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    drop(f);
    prim_ev("after", &r);
}
pub fn h_bcast_poll_drop(addr: &Address<W>, m: Bc, cx: &mut Cx<'_>) {
    let mut f = addr.broadcast(m);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    drop(f);
    prim_ev("after", &r);
}
pub fn h_chsend_poll_drop(addr: Address<W>, m: Msg, cx: &mut Cx<'_>) {
    let ch = Ch::new(addr);
    let mut f = ch.send(m);
    let r = poll1(&mut f, cx);
    prim_ev("result", &r);
    drop(f);
    prim_ev("after", &r);
    std::mem::forget(ch);
}
pub fn h_recv_poll_drop(mb: &Mailbox<W>, cx: &mut Cx<'_>) {
    let mut f = mb.next();
    let r = poll1(&mut f, cx);
    prim_ev("received", &r);
    drop(f);
    prim_ev("after", &r);
    std::mem::forget(r);
}
pub fn h_recv_new_drop(mb: &Mailbox<W>) { drop(mb.next()); }
pub fn h_message_drop(mb: &Mailbox<W>, w: &mut W) {
    let m = out_of(|| mb.next());
    drop(m)
}
pub fn h_dispatch_drop(mb: &Mailbox<W>, w: &mut W, cx: &mut Cx<'_>) {
    let m = out_of(|| mb.next());
    let mut f = m.dispatch_to(w);
    let r = poll1(&mut f, cx);
    prim_ev("dispatched", &r);
    drop(f);
    prim_ev("after", &r);
}
pub fn h_recv_fused(mb: &Mailbox<W>, cx: &mut Cx<'_>) -> bool {
    use futures_util::future::FusedFuture;
    let mut f = mb.next();
    let before = f.is_terminated();
    prim_ev("terminated_before", &before);
    let r = poll1(&mut f, cx);
    prim_ev("received", &r);
    let t = f.is_terminated();
    prim_ev("terminated", &t);
    std::mem::forget((r, f));
    t
}
// --- two operations through the same address
pub fn h_send_two(addr: &Address<W>, m: Msg, m2: Msg, p: u32, q: u32, cx: &mut Cx<'_>) {
    let mut f = addr.send(m).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = addr.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g));
}
pub fn h_chsend_two(addr: Address<W>, m: Msg, m2: Msg, p: u32, q: u32, cx: &mut Cx<'_>) {
    let ch = Ch::new(addr);
    let mut f = ch.send(m).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = ch.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g, ch));
}
pub fn h_bcast_two(addr: &Address<W>, m: Bc, m2: Bc, p: u32, q: u32, cx: &mut Cx<'_>) {
    let mut f = addr.broadcast(m).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = addr.broadcast(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g));
}
// the same with the priority given (or left out) in different ways: a message asked for with p, then one with q
pub fn h_prio_default(addr: &Address<W>, m: Msg, m2: Msg, q: u32, cx: &mut Cx<'_>) {
    let mut f = addr.send(m);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = addr.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g));
}
pub fn h_prio_bdefault(addr: &Address<W>, m: Bc, m2: Bc, q: u32, cx: &mut Cx<'_>) {
    let mut f = addr.broadcast(m);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = addr.broadcast(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g));
}
pub fn h_prio_chdefault(addr: Address<W>, m: Msg, m2: Msg, q: u32, cx: &mut Cx<'_>) {
    let ch = Ch::new(addr);
    let mut f = ch.send(m);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = ch.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g, ch));
}
pub fn h_prio_mixed(addr: Address<W>, m: Msg, m2: Msg, p: u32, q: u32, cx: &mut Cx<'_>) {
    let mut f = addr.send(m).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let ch = Ch::new(addr);
    let mut g = ch.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g, ch));
}
pub fn h_prio_detach(addr: &Address<W>, m: Msg, m2: Msg, p: u32, q: u32, cx: &mut Cx<'_>) {
    let mut f = addr.send(m).priority(p).detach();
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = addr.send(m2).detach().priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g));
}
pub fn h_prio_again(addr: &Address<W>, m: Msg, m2: Msg, p: u32, q: u32, x: u32, cx: &mut Cx<'_>) {
    let mut f = addr.send(m).priority(x).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = addr.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g));
}
pub fn h_prio_bagain(addr: &Address<W>, m: Bc, m2: Bc, p: u32, q: u32, x: u32, cx: &mut Cx<'_>) {
    let mut f = addr.broadcast(m).priority(x).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = addr.broadcast(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g));
}
pub fn h_prio_chagain(addr: Address<W>, m: Msg, m2: Msg, p: u32, q: u32, x: u32, cx: &mut Cx<'_>) {
    let ch = Ch::new(addr);
    let mut f = ch.send(m).priority(x).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = ch.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g, ch));
}
pub fn h_prio_weak(addr: &WeakAddress<W>, b: &Address<W, Either>, m: Msg, m2: Msg, p: u32, q: u32, cx: &mut Cx<'_>) {
    let mut f = addr.send(m).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    let mut g = addr.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g));
}
pub fn h_bcast_stop(addr: &Address<W>, m: Bc, p: u32, c: &Context<W>, cx: &mut Cx<'_>) {
    let mut f = addr.broadcast(m).priority(p);
    let r = poll1(&mut f, cx);
    prim_ev("first", &r);
    c.stop_all();
    prim_ev("second", &r);
    std::mem::forget(f);
}
pub fn h_set_capacity(n: usize) -> Option<usize> {
    let (a, m) = Mailbox::<W>::bounded(n);
    let r = a.capacity();
    std::mem::forget((a, m));
    r
}
pub fn h_set_unbounded() -> Option<usize> {
    let (a, m) = Mailbox::<W>::unbounded();
    let r = a.capacity();
    std::mem::forget((a, m));
    r
}

// --- identity: everything that compares two addresses, of the same kind or not
fn id2<P: RefCounter, Q: RefCounter>(a: &Address<W, P>, b: &Address<W, Q>) {
    prim_ev("same", &a.same_actor(b));
    prim_ev("same", &b.same_actor(a));
    prim_ev("eq", &(a == b));
    prim_ev("eq", &(b == a));
    prim_ev("ne", &(a != b));
    prim_ev("pcmp", &a.partial_cmp(b));
    prim_ev("pcmpr", &b.partial_cmp(a));
    prim_ev("lt", &(a < b));
    prim_ev("le", &(a <= b));
    prim_ev("gt", &(a > b));
    prim_ev("ge", &(a >= b));
    prim_ev("hash_a", &());
    a.hash(&mut Hs);
    prim_ev("hash_b", &());
    b.hash(&mut Hs);
    prim_ev("hash_end", &());
}
fn id1<P: RefCounter>(a: &Address<W, P>, b: &Address<W, P>) {
    prim_ev("cmp", &a.cmp(b));
    prim_ev("cmpr", &b.cmp(a));
    id2(a, b);
}
pub fn h_id_ee(a: &Address<W, Either>, b: &Address<W, Either>) { id1(a, b) }
pub fn h_id_ss(a: &Address<W>, b: &Address<W>) { id1(a, b) }
pub fn h_id_ww(a: &WeakAddress<W>, b: &WeakAddress<W>) { id1(a, b) }
pub fn h_id_sw(a: &Address<W>, b: &WeakAddress<W>) { id2(a, b) }
pub fn h_id_se(a: &Address<W>, b: &Address<W, Either>) { id2(a, b) }
pub fn h_id_we(a: &WeakAddress<W>, b: &Address<W, Either>) { id2(a, b) }
fn idc<P: RefCounter + Into<Either>, Q: RefCounter + Into<Either>>(a: &Ch<P>, b: &Ch<Q>) {
    prim_ev("same", &a.same_actor(b));
    prim_ev("same", &b.same_actor(a));
    prim_ev("hash_a", &());
    a.hash(&mut Hs);
    prim_ev("hash_b", &());
    b.hash(&mut Hs);
    prim_ev("hash_end", &());
}
fn idc1<P: RefCounter + Into<Either>>(x: Address<W, P>, y: Address<W, P>) {
    let (a, b) = (Ch::new(x), Ch::new(y));
    prim_ev("eq", &(a == b));
    prim_ev("eq", &(b == a));
    prim_ev("ne", &(a != b));
    idc(&a, &b);
    std::mem::forget((a, b));
}
pub fn h_idc_ee(a: Address<W, Either>, b: Address<W, Either>) { idc1(a, b) }
pub fn h_idc_ss(a: Address<W>, b: Address<W>) { idc1(a, b) }
pub fn h_idc_ww(a: WeakAddress<W>, b: WeakAddress<W>) { idc1(a, b) }
pub fn h_idc_sw(a: Address<W>, b: WeakAddress<W>) { let (a, b) = (Ch::new(a), Ch::new(b)); idc(&a, &b); std::mem::forget((a, b)) }
pub fn h_idc_se(a: Address<W>, b: Address<W, Either>) { let (a, b) = (Ch::new(a), Ch::new(b)); idc(&a, &b); std::mem::forget((a, b)) }
pub fn h_idc_we(a: WeakAddress<W>, b: Address<W, Either>) { let (a, b) = (Ch::new(a), Ch::new(b)); idc(&a, &b); std::mem::forget((a, b)) }
fn id3<P: RefCounter>(a: &Address<W, P>, b: &Address<W, P>, c: &Address<W, P>) {
    prim_ev("ab", &a.cmp(b));
    prim_ev("bc", &b.cmp(c));
    prim_ev("ac", &a.cmp(c));
}
pub fn h_id3_e(a: &Address<W, Either>, b: &Address<W, Either>, c: &Address<W, Either>) { id3(a, b, c) }

// --- queries through every kind of handle
pub fn h_wlen(a: &WeakAddress<W>) -> usize { a.len() }
pub fn h_wis_empty(a: &WeakAddress<W>) -> bool { a.is_empty() }
pub fn h_wcapacity(a: &WeakAddress<W>) -> Option<usize> { a.capacity() }
pub fn h_elen(a: &Address<W, Either>) -> usize { a.len() }
pub fn h_eis_empty(a: &Address<W, Either>) -> bool { a.is_empty() }
pub fn h_ecapacity(a: &Address<W, Either>) -> Option<usize> { a.capacity() }
pub fn h_eis_connected(a: &Address<W, Either>) -> bool { a.is_connected() }
pub fn h_ch_wlen(a: WeakAddress<W>) -> usize { let c = Ch::new(a); let r = c.len(); std::mem::forget(c); r }
pub fn h_ch_wis_empty(a: WeakAddress<W>) -> bool { let c = Ch::new(a); let r = c.is_empty(); std::mem::forget(c); r }
pub fn h_ch_wcapacity(a: WeakAddress<W>) -> Option<usize> { let c = Ch::new(a); let r = c.capacity(); std::mem::forget(c); r }
pub fn h_ch_wis_connected(a: WeakAddress<W>) -> bool { let c = Ch::new(a); let r = c.is_connected(); std::mem::forget(c); r }
pub fn h_ch_eis_connected(a: Address<W, Either>) -> bool { let c = Ch::new(a); let r = c.is_connected(); std::mem::forget(c); r }
pub fn h_ch_wjoin(a: WeakAddress<W>) -> xtra::address::ActorJoinHandle { let c = Ch::new(a); let r = c.join(); std::mem::forget(c); r }
pub fn h_sjoin_new(a: &Address<W>) -> xtra::address::ActorJoinHandle { a.join() }
pub fn h_ejoin_new(a: &Address<W, Either>) -> xtra::address::ActorJoinHandle { a.join() }
pub fn h_recv_fused_again(mb: &Mailbox<W>, cx: &mut Cx<'_>) -> bool {
    use futures_util::future::FusedFuture;
    let mut f = unk_of(|| mb.next());
    let before = f.is_terminated();
    prim_ev("terminated_before", &before);
    let r = poll1(&mut f, cx);
    prim_ev("received", &r);
    let t = f.is_terminated();
    prim_ev("terminated", &t);
    std::mem::forget((r, f));
    t
}

// --- the sink of an address
use futures_util::Sink;
pub fn h_sink_first(addr: Address<W>, m: Bc, cx: &mut Cx<'_>) {
    let mut s = Box::pin(addr.into_sink());
    let r = s.as_mut().poll_ready(cx);
    prim_ev("ready", &r);
    let t = s.as_mut().start_send(m);
    prim_ev("taken", &t);
    let r = s.as_mut().poll_flush(cx);
    prim_ev("result", &r);
    std::mem::forget(s);
}
pub fn h_sink_first_weak(addr: WeakAddress<W>, m: Bc, cx: &mut Cx<'_>) {
    let mut s = Box::pin(addr.into_sink());
    let t = s.as_mut().start_send(m);
    prim_ev("taken", &t);
    let r = s.as_mut().poll_close(cx);
    prim_ev("result", &r);
    std::mem::forget(s);
}
pub fn h_sink_again(addr: Address<W>, m: Bc, cx: &mut Cx<'_>) {
    let mut s = Box::pin(addr.into_sink());
    let t = s.as_mut().start_send(m);
    prim_ev("taken", &t);
    let r = s.as_mut().poll_flush(cx);
    prim_ev("result", &r);
    if r.is_pending() {
        let r = s.as_mut().poll_ready(cx);
        prim_ev("result", &r);
    }
    std::mem::forget(s);
}
pub fn h_sink_two(addr: Address<W>, m: Bc, m2: Bc, cx: &mut Cx<'_>) {
    let mut s = Box::pin(addr.into_sink());
    let t = s.as_mut().start_send(m);
    prim_ev("taken", &t);
    let r = s.as_mut().poll_ready(cx);
    prim_ev("result", &r);
    if let Poll::Ready(Ok(())) = r {
        let t = s.as_mut().start_send(m2);
        prim_ev("next", &t);
        let r = s.as_mut().poll_flush(cx);
        prim_ev("result", &r);
    } else {
        std::mem::forget(m2);
    }
    std::mem::forget(s);
}
pub fn h_sink_drop(addr: Address<W>) { drop(addr.into_sink::<Bc>()); }
pub fn h_sink_new(addr: Address<W>) { std::mem::forget(addr.into_sink::<Bc>()); }
pub fn h_sink_wdrop(addr: WeakAddress<W>) { drop(addr.into_sink::<Bc>()); }
pub fn h_prio_sinkdefault(addr: Address<W>, m: Bc, m2: Msg, q: u32, cx: &mut Cx<'_>) {
    let a = addr.clone();
    let mut f = Box::pin(addr.into_sink());
    let t = f.as_mut().start_send(m);
    prim_ev("taken", &t);
    let r = f.as_mut().poll_ready(cx);
    prim_ev("first", &r);
    let mut g = a.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g, a));
}
type SinkCh<Rc> = MessageChannel<Bc, (), Rc>;
pub fn h_sink_ch(addr: Address<W>, m: Bc, m2: Bc, cx: &mut Cx<'_>) {
    let mut s = Box::pin(SinkCh::new(addr).into_sink());
    let t = s.as_mut().start_send(m);
    prim_ev("taken", &t);
    let r = s.as_mut().poll_ready(cx);
    prim_ev("result", &r);
    if let Poll::Ready(Ok(())) = r {
        let t = s.as_mut().start_send(m2);
        prim_ev("next", &t);
        let r = s.as_mut().poll_close(cx);
        prim_ev("result", &r);
    } else {
        std::mem::forget(m2);
    }
    std::mem::forget(s);
}
pub fn h_sink_chdrop(addr: Address<W>) { drop(SinkCh::new(addr).into_sink()); }
pub fn h_sink_chnew(addr: Address<W>) { std::mem::forget(SinkCh::new(addr).into_sink()); }
pub fn h_sink_chwdrop(addr: WeakAddress<W>) { drop(SinkCh::new(addr).into_sink()); }
pub fn h_prio_sinkchdefault(addr: Address<W>, m: Bc, m2: Msg, q: u32, cx: &mut Cx<'_>) {
    let a = addr.clone();
    let mut f = Box::pin(SinkCh::new(addr).into_sink());
    let t = f.as_mut().start_send(m);
    prim_ev("taken", &t);
    let r = f.as_mut().poll_ready(cx);
    prim_ev("first", &r);
    let mut g = a.send(m2).priority(q);
    let s = poll1(&mut g, cx);
    prim_ev("second", &s);
    std::mem::forget((f, g, a));
}
