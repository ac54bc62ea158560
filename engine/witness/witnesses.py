"""Programs that must compile, each with a twin that must not.  `{{good||bad}}` is where the two differ; a witness without it is only required to
compile.  The bad twin must be rejected by an error at a line that differs (or, where `at` is given, at a line with that text)."""

PRE = r'''
#![allow(unused, dead_code, clippy::all)]
extern crate xtra;
use std::cell::Cell;
use std::future::Future;
use std::rc::Rc;
use std::ops::ControlFlow;
use std::marker::PhantomData;
use xtra::{Actor, Handler, Address, WeakAddress, Mailbox, Context, Error};
use xtra::message_channel::MessageChannel;
use xtra::refcount::{Strong, Weak, Either};

fn send<T: Send>(_: &T) {}
fn sync<T: Sync>(_: &T) {}
fn is_send<T: Send>() {}
fn is_sync<T: Sync>() {}
fn is_static<T: 'static>() {}
fn is_unpin<T: Unpin>() {}
fn is_clone<T: Clone>() {}

/// an actor and messages that can be sent to other threads but not shared between them
pub struct Act(Cell<u8>);
impl Actor for Act { type Stop = Cell<u8>; async fn stopped(self) -> Cell<u8> { self.0 } }
pub struct Act2;
impl Actor for Act2 { type Stop = (); async fn stopped(self) {} }
pub struct Msg(Cell<u8>);
pub struct Ret(Cell<u8>);
impl Handler<Msg> for Act { type Return = Ret; async fn handle(&mut self, m: Msg, _: &mut Context<Self>) -> Ret { Ret(m.0) } }
pub struct Unit(Cell<u8>);
impl Handler<Unit> for Act { type Return = (); async fn handle(&mut self, m: Unit, _: &mut Context<Self>) {} }
#[derive(Clone)] pub struct Bc;
impl Handler<Bc> for Act { type Return = (); async fn handle(&mut self, m: Bc, _: &mut Context<Self>) {} }
#[derive(Clone)] pub struct BcCell(Cell<u8>);
impl Handler<BcCell> for Act { type Return = (); async fn handle(&mut self, m: BcCell, _: &mut Context<Self>) {} }
pub struct NoClone;
impl Handler<NoClone> for Act { type Return = (); async fn handle(&mut self, m: NoClone, _: &mut Context<Self>) {} }
#[derive(Clone)] pub struct BcRet;
impl Handler<BcRet> for Act { type Return = u8; async fn handle(&mut self, m: BcRet, _: &mut Context<Self>) -> u8 { 0 } }
pub struct Unsent(*const u8);
impl Handler<Unsent> for Act { type Return = (); fn handle(&mut self, m: Unsent, _: &mut Context<Self>) -> impl Future<Output = ()> + Send { std::future::ready(()) } }
pub struct Borrowed<'a>(&'a u8);
impl<'a> Handler<Borrowed<'a>> for Act { type Return = (); async fn handle(&mut self, m: Borrowed<'a>, _: &mut Context<Self>) {} }
pub struct Stranger;
impl Handler<Msg> for Act2 { type Return = Ret; async fn handle(&mut self, m: Msg, _: &mut Context<Self>) -> Ret { Ret(m.0) } }
impl Handler<Bc> for Act2 { type Return = (); async fn handle(&mut self, m: Bc, _: &mut Context<Self>) {} }
fn msg() -> Msg { Msg(Cell::new(1)) }
fn unit() -> Unit { Unit(Cell::new(1)) }
fn any<T>() -> T { loop {} }
fn out<F: Future>(_: F) -> F::Output { loop {} }
'''

W = []


def w(name, code, why, pre=True):
    W.append((name, code, why, pre))


# ---- a message can only be sent to an actor that handles it
w("send-handled", "fn f(a: &Address<Act>) { let _ = a.send({{msg()||Stranger}}); }", "a message that the actor does not handle can be sent to it")
w("send-handled-weak", "fn f(a: &WeakAddress<Act>) { let _ = a.send({{msg()||Stranger}}); }", "a message that the actor does not handle can be sent to it")
w("send-handled-either", "fn f(a: &Address<Act, Either>) { let _ = a.send({{msg()||Stranger}}); }", "a message that the actor does not handle can be sent to it")
w("broadcast-handled", "fn f(a: &Address<Act>) { let _ = a.broadcast({{Bc||()}}); }", "a message that the actor does not handle can be broadcast to it")
w("channel-handled", "fn f(a: Address<Act>) -> MessageChannel<{{Msg, Ret||Stranger, ()}}> { MessageChannel::new(a) }",
  "a message channel can be made for a message that the actor does not handle")
w("channel-from-handled", "fn f(a: Address<Act>) -> MessageChannel<{{Msg, Ret||Stranger, ()}}> { a.into() }",
  "a message channel can be made for a message that the actor does not handle")
w("channel-return", "fn f(a: Address<Act>) -> MessageChannel<Msg, {{Ret||u8}}> { MessageChannel::new(a) }",
  "a message channel can be made with another result than the handler returns")
w("channel-strength", "fn f(a: WeakAddress<Act>) -> MessageChannel<Msg, Ret, {{Weak||Strong}}> { MessageChannel::new(a) }",
  "a strong message channel can be made of a weak address")
w("channel-send-type", "fn f(c: MessageChannel<Msg, Ret>) { let _ = c.send({{msg()||unit()}}); }",
  "another message than the channel was made for can be sent through it")
w("send-is-send", "fn f(a: &Address<Act>) { let _ = a.send({{unit()||Unsent(std::ptr::null())}}); }",
  "a message that must not leave its thread can be sent to an actor")
w("send-is-static", "fn f<'a>(a: &Address<Act>, x: &'a u8, y: &'static u8) { let _ = a.send(Borrowed({{y||x}})); }",
  "a message that borrows from its sender can be sent to an actor")
w("channel-is-send", "fn f(a: Address<Act>) -> MessageChannel<{{Unit||Unsent}}, ()> { MessageChannel::new(a) }",
  "a message that must not leave its thread can be sent to an actor")
w("return-type", "async fn f(a: Address<Act>) { let r: Result<{{Ret||()}}, Error> = a.send(msg()).await; }",
  "a send can resolve to another type than the handler returns")
w("return-is-send", "pub struct M1; impl Handler<M1> for Act { type Return = {{Cell<u8>||Rc<u8>}}; async fn handle(&mut self, _: M1, _: &mut Context<Self>) -> Self::Return { any() } }",
  "a handler can return a value that must not leave its thread")

# ---- a broadcast needs a cloneable message without a result
w("broadcast-clone", "fn f(a: &Address<Act>) { let _ = a.broadcast({{Bc||NoClone}}); }", "a message that cannot be cloned can be broadcast")
w("broadcast-unit", "fn f(a: &Address<Act>) { let _ = a.broadcast({{Bc||BcRet}}); }", "a message with a result can be broadcast")
w("broadcast-sync", "fn f(a: &Address<Act>) { let _ = a.broadcast({{Bc||BcCell(Cell::new(0))}}); }",
  "a message that several threads must not share can be broadcast")
w("broadcast-clone-weak", "fn f(a: &WeakAddress<Act>) { let _ = a.broadcast({{Bc||NoClone}}); }", "a message that cannot be cloned can be broadcast")
w("broadcast-priority", "fn f(a: &Address<Act>) -> impl Future<Output = Result<(), Error>> + Send { a.broadcast(Bc).priority({{3||-3}}) }",
  "a priority may be negative")
w("sink-unit", "fn f(a: Address<Act>) { let _ = a.into_sink::<{{Unit||Msg}}>(); }", "a message with a result can be sent through a sink, which drops it")
w("sink-unit-channel", "fn f(c: MessageChannel<Unit, {{()||u8}}>) { let _ = c.into_sink(); }", "a message with a result can be sent through a sink, which drops it")

# ---- sends that were detached cannot be detached again
w("detach-once", "fn f(a: &Address<Act>) { let _ = a.send(msg()).detach(){{||.detach()}}; }", "a send can be detached twice")
w("detach-once-channel", "fn f(c: &MessageChannel<Msg, Ret>) { let _ = c.send(msg()).detach(){{||.detach()}}; }", "a send can be detached twice")
w("detach-broadcast", "fn f(a: &Address<Act>) { let _ = a.broadcast(Bc){{||.detach()}}; }", "a broadcast, which has no result, can be detached")
w("detach-priority-both", "fn f(a: &Address<Act>) { let _ = a.send(msg()).detach().priority(1); let _ = a.send(msg()).priority(1).detach(); }",
  "a detached send cannot be given a priority")
w("detached-type", "async fn f(a: Address<Act>) { let r: {{xtra::Receiver<Ret>||Ret}} = a.send(msg()).detach().await.unwrap(); }",
  "a detached send resolves to the handler's result")
w("detached-result", "async fn f(a: Address<Act>) { let r: Result<{{Ret||u8}}, Error> = a.send(msg()).detach().await.unwrap().await; }",
  "the receiver of a detached send yields another type")
w("detach-consumes", "fn f(a: &Address<Act>) { let s = a.send(msg()); {{let d = s.detach();||let d = s.detach(); let t = s.priority(1);}} }",
  "a send can still be used after having been detached")
w("send-once", "fn f(a: &Address<Act>) { let m = msg(); let s = a.send(m); {{||let t = a.send(m);}} }", "one message can be sent twice")

# ---- addresses can be sent to other threads exactly as messages can
w("address-threads", '''fn f() { is_send::<Address<Act>>(); is_sync::<Address<Act>>(); is_send::<WeakAddress<Act>>(); is_sync::<WeakAddress<Act>>();
    is_send::<Address<Act, Either>>(); is_sync::<Address<Act, Either>>(); }''', "an address cannot be sent to another thread")
w("channel-threads", '''fn f() { is_send::<MessageChannel<Msg, Ret>>(); is_sync::<MessageChannel<Msg, Ret>>(); is_send::<MessageChannel<Msg, Ret, Weak>>();
    is_sync::<MessageChannel<Msg, Ret, Weak>>(); is_send::<MessageChannel<Msg, Ret, Either>>(); }''', "a message channel cannot be sent to another thread")
w("mailbox-threads", "fn f() { is_send::<Mailbox<Act>>(); is_sync::<Mailbox<Act>>(); }", "a mailbox cannot be sent to another thread")
w("futures-threads", '''fn f(a: &Address<Act>, w: &WeakAddress<Act>, e: &Address<Act, Either>, c: &MessageChannel<Msg, Ret>, m: &Mailbox<Act>) {
    send(&a.send(msg())); send(&w.send(msg())); send(&e.send(msg())); send(&c.send(msg())); send(&a.send(msg()).detach()); send(&c.send(msg()).detach());
    send(&a.broadcast(Bc)); send(&w.broadcast(Bc)); send(&a.join()); send(&c.join()); send(&m.next()); send(&a.send(msg()).priority(1));
    send(&xtra::scoped(a, async { 1 })); send(&xtra::run(any::<Mailbox<Act>>(), any::<Act>())); }
    async fn g(a: Address<Act>) -> Ret { let r = a.send(msg()).detach().await.unwrap(); send(&r); r.await.unwrap() }
    fn h(a: Address<Act>) { send(&g(a)); }
    fn i(m: &Mailbox<Act>, x: &mut Act) { send(&xtra::yield_once(m, x)); send(&xtra::join(m, x, async { 1 })); send(&xtra::select(m, any::<&mut Act>(), Box::pin(async { 1 }))); }
    fn j(m: &Mailbox<Act>, x: &mut Act) { let m = out(m.next()); send(&m); send(&m.dispatch_to(x)); }''', "one of the library's futures cannot be sent to another thread")
w("futures-static", '''fn f(a: &Address<Act>, c: &MessageChannel<Msg, Ret>, m: &Mailbox<Act>) -> Box<dyn std::any::Any> {
    if any() { return Box::new(a.send(msg())); } if any() { return Box::new(c.send(msg())); } if any() { return Box::new(m.next()); }
    if any() { return Box::new(a.broadcast(Bc)); } if any() { return Box::new(c.send(msg()).detach()); }
    if any() { return Box::new(m.address()); } Box::new(a.join()) }''', "an operation's future borrows the handle it was made from")
w("futures-unpin", '''fn u<T: Unpin>(_: &T) {} fn f(a: &Address<Act>, c: &MessageChannel<Msg, Ret>, m: &Mailbox<Act>) {
    u(&a.send(msg())); u(&c.send(msg())); u(&m.next()); u(&a.join()); u(&a.broadcast(Bc)); u(&a.send(msg()).detach()); }''', "a future has to be pinned")
w("fused", '''fn t<T: futures_util::future::FusedFuture>(_: &T) {} fn f(m: &Mailbox<Act>) { t(&m.next()); }''', "the receive future does not tell whether it has terminated")

# ---- handles
w("address-traits", '''fn f(a: Address<Act>, b: WeakAddress<Act>, c: Address<Act, Either>) { is_clone::<Address<Act>>(); is_clone::<WeakAddress<Act>>();
    fn o<T: Ord + std::hash::Hash + Eq + std::fmt::Debug>() {} o::<Address<Act>>(); o::<WeakAddress<Act>>(); o::<Address<Act, Either>>();
    let _ = (a == b, a < b, b == c, a == c, a.same_actor(&b), b.same_actor(&c)); }''', "addresses cannot be compared, hashed or copied")
w("compare-actors", "fn f(a: Address<Act>, b: Address<{{Act||Act2}}>) -> bool { a == b }", "addresses of different types of actors can be compared")
w("same-actor-types", "fn f(a: Address<Act>, b: Address<{{Act||Act2}}>) -> bool { a.same_actor(&b) }", "addresses of different types of actors can be compared")
w("channel-traits", '''fn f(a: MessageChannel<Msg, Ret>, b: MessageChannel<Msg, Ret, Weak>, c: MessageChannel<Msg, Ret, Either>) {
    is_clone::<MessageChannel<Msg, Ret>>(); is_clone::<MessageChannel<Msg, Ret, Weak>>(); is_clone::<MessageChannel<Msg, Ret, Either>>();
    fn o<T: std::hash::Hash + PartialEq + std::fmt::Debug>() {} o::<MessageChannel<Msg, Ret>>(); o::<MessageChannel<Msg, Ret, Weak>>();
    let _ = (a.same_actor(&b), b.same_actor(&c)); let w: MessageChannel<Msg, Ret, Weak> = a.downgrade(); let w2: MessageChannel<Msg, Ret, Weak> = c.downgrade();
    let e: MessageChannel<Msg, Ret, Either> = w.as_either(); }''', "message channels cannot be compared, hashed or copied")
w("channel-compare", "fn f(a: MessageChannel<Msg, Ret>, b: MessageChannel<{{Msg, Ret||Unit, ()}}>) -> bool { a == b }", "channels of different messages can be compared")
w("channel-erases", "fn f(a: Address<Act>, b: Address<Act2>) -> Vec<MessageChannel<Msg, Ret>> { vec![a.into(), b.into()] }",
  "message channels to different actors have different types")
w("upgrade-weak-only", "fn f(a: {{WeakAddress<Act>||Address<Act>}}) -> Option<Address<Act>> { a.try_upgrade() }", "a strong address can be upgraded")
w("downgrade-strong-only", "fn f(a: {{Address<Act>||WeakAddress<Act>}}) -> WeakAddress<Act> { a.downgrade() }", "a weak address can be downgraded")
w("upgrade-may-fail", "fn f(a: WeakAddress<Act>) { let b: {{Option<Address<Act>>||Address<Act>}} = a.try_upgrade(); }", "upgrading a weak address cannot fail")
w("mailbox-address-weak", "fn f(m: &Mailbox<Act>) { let a: {{WeakAddress<Act>||Address<Act>}} = m.address(); }",
  "a mailbox hands out strong addresses of itself (the actor would keep itself alive)")
w("strength-either", "fn f(a: Address<Act>, b: WeakAddress<Act>) -> [Address<Act, Either>; 2] { [a.as_either(), b.as_either()] }",
  "addresses of different strength cannot be stored together")
w("foreign-refcount", "struct Own; fn f(a: Address<Act{{||, Own}}>) { let _ = a.clone(); }", "there are addresses of other strengths than the library's")

# ---- actors and mailboxes
w("actor-send", "struct A1({{Cell<u8>||Rc<u8>}}); impl Actor for A1 { type Stop = (); async fn stopped(self) {} }", "an actor can be of a type that must not leave its thread")
w("actor-static", "struct A1<'a>(&'a u8); impl Actor for A1<{{'static||'_}}> { type Stop = (); async fn stopped(self) {} }", "an actor can borrow from its creator")
w("stop-send", "struct A1; impl Actor for A1 { type Stop = {{Cell<u8>||Rc<u8>}}; async fn stopped(self) -> Self::Stop { any() } }",
  "an actor's stop value can be of a type that must not leave its thread")
w("handler-future-send", '''struct M1; impl Handler<M1> for Act { type Return = (); async fn handle(&mut self, _: M1, _: &mut Context<Self>) {
    let x = {{Cell::new(1)||Rc::new(1)}}; std::future::ready(()).await; drop(x); } }''', "a handler's future need not be able to change threads")
w("handler-context-escape", '''struct Keep(Option<{{u8||&'static mut Context<Keep>}}>); impl Actor for Keep { type Stop = (); async fn stopped(self) {} }
    struct M1; impl Handler<M1> for Keep { type Return = (); async fn handle(&mut self, _: M1, c: &mut Context<Self>) { {{self.0 = None;||self.0 = Some(c);}} } }''',
  "a handler's context can be kept after the handler is done")
w("run-mailbox-type", "fn f(m: Mailbox<{{Act||Act2}}>, a: Act) { let _ = xtra::run(m, a); }", "an actor can be run on the mailbox of another type of actor")
w("run-consumes", "fn f(m: Mailbox<Act>, a: Act) { let _ = xtra::run(m, a); {{||drop(a);}} }", "a running actor can still be used from outside")
w("run-consumes-mailbox", "fn f(m: Mailbox<Act>, a: Act) { let _ = xtra::run(m, a); {{||let _ = m.next();}} }", "the mailbox of a running actor can still be used from outside")
w("run-value", "async fn f(m: Mailbox<Act>, a: Act) { let s: {{Cell<u8>||()}} = xtra::run(m, a).await; }", "running an actor does not yield its stop value")
w("dispatch-once", "fn f(m: &Mailbox<Act>, a: &mut Act) { let m = out(m.next()); drop(m.dispatch_to(a)); {{||drop(m.dispatch_to(a));}} }", "a message can be dispatched twice")
w("dispatch-type", "fn f(m: &Mailbox<{{Act||Act2}}>, a: &mut Act) { let m = out(m.next()); let _ = m.dispatch_to(a); }", "a message can be dispatched to another type of actor")
w("dispatch-exclusive", "fn f(m: &Mailbox<Act>, a: &mut Act) { let n = out(m.next()); let m = out(m.next()); let d = m.dispatch_to(a); {{drop(d);||}} let e = n.dispatch_to(a); {{||drop(d);}} }",
  "two messages can be handled by one actor at the same time")
w("dispatch-flow", "async fn f(m: &Mailbox<Act>, a: &mut Act) { let m = out(m.next()); let c: {{ControlFlow<()>||()}} = m.dispatch_to(a).await; }", "dispatching does not tell whether to go on")
w("mailbox-pair", '''fn f() { let (a, m): (Address<Act>, Mailbox<Act>) = Mailbox::bounded(3); let (b, n): (Address<Act>, Mailbox<Act>) = Mailbox::unbounded();
    let (c, o): (Address<Act>, Mailbox<Act>) = Mailbox::bounded({{1||-1}}); }''', "a mailbox can have a negative capacity")
w("mailbox-next-shared", "fn f(m: &Mailbox<Act>) { let a = m.next(); let b = m.next(); drop((a, b)); }", "one mailbox cannot have two receives at once")
w("select-unpin", "async fn f<F: Future<Output = u8>{{ + Unpin||}}>(m: &Mailbox<Act>, a: &mut Act, x: F) { let _ = xtra::select(m, a, x).await; }",
  "select moves a future that has been pinned")
w("select-gives-back", '''async fn f<F: Future<Output = u8> + Unpin>(m: &Mailbox<Act>, a: &mut Act, x: F) -> Option<F> {
    match xtra::select(m, a, x).await { futures_util::future::Either::Left(v) => { let v: u8 = v; None } futures_util::future::Either::Right(f) => Some(f) } }''',
  "select does not give the unfinished future back")
w("select-borrowed", '''async fn f(m: &Mailbox<Act>, a: &mut Act) -> usize { let s = String::new(); let r = Rc::new(1);
    xtra::join(m, a, async { s.len() + *r }).await }''', "a joined future has to be 'static or to be able to change threads")
w("scoped-borrowed", '''async fn f(a: &Address<Act>) -> Option<usize> { let s = String::new(); let r = Rc::new(1); xtra::scoped(a, async { s.len() + *r }).await }''',
  "a scoped task has to be 'static or to be able to change threads")
w("scoped-threads", "fn f(a: &Address<Act>) { send(&xtra::scoped(a, { let x = {{Cell::new(1)||Rc::new(1)}}; async move { std::future::ready(()).await; drop(x); } })); }",
  "a scoped task that must not leave its thread can be sent to another one")
w("join-lifetime", "fn f(a: Address<Act>) -> xtra::address::ActorJoinHandle { a.join() }", "waiting for the end of an actor borrows the address")
w("error", '''fn f(e: Error) -> u8 { fn er<T: std::error::Error + Clone + Eq + Send + Sync + 'static>() {} er::<Error>();
    match e { Error::Disconnected => 1, Error::Interrupted => 2 } }''', "the error type is not a thread-safe error of the two known kinds")
w("spawn-unit", "fn f(a: {{Act2||Act}}) { let _ = xtra::spawn_tokio(a, Mailbox::unbounded()); }", "an actor whose stop value would be lost can be spawned")
w("spawn-pair", "fn f(a: Act2) -> Address<{{Act2||Act}}> { xtra::spawn_tokio(a, Mailbox::bounded(3)) }", "spawning an actor returns an address of another")
w("stop-self-exclusive", "fn f(c: {{&mut||&}} Context<Act>) { c.stop_self(); }", "a context that is only shared can stop its actor")
w("context-mailbox", "fn f(c: &Context<Act>) -> &Mailbox<Act> { c.stop_all(); c.mailbox() }", "the mailbox cannot be reached from a handler")
w("private-channel", "fn f(a: Address<Act>) { {{drop(a);||drop(a.0);}} }", "the channel behind an address can be reached from outside the library")
w("private-mailbox", "fn f(a: Mailbox<Act>) { {{drop(a);||drop(a.chan);}} }", "the channel behind a mailbox can be reached from outside the library")
w("private-priority", "fn f<F, S>(s: xtra::SendFuture<F, S>) -> F { {{any()||s.sending}} }", "the inside of a send can be reached from outside the library")


# ------------------------------------------------------------------ C25: the derived actor
DPRE = r'''
#![allow(unused, dead_code, clippy::all)]
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
fn is<T: xtra::Actor<Stop = ()>>() {}
fn stopped<T: xtra::Actor<Stop = ()>>(t: T) -> impl std::future::Future<Output = ()> + Send { t.stopped() }
fn any<T>() -> T { loop {} }
use xtra_macros::Actor;
'''
D = []


def d(name, code, why):
    D.append((name, code, why, True))


d("unit", "#[derive(Actor)] struct A; fn f() { is::<{{A||u8}}>(); }", "types are actors without being derived or implemented")
d("tuple", "#[derive(Actor)] struct A(u8, Cell<u8>); fn f() { is::<A>(); }", "a tuple struct")
d("named", "#[derive(Actor)] struct A { x: u8, y: String } fn f() { is::<A>(); }", "a struct with fields")
d("enum", "#[derive(Actor)] enum A { X, Y(u8), Z { z: String } } fn f() { is::<A>(); }", "an enum")
d("empty-enum", "#[derive(Actor)] enum A {} fn f() { is::<A>(); }", "an empty enum")
d("union", "#[derive(Actor)] union A { x: u8, y: u16 } fn f() { is::<A>(); }", "a union")
d("public", "#[derive(Actor)] pub struct A(pub u8); #[derive(Debug, Actor, Clone)] pub(crate) struct B; fn f() { is::<A>(); is::<B>(); }", "visibility and other derives")
d("attributes", "/// doc\n#[derive(Actor)] #[must_use] #[repr(C)] struct A { #[allow(dead_code)] x: u8 } fn f() { is::<A>(); }", "attributes")
d("raw-name", "#[derive(Actor)] struct r#A { r#type: u8 } fn f() { is::<r#A>(); }", "raw identifiers")
d("one-param", "#[derive(Actor)] struct A<T>(T); fn f() { is::<A<{{Cell<u8>||Rc<u8>}}>>(); }", "an actor of a parameter that must not leave its thread")
d("param-static", "#[derive(Actor)] struct A<T>(T); fn f<'a>() { is::<A<&{{'static||'a}} u8>>(); }", "an actor of a parameter that borrows")
d("two-params", "#[derive(Actor)] struct A<T, U>(T, U); fn f() { is::<A<u8, String>>(); }", "two parameters")
d("second-param", "#[derive(Actor)] struct A<T, U>(T, PhantomData<fn(U)>); fn f() { is::<A<u8, {{u8||Rc<u8>}}>>(); }",
  "only the first of two parameters is required to be able to leave its thread")
d("generic-use", "#[derive(Actor)] struct A<T, U>(T, U); fn f<T: Send + 'static, U: Send + 'static>() { is::<A<T, U>>(); }", "parameters need more than Send + 'static")
d("unsized-param", "#[derive(Actor)] struct A<T: ?Sized>(Box<T>); fn f() { is::<A<str>>(); is::<A<dyn Send>>(); }", "a parameter that may be unsized")
d("bounded-param", "#[derive(Actor)] struct A<T: Clone + Default>(T); fn f() { is::<A<u8>>(); }", "a bounded parameter")
d("bounds-kept", "trait Tr {} impl Tr for u8 {} #[derive(Actor)] struct A<T: Tr>(T); fn f<T: {{Tr + ||}}Send + 'static>() { is::<A<T>>(); }", "the bounds of a parameter are dropped")
d("default-param", "#[derive(Actor)] struct A<T = u8>(T); fn f() { is::<A>(); is::<A<String>>(); }", "a parameter with a default")
d("where", "#[derive(Actor)] struct A<T>(T) where T: Clone; fn f() { is::<A<u8>>(); }", "a where clause")
d("where-comma", "#[derive(Actor)] struct A<T> where T: Clone, { t: T } fn f() { is::<A<u8>>(); }", "a where clause with a trailing comma")
d("where-empty", "#[derive(Actor)] struct A<T> where { t: T } fn f() { is::<A<u8>>(); }", "an empty where clause")
d("where-kept", "trait Tr {} #[derive(Actor)] struct A<T> where T: Tr { t: T } fn f<T: {{Tr + ||}}Send + 'static>() { is::<A<T>>(); }", "the where clause is dropped")
d("where-adds", "#[derive(Actor)] struct A<T> where T: Clone { t: PhantomData<fn(T)> } fn f() { is::<A<{{u8||Rc<u8>}}>>(); }",
  "with a where clause parameters are not required to be able to leave their thread")
d("where-other", "#[derive(Actor)] struct A<I> where I: Iterator, I::Item: Clone + Send { i: I, x: Option<I::Item> } fn f() { is::<A<std::vec::IntoIter<u8>>>(); }", "a where clause on an associated type")
d("where-concrete", "#[derive(Actor)] struct A where String: Clone { s: String } fn f() { is::<A>(); }", "a where clause without parameters")
d("const", "#[derive(Actor)] struct A<const N: usize>([u8; N]); fn f() { is::<A<3>>(); }", "a const parameter")
d("const-mixed", "#[derive(Actor)] struct A<T, const N: usize, U>([T; N], U); fn f() { is::<A<u8, 3, u16>>(); }", "a const parameter among others")
d("const-default", "#[derive(Actor)] struct A<T = u8, const N: usize = 2>([T; N]); fn f() { is::<A>(); is::<A<u8, 4>>(); }", "const and type parameters with defaults")
d("const-only-where", "#[derive(Actor)] struct A<const N: usize> where [u8; N]: Clone { n: [u8; N] } fn f() { is::<A<3>>(); }", "a const parameter with a where clause")
d("const-bool", "#[derive(Actor)] struct A<const B: bool, const C: char>; fn f() { is::<A<true, 'x'>>(); }", "const parameters of other types")
d("lifetime", "#[derive(Actor)] struct A<'a>(&'a u8) where 'a: 'static; fn f() { is::<A<'static>>(); }", "a lifetime parameter")
d("lifetime-mixed", "#[derive(Actor)] struct A<'a: 'static, T, const N: usize>(&'a u8, [T; N]); fn f() { is::<A<'static, u8, 2>>(); }", "a lifetime among other parameters")
d("not-send", "#[derive(Actor)] struct A({{Cell<u8>||Rc<u8>}}); fn f() { is::<A>(); }", "an actor that must not leave its thread")
d("not-send-generic", "#[derive(Actor)] struct A<T>(T, {{Cell<u8>||Rc<u8>}}); fn f() { is::<A<u8>>(); }", "an actor that must not leave its thread")
d("stop-unit", "#[derive(Actor)] struct A; fn f() -> {{()||u8}} { any::<<A as xtra::Actor>::Stop>() }", "the derived stop value is something else than the unit")
d("stop-future", "#[derive(Actor)] struct A<T>(T); fn f() { let _ = stopped(A(1)); }", "the derived stop hook")
d("handler", """#[derive(Actor)] struct A<T>(T); struct M; impl<T: Send + 'static> xtra::Handler<M> for A<T> { type Return = ();
    async fn handle(&mut self, _: M, _: &mut xtra::Context<Self>) {} } fn f() { let (a, m) = xtra::Mailbox::unbounded(); let _ = a.send(M); let _ = xtra::run(m, A(1)); }""",
  "a derived actor with a handler")
d("recursive", "#[derive(Actor)] struct A<T> { next: Option<Box<A<T>>>, t: T } fn f() { is::<A<u8>>(); }", "a recursive type")
d("in-module", "mod m { #[derive(xtra_macros::Actor)] pub struct A<T>(pub T); } fn f() { is::<m::A<u8>>(); }", "a type in a module that imports nothing")
d("in-function", "fn f() { #[derive(Actor)] struct A<T>(T); is::<A<u8>>(); }", "a type in a function")
d("macro-type", "macro_rules! mk { ($n:ident, $t:ident) => { #[derive(Actor)] struct $n<$t>($t); } } mk!(A, T); fn f() { is::<A<u8>>(); }", "a type made by a macro")
d("hrtb", "#[derive(Actor)] struct A<F> where F: for<'a> Fn(&'a u8) -> &'a u8 { f: F } fn f() { is::<A<fn(&u8) -> &u8>>(); }", "a higher-ranked bound")
d("no-lifetime-unbounded", "#[derive(Actor)] struct A<'a>(PhantomData<&'a u8>){{ where 'a: 'static||}};", "an actor that borrows")
