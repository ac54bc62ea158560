//! The derived actor (C25).
use super::*;
use xtra_macros::Actor as DeriveActor;
#[derive(DeriveActor)]
pub struct DerT(Tok);
#[derive(DeriveActor)]
pub struct DerG<T: Sized, U, const N: usize> where U: Sized { t: T, u: U, n: [u8; N] }
#[derive(DeriveActor)]
pub enum DerE<T> { One(T), Two { t: T, u: Tok }, None }
pub struct DerDrop(u64);
impl Drop for DerDrop { fn drop(&mut self) { prim_ev("drop_actor", self) } }
mod der { use super::*; #[derive(DeriveActor)] pub struct DerN<T>(pub T, pub Tok); }
pub fn h_der_stop_t(x: DerT, cx: &mut Cx<'_>) { drive(x.stopped(), cx) }
pub fn h_der_stop_g(x: DerG<Tok, DerDrop, 3>, cx: &mut Cx<'_>) { drive(x.stopped(), cx) }
pub fn h_der_stop_e(x: DerE<Tok>, cx: &mut Cx<'_>) { drive(x.stopped(), cx) }
pub fn h_der_stop_n(x: der::DerN<Tok>, cx: &mut Cx<'_>) { drive(x.stopped(), cx) }
pub fn h_der_start_t(x: &mut DerT, mb: &Mailbox<DerT>, cx: &mut Cx<'_>) -> Result<(), ()> { drive(x.started(mb), cx) }
pub fn h_der_start_g(x: &mut DerG<Tok, DerDrop, 3>, mb: &Mailbox<DerG<Tok, DerDrop, 3>>, cx: &mut Cx<'_>) -> Result<(), ()> { drive(x.started(mb), cx) }
pub fn h_der_start_e(x: &mut DerE<Tok>, mb: &Mailbox<DerE<Tok>>, cx: &mut Cx<'_>) -> Result<(), ()> { drive(x.started(mb), cx) }
