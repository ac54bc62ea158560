//! Spawning (C26).
use super::*;

/// an actor without a stop value
pub struct S0(u64);
impl Actor for S0 {
    type Stop = ();
    async fn started(&mut self, mb: &Mailbox<Self>) -> Result<(), ()> {
        prim_ev("started", self);
        let r = UserFut::<Result<(), ()>>::new("started").await;
        prim_ev(if r.is_ok() { "started_ok" } else { "started_err" }, &r);
        r
    }
    async fn stopped(self) {
        prim_ev("stopped", &self);
        UserFut::<()>::new("stopped").await
    }
}
impl Drop for S0 { fn drop(&mut self) { prim_ev("drop_actor", self) } }
impl Handler<Msg> for S0 {
    type Return = Ret;
    async fn handle(&mut self, m: Msg, c: &mut Context<Self>) -> Ret {
        prim_ev("handle_act", self);
        prim_ev("handle_ctx", c);
        prim_ev("handle", &m);
        if prim_any::<bool>() { c.stop_self(); prim_ev("stop_self", &m); }
        let r = UserFut::<Ret>::new("handle").await;
        prim_ev("handled", &r);
        r
    }
}
fn keep(a: &Address<S0>, m: Msg, cx: &mut Cx<'_>) { let mut f = a.send(m); let _ = Pin::new(&mut f).poll(cx); }
pub fn h_keep_s0(a: &Address<S0>, m: Msg, cx: &mut Cx<'_>) { keep(a, m, cx) }
pub fn h_spawn_tokio(w: S0, a: Address<S0>, mb: Mailbox<S0>) -> Address<S0> { xtra::spawn_tokio(w, (a, mb)) }
pub fn h_spawn_async_std(w: S0, a: Address<S0>, mb: Mailbox<S0>) -> Address<S0> { xtra::spawn_async_std(w, (a, mb)) }
pub fn h_spawn_smol(w: S0, a: Address<S0>, mb: Mailbox<S0>) -> Address<S0> { xtra::spawn_smol(w, (a, mb)) }
pub fn h_spawn_wasm(w: S0, a: Address<S0>, mb: Mailbox<S0>) -> Address<S0> { xtra::spawn_wasm_bindgen(w, (a, mb)) }

fn task<F: Future>(f: F) {
    prim_ev("spawned", &f);
    drive(f, prim_any());
    prim_ev("task_done", &());
}
/// models: tokio::task::spawn::spawn
pub fn m_tokio<F: Future>(f: F) -> tokio::task::JoinHandle<F::Output> { task(f); prim_any() }
/// models: tokio::runtime::handle::Handle::spawn
pub fn m_tokio_handle<F: Future>(_h: &tokio::runtime::Handle, f: F) -> tokio::task::JoinHandle<F::Output> { task(f); prim_any() }
/// models: async_std::task::spawn::spawn
pub fn m_async_std<F: Future<Output = T>, T>(f: F) -> async_std::task::JoinHandle<T> { task(f); prim_any() }
/// models: smol::spawn::spawn
pub fn m_smol<T, F: Future<Output = T>>(f: F) -> smol::Task<T> { task(f); prim_ev("to_detach", &()); prim_any() }
/// models: async_task::task::Task::detach
pub fn m_detach<T, M>(t: smol::Task<T>) { prim_ev("detached", &()); std::mem::forget(t) }
/// models: wasm_bindgen_futures::spawn_local
pub fn m_wasm<F: Future<Output = ()>>(f: F) { task(f) }
/// models: tokio::runtime::task::join::JoinHandle::abort
pub fn m_abort<T>(t: &tokio::task::JoinHandle<T>) { prim_ev("cancelled", &()) }
/// models: async_std::task::join_handle::JoinHandle::cancel
pub fn m_cancel<T>(t: async_std::task::JoinHandle<T>) -> UserFut<Option<T>> { prim_ev("cancelled", &()); prim_any() }
/// models: async_task::task::Task::cancel
pub fn m_task_cancel<T, M>(t: smol::Task<T>) -> UserFut<Option<T>> { prim_ev("cancelled", &()); prim_any() }
