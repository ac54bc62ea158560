//! Source-level models of library routines whose real bodies use raw memory.  The driver substitutes a model for the
//! item named in its `models:` doc line, instantiated with the same generic arguments; `prim_*` are analyser primitives.
use std::marker::PhantomData;
use std::ops::Try;

pub struct Cont<T, A>(PhantomData<(T, A)>);
pub struct Cur<T>(PhantomData<T>);
#[inline(never)]
pub fn prim_iter<S, T>(_s: &mut S) -> Cur<T> { loop {} }
#[inline(never)]
pub fn prim_cursor_next<'a, T>(_c: &mut Cur<T>) -> Option<&'a mut T> { loop {} }
#[inline(never)]
pub fn prim_cursor_remove<T>(_c: &mut Cur<T>, _e: *mut T) -> T { loop {} }
#[inline(never)]
pub fn prim_pos<I>(_i: &mut I) -> usize { loop {} }
#[inline(never)]
pub fn prim_seq_new<S>() -> S { loop {} }
#[inline(never)]
pub fn prim_seq_push<S, T>(_s: &mut S, _t: T) { loop {} }

fn retain_impl<T, A>(v: &mut Cont<T, A>, mut f: impl FnMut(&mut T) -> bool) {
    let mut cur = prim_iter::<_, T>(v);
    while let Some(e) = prim_cursor_next(&mut cur) {
        let p: *mut T = e;
        if !f(e) { drop(prim_cursor_remove(&mut cur, p)); }
    }
}
/// models: alloc::vec::Vec::retain
pub fn m_vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Cont<T, A>, mut f: F) { retain_impl(v, |e| f(e)) }
/// models: alloc::vec::Vec::retain_mut
pub fn m_vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Cont<T, A>, f: F) { retain_impl(v, f) }
/// models: alloc::collections::vec_deque::VecDeque::retain
pub fn m_vd_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Cont<T, A>, mut f: F) { retain_impl(v, |e| f(e)) }
/// models: alloc::collections::vec_deque::VecDeque::retain_mut
pub fn m_vd_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Cont<T, A>, f: F) { retain_impl(v, f) }
/// models: alloc::collections::binary_heap::BinaryHeap::retain
pub fn m_bh_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Cont<T, A>, mut f: F) { retain_impl(v, |e| f(e)) }

/// models: core::iter::traits::iterator::Iterator::fold
pub fn m_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
/// models: core::iter::traits::double_ended::DoubleEndedIterator::rfold
pub fn m_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() { acc = f(acc, x); }
    acc
}
/// models: core::iter::traits::iterator::Iterator::try_fold
pub fn m_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x)?; }
    R::from_output(acc)
}
/// models: core::iter::traits::iterator::Iterator::for_each
pub fn m_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
/// models: core::iter::traits::iterator::Iterator::any
pub fn m_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
/// models: core::iter::traits::iterator::Iterator::all
pub fn m_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
/// models: core::iter::traits::iterator::Iterator::find
pub fn m_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
/// models: core::iter::traits::iterator::Iterator::find_map
pub fn m_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { let r = f(x); if r.is_some() { return r; } }
    None
}
/// models: core::iter::traits::iterator::Iterator::position
pub fn m_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    while let Some(x) = it.next() { let p = prim_pos(it); if f(x) { return Some(p); } }
    None
}
/// models: core::iter::traits::iterator::Iterator::last
pub fn m_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x); }
    r
}
/// models: core::iter::traits::iterator::Iterator::count
pub fn m_count<I: Iterator>(mut it: I) -> usize {
    while let Some(x) = it.next() { drop(x); }
    super::prim_any()
}
/// models: core::iter::traits::collect::FromIterator::from_iter
pub fn m_from_iter<S: FromIterator<T>, T, I: IntoIterator<Item = T>>(it: I) -> S {
    let mut s = prim_seq_new::<S>();
    let mut it = it.into_iter();
    while let Some(x) = it.next() { prim_seq_push(&mut s, x); }
    s
}
/// models: core::iter::traits::collect::Extend::extend
pub fn m_extend<S: Extend<T>, T, I: IntoIterator<Item = T>>(s: &mut S, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { prim_seq_push(s, x); }
}
