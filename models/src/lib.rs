//! Executable specifications of combinators of core, futures and tokio.  This crate is never run: the analysis
//! inlines the MIR of `models::<mangled path>` wherever the analysed crate calls `<path>`.
#![allow(non_snake_case, unused, async_fn_in_trait, private_bounds, private_interfaces)]
#![allow(clippy::all)]
use std::future::Future;

// ---------------------------------------------------------------- Option
pub fn core__option__Option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn core__option__Option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn core__option__Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn core__option__Option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn core__option__Option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(f()) }
}
pub fn core__option__Option__and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> {
    match o { Some(_) => p, None => None }
}
pub fn core__option__Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn core__option__Option__filter<T, P: FnOnce(&T) -> bool>(o: Option<T>, p: P) -> Option<T> {
    if let Some(x) = o { if p(&x) { return Some(x); } }
    None
}
pub fn core__option__Option__or<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match o { Some(x) => Some(x), None => p }
}
pub fn core__option__Option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn core__option__Option__unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o { Some(x) => x, None => d }
}
pub fn core__option__Option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o { Some(x) => x, None => f() }
}
pub fn core__option__Option__unwrap_or_default<T: Default>(o: Option<T>) -> T {
    match o { Some(x) => x, None => T::default() }
}
pub fn core__option__Option__unwrap<T>(o: Option<T>) -> T {
    match o { Some(x) => x, None => m_panic("unwrap of None") }
}
pub fn core__option__Option__expect<T>(o: Option<T>, s: &str) -> T {
    match o { Some(x) => x, None => m_panic("expect of None") }
}
pub fn core__option__Option__is_some<T>(o: &Option<T>) -> bool {
    match o { Some(_) => true, None => false }
}
pub fn core__option__Option__is_none<T>(o: &Option<T>) -> bool {
    match o { Some(_) => false, None => true }
}
pub fn core__option__Option__is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => false }
}
pub fn core__option__Option__is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => true }
}
pub fn core__option__Option__cloned<T: Clone>(o: Option<&T>) -> Option<T> {
    match o { Some(x) => Some(x.clone()), None => None }
}
pub fn core__option__Option__copied<T: Copy>(o: Option<&T>) -> Option<T> {
    match o { Some(x) => Some(*x), None => None }
}
pub fn core__option__Option__as_ref<T>(o: &Option<T>) -> Option<&T> {
    match o { Some(x) => Some(x), None => None }
}
pub fn core__option__Option__as_mut<T>(o: &mut Option<T>) -> Option<&mut T> {
    match o { Some(x) => Some(x), None => None }
}
pub fn core__option__Option__as_deref<T: std::ops::Deref>(o: &Option<T>) -> Option<&T::Target> {
    match o { Some(x) => Some(x.deref()), None => None }
}
pub fn core__option__Option__flatten<T>(o: Option<Option<T>>) -> Option<T> {
    match o { Some(x) => x, None => None }
}
pub fn core__option__Option__inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
    if let Some(x) = &o { f(x); }
    o
}
pub fn core__option__Option__transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
}
pub fn core__option__Option__zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
    match (o, p) { (Some(a), Some(b)) => Some((a, b)), _ => None }
}
pub fn core__option__Option__get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if let None = o { *o = Some(f()); }
    match o { Some(x) => x, None => m_panic("unreachable") }
}
pub fn core__option__Option__xor<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match (o, p) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None }
}

// ---------------------------------------------------------------- Result
pub fn core__result__Result__map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn core__result__Result__map_err<T, E, G, F: FnOnce(E) -> G>(r: Result<T, E>, f: F) -> Result<T, G> {
    match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn core__result__Result__map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U {
    match r { Ok(x) => f(x), Err(_) => d }
}
pub fn core__result__Result__map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U {
    match r { Ok(x) => f(x), Err(e) => d(e) }
}
pub fn core__result__Result__and<T, E, U>(r: Result<T, E>, o: Result<U, E>) -> Result<U, E> {
    match r { Ok(_) => o, Err(e) => Err(e) }
}
pub fn core__result__Result__and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn core__result__Result__or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> {
    match r { Ok(x) => Ok(x), Err(e) => f(e) }
}
pub fn core__result__Result__or<T, E, G>(r: Result<T, E>, o: Result<T, G>) -> Result<T, G> {
    match r { Ok(x) => Ok(x), Err(_) => o }
}
pub fn core__result__Result__ok<T, E>(r: Result<T, E>) -> Option<T> {
    match r { Ok(x) => Some(x), Err(_) => None }
}
pub fn core__result__Result__err<T, E>(r: Result<T, E>) -> Option<E> {
    match r { Ok(_) => None, Err(e) => Some(e) }
}
pub fn core__result__Result__unwrap_or<T, E>(r: Result<T, E>, d: T) -> T {
    match r { Ok(x) => x, Err(_) => d }
}
pub fn core__result__Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T {
    match r { Ok(x) => x, Err(e) => f(e) }
}
pub fn core__result__Result__unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T {
    match r { Ok(x) => x, Err(_) => T::default() }
}
pub fn core__result__Result__unwrap<T, E>(r: Result<T, E>) -> T {
    match r { Ok(x) => x, Err(_) => m_panic("unwrap of Err") }
}
pub fn core__result__Result__expect<T, E>(r: Result<T, E>, s: &str) -> T {
    match r { Ok(x) => x, Err(_) => m_panic("expect of Err") }
}
pub fn core__result__Result__is_ok<T, E>(r: &Result<T, E>) -> bool {
    match r { Ok(_) => true, Err(_) => false }
}
pub fn core__result__Result__is_err<T, E>(r: &Result<T, E>) -> bool {
    match r { Ok(_) => false, Err(_) => true }
}
pub fn core__result__Result__is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool {
    match r { Ok(x) => f(x), Err(_) => false }
}
pub fn core__result__Result__is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool {
    match r { Ok(_) => false, Err(e) => f(e) }
}
pub fn core__result__Result__as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> {
    match r { Ok(x) => Ok(x), Err(e) => Err(e) }
}
pub fn core__result__Result__as_mut<T, E>(r: &mut Result<T, E>) -> Result<&mut T, &mut E> {
    match r { Ok(x) => Ok(x), Err(e) => Err(e) }
}
pub fn core__result__Result__inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> {
    if let Err(e) = &r { f(e); }
    r
}
pub fn core__result__Result__inspect<T, E, F: FnOnce(&T)>(r: Result<T, E>, f: F) -> Result<T, E> {
    if let Ok(x) = &r { f(x); }
    r
}
pub fn core__result__Result__cloned<T: Clone, E>(r: Result<&T, E>) -> Result<T, E> {
    match r { Ok(x) => Ok(x.clone()), Err(e) => Err(e) }
}
pub fn core__result__Result__transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> {
    match r { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) }
}
pub fn bool__then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
    if b { Some(f()) } else { None }
}
pub fn bool__then_some<T>(b: bool, x: T) -> Option<T> {
    if b { Some(x) } else { None }
}
pub fn core__bool__then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
    if b { Some(f()) } else { None }
}
pub fn core__bool__then_some<T>(b: bool, x: T) -> Option<T> {
    if b { Some(x) } else { None }
}

/// reported as a panic by the analysis
pub fn m_panic(_s: &str) -> ! {
    loop {}
}

// ---------------------------------------------------------------- iterators
pub trait MIter {
    type Item;
    fn mnext(&mut self) -> Option<Self::Item>;
}
pub struct IterMap<I, F> { i: I, f: F }
impl<I: Iterator, U, F: FnMut(I::Item) -> U> MIter for IterMap<I, F> {
    type Item = U;
    fn mnext(&mut self) -> Option<U> { match self.i.next() { Some(x) => Some((self.f)(x)), None => None } }
}
pub fn core__iter__traits__iterator__Iterator__map<I: Iterator, U, F: FnMut(I::Item) -> U>(i: I, f: F) -> IterMap<I, F> { IterMap { i, f } }
pub struct IterFilter<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> MIter for IterFilter<I, F> {
    type Item = I::Item;
    fn mnext(&mut self) -> Option<I::Item> {
        loop { match self.i.next() { Some(x) => if (self.f)(&x) { return Some(x) }, None => return None } }
    }
}
pub fn core__iter__traits__iterator__Iterator__filter<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> IterFilter<I, F> { IterFilter { i, f } }
pub struct IterFilterMap<I, F> { i: I, f: F }
impl<I: Iterator, U, F: FnMut(I::Item) -> Option<U>> MIter for IterFilterMap<I, F> {
    type Item = U;
    fn mnext(&mut self) -> Option<U> {
        loop { match self.i.next() { Some(x) => if let Some(y) = (self.f)(x) { return Some(y) }, None => return None } }
    }
}
pub fn core__iter__traits__iterator__Iterator__filter_map<I: Iterator, U, F: FnMut(I::Item) -> Option<U>>(i: I, f: F) -> IterFilterMap<I, F> { IterFilterMap { i, f } }
pub struct IterEnumerate<I> { i: I, n: usize }
impl<I: Iterator> MIter for IterEnumerate<I> {
    type Item = (usize, I::Item);
    fn mnext(&mut self) -> Option<(usize, I::Item)> {
        match self.i.next() { Some(x) => { let n = self.n; self.n = n + 1; Some((n, x)) } None => None }
    }
}
pub fn core__iter__traits__iterator__Iterator__enumerate<I: Iterator>(i: I) -> IterEnumerate<I> { IterEnumerate { i, n: 0 } }
pub struct IterTake<I> { i: I, n: usize }
impl<I: Iterator> MIter for IterTake<I> {
    type Item = I::Item;
    fn mnext(&mut self) -> Option<I::Item> {
        if self.n == 0 { return None; }
        self.n -= 1;
        self.i.next()
    }
}
pub fn core__iter__traits__iterator__Iterator__take<I: Iterator>(i: I, n: usize) -> IterTake<I> { IterTake { i, n } }
pub struct IterSkip<I> { i: I, n: usize }
impl<I: Iterator> MIter for IterSkip<I> {
    type Item = I::Item;
    fn mnext(&mut self) -> Option<I::Item> {
        while self.n > 0 { self.n -= 1; if let None = self.i.next() { return None; } }
        self.i.next()
    }
}
pub fn core__iter__traits__iterator__Iterator__skip<I: Iterator>(i: I, n: usize) -> IterSkip<I> { IterSkip { i, n } }
pub struct IterTakeWhile<I, F> { i: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> MIter for IterTakeWhile<I, F> {
    type Item = I::Item;
    fn mnext(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.i.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None }
    }
}
pub fn core__iter__traits__iterator__Iterator__take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> IterTakeWhile<I, F> { IterTakeWhile { i, f, done: false } }
pub struct IterChain<A, B> { a: A, b: B, first: bool }
impl<A: Iterator, B: Iterator<Item = A::Item>> MIter for IterChain<A, B> {
    type Item = A::Item;
    fn mnext(&mut self) -> Option<A::Item> {
        if self.first { match self.a.next() { Some(x) => return Some(x), None => self.first = false } }
        self.b.next()
    }
}
pub fn core__iter__traits__iterator__Iterator__chain<A: Iterator, B: IntoIterator<Item = A::Item>>(a: A, b: B) -> IterChain<A, B::IntoIter> { IterChain { a, b: b.into_iter(), first: true } }
pub struct IterZip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> MIter for IterZip<A, B> {
    type Item = (A::Item, B::Item);
    fn mnext(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
    }
}
pub fn core__iter__traits__iterator__Iterator__zip<A: Iterator, B: IntoIterator>(a: A, b: B) -> IterZip<A, B::IntoIter> { IterZip { a, b: b.into_iter() } }
pub struct IterCloned<I> { i: I }
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> MIter for IterCloned<I> {
    type Item = T;
    fn mnext(&mut self) -> Option<T> { match self.i.next() { Some(x) => Some(x.clone()), None => None } }
}
pub fn core__iter__traits__iterator__Iterator__cloned<I>(i: I) -> IterCloned<I> { IterCloned { i } }
pub fn core__iter__traits__iterator__Iterator__copied<I>(i: I) -> IterCloned<I> { IterCloned { i } }
pub struct IterPeekable<I: Iterator> { i: I, p: Option<Option<I::Item>> }
impl<I: Iterator> MIter for IterPeekable<I> {
    type Item = I::Item;
    fn mnext(&mut self) -> Option<I::Item> { match self.p.take() { Some(x) => x, None => self.i.next() } }
}
pub fn core__iter__traits__iterator__Iterator__peekable<I: Iterator>(i: I) -> IterPeekable<I> { IterPeekable { i, p: None } }
pub struct IterInspect<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> MIter for IterInspect<I, F> {
    type Item = I::Item;
    fn mnext(&mut self) -> Option<I::Item> { match self.i.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } }
}
pub fn core__iter__traits__iterator__Iterator__inspect<I: Iterator, F: FnMut(&I::Item)>(i: I, f: F) -> IterInspect<I, F> { IterInspect { i, f } }
pub fn core__iter__traits__iterator__Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut i: I, mut f: F) { while let Some(x) = i.next() { f(x) } }
pub fn core__iter__traits__iterator__Iterator__try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(i: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = i.next() { match f(x) { Ok(()) => (), Err(e) => return Err(e) } }
    Ok(())
}
pub fn core__iter__traits__iterator__Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut i: I, b: B, mut f: F) -> B {
    let mut acc = b;
    while let Some(x) = i.next() { acc = f(acc, x) }
    acc
}
pub fn core__iter__traits__iterator__Iterator__try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> Result<B, E>, E>(i: &mut I, b: B, mut f: F) -> Result<B, E> {
    let mut acc = b;
    while let Some(x) = i.next() { match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) } }
    Ok(acc)
}
pub fn core__iter__traits__iterator__Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { while let Some(x) = i.next() { if f(x) { return true; } } false }
pub fn core__iter__traits__iterator__Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { while let Some(x) = i.next() { if !f(x) { return false; } } true }
pub fn core__iter__traits__iterator__Iterator__find<I: Iterator, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = i.next() { if f(&x) { return Some(x); } } None }
pub fn core__iter__traits__iterator__Iterator__find_map<I: Iterator, U, F: FnMut(I::Item) -> Option<U>>(i: &mut I, mut f: F) -> Option<U> { while let Some(x) = i.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn core__iter__traits__iterator__Iterator__count<I: Iterator>(mut i: I) -> usize { let mut n = 0; while let Some(_) = i.next() { n += 1 } n }
pub fn core__iter__traits__iterator__Iterator__last<I: Iterator>(mut i: I) -> Option<I::Item> { let mut r = None; while let Some(x) = i.next() { r = Some(x) } r }
pub fn core__iter__traits__iterator__Iterator__sum<I: Iterator<Item = usize>, S>(mut i: I) -> usize { let mut n = 0; while let Some(x) = i.next() { n += x } n }
pub fn m_collect<I: Iterator, B>(mut i: I) -> B {
    let mut b = m_collect_new::<B>();
    while let Some(x) = i.next() { if !m_collect_push::<B, I::Item>(&mut b, x) { break; } }
    m_collect_done::<B>(b)
}
pub fn core__iter__traits__iterator__Iterator__partition<I: Iterator, B, F: FnMut(&I::Item) -> bool>(mut i: I, mut f: F) -> (B, B) {
    let mut a = m_collect_new::<B>();
    let mut b = m_collect_new::<B>();
    while let Some(x) = i.next() {
        if f(&x) { m_collect_push::<B, I::Item>(&mut a, x); } else { m_collect_push::<B, I::Item>(&mut b, x); }
    }
    (m_collect_done::<B>(a), m_collect_done::<B>(b))
}
pub fn alloc__vec__Vec__retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for x in old { if f(&x) { v.push(x) } }
}
pub fn alloc__vec__Vec__pop_if<T, F: FnOnce(&mut T) -> bool>(v: &mut Vec<T>, f: F) -> Option<T> {
    let yes = match v.last_mut() { Some(x) => f(x), None => return None };
    if yes { v.pop() } else { None }
}
pub fn alloc__collections__vec_deque__VecDeque__pop_front_if<T, F: FnOnce(&mut T) -> bool>(v: &mut std::collections::VecDeque<T>, f: F) -> Option<T> {
    let yes = match v.front_mut() { Some(x) => f(x), None => return None };
    if yes { v.pop_front() } else { None }
}
pub fn alloc__collections__vec_deque__VecDeque__pop_back_if<T, F: FnOnce(&mut T) -> bool>(v: &mut std::collections::VecDeque<T>, f: F) -> Option<T> {
    let yes = match v.back_mut() { Some(x) => f(x), None => return None };
    if yes { v.pop_back() } else { None }
}
pub fn alloc__collections__vec_deque__VecDeque__retain<T, F: FnMut(&T) -> bool>(v: &mut std::collections::VecDeque<T>, mut f: F) {
    let old = std::mem::take(v);
    for x in old { if f(&x) { v.push_back(x) } }
}
pub fn m_collect_new<B>() -> B { loop {} }
pub fn m_collect_push<B, T>(b: &mut B, x: T) -> bool { loop {} }
pub fn m_collect_done<B>(b: B) -> B { loop {} }
pub fn m_extend<I: Iterator, B>(b: &mut B, mut i: I) { while let Some(x) = i.next() { m_collect_push::<B, I::Item>(b, x); } }

// ---------------------------------------------------------------- futures
pub async fn futures_util__future__future__FutureExt__then<A: Future, B: Future, F: FnOnce(A::Output) -> B>(a: A, f: F) -> B::Output {
    let x = a.await;
    f(x).await
}
pub async fn futures_util__future__future__FutureExt__map<A: Future, U, F: FnOnce(A::Output) -> U>(a: A, f: F) -> U {
    let x = a.await;
    f(x)
}
pub async fn futures_util__future__future__FutureExt__inspect<A: Future, F: FnOnce(&A::Output)>(a: A, f: F) -> A::Output {
    let x = a.await;
    f(&x);
    x
}
pub async fn futures_util__future__future__FutureExt__boxed<A: Future>(a: A) -> A::Output { a.await }
pub async fn futures_util__future__future__FutureExt__boxed_local<A: Future>(a: A) -> A::Output { a.await }
pub async fn futures_util__future__future__FutureExt__fuse<A: Future>(a: A) -> A::Output { a.await }
pub async fn futures_util__future__future__FutureExt__map_into<A: Future, U: From<A::Output>>(a: A) -> U { U::from(a.await) }
pub async fn futures_util__future__try_future__TryFutureExt__map_ok<A: Future<Output = Result<T, E>>, U, F: FnOnce(T) -> U, T, E>(a: A, f: F) -> Result<U, E> {
    match a.await { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub async fn futures_util__future__try_future__TryFutureExt__map_err<A: Future<Output = Result<T, E>>, G, F: FnOnce(E) -> G, T, E>(a: A, f: F) -> Result<T, G> {
    match a.await { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub async fn futures_util__future__try_future__TryFutureExt__err_into<A: Future<Output = Result<T, E>>, G: From<E>, T, E>(a: A) -> Result<T, G> {
    match a.await { Ok(x) => Ok(x), Err(e) => Err(G::from(e)) }
}
pub async fn futures_util__future__try_future__TryFutureExt__and_then<A: Future<Output = Result<T, E>>, B: Future<Output = Result<U, E>>, F: FnOnce(T) -> B, T, U, E>(a: A, f: F) -> Result<U, E> {
    match a.await { Ok(x) => f(x).await, Err(e) => Err(e) }
}
pub async fn futures_util__future__try_future__TryFutureExt__or_else<A: Future<Output = Result<T, E>>, B: Future<Output = Result<T, G>>, F: FnOnce(E) -> B, T, E, G>(a: A, f: F) -> Result<T, G> {
    match a.await { Ok(x) => Ok(x), Err(e) => f(e).await }
}
pub async fn futures_util__future__try_future__TryFutureExt__unwrap_or_else<A: Future<Output = Result<T, E>>, F: FnOnce(E) -> T, T, E>(a: A, f: F) -> T {
    match a.await { Ok(x) => x, Err(e) => f(e) }
}
pub async fn futures_util__future__try_future__TryFutureExt__inspect_err<A: Future<Output = Result<T, E>>, F: FnOnce(&E), T, E>(a: A, f: F) -> Result<T, E> {
    let r = a.await;
    if let Err(e) = &r { f(e) }
    r
}
pub async fn futures_util__future__try_future__TryFutureExt__inspect_ok<A: Future<Output = Result<T, E>>, F: FnOnce(&T), T, E>(a: A, f: F) -> Result<T, E> {
    let r = a.await;
    if let Ok(e) = &r { f(e) }
    r
}

// ---------------------------------------------------------------- streams
pub trait MStream {
    type Item;
    async fn mnext(&mut self) -> Option<Self::Item>;
}
/// the next item of any stream: built in for the streams of tokio, `MStream` otherwise
pub async fn m_next<S: MStream>(s: &mut S) -> Option<S::Item> { s.mnext().await }

pub async fn futures_util__stream__stream__StreamExt__next<S: MStream>(s: &mut S) -> Option<S::Item> { m_next(s).await }
pub async fn tokio_stream__stream_ext__StreamExt__next<S: MStream>(s: &mut S) -> Option<S::Item> { m_next(s).await }
pub async fn futures_util__stream__try_stream__TryStreamExt__try_next<S: MStream<Item = Result<T, E>>, T, E>(s: &mut S) -> Result<Option<T>, E> {
    match m_next(s).await { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
}

pub struct SMap<S, F> { s: S, f: F }
impl<S: MStream, U, F: FnMut(S::Item) -> U> MStream for SMap<S, F> {
    type Item = U;
    async fn mnext(&mut self) -> Option<U> {
        match m_next(&mut self.s).await { Some(x) => Some((self.f)(x)), None => None }
    }
}
pub fn futures_util__stream__stream__StreamExt__map<S: MStream, U, F: FnMut(S::Item) -> U>(s: S, f: F) -> SMap<S, F> { SMap { s, f } }

pub struct SThen<S, F> { s: S, f: F }
impl<S: MStream, B: Future, F: FnMut(S::Item) -> B> MStream for SThen<S, F> {
    type Item = B::Output;
    async fn mnext(&mut self) -> Option<B::Output> {
        match m_next(&mut self.s).await { Some(x) => Some((self.f)(x).await), None => None }
    }
}
pub fn futures_util__stream__stream__StreamExt__then<S: MStream, B: Future, F: FnMut(S::Item) -> B>(s: S, f: F) -> SThen<S, F> { SThen { s, f } }

pub struct SFilter<S, F> { s: S, f: F }
impl<S: MStream, B: Future<Output = bool>, F: FnMut(&S::Item) -> B> MStream for SFilter<S, F> {
    type Item = S::Item;
    async fn mnext(&mut self) -> Option<S::Item> {
        loop { match m_next(&mut self.s).await { Some(x) => if (self.f)(&x).await { return Some(x) }, None => return None } }
    }
}
pub fn futures_util__stream__stream__StreamExt__filter<S: MStream, B: Future<Output = bool>, F: FnMut(&S::Item) -> B>(s: S, f: F) -> SFilter<S, F> { SFilter { s, f } }

pub struct SFilterMap<S, F> { s: S, f: F }
impl<S: MStream, U, B: Future<Output = Option<U>>, F: FnMut(S::Item) -> B> MStream for SFilterMap<S, F> {
    type Item = U;
    async fn mnext(&mut self) -> Option<U> {
        loop {
            match m_next(&mut self.s).await {
                Some(x) => if let Some(y) = (self.f)(x).await { return Some(y) },
                None => return None,
            }
        }
    }
}
pub fn futures_util__stream__stream__StreamExt__filter_map<S: MStream, B: Future<Output = Option<U>>, U, F: FnMut(S::Item) -> B>(s: S, f: F) -> SFilterMap<S, F> { SFilterMap { s, f } }

pub struct STakeWhile<S, F> { s: S, f: F, done: bool }
impl<S: MStream, B: Future<Output = bool>, F: FnMut(&S::Item) -> B> MStream for STakeWhile<S, F> {
    type Item = S::Item;
    async fn mnext(&mut self) -> Option<S::Item> {
        if self.done { return None; }
        match m_next(&mut self.s).await { Some(x) => if (self.f)(&x).await { Some(x) } else { self.done = true; None }, None => None }
    }
}
pub fn futures_util__stream__stream__StreamExt__take_while<S: MStream, B: Future<Output = bool>, F: FnMut(&S::Item) -> B>(s: S, f: F) -> STakeWhile<S, F> { STakeWhile { s, f, done: false } }

pub struct STake<S> { s: S, n: usize }
impl<S: MStream> MStream for STake<S> {
    type Item = S::Item;
    async fn mnext(&mut self) -> Option<S::Item> {
        if self.n == 0 { return None; }
        self.n -= 1;
        m_next(&mut self.s).await
    }
}
pub fn futures_util__stream__stream__StreamExt__take<S: MStream>(s: S, n: usize) -> STake<S> { STake { s, n } }
pub struct SSkip<S> { s: S, n: usize }
impl<S: MStream> MStream for SSkip<S> {
    type Item = S::Item;
    async fn mnext(&mut self) -> Option<S::Item> {
        while self.n > 0 { self.n -= 1; if let None = m_next(&mut self.s).await { return None; } }
        m_next(&mut self.s).await
    }
}
pub fn futures_util__stream__stream__StreamExt__skip<S: MStream>(s: S, n: usize) -> SSkip<S> { SSkip { s, n } }

pub struct SChain<A, B> { a: A, b: B, first: bool }
impl<A: MStream, B: MStream<Item = A::Item>> MStream for SChain<A, B> {
    type Item = A::Item;
    async fn mnext(&mut self) -> Option<A::Item> {
        if self.first {
            match m_next(&mut self.a).await { Some(x) => return Some(x), None => self.first = false }
        }
        m_next(&mut self.b).await
    }
}
pub fn futures_util__stream__stream__StreamExt__chain<A: MStream, B: MStream<Item = A::Item>>(a: A, b: B) -> SChain<A, B> { SChain { a, b, first: true } }

pub struct SInspect<S, F> { s: S, f: F }
impl<S: MStream, F: FnMut(&S::Item)> MStream for SInspect<S, F> {
    type Item = S::Item;
    async fn mnext(&mut self) -> Option<S::Item> {
        match m_next(&mut self.s).await { Some(x) => { (self.f)(&x); Some(x) } None => None }
    }
}
pub fn futures_util__stream__stream__StreamExt__inspect<S: MStream, F: FnMut(&S::Item)>(s: S, f: F) -> SInspect<S, F> { SInspect { s, f } }

pub struct SPollFn<F> { f: F }
impl<T, F: FnMut(&mut std::task::Context<'_>) -> std::task::Poll<Option<T>>> MStream for SPollFn<F> {
    type Item = T;
    async fn mnext(&mut self) -> Option<T> {
        match (self.f)(m_cx()) { std::task::Poll::Ready(x) => x, std::task::Poll::Pending => m_forever().await }
    }
}
pub fn m_cx() -> &'static mut std::task::Context<'static> { loop {} }
pub async fn m_forever() -> ! { loop {} }
pub fn futures_util__stream__poll_fn__poll_fn<T, F: FnMut(&mut std::task::Context<'_>) -> std::task::Poll<Option<T>>>(f: F) -> SPollFn<F> { SPollFn { f } }

pub struct SOnce<Fut> { f: Option<Fut> }
impl<Fut: Future> MStream for SOnce<Fut> {
    type Item = Fut::Output;
    async fn mnext(&mut self) -> Option<Fut::Output> { match self.f.take() { Some(f) => Some(f.await), None => None } }
}
pub fn futures_util__stream__once__once<Fut: Future>(f: Fut) -> SOnce<Fut> { SOnce { f: Some(f) } }
pub struct SEmpty {}
impl MStream for SEmpty {
    type Item = ();
    async fn mnext(&mut self) -> Option<()> { None }
}
pub fn futures_util__stream__empty__empty<T>() -> SEmpty { SEmpty {} }

pub struct SUnfold<T, F> { t: Option<T>, f: F }
impl<T, I, B: Future<Output = Option<(I, T)>>, F: FnMut(T) -> B> MStream for SUnfold<T, F> {
    type Item = I;
    async fn mnext(&mut self) -> Option<I> {
        match self.t.take() {
            Some(t) => match (self.f)(t).await { Some((x, t)) => { self.t = Some(t); Some(x) } None => None },
            None => None,
        }
    }
}
pub fn futures_util__stream__unfold__unfold<T, F>(t: T, f: F) -> SUnfold<T, F> { SUnfold { t: Some(t), f } }

pub struct SChunks<S> { s: S, n: usize }
impl<S: MStream> MStream for SChunks<S> {
    type Item = Vec<S::Item>;
    async fn mnext(&mut self) -> Option<Vec<S::Item>> {
        match m_next(&mut self.s).await {
            Some(x) => {
                let mut v = Vec::new();
                v.push(x);
                while m_nondet() {
                    match m_next_ready(&mut self.s).await { Some(x) => v.push(x), None => break }
                }
                Some(v)
            }
            None => None,
        }
    }
}
pub async fn m_next_ready<S: MStream>(s: &mut S) -> Option<S::Item> { m_next(s).await }
pub fn m_nondet() -> bool { loop {} }
pub fn futures_util__stream__stream__StreamExt__ready_chunks<S: MStream>(s: S, n: usize) -> SChunks<S> { m_nonzero(n); SChunks { s, n } }
pub fn futures_util__stream__stream__StreamExt__chunks<S: MStream>(s: S, n: usize) -> SChunks<S> { m_nonzero(n); SChunks { s, n } }
pub fn m_nonzero(n: usize) {}

pub fn futures_util__stream__stream__StreamExt__boxed<S>(s: S) -> S { s }
pub fn futures_util__stream__stream__StreamExt__boxed_local<S>(s: S) -> S { s }
pub fn futures_util__stream__stream__StreamExt__fuse<S>(s: S) -> S { s }
pub fn futures_util__stream__stream__StreamExt__by_ref<S>(s: &mut S) -> &mut S { s }
pub fn futures_util__stream__try_stream__TryStreamExt__into_stream<S>(s: S) -> S { s }

pub async fn futures_util__stream__stream__StreamExt__for_each<S: MStream, B: Future<Output = ()>, F: FnMut(S::Item) -> B>(mut s: S, mut f: F) {
    while let Some(x) = m_next(&mut s).await { f(x).await }
}
pub async fn futures_util__stream__stream__StreamExt__for_each_concurrent<S: MStream, B: Future<Output = ()>, F: FnMut(S::Item) -> B, L>(mut s: S, limit: L, mut f: F) {
    while let Some(x) = m_next(&mut s).await {
        let b = f(x);
        m_scope_enter(&limit);
        b.await;
        m_scope_exit();
    }
}
pub fn m_scope_enter<L>(l: &L) {}
pub fn m_scope_exit() {}
pub async fn futures_util__stream__stream__StreamExt__collect<S: MStream, C>(mut s: S) -> C {
    let mut b = m_collect_new::<C>();
    while let Some(x) = m_next(&mut s).await { if !m_collect_push::<C, S::Item>(&mut b, x) { break; } }
    m_collect_done::<C>(b)
}
pub async fn futures_util__stream__stream__StreamExt__fold<S: MStream, T, B: Future<Output = T>, F: FnMut(T, S::Item) -> B>(mut s: S, t: T, mut f: F) -> T {
    let mut acc = t;
    while let Some(x) = m_next(&mut s).await { acc = f(acc, x).await }
    acc
}
pub async fn futures_util__stream__try_stream__TryStreamExt__try_for_each<S: MStream<Item = Result<T, E>>, B: Future<Output = Result<(), E>>, F: FnMut(T) -> B, T, E>(mut s: S, mut f: F) -> Result<(), E> {
    while let Some(r) = m_next(&mut s).await {
        match r {
            Ok(x) => match f(x).await { Ok(()) => (), Err(e) => return Err(e) },
            Err(e) => return Err(e),
        }
    }
    Ok(())
}
pub async fn futures_util__stream__try_stream__TryStreamExt__try_for_each_concurrent<S: MStream<Item = Result<T, E>>, B: Future<Output = Result<(), E>>, F: FnMut(T) -> B, L, T, E>(mut s: S, limit: L, mut f: F) -> Result<(), E> {
    while let Some(r) = m_next(&mut s).await {
        match r {
            Ok(x) => {
                let b = f(x);
                m_scope_enter(&limit);
                let r = b.await;
                m_scope_exit();
                match r { Ok(()) => (), Err(e) => return Err(e) }
            }
            Err(e) => return Err(e),
        }
    }
    Ok(())
}
pub async fn futures_util__stream__try_stream__TryStreamExt__try_collect<S: MStream<Item = Result<T, E>>, C, T, E>(mut s: S) -> Result<C, E> {
    let mut b = m_collect_new::<C>();
    while let Some(r) = m_next(&mut s).await {
        match r { Ok(x) => { m_collect_push::<C, T>(&mut b, x); } Err(e) => return Err(e) }
    }
    Ok(m_collect_done::<C>(b))
}
pub async fn futures_util__stream__try_stream__TryStreamExt__try_fold<S: MStream<Item = Result<T, E>>, A, B: Future<Output = Result<A, E>>, F: FnMut(A, T) -> B, T, E>(mut s: S, a: A, mut f: F) -> Result<A, E> {
    let mut acc = a;
    while let Some(r) = m_next(&mut s).await {
        match r { Ok(x) => match f(acc, x).await { Ok(a) => acc = a, Err(e) => return Err(e) }, Err(e) => return Err(e) }
    }
    Ok(acc)
}
pub struct STryFilterMap<S, F> { s: S, f: F }
impl<S: MStream<Item = Result<T, E>>, T, U, E, B: Future<Output = Result<Option<U>, E>>, F: FnMut(T) -> B> MStream for STryFilterMap<S, F> {
    type Item = Result<U, E>;
    async fn mnext(&mut self) -> Option<Result<U, E>> {
        loop {
            match m_next(&mut self.s).await {
                Some(Ok(x)) => match (self.f)(x).await {
                    Ok(Some(y)) => return Some(Ok(y)),
                    Ok(None) => (),
                    Err(e) => return Some(Err(e)),
                },
                Some(Err(e)) => return Some(Err(e)),
                None => return None,
            }
        }
    }
}
pub fn futures_util__stream__try_stream__TryStreamExt__try_filter_map<S, B, F, U>(s: S, f: F) -> STryFilterMap<S, F> { STryFilterMap { s, f } }
pub struct STryFilter<S, F> { s: S, f: F }
impl<S: MStream<Item = Result<T, E>>, T, E, B: Future<Output = bool>, F: FnMut(&T) -> B> MStream for STryFilter<S, F> {
    type Item = Result<T, E>;
    async fn mnext(&mut self) -> Option<Result<T, E>> {
        loop {
            match m_next(&mut self.s).await {
                Some(Ok(x)) => if (self.f)(&x).await { return Some(Ok(x)) },
                Some(Err(e)) => return Some(Err(e)),
                None => return None,
            }
        }
    }
}
pub fn futures_util__stream__try_stream__TryStreamExt__try_filter<S, B, F>(s: S, f: F) -> STryFilter<S, F> { STryFilter { s, f } }
pub struct SAndThen<S, F> { s: S, f: F }
impl<S: MStream<Item = Result<T, E>>, T, U, E, B: Future<Output = Result<U, E>>, F: FnMut(T) -> B> MStream for SAndThen<S, F> {
    type Item = Result<U, E>;
    async fn mnext(&mut self) -> Option<Result<U, E>> {
        match m_next(&mut self.s).await { Some(Ok(x)) => Some((self.f)(x).await), Some(Err(e)) => Some(Err(e)), None => None }
    }
}
pub fn futures_util__stream__try_stream__TryStreamExt__and_then<S, B, F>(s: S, f: F) -> SAndThen<S, F> { SAndThen { s, f } }
pub struct SOrElse<S, F> { s: S, f: F }
impl<S: MStream<Item = Result<T, E>>, T, G, E, B: Future<Output = Result<T, G>>, F: FnMut(E) -> B> MStream for SOrElse<S, F> {
    type Item = Result<T, G>;
    async fn mnext(&mut self) -> Option<Result<T, G>> {
        match m_next(&mut self.s).await { Some(Ok(x)) => Some(Ok(x)), Some(Err(e)) => Some((self.f)(e).await), None => None }
    }
}
pub fn futures_util__stream__try_stream__TryStreamExt__or_else<S, B, F>(s: S, f: F) -> SOrElse<S, F> { SOrElse { s, f } }
pub struct SMapErr<S, F> { s: S, f: F }
impl<S: MStream<Item = Result<T, E>>, T, G, E, F: FnMut(E) -> G> MStream for SMapErr<S, F> {
    type Item = Result<T, G>;
    async fn mnext(&mut self) -> Option<Result<T, G>> {
        match m_next(&mut self.s).await { Some(Ok(x)) => Some(Ok(x)), Some(Err(e)) => Some(Err((self.f)(e))), None => None }
    }
}
pub fn futures_util__stream__try_stream__TryStreamExt__map_err<S, G, F>(s: S, f: F) -> SMapErr<S, F> { SMapErr { s, f } }
pub struct SMapOk<S, F> { s: S, f: F }
impl<S: MStream<Item = Result<T, E>>, T, U, E, F: FnMut(T) -> U> MStream for SMapOk<S, F> {
    type Item = Result<U, E>;
    async fn mnext(&mut self) -> Option<Result<U, E>> {
        match m_next(&mut self.s).await { Some(Ok(x)) => Some(Ok((self.f)(x))), Some(Err(e)) => Some(Err(e)), None => None }
    }
}
pub fn futures_util__stream__try_stream__TryStreamExt__map_ok<S, U, F>(s: S, f: F) -> SMapOk<S, F> { SMapOk { s, f } }
pub struct SErrInto<S, E> { s: S, e: std::marker::PhantomData<E> }
impl<S: MStream<Item = Result<T, E>>, T, G: From<E>, E> MStream for SErrInto<S, G> {
    type Item = Result<T, G>;
    async fn mnext(&mut self) -> Option<Result<T, G>> {
        match m_next(&mut self.s).await { Some(Ok(x)) => Some(Ok(x)), Some(Err(e)) => Some(Err(G::from(e))), None => None }
    }
}
pub struct SInspectErr<S, F> { s: S, f: F }
impl<S: MStream<Item = Result<T, E>>, T, E, F: FnMut(&E)> MStream for SInspectErr<S, F> {
    type Item = Result<T, E>;
    async fn mnext(&mut self) -> Option<Result<T, E>> {
        match m_next(&mut self.s).await { Some(Ok(x)) => Some(Ok(x)), Some(Err(e)) => { (self.f)(&e); Some(Err(e)) } None => None }
    }
}
pub fn futures_util__stream__try_stream__TryStreamExt__inspect_err<S, F>(s: S, f: F) -> SInspectErr<S, F> { SInspectErr { s, f } }
pub struct SInspectOk<S, F> { s: S, f: F }
impl<S: MStream<Item = Result<T, E>>, T, E, F: FnMut(&T)> MStream for SInspectOk<S, F> {
    type Item = Result<T, E>;
    async fn mnext(&mut self) -> Option<Result<T, E>> {
        match m_next(&mut self.s).await { Some(Err(e)) => Some(Err(e)), Some(Ok(x)) => { (self.f)(&x); Some(Ok(x)) } None => None }
    }
}
pub fn futures_util__stream__try_stream__TryStreamExt__inspect_ok<S, F>(s: S, f: F) -> SInspectOk<S, F> { SInspectOk { s, f } }

// ---------------------------------------------------------------- sinks
pub async fn futures_util__sink__SinkExt__send_all<K, S: MStream<Item = Result<T, E>>, T, E>(k: &mut K, s: &mut S) -> Result<(), E> {
    while let Some(r) = m_next(s).await {
        match r { Ok(x) => match m_sink_send::<K, T, E>(k, x).await { Ok(()) => (), Err(e) => return Err(e) }, Err(e) => return Err(e) }
    }
    Ok(())
}
pub async fn m_sink_send<K, T, E>(k: &mut K, x: T) -> Result<(), E> { loop {} }
pub async fn futures_util__stream__stream__StreamExt__forward<S: MStream<Item = Result<T, E>>, K, T, E>(mut s: S, mut k: K) -> Result<(), E> {
    while let Some(r) = m_next(&mut s).await {
        match r { Ok(x) => match m_sink_send::<K, T, E>(&mut k, x).await { Ok(()) => (), Err(e) => return Err(e) }, Err(e) => return Err(e) }
    }
    Ok(())
}

// ---------------------------------------------------------------- tokio
pub async fn tokio__time__timeout__timeout<F: Future>(d: std::time::Duration, f: F) -> Result<F::Output, ()> {
    if m_nondet() { Ok(f.await) } else { drop(f); Err(()) }
}
