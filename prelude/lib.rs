//! Plain-loop reference bodies for the standard iterator combinators.  This crate is never run:
//! the analysis driver dumps its MIR and the engine uses these bodies as the meaning of the
//! corresponding `core::iter` items, so that `for`, `fold`, `all`, ... are analysed alike.
#![allow(dead_code, clippy::all)]
use core::cmp::Ordering;
use core::ops::{Add, Mul};

// ---- sources
pub struct SIter<'a, T> { s: &'a [T], a: usize, b: usize }
impl<'a, T> Iterator for SIter<'a, T> {
  type Item = &'a T;
  fn next(&mut self) -> Option<&'a T> {
    if self.a < self.b { let i = self.a; self.a = i + 1; Some(&self.s[i]) } else { None }
  }
}
impl<'a, T> DoubleEndedIterator for SIter<'a, T> {
  fn next_back(&mut self) -> Option<&'a T> {
    if self.a < self.b { self.b = self.b - 1; Some(&self.s[self.b]) } else { None }
  }
}
pub struct MIter<'a, T> { s: &'a mut [T], a: usize, b: usize }
impl<'a, T> Iterator for MIter<'a, T> {
  type Item = &'a mut T;
  fn next(&mut self) -> Option<&'a mut T> {
    if self.a < self.b {
      let i = self.a; self.a = i + 1;
      let p: *mut [T] = self.s;
      Some(unsafe { &mut (*p)[i] })
    } else { None }
  }
}
impl<'a, T> DoubleEndedIterator for MIter<'a, T> {
  fn next_back(&mut self) -> Option<&'a mut T> {
    if self.a < self.b {
      self.b = self.b - 1;
      let i = self.b;
      let p: *mut [T] = self.s;
      Some(unsafe { &mut (*p)[i] })
    } else { None }
  }
}
pub struct VIter<T> { v: Vec<T>, a: usize, b: usize }
impl<T: Copy> Iterator for VIter<T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    if self.a < self.b { let i = self.a; self.a = i + 1; Some(self.v[i]) } else { None }
  }
}
impl<T: Copy> DoubleEndedIterator for VIter<T> {
  fn next_back(&mut self) -> Option<T> {
    if self.a < self.b { self.b = self.b - 1; Some(self.v[self.b]) } else { None }
  }
}
pub struct OIter<T> { o: Option<T> }
impl<T: Copy> Iterator for OIter<T> {
  type Item = T;
  fn next(&mut self) -> Option<T> { let r = self.o; self.o = None; r }
}
impl<T: Copy> DoubleEndedIterator for OIter<T> {
  fn next_back(&mut self) -> Option<T> { let r = self.o; self.o = None; r }
}
pub struct Empty;
impl Iterator for Empty { type Item = (); fn next(&mut self) -> Option<()> { None } }
pub struct FromFn<F> { f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }
pub struct Successors<T, F> { n: Option<T>, f: F }
impl<T: Copy, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    match self.n { None => None, Some(x) => { self.n = (self.f)(&x); Some(x) } }
  }
}
pub struct Repeat<T> { x: T }
impl<T: Copy> Iterator for Repeat<T> { type Item = T; fn next(&mut self) -> Option<T> { Some(self.x) } }

pub fn range_next(r: &mut core::ops::Range<usize>) -> Option<usize> {
  if r.start < r.end { let i = r.start; r.start = i + 1; Some(i) } else { None }
}
pub fn range_next_back(r: &mut core::ops::Range<usize>) -> Option<usize> {
  if r.start < r.end { r.end = r.end - 1; Some(r.end) } else { None }
}
pub struct RangeInc { a: usize, b: usize }
impl Iterator for RangeInc {
  type Item = usize;
  fn next(&mut self) -> Option<usize> { if self.a < self.b { let i = self.a; self.a = i + 1; Some(i) } else { None } }
}
impl DoubleEndedIterator for RangeInc {
  fn next_back(&mut self) -> Option<usize> { if self.a < self.b { self.b = self.b - 1; Some(self.b) } else { None } }
}
pub struct RangeFrom { a: usize }
impl Iterator for RangeFrom {
  type Item = usize;
  fn next(&mut self) -> Option<usize> { let i = self.a; self.a = i + 1; Some(i) }
}
pub struct Windows<'a, T> { s: &'a [T], n: usize, a: usize, b: usize }
impl<'a, T> Iterator for Windows<'a, T> {
  type Item = &'a [T];
  fn next(&mut self) -> Option<&'a [T]> {
    if self.a + self.n <= self.b { let i = self.a; self.a = i + 1; Some(&self.s[i..i + self.n]) } else { None }
  }
}

// ---- adaptors
pub struct Map<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
  type Item = B;
  fn next(&mut self) -> Option<B> { match self.i.next() { None => None, Some(x) => Some((self.f)(x)) } }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
  fn next_back(&mut self) -> Option<B> { match self.i.next_back() { None => None, Some(x) => Some((self.f)(x)) } }
}
pub struct Filter<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    loop { match self.i.next() { None => return None, Some(x) => if (self.f)(&x) { return Some(x); } } }
  }
}
pub struct FilterMap<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
  type Item = B;
  fn next(&mut self) -> Option<B> {
    loop { match self.i.next() { None => return None, Some(x) => { let y = (self.f)(x); if let Some(z) = y { return Some(z); } } } }
  }
}
pub struct TakeWhile<I, F> { i: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    if self.done { return None; }
    match self.i.next() { None => None, Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None } }
  }
}
pub struct SkipWhile<I, F> { i: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    loop {
      match self.i.next() { None => return None, Some(x) => if self.done || !(self.f)(&x) { self.done = true; return Some(x); } }
    }
  }
}
pub struct Copied<I> { i: I }
impl<'a, T: Copy + 'a, I: Iterator<Item = &'a T>> Iterator for Copied<I> {
  type Item = T;
  fn next(&mut self) -> Option<T> { match self.i.next() { None => None, Some(x) => Some(*x) } }
}
impl<'a, T: Copy + 'a, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Copied<I> {
  fn next_back(&mut self) -> Option<T> { match self.i.next_back() { None => None, Some(x) => Some(*x) } }
}
pub struct Enumerate<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Enumerate<I> {
  type Item = (usize, I::Item);
  fn next(&mut self) -> Option<(usize, I::Item)> {
    match self.i.next() { None => None, Some(x) => { let n = self.n; self.n = n + 1; Some((n, x)) } }
  }
}
pub struct Rev<I> { i: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> { self.i.next_back() }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> {
  fn next_back(&mut self) -> Option<I::Item> { self.i.next() }
}
pub struct Zip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
  type Item = (A::Item, B::Item);
  fn next(&mut self) -> Option<(A::Item, B::Item)> {
    match self.a.next() { None => None, Some(x) => match self.b.next() { None => None, Some(y) => Some((x, y)) } }
  }
}
pub struct Chain<A, B> { a: A, b: B, first: bool }
impl<T, A: Iterator<Item = T>, B: Iterator<Item = T>> Iterator for Chain<A, B> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    if self.first {
      match self.a.next() { Some(x) => return Some(x), None => self.first = false }
    }
    self.b.next()
  }
}
pub struct Skip<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    while self.n > 0 { self.n = self.n - 1; if self.i.next().is_none() { return None; } }
    self.i.next()
  }
}
pub struct Take<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Take<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> { if self.n > 0 { self.n = self.n - 1; self.i.next() } else { None } }
}
pub struct StepBy<I> { i: I, n: usize, first: bool }
impl<I: Iterator> Iterator for StepBy<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    if self.first { self.first = false; return self.i.next(); }
    let mut k = self.n - 1;
    while k > 0 { k = k - 1; if self.i.next().is_none() { return None; } }
    self.i.next()
  }
}
pub struct Scan<I, S, F> { i: I, s: S, f: F }
impl<B, I: Iterator, S, F: FnMut(&mut S, I::Item) -> Option<B>> Iterator for Scan<I, S, F> {
  type Item = B;
  fn next(&mut self) -> Option<B> { match self.i.next() { None => None, Some(x) => (self.f)(&mut self.s, x) } }
}
pub struct FlatMap<I, U, F> { i: I, f: F, cur: Option<U> }
impl<U: Iterator, I: Iterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, U, F> {
  type Item = U::Item;
  fn next(&mut self) -> Option<U::Item> {
    loop {
      if let Some(c) = &mut self.cur {
        match c.next() { Some(x) => return Some(x), None => self.cur = None }
      }
      match self.i.next() { None => return None, Some(y) => self.cur = Some((self.f)(y)) }
    }
  }
}
pub struct Peekable<I: Iterator> { i: I, p: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    match self.p.take() { Some(x) => x, None => self.i.next() }
  }
}
pub struct Inspect<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> { match self.i.next() { None => None, Some(x) => { (self.f)(&x); Some(x) } } }
}
// `by_ref` / `&mut I`
pub fn mutref_next<I: Iterator>(i: &mut &mut I) -> Option<I::Item> { (**i).next() }

// ---- consumers
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  while let Some(x) = it.next() { if !f(x) { return false; } }
  true
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  while let Some(x) = it.next() { if f(x) { return true; } }
  false
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
  while let Some(x) = it.next() { if f(&x) { return Some(x); } }
  None
}
pub fn find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
  while let Some(x) = it.next() { let y = f(x); if let Some(z) = y { return Some(z); } }
  None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
  let mut n = 0usize;
  while let Some(x) = it.next() { if f(x) { return Some(n); } n = n + 1; }
  None
}
pub fn fold<B, I: Iterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
  let mut acc = init;
  while let Some(x) = it.next() { acc = f(acc, x); }
  acc
}
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut acc = match it.next() { None => return None, Some(x) => x };
  while let Some(x) = it.next() { acc = f(acc, x); }
  Some(acc)
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
  while let Some(x) = it.next() { f(x); }
}
pub fn count<I: Iterator>(mut it: I) -> usize {
  let mut n = 0usize;
  while let Some(_) = it.next() { n = n + 1; }
  n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
  let mut l = None;
  while let Some(x) = it.next() { l = Some(x); }
  l
}
pub fn nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
  while n > 0 { n = n - 1; if it.next().is_none() { return None; } }
  it.next()
}
pub fn sum<T: Add<Output = T>, I: Iterator<Item = T>>(mut it: I, zero: T) -> T {
  let mut acc = zero;
  while let Some(x) = it.next() { acc = acc + x; }
  acc
}
pub fn product<T: Mul<Output = T>, I: Iterator<Item = T>>(mut it: I, one: T) -> T {
  let mut acc = one;
  while let Some(x) = it.next() { acc = acc * x; }
  acc
}
pub fn min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut acc = match it.next() { None => return None, Some(x) => x };
  while let Some(x) = it.next() { if let Ordering::Greater = f(&acc, &x) { acc = x; } }
  Some(acc)
}
pub fn max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut acc = match it.next() { None => return None, Some(x) => x };
  while let Some(x) = it.next() { match f(&acc, &x) { Ordering::Greater => {} _ => acc = x } }
  Some(acc)
}
pub fn min<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
  let mut acc = match it.next() { None => return None, Some(x) => x };
  while let Some(x) = it.next() { if let Ordering::Greater = acc.cmp(&x) { acc = x; } }
  Some(acc)
}
pub fn max<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
  let mut acc = match it.next() { None => return None, Some(x) => x };
  while let Some(x) = it.next() { match acc.cmp(&x) { Ordering::Greater => {} _ => acc = x } }
  Some(acc)
}
pub fn min_by_key<K: Ord, I: Iterator, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut acc = match it.next() { None => return None, Some(x) => x };
  while let Some(x) = it.next() { if let Ordering::Greater = f(&acc).cmp(&f(&x)) { acc = x; } }
  Some(acc)
}
pub fn max_by_key<K: Ord, I: Iterator, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut acc = match it.next() { None => return None, Some(x) => x };
  while let Some(x) = it.next() { match f(&acc).cmp(&f(&x)) { Ordering::Greater => {} _ => acc = x } }
  Some(acc)
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
  let mut v = Vec::new();
  while let Some(x) = it.next() { v.push(x); }
  v
}
pub fn collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
  let mut v = Vec::new();
  while let Some(x) = it.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } }
  Ok(v)
}
pub fn collect_option<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
  let mut v = Vec::new();
  while let Some(x) = it.next() { match x { Some(y) => v.push(y), None => return None } }
  Some(v)
}
pub fn extend_vec<I: Iterator>(v: &mut Vec<I::Item>, mut it: I) {
  while let Some(x) = it.next() { v.push(x); }
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
  let mut i = 0usize;
  while i < s.len() { if s[i] == *x { return true; } i = i + 1; }
  false
}
