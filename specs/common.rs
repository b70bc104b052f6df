#![allow(dead_code, unused, non_snake_case, non_upper_case_globals)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialOrdSpec;
use std::ops;
use std::cmp::Ordering;
verus! {

// ---- shims the desugaring refers to -------------------------------------------------------
/// `assert!(c)`: never fails.
pub fn vassert(c: bool)
    requires c,
{
}

/// `assert!(c)` where only what holds after it is of interest (the caller is rejected otherwise)
#[verifier::external_body]
pub fn vguard(c: bool)
    ensures c,
{
    assert!(c);
}

/// `panic!` in the same sense
#[verifier::external_body]
pub fn vreject() -> !
{
    panic!()
}

/// `panic!`, `unreachable!`: never reached.
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{
    panic!()
}

/// body of functions whose contract is assumed
#[verifier::external_body]
pub fn vunreachable() -> !
    requires false,
{
    panic!()
}

/// `xs.iter()` / `xs.iter().cloned()` kept as an object: a slice and a position.
pub struct VIter<'a, T> { pub s: &'a [T], pub i: usize }

impl<'a, T> VIter<'a, T> {
    pub open spec fn wf(&self) -> bool { self.i <= self.s@.len() }
    pub open spec fn rest(&self) -> Seq<T> { self.s@.subrange(self.i as int, self.s@.len() as int) }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).s == old(self).s,
            match r {
                Some(x) => old(self).i < old(self).s@.len() && *x == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1,
                None => old(self).i == old(self).s@.len() && final(self).i == old(self).i,
            },
    {
        if self.i < self.s.len() {
            let r = &self.s[self.i];
            self.i = self.i + 1;
            Some(r)
        } else {
            None
        }
    }
}
pub fn slice_iter<'a, T>(s: &'a [T]) -> (r: VIter<'a, T>)
    ensures r.s == s, r.i == 0, r.wf(),
{
    VIter { s, i: 0 }
}

pub struct VIterC<'a, T> { pub s: &'a [T], pub i: usize }

impl<'a, T: Copy> VIterC<'a, T> {
    pub open spec fn wf(&self) -> bool { self.i <= self.s@.len() }
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).s == old(self).s,
            match r {
                Some(x) => old(self).i < old(self).s@.len() && x == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1,
                None => old(self).i == old(self).s@.len() && final(self).i == old(self).i,
            },
    {
        if self.i < self.s.len() {
            let r = self.s[self.i];
            self.i = self.i + 1;
            Some(r)
        } else {
            None
        }
    }
}
pub fn slice_iter_cloned<'a, T: Copy>(s: &'a [T]) -> (r: VIterC<'a, T>)
    ensures r.s == s, r.i == 0, r.wf(),
{
    VIterC { s, i: 0 }
}

/// A lazily evaluated iterator object made of pure adapters, evaluated eagerly.
pub struct VecIter<T> { pub v: Vec<T>, pub i: usize }

impl<T: Copy> VecIter<T> {
    pub open spec fn wf(&self) -> bool { self.i <= self.v@.len() }
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).v@ == old(self).v@,
            match r {
                Some(x) => old(self).i < old(self).v@.len() && x == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1,
                None => old(self).i == old(self).v@.len() && final(self).i == old(self).i,
            },
    {
        if self.i < self.v.len() {
            let r = self.v[self.i];
            self.i = self.i + 1;
            Some(r)
        } else {
            None
        }
    }
}
pub fn vec_iter<T>(v: Vec<T>) -> (r: VecIter<T>)
    ensures r.v@ == v@, r.i == 0,
{
    VecIter { v, i: 0 }
}

} // verus!
fn main() {}
