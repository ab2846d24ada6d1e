//! `Chunk` and `RingBuffer` behind one object-safe interface, so that the
//! interpreter is compiled once per element type rather than once per capacity.

use crate::core::*;
use sized_chunks::ring_buffer::{Array, ArrayMut, HasLength, RingBuffer, Slice, SliceMut};
use sized_chunks::Chunk;
use std::any::Any;
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::iter::FromIterator;
use std::ops::Bound;

pub type Rg = (Bound<usize>, Bound<usize>);

/// Iteration, including the methods that consume the iterator or can't be
/// called through a trait object: a boxed `dyn Iterator` would replace them by
/// the default ones.
pub trait Fwd<T>: Iterator<Item = T> {
    fn count_b(self: Box<Self>) -> usize;
    fn last_b(self: Box<Self>) -> Option<T>;
    fn fold_b(self: Box<Self>, f: &mut dyn FnMut(T));
    fn collect_b(self: Box<Self>) -> Vec<T>;
    fn step_b(self: Box<Self>, n: usize) -> Vec<T>;
    fn each_b(self: Box<Self>, f: &mut dyn FnMut(T));
    fn any_b(&mut self, f: &mut dyn FnMut(T));
    fn find_map_b(&mut self, f: &mut dyn FnMut(T));
    fn position_b(&mut self, f: &mut dyn FnMut(T));
    fn forget_b(self: Box<Self>);
}
impl<T, I: Iterator<Item = T>> Fwd<T> for I {
    fn count_b(self: Box<Self>) -> usize {
        (*self).count()
    }
    fn last_b(self: Box<Self>) -> Option<T> {
        (*self).last()
    }
    fn fold_b(self: Box<Self>, f: &mut dyn FnMut(T)) {
        (*self).fold((), |_, x| f(x))
    }
    fn collect_b(self: Box<Self>) -> Vec<T> {
        (*self).collect()
    }
    fn step_b(self: Box<Self>, n: usize) -> Vec<T> {
        (*self).step_by(n).collect()
    }
    fn each_b(self: Box<Self>, f: &mut dyn FnMut(T)) {
        (*self).for_each(f)
    }
    fn any_b(&mut self, f: &mut dyn FnMut(T)) {
        let found = self.any(|x| {
            f(x);
            false
        });
        assert!(!found, "any found what nothing matches");
    }
    fn find_map_b(&mut self, f: &mut dyn FnMut(T)) {
        let found: Option<()> = self.find_map(|x| {
            f(x);
            None
        });
        assert!(found.is_none(), "find_map found what nothing matches");
    }
    fn position_b(&mut self, f: &mut dyn FnMut(T)) {
        let found = self.position(|x| {
            f(x);
            false
        });
        assert!(found.is_none(), "position found what nothing matches");
    }
    fn forget_b(self: Box<Self>) {
        std::mem::forget(*self)
    }
}

/// Double-ended iteration.
pub trait Dei<T>: DoubleEndedIterator<Item = T> + ExactSizeIterator + Fwd<T> {
    fn rfold_b(self: Box<Self>, f: &mut dyn FnMut(T));
    fn rposition_b(&mut self, f: &mut dyn FnMut(T));
}
impl<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator> Dei<T> for I {
    fn rfold_b(self: Box<Self>, f: &mut dyn FnMut(T)) {
        (*self).rfold((), |_, x| f(x))
    }
    fn rposition_b(&mut self, f: &mut dyn FnMut(T)) {
        let found = self.rposition(|x| {
            f(x);
            false
        });
        assert!(found.is_none(), "rposition found what nothing matches");
    }
}

/// An iterator that may announce any length: `ann.0` when first asked, `ann.1`
/// afterwards.
pub struct LyIter<E> {
    pub items: std::vec::IntoIter<E>,
    pub ann: (usize, usize),
    pub asked: Cell<u32>,
    pub pulled: *const Cell<usize>,
}
impl<E> LyIter<E> {
    fn announce(&self) -> usize {
        let n = self.asked.get();
        self.asked.set(n + 1);
        if n == 0 {
            self.ann.0
        } else {
            self.ann.1
        }
    }
}
impl<E> Iterator for LyIter<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        tick(Tick::Next);
        let r = self.items.next();
        if r.is_some() && !self.pulled.is_null() {
            let c = unsafe { &*self.pulled };
            c.set(c.get() + 1);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let a = self.announce();
        (a, Some(a))
    }
}
impl<E> ExactSizeIterator for LyIter<E> {
    fn len(&self) -> usize {
        self.announce()
    }
}

/// As `LyIter`, with bounds of the length, if any, that may be wrong.
pub struct PlainIter<'a, E> {
    pub items: std::vec::IntoIter<E>,
    pub pulled: &'a Cell<usize>,
    pub hint: (usize, Option<usize>),
}
impl<'a, E> Iterator for PlainIter<'a, E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        tick(Tick::Next);
        let r = self.items.next();
        if r.is_some() {
            self.pulled.set(self.pulled.get() + 1);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let gone = self.pulled.get();
        (self.hint.0.saturating_sub(gone), self.hint.1.map(|h| h.saturating_sub(gone)))
    }
}

/// How many kinds of bounds `hint` knows, the first `HONEST` of them right.
pub const HINTS: usize = 13;
pub const HONEST: usize = 5;

/// Bounds that an iterator of `n` items may give.
pub fn hint(kind: usize, n: usize, room: usize, cap: usize) -> (usize, Option<usize>) {
    let (lo, hi) = match kind {
        0 => return (0, None),
        1 => (n, n),
        2 => (n / 2, n + 7),
        3 => (0, n),
        4 => return (n, None),
        5 => (0, 0),
        6 => (room, room),
        7 => (n.saturating_sub(1), n.saturating_sub(1)),
        8 => (n + 1, n + 1),
        9 => (usize::MAX, usize::MAX),
        10 => return (usize::MAX, None),
        11 => (n + 3, n.saturating_sub(1)),
        _ => (cap.saturating_add(1), cap.saturating_add(1)),
    };
    (lo, Some(hi))
}

pub type SB<E> = Box<dyn SeqC<E>>;

/// What the comparisons between two operands gave.
#[derive(PartialEq, Eq, Debug, Clone)]
pub struct Rel {
    pub eq: Vec<bool>,
    pub ne: Vec<bool>,
    pub cmp: Vec<Ordering>,
    pub pcmp: Vec<Option<Ordering>>,
    pub rel: Vec<[bool; 4]>,
    pub hash_l: Vec<u64>,
    pub hash_r: Vec<u64>,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.0
}
/// A hasher that notices every byte and every call boundary it is given.
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        self.0 = (self.0 ^ 0x100 ^ (b.len() as u64) << 9).wrapping_mul(0x100_0000_01b3);
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

/// A `Slice` or a `SliceMut`.
pub trait Sl<'a, E: Elem> {
    fn mutable(&self) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, i: usize) -> Option<&E>;
    fn index(&self, i: usize) -> &E;
    fn first(&self) -> Option<&E>;
    fn last(&self) -> Option<&E>;
    fn iter(&self) -> Box<dyn Dei<&E> + '_>;
    fn iter_ref(&self) -> Box<dyn Dei<&E> + '_>;
    fn get_unchecked(&self, i: usize) -> &E;
    fn slice(self: Box<Self>, r: Rg) -> Box<dyn Sl<'a, E> + 'a>;
    fn split_at(self: Box<Self>, i: usize) -> (Box<dyn Sl<'a, E> + 'a>, Box<dyn Sl<'a, E> + 'a>);
    fn dup(&self) -> Option<Box<dyn Sl<'a, E> + 'a>>;
    fn to_owned(&self) -> SB<E>;
    fn eq_slice(&self, s: &[E]) -> bool;
    fn eq_vec(&self, s: &Vec<E>) -> bool;
    fn hash(&self) -> u64;
    fn debug(&self) -> String;
    fn pretty(&self) -> String;
    fn contains(&self, e: &E) -> bool;
    fn binary_search(&self, e: &E) -> Result<usize, usize>;
    fn binary_search_by_key(&self, k: u32) -> Result<usize, usize>;
    fn binary_search_by(&self, k: u32) -> Result<usize, usize>;
    fn is_sorted(&self) -> bool;
    fn is_sorted_by(&self) -> bool;
    fn is_sorted_by_key(&self) -> bool;
    fn starts_with(&self, s: &[E]) -> bool;
    fn ends_with(&self, s: &[E]) -> bool;
    fn unmut(self: Box<Self>) -> Box<dyn Sl<'a, E> + 'a>;
    fn get_mut(&mut self, i: usize) -> Option<&mut E>;
    fn index_mut(&mut self, i: usize) -> &mut E;
    fn first_mut(&mut self) -> Option<&mut E>;
    fn last_mut(&mut self) -> Option<&mut E>;
    fn set(&mut self, i: usize, e: E) -> Option<E>;
    fn iter_mut(&mut self) -> Box<dyn Dei<&mut E> + '_>;
    /// By `IntoIterator for &mut SliceMut`.
    fn each_mut(self: Box<Self>, f: &mut dyn FnMut(&mut E), back: bool);
    fn get_unchecked_mut(&mut self, i: usize) -> &mut E;
    fn swap(&mut self, i: usize, j: usize);
    fn map_pair(&mut self, i: usize, j: usize, f: &mut dyn FnMut(&mut E, &mut E));
    fn sort(&mut self, how: usize);
}

macro_rules! sl_common {
    ($a:lifetime) => {
        fn len(&self) -> usize {
            HasLength::len(self)
        }
        fn is_empty(&self) -> bool {
            HasLength::is_empty(self)
        }
        fn get(&self, i: usize) -> Option<&E> {
            Array::get(self, i)
        }
        fn index(&self, i: usize) -> &E {
            &self[i]
        }
        fn first(&self) -> Option<&E> {
            Array::first(self)
        }
        fn last(&self) -> Option<&E> {
            Array::last(self)
        }
        fn iter(&self) -> Box<dyn Dei<&E> + '_> {
            Box::new(self.iter())
        }
        fn iter_ref(&self) -> Box<dyn Dei<&E> + '_> {
            Box::new(IntoIterator::into_iter(self))
        }
        fn get_unchecked(&self, i: usize) -> &E {
            unsafe { self.get_unchecked(i) }
        }
        fn slice(self: Box<Self>, r: Rg) -> Box<dyn Sl<$a, E> + $a> {
            Box::new((*self).slice(r))
        }
        fn split_at(self: Box<Self>, i: usize) -> (Box<dyn Sl<$a, E> + $a>, Box<dyn Sl<$a, E> + $a>) {
            let (l, r) = (*self).split_at(i);
            (Box::new(l), Box::new(r))
        }
        fn to_owned(&self) -> SB<E> {
            Guarded::new(self.to_owned())
        }
        fn eq_slice(&self, s: &[E]) -> bool {
            self == &s
        }
        fn eq_vec(&self, s: &Vec<E>) -> bool {
            self == s
        }
        fn hash(&self) -> u64 {
            h64(self)
        }
        fn debug(&self) -> String {
            format!("{:?}", self)
        }
        fn pretty(&self) -> String {
            format!("{:#?}", self)
        }
        fn contains(&self, e: &E) -> bool {
            Array::contains(self, e)
        }
        fn binary_search(&self, e: &E) -> Result<usize, usize> {
            Array::binary_search(self, e)
        }
        fn binary_search_by_key(&self, k: u32) -> Result<usize, usize> {
            Array::binary_search_by_key(self, &k, |e| e.val())
        }
        fn binary_search_by(&self, k: u32) -> Result<usize, usize> {
            Array::binary_search_by(self, |e| e.val().cmp(&k))
        }
        fn is_sorted(&self) -> bool {
            Array::is_sorted(self)
        }
        fn is_sorted_by(&self) -> bool {
            Array::is_sorted_by(self, |a, b| Some(a.val().cmp(&b.val())))
        }
        fn is_sorted_by_key(&self) -> bool {
            Array::is_sorted_by_key(self, |e| e.val())
        }
        fn starts_with(&self, s: &[E]) -> bool {
            Array::starts_with(self, s)
        }
        fn ends_with(&self, s: &[E]) -> bool {
            Array::ends_with(self, s)
        }
    };
}

impl<'a, E: Elem, const N: usize> Sl<'a, E> for Slice<'a, E, N> {
    fn mutable(&self) -> bool {
        false
    }
    sl_common!('a);
    fn dup(&self) -> Option<Box<dyn Sl<'a, E> + 'a>> {
        Some(Box::new(self.clone()))
    }
    fn unmut(self: Box<Self>) -> Box<dyn Sl<'a, E> + 'a> {
        self
    }
    fn get_mut(&mut self, _: usize) -> Option<&mut E> {
        die("not mutable")
    }
    fn index_mut(&mut self, _: usize) -> &mut E {
        die("not mutable")
    }
    fn first_mut(&mut self) -> Option<&mut E> {
        die("not mutable")
    }
    fn last_mut(&mut self) -> Option<&mut E> {
        die("not mutable")
    }
    fn set(&mut self, _: usize, _: E) -> Option<E> {
        die("not mutable")
    }
    fn iter_mut(&mut self) -> Box<dyn Dei<&mut E> + '_> {
        die("not mutable")
    }
    fn each_mut(self: Box<Self>, _: &mut dyn FnMut(&mut E), _: bool) {
        die("not mutable")
    }
    fn get_unchecked_mut(&mut self, _: usize) -> &mut E {
        die("not mutable")
    }
    fn swap(&mut self, _: usize, _: usize) {
        die("not mutable")
    }
    fn map_pair(&mut self, _: usize, _: usize, _: &mut dyn FnMut(&mut E, &mut E)) {
        die("not mutable")
    }
    fn sort(&mut self, _: usize) {
        die("not mutable")
    }
}

impl<'a, E: Elem, const N: usize> Sl<'a, E> for SliceMut<'a, E, N> {
    fn mutable(&self) -> bool {
        true
    }
    sl_common!('a);
    fn dup(&self) -> Option<Box<dyn Sl<'a, E> + 'a>> {
        None
    }
    fn unmut(self: Box<Self>) -> Box<dyn Sl<'a, E> + 'a> {
        if HasLength::len(&*self) % 2 == 0 {
            Box::new((*self).unmut())
        } else {
            Box::new(Into::<Slice<'a, E, N>>::into(*self))
        }
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut E> {
        ArrayMut::get_mut(self, i)
    }
    fn index_mut(&mut self, i: usize) -> &mut E {
        &mut self[i]
    }
    fn first_mut(&mut self) -> Option<&mut E> {
        ArrayMut::first_mut(self)
    }
    fn last_mut(&mut self) -> Option<&mut E> {
        ArrayMut::last_mut(self)
    }
    fn set(&mut self, i: usize, e: E) -> Option<E> {
        ArrayMut::set(self, i, e)
    }
    fn iter_mut(&mut self) -> Box<dyn Dei<&mut E> + '_> {
        Box::new(self.iter_mut())
    }
    fn each_mut(self: Box<Self>, f: &mut dyn FnMut(&mut E), back: bool) {
        let mut w = *self;
        let it = IntoIterator::into_iter(&mut w);
        if back {
            it.rev().for_each(f)
        } else {
            it.for_each(f)
        }
    }
    fn get_unchecked_mut(&mut self, i: usize) -> &mut E {
        unsafe { self.get_unchecked_mut(i) }
    }
    fn swap(&mut self, i: usize, j: usize) {
        ArrayMut::swap(self, i, j)
    }
    fn map_pair(&mut self, i: usize, j: usize, f: &mut dyn FnMut(&mut E, &mut E)) {
        ArrayMut::map_pair(self, i, j, f)
    }
    fn sort(&mut self, how: usize) {
        match how {
            0 => ArrayMut::sort_unstable(self),
            1 => ArrayMut::sort_unstable_by(self, |a, b| b.cmp(a)),
            _ => ArrayMut::sort_unstable_by_key(self, |e| e.val()),
        }
    }
}

pub trait SeqC<E: Elem>: 'static {
    fn ring(&self) -> bool;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn cap(&self) -> usize;
    fn base(&self) -> usize;
    fn size(&self) -> usize;
    fn intact(&self) -> bool;
    /// InlineArray only: whether its place in memory is as it must be.
    fn layout(&self) -> Result<(), String> {
        Ok(())
    }

    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_full(&self) -> bool;
    fn push_back(&mut self, e: E);
    fn push_front(&mut self, e: E);
    fn pop_back(&mut self) -> Option<E>;
    fn pop_front(&mut self) -> Option<E>;
    fn insert(&mut self, i: usize, e: E);
    fn insert_ordered(&mut self, e: E);
    fn remove(&mut self, i: usize) -> Option<E>;
    fn set(&mut self, i: usize, e: E) -> Option<E>;
    fn drop_left(&mut self, i: usize);
    fn drop_right(&mut self, i: usize);
    fn clear(&mut self);
    fn split_off(&mut self, i: usize) -> SB<E>;
    fn append(&mut self, o: &mut dyn SeqC<E>);
    fn drain_from_front(&mut self, o: &mut dyn SeqC<E>, n: usize);
    fn drain_from_back(&mut self, o: &mut dyn SeqC<E>, n: usize);
    fn take_front(&mut self, n: usize) -> SB<E>;
    fn take_back(&mut self, n: usize) -> SB<E>;
    fn take_all(&mut self) -> SB<E>;
    fn insert_from(&mut self, i: usize, it: LyIter<E>);
    fn extend(&mut self, it: PlainIter<'_, E>);
    fn extend_vec(&mut self, v: Vec<E>);

    fn new_like(&self, default: bool) -> SB<E>;
    fn unit_like(&self, e: E) -> SB<E>;
    fn pair_like(&self, a: E, b: E) -> SB<E>;
    fn from_iter_like(&self, it: PlainIter<'_, E>) -> SB<E>;
    fn collect_from_like(&self, it: &mut PlainIter<'_, E>, n: usize) -> SB<E>;

    fn clone_c(&self) -> SB<E>;
    fn clone_from_c(&mut self, o: &dyn SeqC<E>);
    fn moved(self: Box<Self>) -> SB<E>;

    fn iter(&self) -> Box<dyn Dei<&E> + '_>;
    fn iter_ref(&self) -> Box<dyn Dei<&E> + '_>;
    fn iter_mut(&mut self) -> Box<dyn Dei<&mut E> + '_>;
    fn iter_mut_ref(&mut self) -> Box<dyn Dei<&mut E> + '_>;
    fn drain(&mut self) -> Box<dyn Dei<E> + '_>;
    fn into_iter(self: Box<Self>) -> Box<dyn Dei<E>>;

    fn get(&self, i: usize) -> Option<&E>;
    fn get_mut(&mut self, i: usize) -> Option<&mut E>;
    fn get_unchecked(&self, i: usize) -> &E;
    fn get_unchecked_mut(&mut self, i: usize) -> &mut E;
    fn index(&self, i: usize) -> &E;
    fn index_mut(&mut self, i: usize) -> &mut E;
    fn first(&self) -> Option<&E>;
    fn last(&self) -> Option<&E>;
    fn first_mut(&mut self) -> Option<&mut E>;
    fn last_mut(&mut self) -> Option<&mut E>;
    fn contains(&self, e: &E) -> bool;
    fn binary_search(&self, e: &E) -> Result<usize, usize>;
    fn binary_search_by_key(&self, k: u32) -> Result<usize, usize>;
    fn is_sorted(&self) -> bool;
    fn starts_with(&self, s: &[E]) -> bool;
    fn ends_with(&self, s: &[E]) -> bool;
    fn swap(&mut self, i: usize, j: usize);
    /// RingBuffer only.
    fn map_pair(&mut self, i: usize, j: usize, f: &mut dyn FnMut(&mut E, &mut E));
    fn sort(&mut self, how: usize);

    /// The contiguous views, where there are any.
    fn view(&self, which: usize) -> Option<&[E]>;
    fn view_mut(&mut self, which: usize) -> Option<&mut [E]>;
    fn index_range(&self, a: usize, b: usize, form: usize) -> Option<&[E]>;
    fn index_range_mut(&mut self, a: usize, b: usize, form: usize) -> Option<&mut [E]>;

    fn rel(&self, o: &dyn SeqC<E>) -> Rel;
    fn eq_slice(&self, s: &[E]) -> bool;
    fn eq_vec(&self, s: &Vec<E>) -> bool;
    fn hash(&self) -> u64;
    fn debug(&self, pretty: bool) -> String;

    // RingBuffer only.
    fn slice(&self, r: Rg) -> Box<dyn Sl<'_, E> + '_>;
    fn slice_mut(&mut self, r: Rg) -> Box<dyn Sl<'_, E> + '_>;
    fn slice_whole(&self) -> Box<dyn Sl<'_, E> + '_>;
    fn slice_mut_whole(&mut self) -> Box<dyn Sl<'_, E> + '_>;
    fn slice_rel(&self, r: Rg, o: &dyn SeqC<E>, p: Rg) -> Rel;
    fn slice_rel_mut(&mut self, r: Rg, o: &mut dyn SeqC<E>, p: Rg) -> Rel;
}

pub const VIEWS: usize = 5;

pub fn peer<E: Elem, C: 'static>(o: &dyn SeqC<E>) -> &C {
    &o.any().downcast_ref::<Guarded<C>>().unwrap_or_else(|| die("operands of different types")).c
}
pub fn peer_mut<E: Elem, C: 'static>(o: &mut dyn SeqC<E>) -> &mut C {
    &mut o.any_mut().downcast_mut::<Guarded<C>>().unwrap_or_else(|| die("operands of different types")).c
}

fn relate<A, B>(r: &mut Rel, a: &A, b: &B)
where
    A: PartialEq<B> + Hash,
    B: PartialEq<A> + Hash,
{
    r.eq.push(a == b);
    r.eq.push(b == a);
    r.ne.push(a != b);
    r.ne.push(b != a);
    r.hash_l.push(h64(a));
    r.hash_r.push(h64(b));
}
pub fn order<A: Ord>(r: &mut Rel, a: &A, b: &A) {
    r.cmp.push(a.cmp(b));
    r.pcmp.push(a.partial_cmp(b));
    r.rel.push([a < b, a <= b, a > b, a >= b]);
}
pub fn empty_rel() -> Rel {
    Rel { eq: vec![], ne: vec![], cmp: vec![], pcmp: vec![], rel: vec![], hash_l: vec![], hash_r: vec![] }
}

macro_rules! seq_common {
    ($C:ident) => {
        fn any(&self) -> &dyn Any {
            self
        }
        fn any_mut(&mut self) -> &mut dyn Any {
            self
        }
        fn cap(&self) -> usize {
            $C::<E, N>::CAPACITY
        }
        fn base(&self) -> usize {
            &self.c as *const _ as usize
        }
        fn size(&self) -> usize {
            std::mem::size_of::<$C<E, N>>()
        }
        fn intact(&self) -> bool {
            Guarded::intact(self)
        }
        fn len(&self) -> usize {
            self.c.len()
        }
        fn is_empty(&self) -> bool {
            self.c.is_empty()
        }
        fn is_full(&self) -> bool {
            self.c.is_full()
        }
        fn push_back(&mut self, e: E) {
            self.c.push_back(e)
        }
        fn push_front(&mut self, e: E) {
            self.c.push_front(e)
        }
        fn insert(&mut self, i: usize, e: E) {
            self.c.insert(i, e)
        }
        fn insert_ordered(&mut self, e: E) {
            self.c.insert_ordered(e)
        }
        fn remove(&mut self, i: usize) -> Option<E> {
            Some(self.c.remove(i))
        }
        fn drop_left(&mut self, i: usize) {
            self.c.drop_left(i)
        }
        fn drop_right(&mut self, i: usize) {
            self.c.drop_right(i)
        }
        fn clear(&mut self) {
            self.c.clear()
        }
        fn split_off(&mut self, i: usize) -> SB<E> {
            Guarded::new(self.c.split_off(i))
        }
        fn append(&mut self, o: &mut dyn SeqC<E>) {
            self.c.append(peer_mut(o))
        }
        fn drain_from_front(&mut self, o: &mut dyn SeqC<E>, n: usize) {
            self.c.drain_from_front(peer_mut(o), n)
        }
        fn drain_from_back(&mut self, o: &mut dyn SeqC<E>, n: usize) {
            self.c.drain_from_back(peer_mut(o), n)
        }
        fn take_front(&mut self, n: usize) -> SB<E> {
            Guarded::new($C::<E, N>::from_front(&mut self.c, n))
        }
        fn take_back(&mut self, n: usize) -> SB<E> {
            Guarded::new($C::<E, N>::from_back(&mut self.c, n))
        }
        fn take_all(&mut self) -> SB<E> {
            Guarded::new($C::<E, N>::drain_from(&mut self.c))
        }
        fn insert_from(&mut self, i: usize, it: LyIter<E>) {
            self.c.insert_from(i, it)
        }
        fn extend(&mut self, it: PlainIter<'_, E>) {
            Extend::extend(&mut self.c, it)
        }
        fn extend_vec(&mut self, v: Vec<E>) {
            Extend::extend(&mut self.c, v)
        }
        fn new_like(&self, default: bool) -> SB<E> {
            Guarded::new(if default { $C::<E, N>::default() } else { $C::<E, N>::new() })
        }
        fn unit_like(&self, e: E) -> SB<E> {
            Guarded::new($C::<E, N>::unit(e))
        }
        fn pair_like(&self, a: E, b: E) -> SB<E> {
            Guarded::new($C::<E, N>::pair(a, b))
        }
        fn from_iter_like(&self, it: PlainIter<'_, E>) -> SB<E> {
            Guarded::new($C::<E, N>::from_iter(it))
        }
        fn collect_from_like(&self, it: &mut PlainIter<'_, E>, n: usize) -> SB<E> {
            Guarded::new($C::<E, N>::collect_from(it, n))
        }
        fn clone_c(&self) -> SB<E> {
            Guarded::new(self.c.clone())
        }
        fn clone_from_c(&mut self, o: &dyn SeqC<E>) {
            self.c.clone_from(peer(o))
        }
        fn moved(self: Box<Self>) -> SB<E> {
            // Through another stack slot and into another allocation.
            let c = guarded_into(self);
            let v = vec![c];
            let c = v.into_iter().next().unwrap();
            Guarded::new(c)
        }
        fn iter(&self) -> Box<dyn Dei<&E> + '_> {
            Box::new(self.c.iter())
        }
        fn iter_ref(&self) -> Box<dyn Dei<&E> + '_> {
            Box::new((&self.c).into_iter())
        }
        fn iter_mut(&mut self) -> Box<dyn Dei<&mut E> + '_> {
            Box::new(self.c.iter_mut())
        }
        fn iter_mut_ref(&mut self) -> Box<dyn Dei<&mut E> + '_> {
            Box::new((&mut self.c).into_iter())
        }
        fn drain(&mut self) -> Box<dyn Dei<E> + '_> {
            Box::new(self.c.drain())
        }
        fn into_iter(self: Box<Self>) -> Box<dyn Dei<E>> {
            Box::new(guarded_into(self).into_iter())
        }
        fn get(&self, i: usize) -> Option<&E> {
            self.c.get(i)
        }
        fn get_mut(&mut self, i: usize) -> Option<&mut E> {
            self.c.get_mut(i)
        }
        fn get_unchecked(&self, i: usize) -> &E {
            unsafe { self.c.get_unchecked(i) }
        }
        fn get_unchecked_mut(&mut self, i: usize) -> &mut E {
            unsafe { self.c.get_unchecked_mut(i) }
        }
        fn index(&self, i: usize) -> &E {
            &self.c[i]
        }
        fn index_mut(&mut self, i: usize) -> &mut E {
            &mut self.c[i]
        }
        fn first(&self) -> Option<&E> {
            self.c.first()
        }
        fn last(&self) -> Option<&E> {
            self.c.last()
        }
        fn first_mut(&mut self) -> Option<&mut E> {
            self.c.first_mut()
        }
        fn last_mut(&mut self) -> Option<&mut E> {
            self.c.last_mut()
        }
        fn contains(&self, e: &E) -> bool {
            self.c.contains(e)
        }
        fn binary_search(&self, e: &E) -> Result<usize, usize> {
            self.c.binary_search(e)
        }
        fn binary_search_by_key(&self, k: u32) -> Result<usize, usize> {
            self.c.binary_search_by_key(&k, |e| e.val())
        }
        fn starts_with(&self, s: &[E]) -> bool {
            self.c.starts_with(s)
        }
        fn ends_with(&self, s: &[E]) -> bool {
            self.c.ends_with(s)
        }
        fn swap(&mut self, i: usize, j: usize) {
            self.c.swap(i, j)
        }
        fn sort(&mut self, how: usize) {
            match how {
                0 => self.c.sort_unstable(),
                1 => self.c.sort_unstable_by(|a, b| b.cmp(a)),
                _ => self.c.sort_unstable_by_key(|e| e.val()),
            }
        }
        fn eq_slice(&self, s: &[E]) -> bool {
            self.c == s
        }
        fn eq_vec(&self, s: &Vec<E>) -> bool {
            self.c == *s
        }
        fn hash(&self) -> u64 {
            h64(&self.c)
        }
        fn debug(&self, pretty: bool) -> String {
            if pretty {
                format!("{:#?}", self.c)
            } else {
                format!("{:?}", self.c)
            }
        }
    };
}

impl<E: Elem, const N: usize> SeqC<E> for Guarded<Chunk<E, N>> {
    fn ring(&self) -> bool {
        false
    }
    fn map_pair(&mut self, _: usize, _: usize, _: &mut dyn FnMut(&mut E, &mut E)) {
        die("not a ring buffer")
    }
    seq_common!(Chunk);
    fn pop_back(&mut self) -> Option<E> {
        Some(self.c.pop_back())
    }
    fn pop_front(&mut self) -> Option<E> {
        Some(self.c.pop_front())
    }
    fn set(&mut self, i: usize, e: E) -> Option<E> {
        Some(self.c.set(i, e))
    }
    fn is_sorted(&self) -> bool {
        self.c.is_sorted()
    }
    fn view(&self, which: usize) -> Option<&[E]> {
        Some(match which {
            0 => self.c.as_slice(),
            1 => &*self.c,
            2 => AsRef::<[E]>::as_ref(&self.c),
            3 => Borrow::<[E]>::borrow(&self.c),
            _ => &self.c[..],
        })
    }
    fn view_mut(&mut self, which: usize) -> Option<&mut [E]> {
        Some(match which {
            0 => self.c.as_mut_slice(),
            1 => &mut *self.c,
            2 => AsMut::<[E]>::as_mut(&mut self.c),
            3 => BorrowMut::<[E]>::borrow_mut(&mut self.c),
            _ => &mut self.c[..],
        })
    }
    fn index_range(&self, a: usize, b: usize, form: usize) -> Option<&[E]> {
        Some(match form {
            0 => &self.c[a..b],
            1 => &self.c[a..],
            2 => &self.c[..b],
            _ => &self.c[a..=b],
        })
    }
    fn index_range_mut(&mut self, a: usize, b: usize, form: usize) -> Option<&mut [E]> {
        Some(match form {
            0 => &mut self.c[a..b],
            1 => &mut self.c[a..],
            2 => &mut self.c[..b],
            _ => &mut self.c[a..=b],
        })
    }
    fn rel(&self, o: &dyn SeqC<E>) -> Rel {
        let o: &Chunk<E, N> = peer(o);
        let mut r = empty_rel();
        // `Slice: Borrow<[A]>`: another chunk, a slice reference, a vector-like.
        r.eq.push(self.c == *o);
        r.ne.push(self.c != *o);
        let s: &[E] = o;
        r.eq.push(self.c == s);
        r.ne.push(self.c != s);
        order(&mut r, &self.c, o);
        r.hash_l.push(h64(&self.c));
        r.hash_l.push(h64::<[E]>(Borrow::<[E]>::borrow(&self.c)));
        r.hash_r.push(h64(o));
        r.hash_r.push(h64::<[E]>(Borrow::<[E]>::borrow(o)));
        r
    }
    fn slice(&self, _: Rg) -> Box<dyn Sl<'_, E> + '_> {
        die("not a ring buffer")
    }
    fn slice_mut(&mut self, _: Rg) -> Box<dyn Sl<'_, E> + '_> {
        die("not a ring buffer")
    }
    fn slice_whole(&self) -> Box<dyn Sl<'_, E> + '_> {
        die("not a ring buffer")
    }
    fn slice_mut_whole(&mut self) -> Box<dyn Sl<'_, E> + '_> {
        die("not a ring buffer")
    }
    fn slice_rel(&self, _: Rg, _: &dyn SeqC<E>, _: Rg) -> Rel {
        die("not a ring buffer")
    }
    fn slice_rel_mut(&mut self, _: Rg, _: &mut dyn SeqC<E>, _: Rg) -> Rel {
        die("not a ring buffer")
    }
}

impl<E: Elem, const N: usize> SeqC<E> for Guarded<RingBuffer<E, N>> {
    fn ring(&self) -> bool {
        true
    }
    fn map_pair(&mut self, i: usize, j: usize, f: &mut dyn FnMut(&mut E, &mut E)) {
        ArrayMut::map_pair(&mut self.c, i, j, f)
    }
    seq_common!(RingBuffer);
    fn pop_back(&mut self) -> Option<E> {
        self.c.pop_back()
    }
    fn pop_front(&mut self) -> Option<E> {
        self.c.pop_front()
    }
    fn set(&mut self, i: usize, e: E) -> Option<E> {
        ArrayMut::set(&mut self.c, i, e)
    }
    fn is_sorted(&self) -> bool {
        Array::is_sorted(&self.c)
    }
    fn view(&self, _: usize) -> Option<&[E]> {
        None
    }
    fn view_mut(&mut self, _: usize) -> Option<&mut [E]> {
        None
    }
    fn index_range(&self, _: usize, _: usize, _: usize) -> Option<&[E]> {
        None
    }
    fn index_range_mut(&mut self, _: usize, _: usize, _: usize) -> Option<&mut [E]> {
        None
    }
    fn rel(&self, o: &dyn SeqC<E>) -> Rel {
        let o: &RingBuffer<E, N> = peer(o);
        let mut r = empty_rel();
        relate(&mut r, &self.c, o);
        order(&mut r, &self.c, o);
        r
    }
    fn slice(&self, r: Rg) -> Box<dyn Sl<'_, E> + '_> {
        Box::new(self.c.slice(r))
    }
    fn slice_mut(&mut self, r: Rg) -> Box<dyn Sl<'_, E> + '_> {
        Box::new(self.c.slice_mut(r))
    }
    fn slice_whole(&self) -> Box<dyn Sl<'_, E> + '_> {
        Box::new(Slice::from(&self.c))
    }
    fn slice_mut_whole(&mut self) -> Box<dyn Sl<'_, E> + '_> {
        Box::new(SliceMut::from(&mut self.c))
    }
    fn slice_rel(&self, a: Rg, o: &dyn SeqC<E>, b: Rg) -> Rel {
        let o: &RingBuffer<E, N> = peer(o);
        let mut r = empty_rel();
        let (x, y) = (self.c.slice(a), o.slice(b));
        relate(&mut r, &x, &y);
        order(&mut r, &x, &y);
        // The right-hand side as a buffer of its own.
        let z = y.to_owned();
        r.eq.push(x == z);
        r.eq.push(z == x);
        r.hash_r.push(h64(&z));
        r
    }
    fn slice_rel_mut(&mut self, a: Rg, o: &mut dyn SeqC<E>, b: Rg) -> Rel {
        let o: &mut RingBuffer<E, N> = peer_mut(o);
        let mut r = empty_rel();
        {
            let (x, y) = (self.c.slice_mut(a), o.slice_mut(b));
            relate(&mut r, &x, &y);
            order(&mut r, &x, &y);
        }
        {
            let (x, y) = (self.c.slice_mut(a), o.slice(b));
            relate(&mut r, &x, &y);
        }
        let x = self.c.slice_mut(a);
        let z = o.slice(b).to_owned();
        r.eq.push(x == z);
        r.eq.push(z == x);
        r
    }
}

/// How to make the containers of one configuration.
pub struct Ctor<E: Elem> {
    pub cap: usize,
    pub ring: bool,
    pub new: fn() -> SB<E>,
    /// `Extend<&A>`: needs `Copy` on a `Chunk`.
    pub extend_ref: Option<fn(&mut dyn SeqC<E>, &[E])>,
    /// `io::Write` and `io::Read`, for bytes.
    pub write: Option<fn(&mut dyn SeqC<E>, &[u8]) -> Option<usize>>,
    pub read: Option<fn(&mut dyn SeqC<E>, &mut [u8]) -> Option<usize>>,
    /// Construction in memory filled with a byte.
    pub pool_default: Option<fn(u8) -> SB<E>>,
    pub pool_clone: Option<fn(&dyn SeqC<E>, u8) -> SB<E>>,
    /// An `InlineArray`.
    pub inl: bool,
    pub host: &'static str,
    /// The capacity as far as plans are concerned.
    pub lim: usize,
    /// Conversion to a `Chunk`: of which capacity, by value or not.
    pub to_chunk: Option<fn(&mut dyn SeqC<E>, usize, bool, Vec<E>) -> (Vec<Obs>, Vec<Obs>)>,
}

impl<E: Elem> Clone for Ctor<E> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<E: Elem> Copy for Ctor<E> {}

#[cfg(feature = "extra")]
pub mod pool {
    use super::*;
    use refpool::{PoolClone, PoolDefault};
    use std::mem::MaybeUninit;

    fn poisoned<C>(fill: u8) -> Box<Guarded<MaybeUninit<C>>> {
        let mut b = Guarded::new(MaybeUninit::<C>::uninit());
        // Bytes that were written, as in recycled memory.
        unsafe { std::ptr::write_bytes(b.c.as_mut_ptr() as *mut u8, fill, std::mem::size_of::<C>()) };
        b
    }
    unsafe fn settled<C>(b: Box<Guarded<MaybeUninit<C>>>) -> Box<Guarded<C>> {
        Box::from_raw(Box::into_raw(b) as *mut Guarded<C>)
    }
    pub fn default_in<C: PoolDefault>(fill: u8) -> Box<Guarded<C>> {
        let mut b = poisoned::<C>(fill);
        unsafe {
            C::default_uninit(&mut b.c);
            settled(b)
        }
    }
    pub fn clone_in<C: PoolClone>(c: &C, fill: u8) -> Box<Guarded<C>> {
        let mut b = poisoned::<C>(fill);
        unsafe {
            c.clone_uninit(&mut b.c);
            settled(b)
        }
    }
}

pub fn ctor<E: Elem, const N: usize>(ring: bool) -> Ctor<E> {
    let mut k = Ctor {
        cap: N,
        ring,
        new: || Guarded::new(Chunk::<E, N>::new()),
        extend_ref: None,
        write: None,
        read: None,
        pool_default: None,
        pool_clone: None,
        inl: false,
        host: "",
        lim: if N == usize::MAX { 3 } else if N > 1 << 20 { 12 } else { N },
        to_chunk: None,
    };
    if ring {
        k.new = || Guarded::new(RingBuffer::<E, N>::new());
        k.extend_ref = Some(|c, s| Extend::<&E>::extend(peer_mut::<E, RingBuffer<E, N>>(c), s));
    }
    #[cfg(feature = "extra")]
    {
        if ring {
            k.pool_default = Some(|f| pool::default_in::<RingBuffer<E, N>>(f));
            k.pool_clone = Some(|c, f| pool::clone_in::<RingBuffer<E, N>>(peer(c), f));
        } else {
            k.pool_default = Some(|f| pool::default_in::<Chunk<E, N>>(f));
            k.pool_clone = Some(|c, f| pool::clone_in::<Chunk<E, N>>(peer(c), f));
        }
    }
    k
}

pub fn ctor_copy<E: Elem + Copy, const N: usize>(ring: bool) -> Ctor<E> {
    let mut c = ctor::<E, N>(ring);
    if !ring {
        c.extend_ref = Some(|c, s| Extend::<&E>::extend(peer_mut::<E, Chunk<E, N>>(c), s));
    }
    c
}

pub fn ctor_u8<const N: usize>(ring: bool) -> Ctor<u8> {
    #[allow(unused_mut)]
    let mut c = ctor_copy::<u8, N>(ring);
    #[cfg(feature = "std")]
    {
        use std::io::{Read, Write};
        if ring {
            c.write = Some(|c, b| {
                let c = peer_mut::<u8, RingBuffer<u8, N>>(c);
                let n = c.write(b).ok();
                c.flush().ok().and(n)
            });
            c.read = Some(|c, b| peer_mut::<u8, RingBuffer<u8, N>>(c).read(b).ok());
        } else {
            c.write = Some(|c, b| {
                let c = peer_mut::<u8, Chunk<u8, N>>(c);
                let n = c.write(b).ok();
                c.flush().ok().and(n)
            });
            c.read = Some(|c, b| peer_mut::<u8, Chunk<u8, N>>(c).read(b).ok());
        }
    }
    c
}

/// A fingerprint of a set of indices.
pub fn h_map<'a>(keys: impl Iterator<Item = &'a usize>, seed: usize) -> u64 {
    keys.fold(seed as u64, |a, k| mix(a, *k as u64))
}
