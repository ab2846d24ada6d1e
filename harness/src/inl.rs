//! `InlineArray` behind the interface of the sequence interpreter.

use crate::core::*;
use crate::seq::CHUNKS;
use crate::seqc::*;
use sized_chunks::{Chunk, InlineArray};
use std::any::Any;
use std::borrow::{Borrow, BorrowMut};
use std::iter::FromIterator;
use std::mem::{align_of, size_of};

type IA<E, T> = InlineArray<E, T>;

/// How many elements must fit, worked out from the documentation alone.
pub fn expected_capacity<E, T>() -> usize {
    let word = size_of::<usize>();
    if size_of::<E>() == 0 {
        usize::MAX
    } else if align_of::<E>() > align_of::<T>().max(word) || size_of::<T>() < word {
        0
    } else {
        (size_of::<T>() - word) / size_of::<E>()
    }
}

/// Size, alignment, capacity and addresses.
pub fn layout<E, T>(c: &IA<E, T>) -> Result<(), String> {
    let word = size_of::<usize>();
    let align = align_of::<T>().max(word);
    let size = (size_of::<T>() + align - 1) / align * align;
    let (got, host) = (size_of::<IA<E, T>>(), size_of::<T>());
    if got != size || (align_of::<T>() >= word && got != host) {
        return Err(format!("the array takes {} bytes, the host {}", got, host));
    }
    if align_of::<IA<E, T>>() < align {
        return Err("the array is less aligned than its host or its counter".into());
    }
    let cap = expected_capacity::<E, T>();
    if IA::<E, T>::CAPACITY != cap {
        return Err(format!("CAPACITY is {} rather than {}", IA::<E, T>::CAPACITY, cap));
    }
    let base = c as *const _ as usize;
    let s: &[E] = c;
    let p = s.as_ptr() as usize;
    if p % align_of::<E>() != 0 {
        return Err("the elements are misaligned".into());
    }
    let e = size_of::<E>();
    if s.is_empty() || e == 0 {
        return Ok(());
    }
    if p < base || p + s.len() * e > base + got {
        return Err("elements lie outside the array".into());
    }
    // Room for the counter beside the full complement of elements.
    if p - base < word && base + got < p + cap * e + word {
        return Err("no room for the counter beside the elements".into());
    }
    Ok(())
}

impl<E: Elem, T: 'static> SeqC<E> for Guarded<IA<E, T>> {
    fn ring(&self) -> bool {
        false
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn cap(&self) -> usize {
        IA::<E, T>::CAPACITY
    }
    fn base(&self) -> usize {
        &self.c as *const _ as usize
    }
    fn size(&self) -> usize {
        size_of::<IA<E, T>>()
    }
    fn intact(&self) -> bool {
        Guarded::intact(self)
    }
    fn layout(&self) -> Result<(), String> {
        layout(&self.c)
    }
    fn len(&self) -> usize {
        self.c.len()
    }
    fn is_empty(&self) -> bool {
        self.c.is_empty()
    }
    fn is_full(&self) -> bool {
        self.c.is_full()
    }
    fn push_back(&mut self, e: E) {
        self.c.push(e)
    }
    fn push_front(&mut self, _: E) {
        die("not a deque")
    }
    fn pop_back(&mut self) -> Option<E> {
        self.c.pop()
    }
    fn pop_front(&mut self) -> Option<E> {
        die("not a deque")
    }
    fn insert(&mut self, i: usize, e: E) {
        self.c.insert(i, e)
    }
    fn insert_ordered(&mut self, _: E) {
        die("not for inline arrays")
    }
    fn remove(&mut self, i: usize) -> Option<E> {
        self.c.remove(i)
    }
    fn set(&mut self, _: usize, _: E) -> Option<E> {
        die("not for inline arrays")
    }
    fn drop_left(&mut self, _: usize) {
        die("not for inline arrays")
    }
    fn drop_right(&mut self, _: usize) {
        die("not for inline arrays")
    }
    fn clear(&mut self) {
        self.c.clear()
    }
    fn split_off(&mut self, i: usize) -> SB<E> {
        Guarded::new(self.c.split_off(i))
    }
    fn append(&mut self, _: &mut dyn SeqC<E>) {
        die("not for inline arrays")
    }
    fn drain_from_front(&mut self, _: &mut dyn SeqC<E>, _: usize) {
        die("not for inline arrays")
    }
    fn drain_from_back(&mut self, _: &mut dyn SeqC<E>, _: usize) {
        die("not for inline arrays")
    }
    fn take_front(&mut self, _: usize) -> SB<E> {
        die("not for inline arrays")
    }
    fn take_back(&mut self, _: usize) -> SB<E> {
        die("not for inline arrays")
    }
    fn take_all(&mut self) -> SB<E> {
        die("not for inline arrays")
    }
    fn insert_from(&mut self, _: usize, _: LyIter<E>) {
        die("not for inline arrays")
    }
    fn extend(&mut self, it: PlainIter<'_, E>) {
        Extend::extend(&mut self.c, it)
    }
    fn extend_vec(&mut self, v: Vec<E>) {
        Extend::extend(&mut self.c, v)
    }
    fn new_like(&self, default: bool) -> SB<E> {
        Guarded::new(if default { IA::<E, T>::default() } else { IA::<E, T>::new() })
    }
    fn unit_like(&self, _: E) -> SB<E> {
        die("not for inline arrays")
    }
    fn pair_like(&self, _: E, _: E) -> SB<E> {
        die("not for inline arrays")
    }
    fn from_iter_like(&self, it: PlainIter<'_, E>) -> SB<E> {
        Guarded::new(IA::<E, T>::from_iter(it))
    }
    fn collect_from_like(&self, _: &mut PlainIter<'_, E>, _: usize) -> SB<E> {
        die("not for inline arrays")
    }
    fn clone_c(&self) -> SB<E> {
        Guarded::new(self.c.clone())
    }
    fn clone_from_c(&mut self, o: &dyn SeqC<E>) {
        self.c.clone_from(peer(o))
    }
    fn moved(self: Box<Self>) -> SB<E> {
        let v = vec![guarded_into(self)];
        let c = v.into_iter().next().unwrap();
        Guarded::new(c)
    }
    fn iter(&self) -> Box<dyn Dei<&E> + '_> {
        Box::new(self.c.iter())
    }
    fn iter_ref(&self) -> Box<dyn Dei<&E> + '_> {
        Box::new((&self.c).into_iter())
    }
    fn iter_mut(&mut self) -> Box<dyn Dei<&mut E> + '_> {
        Box::new(self.c.iter_mut())
    }
    fn iter_mut_ref(&mut self) -> Box<dyn Dei<&mut E> + '_> {
        Box::new((&mut self.c).into_iter())
    }
    fn drain(&mut self) -> Box<dyn Dei<E> + '_> {
        Box::new(self.c.drain())
    }
    fn into_iter(self: Box<Self>) -> Box<dyn Dei<E>> {
        Box::new(guarded_into(self).into_iter())
    }
    fn get(&self, i: usize) -> Option<&E> {
        self.c.get(i)
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut E> {
        self.c.get_mut(i)
    }
    fn get_unchecked(&self, i: usize) -> &E {
        unsafe { self.c.get_unchecked(i) }
    }
    fn get_unchecked_mut(&mut self, i: usize) -> &mut E {
        unsafe { self.c.get_unchecked_mut(i) }
    }
    fn index(&self, i: usize) -> &E {
        &self.c[i]
    }
    fn index_mut(&mut self, i: usize) -> &mut E {
        &mut self.c[i]
    }
    fn first(&self) -> Option<&E> {
        self.c.first()
    }
    fn last(&self) -> Option<&E> {
        self.c.last()
    }
    fn first_mut(&mut self) -> Option<&mut E> {
        self.c.first_mut()
    }
    fn last_mut(&mut self) -> Option<&mut E> {
        self.c.last_mut()
    }
    fn contains(&self, e: &E) -> bool {
        self.c.contains(e)
    }
    fn binary_search(&self, e: &E) -> Result<usize, usize> {
        self.c.binary_search(e)
    }
    fn binary_search_by_key(&self, k: u32) -> Result<usize, usize> {
        self.c.binary_search_by_key(&k, |e| e.val())
    }
    fn is_sorted(&self) -> bool {
        self.c.is_sorted()
    }
    fn starts_with(&self, s: &[E]) -> bool {
        self.c.starts_with(s)
    }
    fn ends_with(&self, s: &[E]) -> bool {
        self.c.ends_with(s)
    }
    fn swap(&mut self, i: usize, j: usize) {
        self.c.swap(i, j)
    }
    fn map_pair(&mut self, _: usize, _: usize, _: &mut dyn FnMut(&mut E, &mut E)) {
        die("not a ring buffer")
    }
    fn sort(&mut self, how: usize) {
        match how {
            0 => self.c.sort_unstable(),
            1 => self.c.sort_unstable_by(|a, b| b.cmp(a)),
            _ => self.c.sort_unstable_by_key(|e| e.val()),
        }
    }
    fn view(&self, which: usize) -> Option<&[E]> {
        Some(match which {
            0 => &*self.c,
            1 => AsRef::<[E]>::as_ref(&self.c),
            2 => Borrow::<[E]>::borrow(&self.c),
            3 => (&self.c).into_iter().as_slice(),
            _ => &self.c[..],
        })
    }
    fn view_mut(&mut self, which: usize) -> Option<&mut [E]> {
        Some(match which {
            0 => &mut *self.c,
            1 => AsMut::<[E]>::as_mut(&mut self.c),
            2 => BorrowMut::<[E]>::borrow_mut(&mut self.c),
            3 => (&mut self.c).into_iter().into_slice(),
            _ => &mut self.c[..],
        })
    }
    fn index_range(&self, a: usize, b: usize, form: usize) -> Option<&[E]> {
        Some(match form {
            0 => &self.c[a..b],
            1 => &self.c[a..],
            2 => &self.c[..b],
            _ => &self.c[a..=b],
        })
    }
    fn index_range_mut(&mut self, a: usize, b: usize, form: usize) -> Option<&mut [E]> {
        Some(match form {
            0 => &mut self.c[a..b],
            1 => &mut self.c[a..],
            2 => &mut self.c[..b],
            _ => &mut self.c[a..=b],
        })
    }
    fn rel(&self, o: &dyn SeqC<E>) -> Rel {
        let o: &IA<E, T> = peer(o);
        let mut r = empty_rel();
        r.eq.push(self.c == *o);
        r.ne.push(self.c != *o);
        let s: &[E] = o;
        r.eq.push(self.c == s);
        r.ne.push(self.c != s);
        order(&mut r, &self.c, o);
        r.hash_l.push(h64(&self.c));
        r.hash_l.push(h64::<[E]>(Borrow::<[E]>::borrow(&self.c)));
        r.hash_r.push(h64(o));
        r.hash_r.push(h64::<[E]>(Borrow::<[E]>::borrow(o)));
        r
    }
    fn eq_slice(&self, s: &[E]) -> bool {
        self.c == s
    }
    fn eq_vec(&self, s: &Vec<E>) -> bool {
        self.c == *s
    }
    fn hash(&self) -> u64 {
        h64(&self.c)
    }
    fn debug(&self, pretty: bool) -> String {
        if pretty {
            format!("{:#?}", self.c)
        } else {
            format!("{:?}", self.c)
        }
    }
    fn slice(&self, _: Rg) -> Box<dyn Sl<'_, E> + '_> {
        die("not a ring buffer")
    }
    fn slice_mut(&mut self, _: Rg) -> Box<dyn Sl<'_, E> + '_> {
        die("not a ring buffer")
    }
    fn slice_whole(&self) -> Box<dyn Sl<'_, E> + '_> {
        die("not a ring buffer")
    }
    fn slice_mut_whole(&mut self) -> Box<dyn Sl<'_, E> + '_> {
        die("not a ring buffer")
    }
    fn slice_rel(&self, _: Rg, _: &dyn SeqC<E>, _: Rg) -> Rel {
        die("not a ring buffer")
    }
    fn slice_rel_mut(&mut self, _: Rg, _: &mut dyn SeqC<E>, _: Rg) -> Rel {
        die("not a ring buffer")
    }
}

fn chunk_of<E: Elem, T: 'static, const N: usize>(src: &mut IA<E, T>, byval: bool, v: Vec<E>) -> (Vec<Obs>, Vec<Obs>) {
    let mut c: Chunk<E, N> = if byval { std::mem::take(src).into() } else { src.into() };
    let see = |c: &Chunk<E, N>| {
        if c.len() > N {
            return vec![Obs { uid: u64::MAX, val: c.len() as u32 }];
        }
        c.iter().map(look).collect::<Vec<_>>()
    };
    let was = see(&c);
    let mut v = v.into_iter();
    if !c.is_full() {
        c.push_front(v.next().unwrap());
    }
    if !c.is_full() {
        c.push_back(v.next().unwrap());
    }
    let then = see(&c);
    (was, then)
}

fn to_chunk<E: Elem, T: 'static>(src: &mut dyn SeqC<E>, which: usize, byval: bool, v: Vec<E>) -> (Vec<Obs>, Vec<Obs>) {
    let src: &mut IA<E, T> = peer_mut(src);
    match CHUNKS[which % CHUNKS.len()] {
        0 => chunk_of::<E, T, 0>(src, byval, v),
        1 => chunk_of::<E, T, 1>(src, byval, v),
        3 => chunk_of::<E, T, 3>(src, byval, v),
        16 => chunk_of::<E, T, 16>(src, byval, v),
        65 => chunk_of::<E, T, 65>(src, byval, v),
        _ => die("no chunk of that capacity"),
    }
}

pub fn inl_ctor<E: Elem, T: 'static>(host: &'static str) -> Ctor<E> {
    let cap = IA::<E, T>::CAPACITY;
    Ctor {
        cap,
        ring: false,
        new: || Guarded::new(IA::<E, T>::new()),
        extend_ref: None,
        write: None,
        read: None,
        pool_default: None,
        pool_clone: None,
        inl: true,
        host,
        lim: if size_of::<E>() == 0 { 6 } else { cap.min(300) },
        to_chunk: Some(to_chunk::<E, T>),
    }
}

pub fn inl_copy<E: Elem + Copy, T: 'static>(host: &'static str) -> Ctor<E> {
    let mut k = inl_ctor::<E, T>(host);
    k.extend_ref = Some(|c, s| Extend::<&E>::extend(peer_mut::<E, IA<E, T>>(c), s));
    k
}

/// `new()` on a pairing that can't be met must panic.
pub fn unfit<E, T>(run: &mut Run, what: &str) {
    if !run.begin() {
        return;
    }
    run.ops += 1;
    run.refused += 1;
    run.log = what.to_string();
    run.distinct(hash_str(what));
    for default in [false, true] {
        let r = call(|| std::mem::forget(if default { IA::<E, T>::default() } else { IA::<E, T>::new() }));
        if r.is_ok() {
            run.violation(kind::LAYOUT | kind::REFUSE, &format!("{}: new() accepted a host that can't hold it", what));
        }
    }
    run.end();
}

/// `new()` on a pairing that can be met, without the interpreter.
pub fn fit<E: Clone + PartialEq, T>(run: &mut Run, what: &str, e: E) {
    if !run.begin() {
        return;
    }
    run.ops += 1;
    run.log = what.to_string();
    run.distinct(hash_str(what));
    let r = call(|| {
        let cap = IA::<E, T>::CAPACITY.min(500);
        let mut b = Guarded::new(IA::<E, T>::new());
        let mut msg = layout(&b.c).err();
        for i in 0..cap {
            b.c.push(e.clone());
            if b.c.len() != i + 1 {
                msg = Some("a push overwrote the length".into());
                std::mem::forget(b);
                return msg;
            }
        }
        msg = msg.or(layout(&b.c).err());
        if !b.intact() {
            msg = Some("memory next to the array changed".into());
        }
        let m = Guarded::new(guarded_into(b));
        if m.c.len() != cap || m.c.iter().any(|x| *x != e) {
            msg = Some("a move changed the contents".into());
        }
        msg
    });
    match r.ok() {
        Some(None) => {}
        Some(Some(m)) => run.violation(kind::LAYOUT | kind::MODEL | kind::CANARY, &format!("{}: {}", what, m)),
        None => run.violation(kind::LAYOUT | kind::MODEL, &format!("{}: panicked", what)),
    }
    run.end();
}
