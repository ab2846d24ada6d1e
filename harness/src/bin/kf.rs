//! Programs for the known findings, to be run in Miri.

use sized_chunks::{InlineArray, RingBuffer};
use vh::core::*;

/// Both halves of a SliceMut in use at once.
fn halves() {
    let mut r: RingBuffer<u32, 4> = RingBuffer::new();
    for i in 0..4 {
        r.push_back(i);
    }
    let (mut a, mut b) = r.slice_mut(..).split_at(2);
    let x = &mut a[0];
    let y = &mut b[1];
    *x = 10;
    *y = 11;
    assert!(a[0] == 10 && b[1] == 11);
}

/// A host type with padding is moved; elements and length are in the padding.
fn padding() {
    let mut a: InlineArray<u8, (u64, u8, u64, u8)> = InlineArray::new();
    for i in 0..a.capacity_of() {
        a.push(i as u8);
    }
    let b = std::hint::black_box(a);
    let c = Box::new(b);
    assert!(c.iter().enumerate().all(|(i, x)| *x == i as u8));
}

trait Cap {
    fn capacity_of(&self) -> usize;
}
impl<A, T> Cap for InlineArray<A, T> {
    fn capacity_of(&self) -> usize {
        InlineArray::<A, T>::CAPACITY
    }
}

fn main() {
    let run = Run::from_args();
    match run.get("which").unwrap_or("") {
        "halves" => halves(),
        "padding" => padding(),
        w => die(&format!("no such program: {}", w)),
    }
    run.finish()
}
