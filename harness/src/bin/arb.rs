//! Containers made by Arbitrary, against plain sequences made from the same bytes.

use vh::core::*;

#[cfg(feature = "extra")]
mod arb {
    use super::*;
    use arbitrary::{Arbitrary, Result, Unstructured};
    #[allow(unused_imports)]
    use sized_chunks::ring_buffer::{Array, HasLength};
    use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
    use std::fmt::Debug;

    /// Takes three bytes, or fails; some values fail too. Counted.
    #[derive(Debug, PartialEq)]
    pub struct Counted(Tok);
    impl Clone for Counted {
        fn clone(&self) -> Self {
            Counted(self.0.clone())
        }
    }
    impl<'a> Arbitrary<'a> for Counted {
        fn arbitrary(u: &mut Unstructured<'a>) -> Result<Self> {
            let b = u.bytes(3)?;
            if b[0] == 13 {
                return Err(arbitrary::Error::IncorrectFormat);
            }
            Ok(Counted(Tok::make(u32::from_le_bytes([b[0], b[1], b[2], 0]))))
        }
        fn size_hint(_: usize) -> (usize, Option<usize>) {
            (3, Some(3))
        }
    }
    /// No size, but made from bytes.
    #[derive(Clone, Debug, PartialEq)]
    pub struct Nothing;
    impl<'a> Arbitrary<'a> for Nothing {
        fn arbitrary(u: &mut Unstructured<'a>) -> Result<Self> {
            u.arbitrary::<u16>()?;
            Ok(Nothing)
        }
        fn size_hint(_: usize) -> (usize, Option<usize>) {
            (2, Some(2))
        }
    }

    pub trait Made<'a>: Arbitrary<'a> {
        type Item: Debug + PartialEq;
        const CAP: usize;
        const NAME: &'static str;
        /// Contents; an error for an invalid container.
        fn see(&self) -> std::result::Result<Vec<(usize, Self::Item)>, String>;
        fn oracle(u: &mut Unstructured<'a>) -> Result<Vec<(usize, Self::Item)>>;
        fn oracle_rest(u: Unstructured<'a>) -> Result<Vec<(usize, Self::Item)>>;
        /// Use it, ending full and then empty.
        fn exert(self) -> bool;
    }
    fn enumerate<A>(v: Vec<A>) -> Vec<(usize, A)> {
        v.into_iter().enumerate().collect()
    }
    macro_rules! made {
        ($name:expr, [$($gen:tt)*], $ty:ty, $cap:expr, $front:ident) => {
            impl<'a, A: Arbitrary<'a> + Clone + Debug + PartialEq, $($gen)*> Made<'a> for $ty where $ty: Arbitrary<'a> {
                type Item = A;
                const CAP: usize = $cap;
                const NAME: &'static str = $name;
                fn see(&self) -> std::result::Result<Vec<(usize, A)>, String> {
                    let n = self.len();
                    if n > Self::CAP {
                        return Err(format!("{} items", n));
                    }
                    if self.is_empty() != (n == 0) || self.is_full() != (n == Self::CAP) {
                        return Err("is_empty or is_full".into());
                    }
                    let v: Vec<A> = self.iter().cloned().collect();
                    if v.len() != n || (0..n).any(|i| self.get(i) != Some(&v[i])) {
                        return Err("iteration and indexing differ".into());
                    }
                    Ok(enumerate(v))
                }
                fn oracle(u: &mut Unstructured<'a>) -> Result<Vec<(usize, A)>> {
                    Ok(enumerate(u.arbitrary_iter()?.take($cap).collect::<Result<Vec<A>>>()?))
                }
                fn oracle_rest(u: Unstructured<'a>) -> Result<Vec<(usize, A)>> {
                    Ok(enumerate(u.arbitrary_take_rest_iter()?.take($cap).collect::<Result<Vec<A>>>()?))
                }
                fn exert(mut self) -> bool {
                    let one = match self.iter().next() {
                        Some(a) => a.clone(),
                        None => return self.is_empty(),
                    };
                    let want = Self::CAP.min(self.len() + 70);
                    while self.len() < want {
                        self.$front(one.clone());
                    }
                    self.len() == want && self.drain().count() == want && self.is_empty()
                }
            }
        };
    }
    made!("Chunk", [const N: usize], Chunk<A, N>, N, push_front);
    made!("RingBuffer", [const N: usize], RingBuffer<A, N>, N, push_front);
    made!("InlineArray", [T: 'static], InlineArray<A, T>, InlineArray::<A, T>::CAPACITY, push);

    macro_rules! sparse {
        ($($n:expr),*) => {$(
            impl<'a, A: Arbitrary<'a> + Clone + Debug + PartialEq> Made<'a> for SparseChunk<A, $n> {
                type Item = A;
                const CAP: usize = $n;
                const NAME: &'static str = "SparseChunk";
                fn see(&self) -> std::result::Result<Vec<(usize, A)>, String> {
                    let v: Vec<(usize, A)> = self.entries().map(|(i, a)| (i, a.clone())).collect();
                    if self.len() != v.len() || v.iter().any(|(i, a)| *i >= $n || self.get(*i) != Some(a)) {
                        return Err("views differ".into());
                    }
                    Ok(v)
                }
                fn oracle(u: &mut Unstructured<'a>) -> Result<Vec<(usize, A)>> {
                    let v = u.arbitrary_iter::<Option<A>>()?.take($n).collect::<Result<Vec<_>>>()?;
                    Ok(v.into_iter().enumerate().filter_map(|(i, a)| a.map(|a| (i, a))).collect())
                }
                fn oracle_rest(u: Unstructured<'a>) -> Result<Vec<(usize, A)>> {
                    let v = u.arbitrary_take_rest_iter::<Option<A>>()?.take($n).collect::<Result<Vec<_>>>()?;
                    Ok(v.into_iter().enumerate().filter_map(|(i, a)| a.map(|a| (i, a))).collect())
                }
                fn exert(mut self) -> bool {
                    let one = match self.iter().next() {
                        Some(a) => a.clone(),
                        None => return self.is_empty(),
                    };
                    for i in 0..$n {
                        self.insert(i, one.clone());
                    }
                    self.len() == $n && (0..$n).all(|_| self.pop().is_some()) && self.is_empty()
                }
            }
        )*};
    }
    sparse!(1, 2, 7, 33, 64, 100);

    fn bytes(rng: &mut Rng, h: u64) -> Vec<u8> {
        let n = match rng.below(4) {
            0 => rng.below(6),
            1 => rng.below(40),
            _ => rng.below(500),
        };
        match if h < 6 { h as usize } else { rng.below(6) } {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => vec![1; n],
            3 => (0..n).map(|_| rng.next() as u8).collect(),
            // Mostly "one more".
            4 => (0..n).map(|_| rng.next() as u8 | if rng.chance(9, 10) { 1 } else { 0 }).collect(),
            _ => (0..n).map(|i| if i % 5 == 0 { 1 } else { rng.next() as u8 }).collect(),
        }
    }

    fn one<C: for<'a> Made<'a>>(run: &mut Run, elem: &str, n: u64)
    where
        for<'a> <C as Made<'a>>::Item: Clone,
    {
        let name = format!("{}<{},{}>", <C as Made<'_>>::NAME, elem, <C as Made<'_>>::CAP);
        for h in 0..n {
            if !run.begin() {
                continue;
            }
            let mut rng = Rng::new(mix(mix(run.seed, h), hash_str(&name)));
            let data = bytes(&mut rng, h);
            run.ops += 2;
            run.log = format!("{} from {:?}", name, data);
            run.distinct(mix(hash_str(&name), hash_str(&format!("{:?}", data))));
            let mut msg = String::new();
            for rest in [false, true] {
                let want = if rest { C::oracle_rest(Unstructured::new(&data)) } else { C::oracle(&mut Unstructured::new(&data)) };
                for again in 0..2 {
                    let got = call(|| {
                        let c = if rest { C::arbitrary_take_rest(Unstructured::new(&data)) } else { C::arbitrary(&mut Unstructured::new(&data)) };
                        c.map(|c| {
                            let v = c.see();
                            let ok = again == 1 || c.exert();
                            (v, ok)
                        })
                    });
                    match got {
                        Res::Panic => msg = "panicked".into(),
                        Res::Ok(Err(_)) if want.is_err() => run.count("arbitrary_errors", 1),
                        Res::Ok(Err(e)) => msg = format!("failed with {:?}", e),
                        Res::Ok(Ok(_)) if want.is_err() => msg = "made a container though making its items fails".into(),
                        Res::Ok(Ok((Err(e), _))) => msg = format!("made an invalid container: {}", e),
                        Res::Ok(Ok((Ok(v), ok))) => {
                            let w = want.as_ref().unwrap();
                            run.count("arbitrary_items", v.len() as u64);
                            if v.len() == <C as Made<'_>>::CAP {
                                run.count("arbitrary_full", 1);
                            }
                            if v.len() != w.len() || v.iter().zip(w).any(|(a, b)| a.0 != b.0 || format!("{:?}", a.1) != format!("{:?}", b.1)) {
                                msg = format!("made {:?} instead of {:?}", v, w);
                            } else if !ok {
                                msg = "made a container that can't be used".into();
                            }
                        }
                    }
                    if !msg.is_empty() {
                        let m = format!("{}: arbitrary{} {}", name, if rest { "_take_rest" } else { "" }, msg);
                        run.violation(kind::ARB, &m);
                    }
                }
            }
            if !call(|| (C::size_hint(0), C::size_hint(5))).is_ok() {
                run.violation(kind::ARB, &format!("{}: size_hint panicked", name));
            }
            run.ledger_errs("arbitrary");
            if ledger().live != 0 {
                run.violation(kind::ARB | kind::LEDGER, &format!("{}: {} items are left or missing", name, ledger().live));
            }
            run.end();
        }
    }

    pub fn all(run: &mut Run, n: u64) {
        macro_rules! elems {
            ($c:ident: $($e:ty),*; $($n:tt),*) => { elems!(@ $c ($($n),*) $($e),*) };
            (@ $c:ident $ns:tt $($e:ty),*) => { $(elems!(# $c $e, $ns);)* };
            (# $c:ident $e:ty, ($($n:tt),*)) => { $(one::<$c<$e, $n>>(run, stringify!($e), n);)* };
        }
        elems!(Chunk: u8, Counted; 1, 2, 7, 64, 100);
        elems!(Chunk: Option<u16>, String, Nothing, Chunk<u8, 3>; 3, 33);
        elems!(RingBuffer: u8, Counted; 1, 2, 7, 64, 100);
        elems!(RingBuffer: Option<u16>, String, Nothing, RingBuffer<u8, 3>; 3, 33);
        elems!(SparseChunk: u8, Counted; 1, 2, 7, 64, 100);
        elems!(SparseChunk: Option<u16>, String, Nothing, SparseChunk<u8, 2>; 7, 33);
        elems!(InlineArray: u8, Counted; [u8; 8], [u8; 9], [usize; 2], [u64; 9], [u8; 100]);
        elems!(InlineArray: Option<u16>, String, Nothing, InlineArray<u8, [u8; 11]>; [u8; 40], [usize; 60]);
    }
}

fn main() {
    let mut run = Run::from_args();
    #[cfg(feature = "extra")]
    {
        let n = run.num("n", 50);
        arb::all(&mut run, n);
    }
    run.finish()
}
