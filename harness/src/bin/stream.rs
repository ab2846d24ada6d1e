//! Byte queues among readers, writers and their adaptors.

use vh::core::*;

#[cfg(feature = "std")]
mod stream {
    use super::*;
    use sized_chunks::{Chunk, RingBuffer};
    use std::io::{self, IoSlice, IoSliceMut, Read, Write};

    trait Bytes: Read + Write {
        fn bytes_now(&self) -> Vec<u8>;
        fn push(&mut self, front: bool, b: u8);
        fn pop(&mut self, front: bool) -> Option<u8>;
    }
    impl<const N: usize> Bytes for Chunk<u8, N> {
        fn bytes_now(&self) -> Vec<u8> {
            self.to_vec()
        }
        fn push(&mut self, front: bool, b: u8) {
            if front {
                self.push_front(b)
            } else {
                self.push_back(b)
            }
        }
        fn pop(&mut self, front: bool) -> Option<u8> {
            if self.is_empty() {
                None
            } else {
                Some(if front { self.pop_front() } else { self.pop_back() })
            }
        }
    }
    impl<const N: usize> Bytes for RingBuffer<u8, N> {
        fn bytes_now(&self) -> Vec<u8> {
            self.iter().copied().collect()
        }
        fn push(&mut self, front: bool, b: u8) {
            if front {
                self.push_front(b)
            } else {
                self.push_back(b)
            }
        }
        fn pop(&mut self, front: bool) -> Option<u8> {
            if front {
                self.pop_front()
            } else {
                self.pop_back()
            }
        }
    }

    /// Up to five pieces of `n` bytes, some of them empty.
    fn pieces(rng: &mut Rng, n: usize) -> Vec<std::ops::Range<usize>> {
        let mut cuts: Vec<usize> = (0..rng.below(5)).map(|_| if rng.chance(1, 4) { 0 } else { rng.below(n + 1) }).collect();
        cuts.push(n);
        cuts.sort_unstable();
        let mut from = 0;
        cuts.into_iter()
            .map(|to| {
                let r = from..to;
                from = to;
                r
            })
            .collect()
    }

    /// A byte queue among readers, writers and their adaptors.
    fn history<C: Bytes>(run: &mut Run, name: &str, cap: usize, mut c: C, seed: u64) {
        let mut rng = Rng::new(seed);
        let mut m: Vec<u8> = Vec::new();
        let mut next = rng.below(256) as u8;
        run.log = name.to_string();
        for _ in 0..40 {
            let op = rng.below(12);
            let n = match rng.below(4) {
                0 => cap - m.len(),
                1 => cap + rng.below(4),
                _ => rng.below(cap + 2),
            };
            let data: Vec<u8> = (0..n).map(|i| next.wrapping_add(i as u8)).collect();
            run.ops += 1;
            run.log.push_str(&format!("\nop {} n {}", op, n));
            run.distinct(mix(mix(hash_str(name), op as u64), mix(n as u64, m.len() as u64)));
            let room = cap - m.len();
            let fits = n.min(room);
            let mut msg = String::new();
            let r = call(|| match op {
                0 | 1 => {
                    // The longest prefix that fits.
                    let w = c.write(&data);
                    if !matches!(w, Ok(k) if k == fits) {
                        msg = format!("write of {} into room for {} gave {:?}", n, room, w);
                    }
                    m.extend(&data[..fits]);
                    fits
                }
                2 => {
                    let w = c.write_all(&data);
                    if w.is_ok() != (n <= room) {
                        msg = format!("write_all of {} into room for {} gave {:?}", n, room, w);
                    }
                    m.extend(&data[..fits]);
                    fits
                }
                3 => {
                    let cuts = pieces(&mut rng, n);
                    let bufs: Vec<IoSlice> = cuts.iter().map(|r| IoSlice::new(&data[r.clone()])).collect();
                    match c.write_vectored(&bufs) {
                        Ok(k) if k <= fits && (k > 0 || fits == 0) => {
                            m.extend(&data[..k]);
                            k
                        }
                        w => {
                            msg = format!("write_vectored gave {:?}", w);
                            0
                        }
                    }
                }
                4 | 5 => {
                    let mut buf = vec![0xEE; n];
                    let k = n.min(m.len());
                    let w = c.read(&mut buf);
                    if !matches!(w, Ok(x) if x == k) || buf[..k] != m[..k] || buf[k..].iter().any(|b| *b != 0xEE) {
                        msg = format!("read of {} from {} gave {:?}", n, m.len(), w);
                    }
                    m.drain(..k);
                    0
                }
                6 if n > m.len() && rng.chance(1, 2) => {
                    // More than there is. How much is gone then isn't specified.
                    let mut buf = vec![0; n];
                    if c.read_exact(&mut buf).is_ok() {
                        msg = "read_exact of more than there is".into();
                    }
                    let left = c.bytes_now();
                    if !m.ends_with(&left) {
                        msg = "read_exact of more than there is left other bytes behind".into();
                    }
                    m = left;
                    0
                }
                6 => {
                    let k = n.min(m.len());
                    let mut buf = vec![0; k];
                    if c.read_exact(&mut buf).is_err() || buf[..] != m[..k] {
                        msg = "read_exact".into();
                    }
                    m.drain(..k);
                    0
                }
                7 => {
                    let mut a = vec![0xEE; n];
                    let mut bufs = Vec::new();
                    let mut rest = &mut a[..];
                    for r in pieces(&mut rng, n) {
                        let (x, y) = rest.split_at_mut(r.len());
                        bufs.push(IoSliceMut::new(x));
                        rest = y;
                    }
                    match c.read_vectored(&mut bufs) {
                        Ok(k) if k <= n.min(m.len()) && (k > 0 || n.min(m.len()) == 0) => {
                            if a[..k] != m[..k] || a[k..].iter().any(|b| *b != 0xEE) {
                                msg = "read_vectored gave other bytes".into();
                            }
                            m.drain(..k);
                        }
                        w => msg = format!("read_vectored gave {:?}", w),
                    }
                    0
                }
                8 if rng.chance(1, 3) => {
                    // Behind what's there already.
                    let before = vec![0xEE; rng.below(3)];
                    let mut out = before.clone();
                    let k = match rng.below(3) {
                        0 => c.read_to_end(&mut out).ok(),
                        1 => Read::by_ref(&mut c).chain(&[][..]).read_to_end(&mut out).ok(),
                        _ => io::copy(&mut c, &mut out).ok().map(|x| x as usize),
                    };
                    if k != Some(m.len()) || out != [&before[..], &m[..]].concat() {
                        msg = "reading to the end".into();
                    }
                    m.clear();
                    0
                }
                8 if rng.chance(1, 2) && m.iter().all(u8::is_ascii) => {
                    let mut out = String::from("before");
                    let r = c.read_to_string(&mut out).ok();
                    if r != Some(m.len()) || out.as_bytes() != [b"before", &m[..]].concat() {
                        msg = "reading a string".into();
                    }
                    m.clear();
                    0
                }
                8 => {
                    let k = n.min(m.len());
                    let mut out = Vec::new();
                    if Read::by_ref(&mut c).take(k as u64).read_to_end(&mut out).ok() != Some(k) || out[..] != m[..k] {
                        msg = "reading through take".into();
                    }
                    m.drain(..k);
                    0
                }
                10 => {
                    let text: String = (0..n.min(300)).map(|i| (b'0' + next.wrapping_add(i as u8) % 10) as char).collect();
                    let w = write!(c, "{}", text);
                    if w.is_ok() != (text.len() <= room) {
                        msg = format!("formatting {} bytes into room for {} gave {:?}", text.len(), room, w);
                    }
                    m.extend(&text.as_bytes()[..text.len().min(room)]);
                    0
                }
                11 => {
                    let k = n.min(m.len());
                    let got: Vec<u8> = Read::by_ref(&mut c).bytes().take(k).filter_map(|b| b.ok()).collect();
                    if got[..] != m[..k] {
                        msg = "reading single bytes".into();
                    }
                    m.drain(..k);
                    0
                }
                _ => {
                    let front = rng.chance(1, 2);
                    if rng.chance(1, 2) && m.len() < cap {
                        c.push(front, next);
                        if front {
                            m.insert(0, next)
                        } else {
                            m.push(next)
                        }
                        1
                    } else {
                        let want = if m.is_empty() {
                            None
                        } else if front {
                            Some(m.remove(0))
                        } else {
                            m.pop()
                        };
                        if c.pop(front) != want {
                            msg = "pop between reads and writes".into();
                        }
                        0
                    }
                }
            });
            match r {
                Res::Ok(k) => next = next.wrapping_add(k as u8),
                Res::Panic => msg = "reading or writing panicked".into(),
            }
            if c.flush().is_err() {
                msg = "flush failed".into();
            }
            if msg.is_empty() && c.bytes_now() != m {
                msg = format!("holds {:?} instead of {:?}", c.bytes_now(), m);
            }
            if !msg.is_empty() {
                run.violation(kind::IO, &format!("{}: {}", name, msg));
                break;
            }
        }
    }

    pub fn all(run: &mut Run, n: u64) {
        macro_rules! cap {
            ($($n:expr),*) => {$(
                for h in 0..n {
                    if run.begin() {
                        history(run, concat!("Chunk<u8,", stringify!($n), ">"), $n, Chunk::<u8, $n>::new(), mix(mix(run.seed, h), $n));
                        run.end();
                    }
                    if run.begin() {
                        history(run, concat!("RingBuffer<u8,", stringify!($n), ">"), $n, RingBuffer::<u8, $n>::new(), mix(mix(run.seed, h), $n + 1_000_000));
                        run.end();
                    }
                }
            )*};
        }
        cap!(0, 1, 2, 3, 7, 8, 16, 64, 100, 255, 256, 1000, 4096);
    }
}

fn main() {
    let mut run = Run::from_args();
    #[cfg(feature = "std")]
    {
        let n = run.num("n", 50);
        stream::all(&mut run, n);
    }
    run.finish()
}
