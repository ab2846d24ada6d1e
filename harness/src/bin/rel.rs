//! Partial orders, comparisons across types, lookups by slice.

use vh::core::*;

fn seqs(alphabet: usize, most: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..most {
        let mut next = Vec::new();
        for s in &layer {
            for a in 0..alphabet {
                let mut t = s.clone();
                t.push(a);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        layer = next;
    }
    all
}

mod rel {
    use super::*;
    use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
    use std::borrow::Borrow;
    use std::cmp::Ordering;
    use std::collections::{BTreeMap, HashMap};
    use std::hash::Hash;

    fn ring<A: Clone, const N: usize>(v: &[A], rot: usize) -> RingBuffer<A, N> {
        let mut r = RingBuffer::new();
        if let Some(x) = v.first() {
            for _ in 0..rot {
                r.push_back(x.clone());
                r.pop_front();
            }
        }
        r.extend(v.iter().cloned());
        r
    }
    fn chunk<A: Clone, const N: usize>(v: &[A], l: usize) -> Chunk<A, N> {
        let mut r = Chunk::new();
        if let Some(x) = v.first() {
            for _ in 0..l.min(N - v.len()) {
                r.push_back(x.clone());
            }
        }
        let n = r.len();
        r.extend(v.iter().cloned());
        r.drop_left(n);
        r
    }
    fn inline<A: Clone>(v: &[A]) -> InlineArray<A, [u64; 12]> {
        v.iter().cloned().collect()
    }

    type Partial = (Vec<bool>, Vec<Option<Ordering>>, Vec<[bool; 4]>);
    fn po<X: PartialOrd>(out: &mut Partial, x: &X, y: &X) {
        out.0.push(x == y);
        out.0.push(!(x != y));
        out.1.push(x.partial_cmp(y));
        out.2.push([x < y, x <= y, x > y, x >= y]);
    }

    /// Elements that aren't equal to themselves.
    pub fn partial(run: &mut Run) {
        let vals = [f64::NAN, 0.0, -0.0, 1.0, f64::NEG_INFINITY];
        let all = seqs(vals.len(), if cfg!(miri) { 1 } else { 3 });
        for a in &all {
            if !run.begin() {
                continue;
            }
            let x: Vec<f64> = a.iter().map(|i| vals[*i]).collect();
            run.log = format!("partial order of {:?} with everything", x);
            for (j, b) in all.iter().enumerate() {
                let y: Vec<f64> = b.iter().map(|i| vals[*i]).collect();
                run.ops += 1;
                run.distinct(mix(j as u64, run.case));
                let r = call(|| {
                    let mut out: Partial = Default::default();
                    po(&mut out, &chunk::<f64, 6>(&x, j % 4), &chunk::<f64, 6>(&y, (j + 1) % 4));
                    po(&mut out, &inline(&x), &inline(&y));
                    let (mut p, mut q) = (ring::<f64, 4>(&x, j % 4), ring::<f64, 4>(&y, j / 4 % 4));
                    po(&mut out, &p, &q);
                    po(&mut out, &p.slice(..), &q.slice(..));
                    {
                        let (s, t) = (p.slice(..), q.slice(..));
                        out.0.extend([s == q, p == t, s == y, p == y]);
                    }
                    {
                        let (s, t) = (p.slice_mut(..), q.slice_mut(..));
                        po(&mut out, &s, &t);
                        out.0.extend([s == y, s == t.unmut()]);
                    }
                    out.0.push(p.slice_mut(..) == q);
                    out.0.push(p == q.slice_mut(..));
                    out.0.extend([chunk::<f64, 4>(&x, 0) == y, inline(&x) == y]);
                    let sp = |v: &[f64]| v.iter().map(|a| Some(*a)).collect::<SparseChunk<f64, 4>>();
                    out.0.push(sp(&x) == sp(&y));
                    if a == b {
                        // With itself, in the same place.
                        let (c, ia, s) = (chunk::<f64, 6>(&x, j % 4), inline(&x), sp(&x));
                        po(&mut out, &c, &c);
                        po(&mut out, &ia, &ia);
                        po(&mut out, &p, &p);
                        out.0.extend([c == &c[..], ia == &ia[..], s == s]);
                        let (t, u) = (p.slice(..), p.slice(..));
                        po(&mut out, &t, &t);
                        po(&mut out, &t, &u);
                        out.0.extend([t == p, p == t, u == p]);
                        let m = p.slice_mut(..);
                        po(&mut out, &m, &m);
                    }
                    out.0.push(sp(&x) == y.iter().copied().enumerate().collect::<BTreeMap<usize, f64>>());
                    out
                });
                let (eq, pc) = (x == y, x.partial_cmp(&y));
                let want = [x < y, x <= y, x > y, x >= y];
                match r {
                    Res::Ok(o) => {
                        if o.0.iter().any(|e| *e != eq) || o.1.iter().any(|c| *c != pc) || o.2.iter().any(|c| *c != want) {
                            run.violation(kind::REL, &format!("comparing {:?} with {:?} (equal: {}, order: {:?}) gave {:?}", x, y, eq, pc, o));
                        }
                    }
                    Res::Panic => run.violation(kind::REL, "a comparison panicked"),
                }
            }
            run.end();
        }
    }

    fn eq2<X: PartialEq<Y>, Y>(out: &mut Vec<bool>, x: &X, y: &Y) {
        out.push(x == y);
        out.push(!(x != y));
    }

    /// Comparisons between different containers, and keys looked up by slice.
    pub fn cross(run: &mut Run) {
        let all = seqs(2, if cfg!(miri) { 2 } else { 4 });
        for (i, a) in all.iter().enumerate() {
            if !run.begin() {
                continue;
            }
            let x: Vec<u32> = a.iter().map(|i| *i as u32 + 7).collect();
            run.log = format!("{:?} against everything", x);
            for (j, b) in all.iter().enumerate() {
                let y: Vec<u32> = b.iter().map(|i| *i as u32 + 7).collect();
                run.ops += 1;
                run.distinct(mix(i as u64, j as u64));
                let r = call(|| {
                    let mut o = Vec::new();
                    let c = chunk::<u32, 5>(&x, i % 3);
                    let ia = inline(&x);
                    let mut rb = ring::<u32, 5>(&x, i % 5);
                    let (cy, iy, ry) = (chunk::<u32, 9>(&y, j % 4), inline(&y), ring::<u32, 5>(&y, j % 5));
                    let (by, sy): (Box<[u32]>, &[u32]) = (y.clone().into(), &y);
                    eq2(&mut o, &c, &cy);
                    eq2(&mut o, &c, &iy);
                    eq2(&mut o, &c, &y);
                    eq2(&mut o, &c, &by);
                    eq2(&mut o, &c, &sy);
                    eq2(&mut o, &ia, &cy);
                    eq2(&mut o, &ia, &iy);
                    eq2(&mut o, &ia, &by);
                    eq2(&mut o, &rb, &cy);
                    eq2(&mut o, &rb, &iy);
                    eq2(&mut o, &rb, &by);
                    eq2(&mut o, &rb, &ry.slice(..));
                    eq2(&mut o, &rb.slice(..), &cy);
                    eq2(&mut o, &rb.slice(..), &iy);
                    eq2(&mut o, &rb.slice(..), &ry);
                    eq2(&mut o, &rb.slice_mut(..), &cy);
                    eq2(&mut o, &rb.slice_mut(..), &by);
                    eq2(&mut o, &rb.slice_mut(..), &ry.slice(..));
                    if let Ok(arr) = <[u32; 2]>::try_from(&y[..]) {
                        eq2(&mut o, &c, &arr);
                        eq2(&mut o, &ia, &arr);
                        eq2(&mut o, &rb, &arr);
                        eq2(&mut o, &rb.slice(..), &arr);
                        eq2(&mut o, &rb.slice_mut(..), &arr);
                    }
                    o
                });
                let eq = x == y;
                if !matches!(&r, Res::Ok(o) if o.iter().all(|e| *e == eq)) {
                    run.violation(kind::REL, &format!("comparing {:?} with {:?} across types: {:?}", x, y, r.ok()));
                }
            }
            run.end();
        }
        // Keys of every placement, found by slice.
        fn find<K: Hash + Eq + Ord + Clone + Borrow<[u32]>>(all: &[Vec<usize>], mk: &dyn Fn(&[u32], usize) -> K) -> Option<String> {
            let vs: Vec<Vec<u32>> = all.iter().map(|a| a.iter().map(|i| *i as u32 + 7).collect()).collect();
            for rot in 0..3 {
                let keys: Vec<K> = vs.iter().enumerate().map(|(i, v)| mk(v, i + rot)).collect();
                let mut h = HashMap::new();
                let mut b = BTreeMap::new();
                let mut rev: HashMap<Vec<u32>, usize> = HashMap::new();
                for (i, k) in keys.iter().enumerate() {
                    h.insert(k.clone(), i);
                    b.insert(k.clone(), i);
                    rev.insert(vs[i].clone(), i);
                }
                for (i, v) in vs.iter().enumerate() {
                    let s: &[u32] = v;
                    if h.get(s) != Some(&i) || b.get(s) != Some(&i) {
                        return Some(format!("a key holding {:?} isn't found by slice", v));
                    }
                    if h.get::<K>(&mk(v, i + rot + 1)) != Some(&i) || b.get::<K>(&mk(v, i + rot + 1)) != Some(&i) {
                        return Some(format!("a key holding {:?} isn't found by an equal key placed elsewhere", v));
                    }
                    if rev.get(Borrow::<[u32]>::borrow(&mk(v, i))) != Some(&i) {
                        return Some(format!("a vector holding {:?} isn't found by a borrowed container", v));
                    }
                }
                if b.len() != vs.len() || h.len() != vs.len() || b.keys().zip(b.keys().skip(1)).any(|(p, q)| Borrow::<[u32]>::borrow(p) >= Borrow::<[u32]>::borrow(q)) {
                    return Some("keys are out of order or merged".into());
                }
            }
            None
        }
        for which in 0..2 {
            if !run.begin() {
                continue;
            }
            run.ops += 1;
            run.log = format!("lookups by slice {}", which);
            run.distinct(which + 99_000);
            let r = call(|| if which == 0 { find(&all, &|v, i| chunk::<u32, 8>(v, i % 5)) } else { find(&all, &|v, _| inline(v)) });
            match r {
                Res::Ok(None) => {}
                Res::Ok(Some(m)) => run.violation(kind::REL, &m),
                Res::Panic => run.violation(kind::REL, "a lookup panicked"),
            }
            run.end();
        }
    }
}

fn main() {
    let mut run = Run::from_args();
    rel::partial(&mut run);
    rel::cross(&mut run);
    run.finish()
}
