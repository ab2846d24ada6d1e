"""Hostile programs: safe programs that would be undefined behaviour if the
crate let them run. Each is offered to the compiler; what the compiler refuses
can't run; what it accepts is run in Miri, whose report decides. Every program
has a peaceful twin, which differs only in what makes it hostile and must be
accepted: a refusal is then about the hostility. The twins run in Miri too.

All hostile programs are offered in one crate, as modules; the modules that the
compiler finds no fault with are offered again by themselves.
"""

import json
import os
import re
import shutil
import signal
import subprocess

REPO = "/repo"
MANIFEST = """[package]
name = "hostile"
version = "0.1.0"
edition = "2021"
publish = false
autobins = false

[workspace]

[features]
default = []

[dependencies]
sized-chunks = { path = "%s", default-features = false, features = ["std", "ringbuffer"] }
"""

HEAD_ALLOW = "#![allow(dead_code, unused, clippy::all)]\n"
HEAD = HEAD_ALLOW + """use sized_chunks::ring_buffer::{self, Array, ArrayMut, HasLength, RingBuffer, Slice, SliceMut};
use sized_chunks::{sparse_chunk, Chunk, InlineArray, SparseChunk};
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Arc;

fn touch<T: std::fmt::Debug>(t: T) {
    std::hint::black_box(format!("{:?}", t));
}
fn dup<T: Clone>(t: &T) -> T {
    t.clone()
}
fn two() -> Vec<Box<u32>> {
    vec![Box::new(1), Box::new(2), Box::new(3)]
}
"""

# (name, type of a container of E, how it's made from a vector of E)
CONTAINERS = {
    "chunk": ("Chunk<E, 8>", "v.into_iter().collect()"),
    "ring": ("RingBuffer<E, 8>", "v.into_iter().collect()"),
    "sparse": ("SparseChunk<E, 8>", "v.into_iter().map(Some).collect()"),
    "inline": ("InlineArray<E, [usize; 9]>", "v.into_iter().collect()"),
}

# What can be borrowed from a container `c`: (name, expression, how to iterate
# over what it gives), sharing and exclusive.
SLICES_SHARED = [
    ("iter", "c.iter()", "v"),
    ("into_iter_ref", "(&c).into_iter()", "v"),
    ("deref", "&c[..]", "v.iter()"),
    ("index", "&c[0]", "std::iter::once(v)"),
    ("get", "c.get(0)", "v.into_iter()"),
    ("first", "c.first()", "v.into_iter()"),
    ("last", "c.last()", "v.into_iter()"),
    ("as_ref", "AsRef::<[_]>::as_ref(&c)", "v.iter()"),
    ("borrow", "Borrow::<[_]>::borrow(&c)", "v.iter()"),
]
SLICES_EXCL = [
    ("iter_mut", "c.iter_mut()", "v"),
    ("into_iter_mut", "(&mut c).into_iter()", "v"),
    ("deref_mut", "&mut c[..]", "v.iter_mut()"),
    ("index_mut", "&mut c[0]", "std::iter::once(v)"),
    ("get_mut", "c.get_mut(0)", "v.into_iter()"),
    ("as_mut", "AsMut::<[_]>::as_mut(&mut c)", "v.iter_mut()"),
    ("borrow_mut", "BorrowMut::<[_]>::borrow_mut(&mut c)", "v.iter_mut()"),
    ("drain", "c.drain()", "v.by_ref()"),
]
SHARED = {
    "chunk": SLICES_SHARED + [("as_slice", "c.as_slice()", "v.iter()")],
    "inline": SLICES_SHARED,
    "ring": [
        ("iter", "c.iter()", "v"),
        ("into_iter_ref", "(&c).into_iter()", "v"),
        ("index", "&c[0]", "std::iter::once(v)"),
        ("get", "c.get(0)", "v.into_iter()"),
        ("first", "c.first()", "v.into_iter()"),
        ("last", "c.last()", "v.into_iter()"),
        ("slice", "c.slice(..)", "v.iter()"),
        ("slice_from", "Slice::from(&c)", "v.iter()"),
        ("slice_slice", "c.slice(..).slice(..2)", "v.iter()"),
        ("slice_split", "c.slice(..).split_at(1).1", "v.iter()"),
        ("slice_clone", "c.slice(..).clone()", "v.iter()"),
    ],
    "sparse": [
        ("iter", "c.iter()", "v"),
        ("into_iter_ref", "c.iter()", "v"),
        ("index", "&c[0]", "std::iter::once(v)"),
        ("get", "c.get(0)", "v.into_iter()"),
        ("entries", "c.entries()", "v.map(|x| x.1)"),
        ("option_iter", "c.option_iter()", "v.flatten()"),
    ],
}
EXCL = {
    "chunk": SLICES_EXCL + [("as_mut_slice", "c.as_mut_slice()", "v.iter_mut()")],
    "inline": SLICES_EXCL,
    "ring": [
        ("iter_mut", "c.iter_mut()", "v"),
        ("into_iter_mut", "(&mut c).into_iter()", "v"),
        ("index_mut", "&mut c[0]", "std::iter::once(v)"),
        ("get_mut", "c.get_mut(0)", "v.into_iter()"),
        ("first_mut", "c.first_mut()", "v.into_iter()"),
        ("last_mut", "c.last_mut()", "v.into_iter()"),
        ("slice_mut", "c.slice_mut(..)", "v.iter_mut()"),
        ("slice_mut_from", "SliceMut::from(&mut c)", "v.iter_mut()"),
        ("slice_mut_slice", "c.slice_mut(..).slice(..2)", "v.iter_mut()"),
        ("slice_mut_split", "c.slice_mut(..).split_at(2).0", "v.iter_mut()"),
        ("drain", "c.drain()", "v.by_ref()"),
    ],
    "sparse": [
        ("iter_mut", "c.iter_mut()", "v"),
        ("index_mut", "&mut c[0]", "std::iter::once(v)"),
        ("get_mut", "c.get_mut(0)", "v.into_iter()"),
        ("option_iter_mut", "c.option_iter_mut()", "v.flatten()"),
    ],
}
# The same borrowed from a `SliceMut` `s`.
SLICE_SHARED = [
    ("iter", "s.iter()", "v"),
    ("into_iter", "(&s).into_iter()", "v"),
    ("get", "Array::get(&s, 0)", "v.into_iter()"),
    ("index", "&s[0]", "std::iter::once(v)"),
    ("first", "s.first()", "v.into_iter()"),
    ("last", "s.last()", "v.into_iter()"),
]
SLICE_EXCL = [
    ("iter_mut", "s.iter_mut()", "v"),
    ("get_mut", "s.get_mut(0)", "v.into_iter()"),
    ("index_mut", "&mut s[0]", "std::iter::once(v)"),
    ("first_mut", "s.first_mut()", "v.into_iter()"),
    ("last_mut", "s.last_mut()", "v.into_iter()"),
    ("slice", "s.slice(..)", "v.iter_mut()"),
    ("split", "s.split_at(2).0", "v.iter_mut()"),
    ("into_iter", "(&mut s).into_iter()", "v"),
]
# Iterators that own what they yield.
OWNED = {
    "chunk": [("self", "c", "v.into_iter()"), ("into_iter", "c.into_iter()", "v")],
    "ring": [("self", "c", "v.into_iter()"), ("into_iter", "c.into_iter()", "v")],
    "inline": [("self", "c", "v.into_iter()"), ("into_iter", "c.into_iter()", "v")],
    "sparse": [("self", "c", "v.into_iter()"), ("into_iter", "c.into_iter()", "v"), ("drain", "c.drain()", "v"), ("option_drain", "c.option_drain()", "v.flatten()")],
}
# Types that give out `&mut E`, by what gives them.
MUT_TYPES = [
    ("ring", "ring_buffer::IterMut<'a, E, 8>", "c.iter_mut()", "v"),
    ("ring", "SliceMut<'a, E, 8>", "c.slice_mut(..)", "v.iter_mut()"),
    ("sparse", "sparse_chunk::IterMut<'a, E, 8>", "c.iter_mut()", "v"),
    ("sparse", "sparse_chunk::OptionIterMut<'a, E, 8>", "c.option_iter_mut()", "v.flatten()"),
    ("chunk", "&'a mut Chunk<E, 8>", "&mut c", "v.iter_mut()"),
    ("ring", "&'a mut RingBuffer<E, 8>", "&mut c", "v.iter_mut()"),
    ("inline", "&'a mut InlineArray<E, [usize; 9]>", "&mut c", "v.iter_mut()"),
]


def programs():
    out = []

    def add(name, classes, c, hostile, twin):
        ty, mk = CONTAINERS[c]
        head = HEAD + "fn mk<E>(v: Vec<E>) -> %s {\n    %s\n}\n" % (ty, mk)
        out.append((name.replace("-", "_"), classes, head + hostile, head + twin))

    def main(body, items=""):
        return items + "fn main() {\n" + "\n".join("    " + l for l in body.strip().splitlines()) + "\n}\n"

    for c in CONTAINERS:
        ty = CONTAINERS[c][0]
        for excl, views in ((False, SHARED[c]), (True, EXCL[c])):
            for name, v, each in views:
                tag = "%s_%s" % (c, name)
                use = "for x in %s {\n    touch(x);\n}" % each
                # What is lent outlives its owner.
                add("outlive_" + tag, ["outlive"], c,
                    main("let mut v;\n{\n    let mut c = mk(two());\n    v = %s;\n}\n%s" % (v, use)),
                    main("let mut c = mk(two());\nlet mut v;\nv = %s;\n%s" % (v, use)))
                add("freed_" + tag, ["outlive"], c,
                    main("let mut c = mk(two());\nlet mut v = %s;\ndrop(c);\n%s" % (v, use)),
                    main("let mut c = mk(two());\nlet mut v = %s;\n%s\ndrop(c);" % (v, use)))
                add("replaced_" + tag, ["outlive"], c,
                    main("let mut c = mk(two());\nlet mut v = %s;\nc = mk(vec![]);\n%s\ntouch(&c);" % (v, use)),
                    main("let mut c = mk(two());\nlet mut v = %s;\n%s\nc = mk(vec![]);\ntouch(&c);" % (v, use)))
                # The borrow checker's view of a function's signature.
                add("escape_" + tag, ["outlive"], c,
                    main("let mut f = || {\n    let mut c = mk(two());\n    let mut v = %s;\n    v\n};\nlet mut v = f();\n%s" % (v, use)),
                    main("let mut c = mk(two());\nlet mut v = %s;\n%s" % (v, use)))
                # Across threads.
                rc = "let r = %s::new(5u32);\nlet mut c = mk(vec![r.clone(), r.clone()]);\nstd::thread::scope(|s| {\n    let mut v = %s;\n    s.spawn(move || {\n        for x in %s {\n            for _ in 0..3 {\n                drop(x.clone());\n            }\n        }\n    });\n    for _ in 0..3 {\n        drop(r.clone());\n    }\n});"
                # (RingBuffer's mutable iterator never leaves its thread.)
                alone = (rc % ("Rc", v, each)).replace("s.spawn(move || {", "{").replace("    });\n    for", "    }\n    for")
                add("send_" + tag, ["thread"], c, main(rc % ("Rc", v, each)), main(alone if c == "ring" and "iter" in name and excl else rc % ("Arc", v, each)))
                if name != "drain" and not name.startswith("slice"):
                    item = "{\n    let mut v = %s;\n    let mut vi = %s;\n    vi.next().unwrap()\n}" % (v, each)
                    add("item_outlive_" + tag, ["outlive"], c,
                        main("let x = {\n    let mut c = mk(two());\n    let x = %s;\n    x\n};\ntouch(x);" % item),
                        main("let mut c = mk(two());\nlet x = %s;\ntouch(x);" % item))
                    add("item_replaced_" + tag, ["outlive"], c,
                        main("let mut c = mk(two());\nlet x = %s;\nc = mk(vec![]);\ntouch(x);\ntouch(&c);" % item),
                        main("let mut c = mk(two());\nlet x = %s;\ntouch(x);\nc = mk(vec![]);\ntouch(&c);" % item))
                    if excl:
                        add("item_twice_" + tag, ["twice"], c,
                            main("let mut c = mk(two());\nlet x = %s;\nlet y = %s;\n*x = Box::new(10);\n*y = Box::new(11);\n*x = Box::new(12);\n*y = Box::new(13);" % (item, item)),
                            main("let mut c = mk(two());\nlet x = %s;\n*x = Box::new(10);\nlet y = %s;\n*y = Box::new(11);" % (item, item)))
                if not excl:
                    cell = "let mut c = mk(vec![%s::new(1), %s::new(2)]);\nstd::thread::scope(|s| {\n    let mut v = %s;\n    s.spawn(move || {\n        for x in %s {\n            x.%s;\n        }\n    });\n    let mut v = %s;\n    for x in %s {\n        x.%s;\n    }\n});"
                    add("sync_" + tag, ["thread"], c, main(cell % ("Cell", "Cell", v, each, "set(7)", v, each, "set(8)")), main(cell % ("AtomicU32", "AtomicU32", v, each, "store(7, Relaxed)", v, each, "store(8, Relaxed)")))
                else:
                    drain = name == "drain"
                    put = (lambda x, n: "touch(&%s);" % x) if drain else (lambda x, n: "*%s = Box::new(%d);" % (x, n))
                    each_of = lambda n: each.replace("v", n, 1)
                    first = lambda a, b: "let mut %si = %s;\nlet mut %s = %si.next().unwrap();" % (a, each_of(a), b, a)
                    writes = "\n".join([put("x", 10), put("y", 11), put("x", 12), put("y", 13)])
                    add("twice_" + tag, ["twice"], c,
                        main("let mut c = mk(two());\nlet mut v = %s;\nlet mut w = %s;\n%s\n%s\n%s\ndrop((x, y));\ntouch(&c.len());" % (v, v, first("v", "x"), first("w", "y"), writes)),
                        main("let mut c = mk(two());\n{\n    let mut v = %s;\n    %s\n    %s\n}\n{\n    let mut w = %s;\n    %s\n    %s\n}\ntouch(&c.len());" % (v, first("v", "x").replace("\n", "\n    "), put("x", 10), v, first("w", "y").replace("\n", "\n    "), put("y", 11))))
                    add("dup_" + tag, ["twice"], c,
                        main("let mut c = mk(two());\nlet mut v = %s;\nlet mut w = dup(&v);\n%s\n%s\n%s\ndrop((x, y));" % (v, first("v", "x"), first("w", "y"), writes)),
                        main("let mut c = mk(two());\nlet mut v = %s;\n%s\n%s" % (v, first("v", "x"), put("x", 10))))
                    add("beside_" + tag, ["twice"], c,
                        main("let mut c = mk(two());\nlet mut v = %s;\n%s\n%s\nlet shared = &c;\ntouch(shared);\n%s\ndrop(x);\n%stouch(shared);" % (v, first("v", "x"), put("x", 10), put("x", 11), "touch(vi.next());\n" if drain else "")),
                        main("let mut c = mk(two());\nlet mut v = %s;\n%s\n%s\nlet shared = &c;\ntouch(shared);" % (v, first("v", "x"), put("x", 10)) if not drain else "let mut c = mk(two());\nlet mut v = %s;\n%s\n%s\ndrop(vi);\nlet shared = &c;\ntouch(shared);" % (v, first("v", "x"), put("x", 10))))
        for name, v, each in OWNED[c]:
            tag = "%s_%s" % (c, name)
            own = "let r = %s::new(5u32);\nlet mut c = mk(vec![r.clone(), r.clone()]);\nstd::thread::scope(|s| {\n    let mut v = %s;\n    s.spawn(move || {\n        for x in %s {\n            for _ in 0..3 {\n                drop(x.clone());\n            }\n        }\n    });\n    for _ in 0..3 {\n        drop(r.clone());\n    }\n});"
            add("send_own_" + tag, ["thread"], c, main(own % ("Rc", v, each)), main(own % ("Arc", v, each)))
            # What the elements refer to dies before them.
            loud = "struct Loud<'a>(&'a Box<u32>);\nimpl<'a> Drop for Loud<'a> {\n    fn drop(&mut self) {\n        touch(self.0);\n    }\n}\n"
            add("dropck_" + tag, ["outlive"], c,
                main("let mut v;\nlet b = Box::new(5);\nlet mut c = mk(vec![Loud(&b), Loud(&b)]);\nv = %s;\nlet _ = &mut v;" % v, loud),
                main("let b = Box::new(5);\nlet mut v;\nlet mut c = mk(vec![Loud(&b), Loud(&b)]);\nv = %s;\nlet _ = &mut v;" % v, loud))
            add("twice_own_" + tag, ["outlive"], c,
                main("let mut c = mk(two());\nlet mut v = %s;\nlet mut c = c;\nlet mut w = %s;\nfor x in %s {\n    touch(x);\n}\nfor x in %s {\n    touch(x);\n}" % (v, v, each, each.replace("v", "w", 1))),
                main("let mut c = mk(two());\nlet mut v = %s;\nlet mut c = mk(two());\nlet mut w = %s;\nfor x in %s {\n    touch(x);\n}\nfor x in %s {\n    touch(x);\n}" % (v, v, each, each.replace("v", "w", 1))))
        # A container of elements that live long passes for one of short-lived ones.
        add("shared_sync_" + c, ["thread"], c,
            main("let c = mk(vec![Cell::new(1u32), Cell::new(2)]);\nlet p = &c;\nstd::thread::scope(|s| {\n    s.spawn(move || p[0].set(7));\n    p[0].set(8);\n});"),
            main("let c = mk(vec![AtomicU32::new(1), AtomicU32::new(2)]);\nlet p = &c;\nstd::thread::scope(|s| {\n    s.spawn(move || p[0].store(7, Relaxed));\n    p[0].store(8, Relaxed);\n});"))
    for name, v, each in SLICE_SHARED:
        pre = "let mut c = mk(two());\nlet mut s = c.slice_mut(..);\n"
        use = "for x in %s {\n    touch(x);\n}" % each
        wr = "ArrayMut::set(&mut s, 0, Box::new(9));\nArrayMut::set(&mut s, 2, Box::new(9));\n"
        add("written_slice_mut_" + name, ["outlive", "twice"], "ring",
            main(pre + "let mut v = %s;\n" % v + wr + use),
            main(pre + "let mut v = %s;\n" % v + use + "\n" + wr))
        cell = "let mut c = mk(vec![%s::new(1u32), %s::new(2)]);\nlet s = c.slice_mut(..);\nstd::thread::scope(|t| {\n    let mut v = %s;\n    t.spawn(move || {\n        for x in %s {\n            x.%s;\n        }\n    });\n    let mut v = %s;\n    for x in %s {\n        x.%s;\n    }\n});"
        add("sync_slice_mut_" + name, ["thread"], "ring", main(cell % ("Cell", "Cell", v, each, "set(7)", v, each, "set(8)")), main(cell % ("AtomicU32", "AtomicU32", v, each, "store(7, Relaxed)", v, each, "store(8, Relaxed)")))
    for name, v, each in SLICE_EXCL:
        pre = "let mut c = mk(two());\nlet mut s = c.slice_mut(..);\n"
        each_of = lambda n: each.replace("v", n, 1)
        first = lambda a, b: "let mut %si = %s;\nlet mut %s = %si.next().unwrap();\n" % (a, each_of(a), b, a)
        writes = "*x = Box::new(10);\n*y = Box::new(11);\n*x = Box::new(12);\n*y = Box::new(13);"
        add("twice_slice_mut_" + name, ["twice"], "ring",
            main(pre + "let mut v = %s;\nlet mut w = %s;\n" % (v, v) + first("v", "x") + first("w", "y") + writes),
            main(pre + "let mut v = %s;\n" % v + first("v", "x") + "*x = Box::new(10);"))
        if name not in ("slice", "split", "into_iter"):
            item = "{\n    let mut v = %s;\n    let mut vi = %s;\n    vi.next().unwrap()\n}" % (v, each)
            add("item_twice_slice_mut_" + name, ["twice"], "ring",
                main(pre + "let x = %s;\nlet y = %s;\n" % (item, item) + writes),
                main(pre + "let x = %s;\n*x = Box::new(10);\nlet y = %s;\n*y = Box::new(11);" % (item, item)))
        add("outlive_slice_mut_" + name, ["outlive"], "ring",
            main("let mut c = mk(two());\nlet mut v = {\n    let mut s = c.slice_mut(..);\n    %s\n};\nlet mut w = c.slice_mut(..);\nlet mut y = w.iter_mut().next().unwrap();\n" % v + first("v", "x") + writes),
            main(pre + "let mut v = %s;\n" % v + first("v", "x") + "*x = Box::new(10);"))
    add("unmut_slice_mut", ["twice"], "ring",
        main("let mut c = mk(two());\nlet mut s = c.slice_mut(..);\nlet mut t = s.unmut();\nlet x = Array::get(&t, 0).unwrap();\nArrayMut::set(&mut s, 0, Box::new(9));\ntouch(x);"),
        main("let mut c = mk(two());\nlet mut s = c.slice_mut(..);\nArrayMut::set(&mut s, 0, Box::new(9));\nlet mut t = s.unmut();\nlet x = Array::get(&t, 0).unwrap();\ntouch(x);"))
    add("into_slice_slice_mut", ["twice"], "ring",
        main("let mut c = mk(two());\nlet mut s = c.slice_mut(..);\nlet mut t: Slice<'_, Box<u32>, 8> = s.into();\nlet x = Array::get(&t, 0).unwrap();\nArrayMut::set(&mut s, 0, Box::new(9));\ntouch(x);"),
        main("let mut c = mk(two());\nlet mut s = c.slice_mut(..);\nArrayMut::set(&mut s, 0, Box::new(9));\nlet mut t: Slice<'_, Box<u32>, 8> = s.into();\nlet x = Array::get(&t, 0).unwrap();\ntouch(x);"))
    for i, (c, ty, v, each) in enumerate(MUT_TYPES):
        long = ty.replace("E", "&'static Box<u32>")
        short = ty.replace("E", "&'b Box<u32>")
        shrink = "fn shrink<'a, 'b>(v: %s, _: &'b Box<u32>) -> %s {\n    v\n}\n"
        body = "static NINE: std::sync::OnceLock<Box<u32>> = std::sync::OnceLock::new();\nlet nine: &'static Box<u32> = NINE.get_or_init(|| Box::new(9));\n"
        rest = "    let mut v = shrink(%s, &b);\n    for x in %s {\n        *x = &b;\n    }\n" % (v, each)
        ex = "" if not ty.startswith("&") else ""
        add("variance_%s_%d" % (c, i), ["outlive"], c,
            main(body + "let mut c = mk::<&'static Box<u32>>(vec![nine, nine]);\n{\n    let b = Box::new(5);\n" + rest + "}\ntouch(&c);", shrink % (long, short)),
            main(body + "let b = Box::new(5);\nlet mut c = mk(vec![nine, nine]);\n{\n" + rest + "}\ntouch(&c);", shrink % (short, short)))
    # What must be marked unsafe: places that need not hold an element.
    for c, expr in [("sparse", "c.get_unchecked(5)"), ("sparse", "c.get_unchecked_mut(5)"), ("ring", "c.get_unchecked(7)"), ("ring", "c.get_unchecked_mut(7)"), ("ring", "c.slice(..).get_unchecked(6)"), ("ring", "c.slice_mut(..).get_unchecked(6)"), ("ring", "c.slice_mut(..).get_unchecked_mut(6)"), ("chunk", "c.get_unchecked(7)"), ("inline", "c.get_unchecked(7)")]:
        ok = expr[: expr.rindex("(")] + "(1)"
        add("unsafe_%s_%d" % (c, len(out)), ["outlive"], c, main("let mut c = mk(two());\ntouch(%s);" % expr), main("let mut c = mk(two());\ntouch(unsafe { %s });" % ok))
    return out


CLASSES = {
    "outlive": "uses of what is lent after its owner's end or change",
    "twice": "two exclusive borrows, or an exclusive and a shared one, at once",
    "thread": "elements that must stay in one thread, used from two",
}


class Hostile:
    """The crate of the programs of some classes, in `where`."""

    def __init__(self, where, target, env, lock, classes):
        self.where, self.target, self.lock = where, target, lock
        self.env = dict(env)
        self.programs = [p for p in programs() if set(p[1]) & set(classes)]
        self.rounds = 0

    def write(self, bins):
        src = os.path.join(self.where, "src", "bin")
        os.makedirs(src, exist_ok=True)
        text = MANIFEST % REPO
        for name, source in bins.items():
            text += '\n[[bin]]\nname = "%s"\npath = "src/bin/%s.rs"\n' % (name, name)
            with open(os.path.join(src, name + ".rs"), "w") as f:
                f.write(source)
        with open(os.path.join(self.where, "Cargo.toml"), "w") as f:
            f.write(text)
        lock = os.path.join(self.where, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(self.lock, lock)

    def check(self, name):
        env = dict(self.env, CARGO_TARGET_DIR=self.target, RUSTFLAGS="--cap-lints allow")
        cmd = ["cargo", "+nightly", "check", "-q", "--offline", "--bin", name, "--message-format=json"]
        r = subprocess.run(cmd, cwd=self.where, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", stdin=subprocess.DEVNULL, timeout=600)
        errors = []
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["target"]["name"] == name:
                at = [x["line_start"] for x in m["message"]["spans"] if x["is_primary"]]
                errors.append((at[0] if at else 0, (m["message"]["code"] or {}).get("code") or "lifetime", m["message"]["message"]))
        return r.returncode == 0, errors, r.stderr[-3000:]

    def offer(self, which):
        """What the compiler accepts of the hostile programs (2) or twins (3)."""
        left = list(self.programs)
        codes = {}
        while left:
            self.rounds += 1
            text, starts, line = "", [], 1
            for p in left:
                mod = module(p[0], p[which])
                starts.append((line, p))
                line += mod.count("\n")
                text += mod
            # Not a binary that runs: only to be offered.
            self.write({"offer": text + "fn main() {}\n"})
            ok, errors, stderr = self.check("offer")
            if ok:
                break
            bad = {}
            for at, code, msg in errors:
                owner = [p for s, p in starts if s <= at]
                if at and owner:
                    bad.setdefault(owner[-1][0], code)
            if not bad:
                raise Unjudged("the compiler says neither yes nor no: %s" % stderr)
            codes.update(bad)
            left = [p for p in left if p[0] not in bad]
        return left, codes

    def build(self, name, source):
        """Build the program for Miri. Returns what the compiler said if it refuses."""
        self.write({name: source})
        p = self.miri(name, [], ["none"])
        out, err = p.communicate(timeout=600)
        return None if p.returncode == 0 else err[-3000:]

    def miri(self, name, flags, args=()):
        env = dict(self.env, CARGO_TARGET_DIR=self.target + "-miri", MIRIFLAGS=" ".join(["-Zmiri-ignore-leaks"] + flags), RUST_BACKTRACE="0")
        env["RUSTFLAGS"] = miri_rustflags()
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--bin", name, "--"] + [str(a) for a in args]
        return subprocess.Popen(cmd, cwd=self.where, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", stdin=subprocess.DEVNULL, start_new_session=True)


class Unjudged(Exception):
    pass


def miri_rustflags(known=[]):
    """Miri's builds don't take --cap-lints; this allows what is denied by default."""
    if not known:
        r = subprocess.run(["rustc", "+nightly", "-W", "help"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        known.append(" ".join("-A" + f[0] for f in map(str.split, r.stdout.splitlines()) if len(f) > 1 and f[1] == "deny"))
    return known[0]


def module(name, source):
    return "mod %s {\n%s}\n" % (name, source.replace(HEAD_ALLOW, "", 1).replace("fn main()", "pub fn main()"))


def runner(programs, which):
    """A binary of the programs; args: `none`, `some SKIP STEP` or `one NAME`."""
    text = HEAD_ALLOW
    calls = []
    for p in programs:
        text += module(p[0], p[which])
        calls.append('    ("%s", %s::main),' % (p[0], p[0]))
    text += "const ALL: &[(&str, fn())] = &[\n%s\n];\n" % "\n".join(calls)
    return text + """fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (skip, step) = if a[0] == "some" { (a[1].parse().unwrap(), a[2].parse().unwrap()) } else { (0, 1) };
    for (name, f) in ALL.iter().skip(skip).step_by(step) {
        if a[0] == "none" || a[0] == "one" && a[1] != *name {
            continue;
        }
        eprintln!("PROGRAM {}", name);
        match std::panic::catch_unwind(f) {
            Ok(_) => println!("RAN {}", name),
            Err(_) => println!("PANICKED {}", name),
        }
    }
    println!("DONE");
}
"""


UB = re.compile(r"error: (Undefined Behavior|abnormal termination).*")


def communicate(p, timeout):
    """(output, errors), or None if it's out of time."""
    try:
        return p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None


def judge(where, target, env, lock, classes, cores, say):
    """Offer and run. Returns (what was observed, None or a violation: the name,
    source, Miri's words)."""
    h = Hostile(where, target, env, lock, classes)
    seen = {"programs": len(h.programs), "classes": {c: CLASSES[c] for c in classes}}
    accepted, codes = h.offer(2)
    seen["refused_by_the_compiler"] = len(codes)
    tally = {}
    for c in codes.values():
        tally[c] = tally.get(c, 0) + 1
    seen["refused_by_code"] = dict(sorted(tally.items()))
    good, bad_twins = h.offer(3)
    seen["twins_accepted"] = len(good)
    if bad_twins:
        seen["twins_refused"] = sorted(bad_twins.items())[:20]
        say("peaceful twins refused by the compiler: %s" % seen["twins_refused"])
    if len(good) < len(h.programs) // 2:
        raise Unjudged("most of the twins are refused, so the refusals say nothing")
    for name, which, programs in (("hostile", 2, accepted), ("twins", 3, good)):
        seen[name + "_run"] = 0
        if not programs:
            continue
        source = runner(programs, which)
        err = h.build(name, source)
        if err:
            raise Unjudged("%s: %s" % (name, err))
        if which == 2:
            # Each by itself: one may well end the process.
            runs = [["one", p[0]] for p in programs[:64]]
        else:
            runs = [["some", i, cores] for i in range(cores)]
        while runs:
            batch, runs = runs[:cores], runs[cores:]
            for a, p in [(a, h.miri(name, ["-Zmiri-tree-borrows"], a)) for a in batch]:
                r = communicate(p, 300)
                if r is None:
                    say("%s %s: out of time" % (name, a))
                    continue
                out, err = r
                seen[name + "_run"] += out.count("RAN ")
                panicked = re.findall(r"PANICKED (\w+)", out)
                if panicked:
                    say("%s panicked: %s" % (name, panicked))
                if p.returncode != 0 and UB.search(err):
                    which_one = re.findall(r"(?m)^PROGRAM (\w+)$", err)[-1]
                    # Again, by itself.
                    q = h.miri(name, ["-Zmiri-tree-borrows"], ["one", which_one])
                    r = communicate(q, 300)
                    if r is not None and UB.search(r[1]):
                        mine = [x for x in programs if x[0] == which_one][0]
                        return seen, (name, which_one, mine[which], UB.search(r[1]).group(0), r[1][r[1].index(UB.search(r[1]).group(0)):][:6000])
                    raise Unjudged("%s %s: UB once but not again" % (name, which_one))
                if "DONE" not in out:
                    say("%s %s ended early: %s" % (name, a, err[-500:]))
    seen["samples"] = ["%s: refused with %s" % (p[0], codes[p[0]]) for p in h.programs if p[0] in codes][:: max(1, len(h.programs) // 4)][:4]
    return seen, None


def again(where, target, env, lock, source):
    """Run one program again: (exit status, words)."""
    h = Hostile(where, target, env, lock, [])
    h.write({"one": source})
    r = communicate(h.miri("one", ["-Zmiri-tree-borrows"]), 600)
    return r[1] if r else "out of time"
