//! C25: what comes out depends on the bytes and values alone: not on where they lie, what surrounds them, what
//! was done before, the thread, other threads, or the build (the last one: digests are compared by the driver)
use cbored::state::{HeaderValue, State};
use cbored::*;
use mon::ex::*;
use mon::gen::*;
use mon::nest::*;
use mon::refc::*;
use mon::rt::*;
use mon::sch::arb_u;
use mon::typ::*;
use mon::*;
use std::cell::RefCell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::{Arc, Barrier, OnceLock};

#[global_allocator]
static A: Counting = Counting;

static FILES: OnceLock<Vec<File>> = OnceLock::new();
const PHASES: usize = 6;

/// keep the digest of this case, for the comparison with other builds
fn keep(cx: &Cx, d: u64) {
    if let Some(v) = FILES.get() {
        v[cx.phase].write_at(&(d | 1).to_le_bytes(), cx.idx * 8).expect("digest file");
    }
    if std::env::var_os("C25_SHOW").is_some() {
        println!("digest {:016x} input {}", d | 1, hex(&cx.input))
    }
}

fn digest(b: &[u8], k: u64) -> u64 {
    let mut s = Sink::new(true);
    everything(&mut s, b, &mut Rng::new(25, 25, k), 2);
    s.num(s.ops);
    s.num(s.oks);
    s.h
}

fn input(cx: &mut Cx) -> Vec<u8> {
    if cx.idx % 200 == 17 {
        cx.g.big = 1
    }
    let b = match cx.g.below(8) {
        0 | 1 => cx.g.item(&Opt::any_text()).enc(),
        2 => {
            let o = Opt { size: 5, ..Opt::any_text() };
            let n = 1 + cx.g.below(4);
            enc_all(&(0..n).map(|_| cx.g.item(&o)).collect::<Vec<_>>())
        }
        3 | 4 => {
            fn f<T: Typ>(g: &mut Rng) -> Vec<u8> {
                try_bytes::<T>(g)
            }
            let k = cx.g.below(1000);
            with_types!(k, f, &mut cx.g)
        }
        5 => {
            let mut b = cx.g.item(&Opt::any_text()).enc();
            let n = cx.g.below(b.len() + 1);
            b.truncate(n);
            b
        }
        _ => cx.g.hostile(),
    };
    // (everything is done with it many times over, also without optimisation)
    let b = if b.len() > 5000 { b[..5000].to_vec() } else { b };
    cx.input(&b);
    cx.seen_bytes(&b, !b.is_empty());
    cx.sample(|| hex(&b));
    b
}

/// the same bytes at another place, with something around them
fn placed(cx: &mut Cx, b: &[u8], off: usize, kind: usize) -> (Vec<u8>, usize) {
    let after = 1 + cx.g.below(40);
    let mut v = Vec::with_capacity(off + b.len() + after + 8);
    let fill = |g: &mut Rng, n: usize, front: bool| -> Vec<u8> {
        match kind {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => g.bytes_n(n),
            // what would go on (or come before) if bounds were not respected
            3 => b.iter().copied().cycle().take(n).chain(std::iter::repeat(0)).take(n).collect(),
            4 => vec![0x80; n],
            5 => vec![*g.pick(&[0x00u8, 0x40, 0x60, 0xf6, 0x1f, 0x9f, 0xbf, 0x5f]); n],
            _ => {
                let mut v = vec![];
                while v.len() < n {
                    g.item(&Opt { size: 3, ..Opt::std() }).enc_to(&mut v)
                }
                if front {
                    v.drain(..v.len() - n);
                } else {
                    v.truncate(n)
                }
                v
            }
        }
    };
    let f = fill(&mut cx.g, off, true);
    v.extend(f);
    v.extend_from_slice(b);
    let f = fill(&mut cx.g, after, false);
    v.extend(f);
    (v, off)
}

/// one thing done with an input
fn atom(b: &[u8], k: usize) -> u64 {
    let mut s = Sink::new(true);
    match k {
        0 => validator(&mut s, b, 1),
        1 => match Reader::new(b).data() {
            Ok(d) => use_data(&mut s, &d, 0),
            Err(e) => s.out(&e),
        },
        k if k < 2 + OPS => {
            op(&mut s, &mut Reader::new(b), k - 2, 0);
        }
        k => use_types(&mut s, b, k),
    }
    s.h
}

/// a buffer used, changed, and used again: the outcome is that of what it holds then
fn changed(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    if b.is_empty() {
        return Ok(());
    }
    let mut buf: Box<[u8]> = b.to_vec().into_boxed_slice();
    for i in 0..4 {
        let k = if i < 2 { i } else { cx.g.below(2 + OPS + 30) };
        let first = atom(&buf, k);
        let n = buf.len();
        // other bytes in the same place, or another part of the same place
        let (from, to) = match cx.g.below(6) {
            0 => (0, n - 1),
            1 => (1, n),
            _ => {
                for _ in 0..1 + cx.g.below(3) {
                    let at = cx.g.below(n);
                    buf[at] = match cx.g.below(4) {
                        0 => 0xff,
                        1 => buf[at] ^ 1 << cx.g.below(8),
                        2 => 0x1c,
                        _ => cx.g.u64() as u8,
                    };
                }
                (0, n)
            }
        };
        let second = atom(&buf[from..to], k);
        let other: Box<[u8]> = buf[from..to].to_vec().into_boxed_slice();
        ck!(atom(&other, k) == second, "call {} on a buffer changed since it was last used ({} to {} of {}, now {}): another outcome than elsewhere", k, from, to, n, hex(&other));
        buf.copy_from_slice(b);
        ck!(atom(&buf, k) == first, "call {} on a buffer changed and changed back: another outcome", k);
        cx.count("buffers changed in place")
    }
    Ok(())
}

/// addresses, alignments, surroundings, repetition, history
fn place(cx: &mut Cx) -> Result<(), String> {
    let b = input(cx);
    let k = cx.idx;
    let d = digest(&b, k);
    keep(cx, d);
    ck!(digest(&b, k) == d, "repeated: another outcome");
    let own: Box<[u8]> = b.clone().into_boxed_slice();
    ck!(digest(&own, k) == d, "in a buffer of its own: another outcome");
    let o = cx.g.below(64);
    for i in 0..3 {
        let kind = cx.g.below(7);
        let (v, off) = placed(cx, &b, [o, o + 1, o + 4][i], kind);
        ck!(digest(&v[off..off + b.len()], k) == d, "inside of a larger buffer (offset {}, address mod 16 = {}, surroundings {}): another outcome", off, (v.as_ptr() as usize + off) % 16, kind);
        cx.count("placements compared")
    }
    // something else first, on this thread
    for _ in 0..1 + cx.g.below(3) {
        let x = cx.g.hostile();
        digest(&x, k);
    }
    ck!(digest(&b, k) == d, "after other inputs: another outcome");
    cx.count("histories compared");
    changed(cx, &b)?;
    if cx.idx % 8 == 0 {
        let r = std::thread::scope(|s| s.spawn(|| nopanic(|| digest(&b, k))).join().unwrap())?;
        ck!(r == d, "on a new thread: another outcome");
        cx.count("new threads compared")
    }
    Ok(())
}

/// many threads on one shared buffer, in different orders, and on shared values
fn shared(cx: &mut Cx) -> Result<(), String> {
    let n = 12 + cx.g.below(12);
    let mut buf = vec![];
    let mut at = vec![];
    for _ in 0..n {
        let b = input(cx);
        at.push((buf.len(), b.len()));
        buf.extend(b);
    }
    let at = Arc::new(at);
    let base: Vec<u64> = at.iter().enumerate().map(|(i, (a, l))| digest(&buf[*a..a + l], i as u64)).collect();
    let mut h = Sink::new(false);
    base.iter().for_each(|d| h.num(*d));
    keep(cx, h.h);
    let t = 2 + cx.g.below(3);
    let bar = Barrier::new(t);
    let seeds: Vec<u64> = (0..t).map(|_| cx.g.u64()).collect();
    let (buf, at, base) = (&buf, &at, &base);
    let (ph, idx) = (cx.phase, cx.idx);
    let rs: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|sd| {
                let bar = &bar;
                s.spawn(move || {
                    set_case(ph, idx);
                    let mut g = Rng::new(*sd, 1, 1);
                    let mut order: Vec<usize> = (0..n).collect();
                    for i in 0..n {
                        order.swap(i, g.below(n))
                    }
                    bar.wait();
                    nopanic(|| {
                        for i in order {
                            let (a, l) = at[i];
                            if digest(&buf[a..a + l], i as u64) != base[i] {
                                return Err(format!("used by several threads at once: another outcome for {}", hex(&buf[a..a + l])));
                            }
                        }
                        Ok(())
                    })
                    .and_then(|x| x)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in rs {
        r?
    }
    cx.add("outcomes compared under concurrency", (n * t) as u64);
    // one value, borrowed and owned, used by all of the threads
    let it = cx.g.container(&Opt::any_text());
    let b = it.enc();
    cx.input(&b);
    let use_it = |d: &Data| {
        let mut s = Sink::new(true);
        use_data(&mut s, d, 3);
        s.h
    };
    if let Ok(d) = Reader::new(&b).data() {
        let own = d.owned();
        let h0 = use_it(&d);
        let bar = Barrier::new(t);
        let (dr, or, bar) = (&d, &own, &bar);
        let rs: Vec<Result<bool, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..t)
                .map(|_| {
                    s.spawn(move || {
                        set_case(ph, idx);
                        bar.wait();
                        nopanic(|| use_it(dr) == h0 && use_it(&or.borrow()) == h0 && use_it(&dr.clone()) == h0)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in rs {
            ck!(r?, "a value shared by several threads: another outcome")
        }
        cx.count("values shared by threads")
    }
    Ok(())
}

/// values of typed kinds: what is written does not depend on the writer's buffer or on what happened before
fn typed(cx: &mut Cx) -> Result<(), String> {
    fn f<T: Typ>(cx: &mut Cx) -> Result<(), String> {
        let items = T::sch().arb(&mut cx.g, 3);
        let b = enc_all(&items);
        cx.input(&b);
        cx.seen_bytes(&b, true);
        let mut s = Sink::new(true);
        let Ok(v) = Reader::new(&b).decode::<T>() else {
            keep(cx, 4);
            return Ok(());
        };
        let e = encode_to_bytes(&v);
        s.raw(&e);
        let err = decode_from_bytes::<T>(&[&e[..], &[0x18]].concat());
        s.out(&err.err());
        keep(cx, s.h);
        for _ in 0..3 {
            let pre = cx.g.slen();
            let pre = cx.g.bytes_n(pre);
            let cap = cx.g.below(300);
            let mut buf = Vec::with_capacity(pre.len() + cap);
            buf.extend_from_slice(&pre);
            let mut w = Writer::new_from_vec(buf);
            w.encode(&v);
            let o = w.finalize();
            ck!(o[..pre.len()] == pre && o[pre.len()..] == e, "writing after {} bytes with room for {}: other bytes {}", pre.len(), cap, hex(&o));
        }
        ck!(encode_to_bytes(&v) == e, "written again: other bytes");
        cx.count("typed values written");
        Ok(())
    }
    with_types!(cx.idx as usize, f, cx)
}

fn put(g: &mut Rng, w: &mut Writer, depth: usize) {
    let v = g.uint();
    match g.below(if depth > 0 { 22 } else { 16 }) {
        0 => w.positive(Positive::canonical(v)),
        1 => w.negative(Negative::canonical(v)),
        2 => w.scalar(Scalar::canonical_negative(v)),
        3 => w.byte(Byte::canonical(v as u8)),
        4 | 5 => {
            let n = g.slen();
            w.bytes(&Bytes::from_slice(&g.bytes_n(n)))
        }
        6 | 7 => {
            let n = g.slen();
            w.text(&Text::from_str(&g.text_n(n)))
        }
        8 => w.constant(*g.pick(&[Constant::False, Constant::True, Constant::Null, Constant::Undefined])),
        9 => w.bool(v % 2 == 0),
        10 => w.float(Float::FP64(g.double())),
        11 => w.float(Float::FP16(g.half())),
        12 => w.encode(&v),
        13 => w.encode(&g.text_n(5)),
        14 => w.encode(&arb_u(g, 255)),
        15 => {
            let b = g.item(&Opt { depth: 2, size: 4, ..Opt::std() }).enc();
            if let Ok(d) = Reader::new(&b).data() {
                w.data(&d)
            };
        }
        16 | 17 => {
            let n = g.below(6);
            let l = if g.p(1, 3) { StructureLength::Indefinite } else { StructureLength::from(n as u64) };
            w.array_build(l, |w| (0..n).for_each(|_| put(g, w, depth - 1)))
        }
        18 | 19 => {
            let n = g.below(5);
            let l = if g.p(1, 3) { StructureLength::Indefinite } else { StructureLength::from(n as u64) };
            w.map_build(l, |w| (0..2 * n).for_each(|_| put(g, w, depth - 1)))
        }
        _ => w.tag_build(TagValue::from_u64(v), |w| put(g, w, depth - 1)),
    }
}

/// scripts of writer calls, repeated: with other buffers, after others, on another thread
fn written(cx: &mut Cx) -> Result<(), String> {
    let g0 = cx.g.clone();
    let script = |mut w: Writer| {
        let mut g = g0.clone();
        for _ in 0..1 + g.below(5) {
            put(&mut g, &mut w, 3)
        }
        w.finalize()
    };
    let o = script(Writer::new());
    cx.input(&o);
    cx.seen_bytes(&o, true);
    let mut s = Sink::new(false);
    s.raw(&o);
    keep(cx, s.h);
    cx.g.u64();
    let cap = cx.g.below(400);
    ck!(script(Writer::new_from_vec(Vec::with_capacity(cap))) == o, "in a buffer with room for {}: other bytes", cap);
    let d = script(Writer::new_from_vec(vec![]));
    ck!(d == o, "with an empty buffer: other bytes");
    if cx.idx % 16 == 0 {
        let r = std::thread::scope(|s| s.spawn(|| nopanic(|| script(Writer::new()))).join().unwrap())?;
        ck!(r == o, "on a new thread: other bytes")
    }
    cx.count("scripts compared");
    Ok(())
}

/// scripts of events of the state machine (up to the first error)
fn events(cx: &mut Cx) -> Result<(), String> {
    let g0 = cx.g.clone();
    let script = || {
        let mut g = g0.clone();
        let mut st = State::new();
        let mut s = Sink::new(true);
        let n = 1 + g.below(30);
        for _ in 0..n {
            let x = g.u64();
            let h = match g.below(5) {
                0 => None,
                1 => Some(HeaderValue::canonical(x)),
                _ => Some(HeaderValue::canonical(x % 3)),
            };
            let r = match g.below(9) {
                0 | 1 => st.simple(),
                2 => st.text(h),
                3 => st.bytes(h),
                4 => st.array(h),
                5 => st.map(h),
                6 => st.tag(),
                _ => st.brk(),
            };
            s.res(&r);
            s.num(st.acceptable() as u64);
            if r.is_err() {
                break;
            }
        }
        s.h
    };
    let d = script();
    cx.seen(d, true);
    keep(cx, d);
    ck!(script() == d, "the same events again: another outcome");
    cx.count("event scripts compared");
    Ok(())
}

/// larger inputs: deep, long, wide
fn large(cx: &mut Cx) -> Result<(), String> {
    let k = cx.idx as usize % shapes::NAMES.len();
    let n = [3, 24, 200, 1500][cx.idx as usize / shapes::NAMES.len() % 4];
    let b = shapes::shape(k, n);
    cx.input(&b);
    cx.seen_bytes(&b, true);
    let run = |b: &[u8]| {
        let mut s = Sink::new(true);
        validator(&mut s, b, 1);
        let mut r = Reader::new(b);
        while let Ok(d) = r.data() {
            use_data(&mut s, &d, 0)
        }
        use_types(&mut s, b, k);
        s.res(&r.expect_finished());
        s.h
    };
    let d = run(&b);
    keep(cx, d);
    for off in [1, 3, 8] {
        let (v, off) = placed(cx, &b, off, off % 7);
        ck!(run(&v[off..off + b.len()]) == d, "at another address: another outcome");
    }
    Ok(())
}

/// uses that ended in a panic of the caller's own code, and uses from inside of the caller's code
fn interrupted(cx: &mut Cx) -> Result<(), String> {
    let b = input(cx);
    let k = cx.idx;
    let d0 = digest(&b, k);
    let t = Tr::arb(&mut cx.g, 3);
    let e0 = encode_to_bytes(&t);
    let i0 = decode_from_bytes::<Any>(&e0).map_err(|e| format!("{:?}", e));
    let g0 = cx.g.clone();
    cx.g.u64();
    let script = |w: &mut Writer| {
        let mut g = g0.clone();
        for _ in 0..1 + g.below(3) {
            put(&mut g, w, 2)
        }
    };
    let s0 = {
        let mut w = Writer::new();
        script(&mut w);
        w.finalize()
    };
    let same = |when: &str| -> Result<(), String> {
        let e = encode_to_bytes(&t);
        ck!(e == e0, "{}: a value is written {} instead of {}", when, hex(&e), hex(&e0));
        let i = decode_from_bytes::<Any>(&e0).map_err(|e| format!("{:?}", e));
        ck!(i == i0, "{}: {} is read as {:?} instead of {:?}", when, hex(&e0), i, i0);
        let mut w = Writer::new();
        script(&mut w);
        let s = w.finalize();
        ck!(s == s0, "{}: calls to a writer give {} instead of {}", when, hex(&s), hex(&s0));
        let mut bl = ArrayBuilder::new();
        bl.append_encodable(&t);
        let a = bl.finite();
        ck!(a.len() == 1 && a[0].as_ref() == e0, "{}: a built array of {} has {} elements, {}", when, hex(&e0), a.len(), hex(a[0].as_ref()));
        ck!(digest(&b, k) == d0, "{}: another outcome", when);
        Ok(())
    };
    // panics in what the library calls
    let bad = t.clone().broken(&mut cx.g);
    for _ in 0..3 {
        let at = cx.g.below(8) as u64;
        let what = cx.g.below(7);
        let r = nopanic(|| match what {
            0 => drop(encode_to_bytes(&bad)),
            1 => {
                let mut bl = ArrayBuilder::new();
                bl.append_encodable(&t);
                bl.append_encodable(&bad);
            }
            2 => {
                let mut w = Writer::new();
                script(&mut w);
                w.map_build(StructureLength::Indefinite, |w| {
                    script(w);
                    w.encode(&bad)
                })
            }
            3 => drop(CborDataOf::from(&bad)),
            4 => encode_vec(&[t.clone(), bad.clone()], &mut Writer::new()),
            _ => {
                FUSE.with(|f| f.set(at));
                if what == 5 {
                    drop(decode_from_bytes::<Any>(&e0).is_ok())
                } else {
                    drop(Reader::new(&e0).exact_decodable_data::<Any>().is_ok())
                }
            }
        });
        FUSE.with(|f| f.set(u64::MAX));
        cx.count(if r.is_err() { "uses that panicked half-way" } else { "uses that ended" });
        same("after a caller's panic")?;
    }
    // from within
    let res: RefCell<Result<(), String>> = RefCell::new(Ok(()));
    struct Hook<'a>(&'a dyn Fn());
    impl<'a> Encode for Hook<'a> {
        fn encode(&self, w: &mut Writer) {
            w.tag_build(TagValue::from_u64(7), |w| {
                (self.0)();
                w.encode(&8u8)
            });
            (self.0)();
        }
    }
    let what = cx.g.below(4);
    let inside = || {
        let r = same("from within the caller's code");
        if r.is_err() {
            *res.borrow_mut() = r
        }
    };
    match what {
        0 => {
            let e = encode_to_bytes(&Hook(&inside));
            ck!(e == [0xc7, 8], "writing around other uses gives {}", hex(&e))
        }
        1 => {
            let mut bl = ArrayBuilder::new();
            bl.append_encodable(&Hook(&inside));
            bl.append_encodable(&1u8);
            let a = bl.indefinite();
            ck!(a.len() == 2 && a[0].as_ref() == [0xc7, 8] && a[1].as_ref() == [1], "building around other uses gives {:?}", a)
        }
        2 => {
            let mut w = Writer::new();
            w.array_build(StructureLength::Indefinite, |w| w.tag_build(TagValue::from_u64(1), |w| w.encode(&Hook(&inside))));
            let e = w.finalize();
            ck!(e == [0x9f, 0xc1, 0xc7, 8, 0xff], "writing around other uses gives {}", hex(&e))
        }
        _ => {
            let c = [0x82, 0xc1, 0x61, b'a', 0x02];
            let a = Reader::new(&c).array().map_err(|e| format!("{:?}", e))?;
            let v = a.to_vec(|r| {
                inside();
                let x = r.data().map_err(DecodeErrorKind::ReaderError)?.owned();
                inside();
                Ok(x)
            });
            let v = v.map_err(|e| format!("{:?}", e))?;
            ck!(v.len() == 2 && encode_to_bytes(&v[0]) == c[1..4] && encode_to_bytes(&v[1]) == c[4..], "reading around other uses gives {:?}", v)
        }
    }
    cx.count("uses from within others");
    res.into_inner()
}

/// small inputs, for interpreted builds of other platforms; error values are not compared (they have sizes in them)
fn platform(cx: &mut Cx) -> Result<(), String> {
    set_small();
    let b = match cx.g.below(4) {
        0 => {
            // lengths that do not fit a smaller word
            let mut b = vec![];
            let pre: &[&[u8]] = &[&[], &[], &[0x9f], &[0x82, 0x00], &[0x5f], &[0x7f], &[0xbf, 0x00], &[0xa1], &[0xc2], &[0x81], &[0xd8, 24]];
            b.extend_from_slice(*cx.g.pick(pre));
            let m = 2 + cx.g.below(4) as u8;
            let lo = cx.g.u64() % 5;
            let hi = 1u64 << (31 + cx.g.below(33));
            head(m, W::W8, hi | lo, &mut b);
            for _ in 0..cx.g.below(10) {
                b.push(*cx.g.pick(&LEADS))
            }
            cx.input(&b);
            cx.seen_bytes(&b, true);
            b
        }
        _ => input(cx),
    };
    let mut s = Sink::new(false);
    s.fold = true;
    let mut g = cx.g.clone();
    match g.below(4) {
        0 => all_ops(&mut s, &b, 0),
        1 => {
            validator(&mut s, &b, 0);
            script(&mut s, &b, &mut g, 6, 0)
        }
        _ => {
            let k = g.below(30);
            use_types(&mut s, &b, k)
        }
    }
    s.num(s.ops);
    s.num(s.oks);
    if std::env::var_os("C25_PRINT").is_some() {
        println!("digest {} {:016x} {}", cx.idx, s.h, hex(&b))
    }
    Ok(())
}

const NSHAPES: u64 = shapes::NAMES.len() as u64;

fn main() {
    let names = ["place", "shared", "typed", "written", "events", "large"];
    if let Ok(p) = std::env::var("C25_DIGESTS") {
        let _ = FILES.set((0..PHASES).map(|i| File::create(format!("{}.{}", p, names[i])).expect("digest file")).collect());
    }
    run(&[
        ph(names[0], 50_000, 1_500_000, place),
        ph(names[1], 700, 20_000, shared),
        ph(names[2], 60_000, 2_000_000, typed),
        ph(names[3], 60_000, 2_000_000, written),
        ph(names[4], 200_000, 5_000_000, events),
        Phase { name: names[5], quick: NSHAPES * 4, thorough: NSHAPES * 4, f: large, seeded: false },
        ph("interrupted", 12_000, 500_000, interrupted),
        ph("platform", 1_000_000, 1_000_000, platform),
    ])
}
