//! C06: every call and everything that can be done with what it returned, under checkers of undefined behaviour
//! (Miri, AddressSanitizer, ThreadSanitizer, memcheck, the checks of the standard library), and all strings looked at
use cbored::*;
use mon::ex::*;
use mon::gen::*;
use mon::refc::*;
use mon::rt::*;
use mon::typ::*;
use mon::*;
use std::borrow::Borrow;
use std::sync::Barrier;

#[global_allocator]
static A: Counting = Counting;

fn done(cx: &mut Cx, s: &Sink) -> Result<(), String> {
    cx.add("calls observed", s.ops);
    cx.add("calls that returned a value", s.oks);
    cx.add("strings looked at", s.strs);
    ck!(s.bad_utf8 == 0, "{} strings handed out are not valid UTF-8", s.bad_utf8);
    Ok(())
}

/// the bytes are in an allocation of exactly their size, which is gone before what was copied from it is used
fn drive(cx: &mut Cx, b: Vec<u8>) -> Result<(), String> {
    cx.input(&b);
    cx.seen_bytes(&b, true);
    cx.sample(|| hex(&b));
    let own: Box<[u8]> = b.into_boxed_slice();
    let mut s = Sink::new(!cfg!(miri) || cx.idx % 8 == 0);
    let mut g = cx.g.clone();
    if cfg!(miri) {
        // a part only, another one in each case
        match g.below(5) {
            0 => all_ops(&mut s, &own, 0),
            1 => {
                validator(&mut s, &own, 2);
                script(&mut s, &own, &mut g, 8, 1)
            }
            _ => {
                let k = g.below(30);
                use_types(&mut s, &own, k)
            }
        }
    } else {
        everything(&mut s, &own, &mut g, 2);
    }
    done(cx, &s)
}
fn hostile(cx: &mut Cx) -> Result<(), String> {
    let b = cx.g.hostile();
    drive(cx, b)
}
fn types(cx: &mut Cx) -> Result<(), String> {
    fn f<T: Typ>(cx: &mut Cx) -> Result<(), String> {
        let b = try_bytes::<T>(&mut cx.g);
        cx.input(&b);
        cx.seen_bytes(&b, true);
        let own: Box<[u8]> = b.into_boxed_slice();
        let mut s = Sink::new(!cfg!(miri) || cx.idx % 8 == 0);
        reader_as::<T>(&mut s, &own);
        done(cx, &s)
    }
    with_types!(cx.idx as usize, f, cx)
}
fn small(cx: &mut Cx) -> Result<(), String> {
    let b = exhaustive_alpha(cx.idx);
    drive(cx, b)
}
fn text(cx: &mut Cx) -> Result<(), String> {
    let o = Opt::any_text();
    let n = 1 + cx.g.below(3);
    let mut b = vec![];
    for _ in 0..n {
        It::Text(cx.g.string(true, &o)).enc_to(&mut b)
    }
    if n > 1 {
        b.insert(0, 0x80 + n as u8)
    }
    if cx.g.p(1, 6) {
        cx.g.mutate(&mut b)
    }
    drive(cx, b)
}

/// values kept after the buffer they come from was changed and freed, kept in any order
fn lifetimes(cx: &mut Cx) -> Result<(), String> {
    let it = if cx.g.p(1, 2) { cx.g.container(&Opt::any_text()) } else { cx.g.item(&Opt::any_text()) };
    let b = it.enc();
    cx.input(&b);
    cx.seen_bytes(&b, true);
    let mut s = Sink::new(!cfg!(miri) || cx.idx % 8 == 0);
    let (own, dec, err, exact, kept, vec) = {
        let mut buf: Box<[u8]> = b.clone().into_boxed_slice();
        let own = {
            let d = Reader::new(&buf).data();
            d.as_ref().ok().map(|d| d.owned())
        };
        let dec = Reader::new(&buf).decode::<DataOwned>().ok();
        let err = Reader::new(&buf).decode::<VecOf<VecOf<u16>>>().err();
        let exact = Reader::new(&buf).exact_decodable_data::<DataOwned>().ok();
        let kept = Reader::new(&buf).exact_decodable_slice::<DataOwned>().ok().map(|x| (x.to_owned(), x.untype().to_owned()));
        let vec = decode_from_bytes::<VecOf<DataOwned>>(&buf).ok();
        buf.iter_mut().for_each(|x| *x ^= 0x5a);
        drop(buf);
        (own, dec, err, exact, kept, vec)
    };
    if let Some(o) = &own {
        use_data(&mut s, &o.borrow(), if cfg!(miri) { 0 } else { 2 });
    }
    s.out(&err);
    if let Some(e) = &err {
        s.raw(format!("{} {}", e, e.context_as_path()).as_bytes())
    }
    drop(own);
    if let Some(o) = dec {
        let c = o.clone();
        drop(o);
        use_data(&mut s, &c.borrow(), 1)
    }
    if let Some(e) = exact {
        s.raw(&encode_to_bytes(&e.unserialize()));
        let x: &CborSliceOf<DataOwned> = e.borrow();
        s.raw(x.untype().as_ref());
        let u = e.clone().untype();
        drop(e);
        s.raw(u.as_ref());
        let y = u.validate_as::<DataOwned>();
        s.res(&y);
    }
    if let Some((a, c)) = kept {
        let x: &CborSlice = c.borrow();
        use_slice(&mut s, x, 12);
        s.raw(&encode_to_bytes(&a));
        drop(c);
        s.raw(a.as_ref());
    }
    if let Some(v) = vec {
        v.0.iter().rev().for_each(|d| use_data(&mut s, &d.borrow(), 0))
    }
    // readers that outlive the value they were made from
    let rs: Vec<Reader> = match Reader::new(&b).data() {
        Ok(Data::Tag(t)) => vec![t.reader(), t.data().reader()],
        _ => vec![],
    };
    for mut r in rs {
        if let Ok(d) = r.data() {
            use_data(&mut s, &d, 1)
        }
    }
    done(cx, &s)
}

/// values written: strings from everywhere, builders, initial buffers
fn written(cx: &mut Cx) -> Result<(), String> {
    let mut s = Sink::new(!cfg!(miri) || cx.idx % 8 == 0);
    let n = cx.g.slen();
    let (d, t) = (cx.g.bytes_n(n), cx.g.text_n(n));
    let cap = cx.g.below(64);
    let mut init = Vec::with_capacity(cap);
    init.extend(cx.g.bytes_n(cap / 3));
    let mut w = Writer::new_from_vec(init);
    w.bytes(&Bytes::from_slice(&d));
    w.text(&Text::from_str(&t));
    w.encode(&t);
    w.encode(&d);
    let v = cx.g.uint();
    w.array_build(StructureLength::from(2), |w| {
        w.tag_build(TagValue::from_u64(v), |w| w.positive(Positive::canonical(v)));
        w.map_build(StructureLength::Indefinite, |w| {
            w.negative(Negative::canonical(v));
            w.float(Float::FP64(v));
        });
    });
    let it = cx.g.item(&Opt::any_text()).enc();
    if let Ok(x) = Reader::new(&it).data() {
        w.data(&x);
        w.encode(&x.owned())
    }
    let big = cx.g.bytes_n(1 + n % 9);
    w.encode(&cbored::tagged::EncodedCBOR::from_bytes(&big));
    w.encode(&CborDataOf::from(&t));
    encode_vec(&[d.clone(), big], &mut w);
    let o = w.finalize();
    cx.input(&o);
    cx.seen_bytes(&o, true);
    s.raw(&o);
    let mut r = Reader::new(&o[cap / 3..]);
    while let Ok(x) = r.data() {
        use_data(&mut s, &x, 1)
    }
    done(cx, &s)
}

#[cfg(feature = "derive")]
mod derived {
    use super::*;
    #[derive(CborRepr, Clone, Debug, PartialEq)]
    #[cborrepr(structure = "mapint")]
    pub struct M {
        pub a: Option<u64>,
        pub s: Option<String>,
        #[cborrepr(mandatory)]
        pub b: Vec<u8>,
    }
    #[derive(CborRepr, Clone, Debug, PartialEq)]
    #[cborrepr(structure = "array")]
    pub struct R(pub String, pub u8, pub [u8; 2]);
    #[derive(CborRepr, Clone, Debug, PartialEq)]
    #[cborrepr(enumtype = "enumint")]
    pub enum E {
        A,
        B,
        C,
    }
    #[derive(CborRepr, Clone, Debug, PartialEq)]
    #[cborrepr(enumtype = "tagvariant")]
    pub enum V {
        X(R),
        Y,
        Z { q: u64, r: String },
    }
    pub fn go<T: Encode + Decode + std::fmt::Debug>(s: &mut Sink, b: &[u8]) {
        let r = decode_from_bytes::<T>(b);
        match &r {
            Ok(v) => {
                s.out(v);
                s.raw(&encode_to_bytes(v));
                s.raw(CborDataOf::from(v).untype().as_ref());
            }
            Err(e) => s.raw(format!("{} {:?}", e, e).as_bytes()),
        }
        s.res(&r);
        let mut rd = Reader::new(b);
        let x = rd.exact_decodable_slice::<T>();
        s.res(&x);
        if let Ok(x) = x {
            s.raw(x.untype().as_ref());
        }
        s.num(rd.consumed_bytes() as u64);
    }
    /// the encoding of a value of one of the types, or what is near to one
    pub fn some(g: &mut Rng) -> Vec<u8> {
    let n = g.below(9);
    let t = g.text_n(n);
    let v = g.uint();
    let r = R(t.clone(), v as u8, [1, 2]);
    let mut b = match g.below(4) {
        0 => encode_to_bytes(&M { a: Some(v), s: if n % 2 == 0 { Some(t) } else { None }, b: vec![7; n] }),
        1 => encode_to_bytes(&r),
        2 => encode_to_bytes(g.pick(&[E::A, E::B, E::C])),
        _ => encode_to_bytes(g.pick(&[V::X(r), V::Y, V::Z { q: v, r: t }])),
    };
    if g.p(1, 2) {
        g.mutate(&mut b)
    }
        b
    }
    pub fn all(s: &mut Sink, g: &mut Rng) {
        let ok = [encode_to_bytes(&M { a: Some(1), s: None, b: vec![7] }), encode_to_bytes(&R("x".to_string(), 1, [1, 2])), encode_to_bytes(&E::B), encode_to_bytes(&V::Z { q: 1, r: "y".to_string() }), some(g)];
        for b in &ok {
            go::<M>(s, b);
            go::<R>(s, b);
            go::<E>(s, b);
            go::<V>(s, b);
        }
    }
}

/// derived types on what is near to one
#[cfg(feature = "derive")]
fn derive_types(cx: &mut Cx) -> Result<(), String> {
    use derived::*;
    let b = some(&mut cx.g);
    cx.input(&b);
    cx.seen_bytes(&b, true);
    let own: Box<[u8]> = b.into_boxed_slice();
    let mut s = Sink::new(!cfg!(miri) || cx.idx % 8 == 0);
    go::<M>(&mut s, &own);
    go::<R>(&mut s, &own);
    go::<E>(&mut s, &own);
    go::<V>(&mut s, &own);
    done(cx, &s)
}
#[cfg(not(feature = "derive"))]
fn derive_types(_: &mut Cx) -> Result<(), String> {
    Ok(())
}

/// bytes, values and errors shared between and sent to threads
fn threads(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { size: if cfg!(miri) { 3 } else { 6 }, ..Opt::any_text() };
    let n = if cfg!(miri) { 1 } else { 1 + cx.g.below(3) };
    let b = enc_all(&(0..n).map(|_| cx.g.container(&o)).collect::<Vec<_>>());
    cx.input(&b);
    cx.seen_bytes(&b, true);
    let ds: Vec<Data> = {
        let mut r = Reader::new(&b);
        let mut v = vec![];
        while let Ok(d) = r.data() {
            v.push(d)
        }
        v
    };
    let os: Vec<DataOwned> = ds.iter().map(|d| d.owned()).collect();
    let err = Reader::new(&b).decode::<VecOf<VecOf<u16>>>().err();
    let exact = Reader::new(&b).exact_decodable_data::<DataOwned>().ok();
    let nt = if cfg!(miri) { 2 } else { 2 + cx.g.below(2) };
    let seeds: Vec<u64> = (0..nt).map(|_| cx.g.u64()).collect();
    let bar = Barrier::new(nt);
    let (ph, idx) = (cx.phase, cx.idx);
    let (b, ds, os, err, exact, bar) = (&b, &ds, &os, &err, &exact, &bar);
    let rs: Vec<Result<(Sink, Vec<DataOwned>), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|sd| {
                let mut g = Rng::new(*sd, 3, 3);
                let moved = os.clone();
                s.spawn(move || {
                    set_case(ph, idx);
                    bar.wait();
                    nopanic(move || {
                        let mut s = Sink::new(!cfg!(miri));
                        for _ in 0..if cfg!(miri) { 1 } else { 3 } {
                            match g.below(6) {
                                0 => ds.iter().for_each(|d| use_data(&mut s, d, 1)),
                                1 => os.iter().for_each(|d| use_data(&mut s, &d.borrow(), 1)),
                                2 => moved.iter().for_each(|d| s.raw(&encode_to_bytes(d))),
                                3 => s.out(err),
                                4 => {
                                    if let Some(e) = exact {
                                        let x: &CborSliceOf<DataOwned> = e.borrow();
                                        s.raw(x.untype().as_ref());
                                        s.raw(&encode_to_bytes(&e.unserialize()));
                                    }
                                }
                                _ => script(&mut s, b, &mut g, 3, 0),
                            }
                        }
                        (s, moved)
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in rs {
        let (s, moved) = r?;
        // made on another thread, used and dropped here
        ck!(&moved == os, "values moved between threads differ");
        done(cx, &s)?
    }
    cx.count("shared by threads");
    Ok(())
}

/// threads that do the same with the same values, at the same time
fn same(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { size: 3, ..Opt::any_text() };
    // one of each kind
    let mut its: Vec<Vec<u8>> = [
        "00", "1818", "1bffffffffffffffff", "3903e7", "3bffffffffffffffff", "43010203", "5f4101420203ff", "63e282ac", "7f616162c3a9ff", "820102", "9f6161f6ff", "a201020304", "bf616101ff", "a1820102c100", "c11a00000001", "d81843010203", "c243010000",
        "c34101", "c06131", "d81e820103", "e0", "f820", "f5", "f6", "f7", "f93c00", "fa3f800000", "fb3ff0000000000000", "61ff", "440a0b0c0d", "83000102", "820a8101",
    ]
    .iter()
    .map(|h| unhex(h))
    .collect();
    if cx.idx > 0 {
        let t = cx.g.string(true, &o);
        its.push(It::Text(t).enc());
        its.push(cx.g.container(&o).enc());
    }
    let b: Vec<u8> = [&[0x98, its.len() as u8][..], &its.concat()[..]].concat();
    cx.input(&b);
    cx.seen_bytes(&b, true);
    let d = Reader::new(&b).data().map_err(|e| format!("a well-formed item is refused: {:?}", e))?;
    let own = d.owned();
    let err = Reader::new(&b).decode::<VecOf<VecOf<u16>>>().err();
    let nt = if cfg!(miri) { 2 } else { 2 + cx.idx as usize % 3 };
    let bar = Barrier::new(nt);
    let (ph, idx) = (cx.phase, cx.idx);
    let seed = cx.g.u64();
    let (part, off) = if cfg!(miri) { (15, cx.g.below(15)) } else { (1, 0) };
    let (b, its, d, own, err, bar) = (&b, &its, &d, &own, &err, &bar);
    let rs: Vec<Result<Sink, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|_| {
                s.spawn(move || {
                    set_case(ph, idx);
                    bar.wait();
                    nopanic(move || {
                        let mut s = Sink::new(!cfg!(miri));
                        use_data(&mut s, d, 1);
                        use_data(&mut s, &own.borrow(), if cfg!(miri) { 0 } else { 1 });
                        s.raw(&encode_to_bytes(own));
                        s.out(err);
                        if let Some(e) = err {
                            s.raw(format!("{} {}", e, e.context_as_path()).as_bytes())
                        }
                        validator(&mut s, b, 1);
                        if !cfg!(miri) {
                            past_the_end(&mut s, b, 1)
                        }
                        let mut g = Rng::new(seed, 3, 3);
                        for i in its {
                            for _ in 0..if cfg!(miri) { 1 } else { 2 } {
                                let k = g.below(OPS);
                                op(&mut s, &mut Reader::new(i), k, 1);
                            }
                        }
                        for k in (0..30).filter(|k| (k + off) % part == 0) {
                            let i = g.below(its.len());
                            use_types(&mut s, &its[i], k)
                        }
                        #[cfg(feature = "derive")]
                        derived::all(&mut s, &mut g);
                        s
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut hs = vec![];
    for r in rs {
        let s = r?;
        hs.push((s.oks, s.ops, if cfg!(miri) { 0 } else { s.h }));
        done(cx, &s)?
    }
    ck!(hs.iter().all(|h| *h == hs[0]), "threads that did the same saw different results");
    cx.count("done by several threads at once");
    Ok(())
}

/// indices past the end of what containers hold
fn misuse(cx: &mut Cx) -> Result<(), String> {
    let b = cx.g.container(&Opt::any_text()).enc();
    cx.input(&b);
    cx.seen_bytes(&b, true);
    let own: Box<[u8]> = b.into_boxed_slice();
    let mut s = Sink::new(true);
    past_the_end(&mut s, &own, 2);
    done(cx, &s)
}

fn main() {
    run(&[
        ph("hostile", 60_000, 4_000_000, hostile),
        ph("types", 90_000, 5_000_000, types),
        ph("small", exhaustive_alpha_count(3), exhaustive_alpha_count(4), small),
        ph("text", 40_000, 2_000_000, text),
        ph("lifetimes", 60_000, 3_000_000, lifetimes),
        ph("written", 60_000, 3_000_000, written),
        ph("derived", 40_000, 2_000_000, derive_types),
        ph("threads", 3_000, 100_000, threads),
        ph("same", 800, 20_000, same),
        ph("misuse", 20_000, 400_000, misuse),
        big!("big types", 250, 10000, types),
        big!("big lifetimes", 120, 4800, lifetimes),
    ])
}
