//! C13: the writer emits exactly the requested items, in order, after existing content
use cbored::*;
use mon::gen::*;
use mon::obs;
use mon::refc::*;
use mon::rt::*;
use mon::typ::*;
use mon::nest::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

fn er<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}

/// write one item by one of the ways there are; the bytes it has to give are appended to `out`
fn put(cx: &mut Cx, w: &mut Writer, out: &mut Vec<u8>, depth: usize) -> Result<(), String> {
    let o = Opt { depth: depth.min(2), size: 6, ..Opt::std() };
    let k = cx.g.below(if depth > 0 { 40 } else { 27 });
    cx.count("writer calls compared");
    let v = cx.g.uint();
    match k {
        0 => {
            w.positive(Positive::canonical(v));
            head(0, W::min(v), v, out)
        }
        1 => {
            w.negative(Negative::canonical(v));
            head(1, W::min(v), v, out)
        }
        2 => {
            w.scalar(Scalar::canonical_negative(v));
            head(1, W::min(v), v, out)
        }
        3 => {
            w.byte(Byte::canonical(v as u8));
            if (v as u8) < 20 {
                out.push(0xe0 | v as u8)
            } else {
                out.extend([0xf8, v as u8])
            }
        }
        4 => {
            let n = cx.g.slen();
            let d = cx.g.bytes_n(n);
            w.bytes(&Bytes::from_slice(&d));
            It::bytes(&d).enc_to(out)
        }
        5 => {
            let n = cx.g.slen();
            let d = cx.g.text_n(n);
            w.text(&Text::from_str(&d));
            It::text(&d).enc_to(out)
        }
        6 => {
            let (c, x) = *cx.g.pick(&[(Constant::False, 0xf4), (Constant::True, 0xf5), (Constant::Null, 0xf6), (Constant::Undefined, 0xf7)]);
            if cx.g.p(1, 2) {
                w.constant(c)
            } else {
                w.encode(&c)
            }
            out.push(x)
        }
        7 => {
            let b = cx.g.p(1, 2);
            if cx.g.p(1, 2) {
                w.bool(b)
            } else {
                w.encode(&b)
            }
            out.push(if b { 0xf5 } else { 0xf4 })
        }
        8 => {
            let (f, i) = match cx.g.below(3) {
                0 => (Float::FP16(v as u16), It::F16(v as u16)),
                1 => (Float::FP32(v as u32), It::F32(v as u32)),
                _ => (Float::FP64(v), It::F64(v)),
            };
            if cx.g.p(1, 2) {
                w.float(f)
            } else {
                w.encode(&f)
            }
            i.enc_to(out)
        }
        9 => {
            w.encode(&v);
            head(0, W::min(v), v, out)
        }
        10 => {
            let b = v as u8;
            w.encode(&b);
            head(0, W::min(b as u64), b as u64, out)
        }
        11 => {
            let b = v as u16;
            w.encode(&b);
            head(0, W::min(b as u64), b as u64, out)
        }
        12 => {
            let b = v as u32;
            w.encode(&b);
            head(0, W::min(b as u64), b as u64, out)
        }
        13 => {
            let n = cx.g.slen();
            let d = cx.g.text_n(n);
            if cx.g.p(1, 2) {
                w.encode(&d)
            } else {
                w.encode(&d[..])
            }
            It::text(&d).enc_to(out)
        }
        14 => {
            let n = cx.g.slen();
            let d = cx.g.bytes_n(n);
            match cx.g.below(4) {
                0 => w.encode(&d),
                1 => w.encode(&d[..]),
                2 => w.encode(&BytesOwned::from_vec(d.clone())),
                _ => w.bytes(&BytesOwned::from_vec(d.clone()).borrow()),
            }
            It::bytes(&d).enc_to(out)
        }
        15 => {
            let d = cx.g.bytes_n(7);
            let a: [u8; 7] = d[..].try_into().unwrap();
            w.encode(&a);
            It::bytes(&d).enc_to(out)
        }
        16 => {
            // chunks made one by one
            let n = cx.g.below(5);
            let t: Vec<String> = (0..n)
                .map(|_| {
                    let m = cx.g.slen();
                    cx.g.text_n(m)
                })
                .collect();
            let text = cx.g.p(1, 2);
            out.push(if text { 0x7f } else { 0x5f });
            for x in &t {
                if text {
                    It::text(x).enc_to(out)
                } else {
                    It::bytes(x.as_bytes()).enc_to(out)
                }
            }
            out.push(0xff);
            if text {
                w.text(&Text::Chunks(t.iter().map(|x| TextData::from_str(x)).collect()))
            } else {
                w.bytes(&Bytes::Chunks(t.iter().map(|x| BytesData::from_slice(x.as_bytes())).collect()))
            }
        }
        17..=23 => {
            // what was read, by the call of its kind
            let it = cx.g.item(&o);
            let b = it.enc();
            let d = Reader::new(&b).data().map_err(er)?;
            let ow = d.owned();
            match cx.g.below(6) {
                0 => w.data(&d),
                1 => w.encode(&d),
                2 => w.encode(&ow),
                3 => w.data(&ow.borrow()),
                _ => match &d {
                    Data::Positive(x) => w.positive(*x),
                    Data::Negative(x) => w.negative(*x),
                    Data::Byte(x) => w.byte(*x),
                    Data::Float(x) => w.float(*x),
                    Data::Bytes(x) => w.bytes(x),
                    Data::Text(x) => w.text(x),
                    Data::Array(x) => w.array(x),
                    Data::Map(x) => w.map(x),
                    Data::Tag(x) => w.tag(x),
                    x => w.data(x),
                },
            }
            out.extend(b)
        }
        24 => {
            // raw data, exact data
            let it = cx.g.item(&o);
            let b = it.enc();
            match cx.g.below(4) {
                0 => w.encode(Reader::new(&b).exact_decodable_slice::<DataOwned>().map_err(er)?),
                1 => w.encode(&Reader::new(&b).exact_decodable_data::<DataOwned>().map_err(er)?),
                2 => w.encode(validate::Validator::new(&b).next().map_err(er)?.0),
                _ => w.encode(&Writer::new_from_vec(b.clone()).finalize_data()),
            }
            out.extend(b)
        }
        25 => {
            let n = cx.g.slen();
            let v: Vec<u64> = (0..n).map(|_| cx.g.uint()).collect();
            encode_vec(&v, w);
            It::arr(v.iter().map(|x| It::pos(*x)).collect()).enc_to(out)
        }
        26 => builder(cx, w, out)?,
        27..=30 => {
            // any header at all, whatever is inside
            let l = length(cx);
            let n = cx.g.below(4);
            let map = cx.g.p(1, 2);
            let mut e = Ok(());
            shead(if map { 5 } else { 4 }, l, out);
            let f = |w: &mut Writer| {
                for _ in 0..n {
                    if e.is_ok() {
                        e = put(cx, w, out, depth - 1)
                    }
                }
            };
            if map {
                w.map_build(l, f)
            } else {
                w.array_build(l, f)
            }
            e?;
            if l == StructureLength::Indefinite {
                out.push(0xff)
            }
        }
        31..=33 => {
            // the right header: reads back
            let n = cx.g.below(5);
            let map = cx.g.p(1, 2);
            let l = match cx.g.below(3) {
                0 => StructureLength::Indefinite,
                1 => StructureLength::from(n as u64),
                _ => StructureLength::Definite(obs::to_hv(cx.g.width(n as u64, false), n as u64)),
            };
            let start = out.len();
            let mut e = Ok(());
            shead(if map { 5 } else { 4 }, l, out);
            let f = |w: &mut Writer| {
                for _ in 0..if map { 2 * n } else { n } {
                    if e.is_ok() {
                        e = leaf(cx, w, out)
                    }
                }
            };
            if map {
                w.map_build(l, f)
            } else {
                w.array_build(l, f)
            }
            e?;
            if l == StructureLength::Indefinite {
                out.push(0xff)
            }
            let mut r = Reader::new(&out[start..]);
            if map {
                ck!(r.map().map_err(er)?.len() == n, "the map does not read back")
            } else {
                ck!(r.array().map_err(er)?.len() == n, "the array does not read back")
            }
        }
        _ => {
            let t = cx.g.uint();
            let wd = cx.g.width(t, false);
            let tv = if cx.g.p(1, 2) {
                head(6, W::min(t), t, out);
                TagValue::from_u64(t)
            } else {
                head(6, wd, t, out);
                let b = It::Tag(wd, t, Box::new(It::null())).enc();
                Reader::new(&b).tag().map_err(er)?.tag_repr()
            };
            let n = if cx.g.p(1, 5) { cx.g.below(3) } else { 1 };
            let mut e = Ok(());
            w.tag_build(tv, |w| {
                for _ in 0..n {
                    if e.is_ok() {
                        e = put(cx, w, out, depth - 1)
                    }
                }
            });
            e?
        }
    }
    Ok(())
}

fn leaf(cx: &mut Cx, w: &mut Writer, out: &mut Vec<u8>) -> Result<(), String> {
    let v = cx.g.uint();
    w.encode(&v);
    head(0, W::min(v), v, out);
    Ok(())
}

fn length(cx: &mut Cx) -> StructureLength {
    match cx.g.below(4) {
        0 => StructureLength::Indefinite,
        1 => StructureLength::from(cx.g.uint()),
        2 => StructureLength::from(None),
        _ => {
            let v = cx.g.uint();
            StructureLength::Definite(obs::to_hv(cx.g.width(v, false), v))
        }
    }
}
fn shead(major: u8, l: StructureLength, out: &mut Vec<u8>) {
    match l {
        StructureLength::Indefinite => out.push(major << 5 | 31),
        StructureLength::Definite(h) => {
            let (w, v) = obs::hv(h);
            head(major, w, v, out)
        }
    }
}

/// the array builder: elements appended in order, as data or by encoding them
fn builder(cx: &mut Cx, w: &mut Writer, out: &mut Vec<u8>) -> Result<(), String> {
    let n = if cx.g.p(1, 12) { *cx.g.pick(&[22, 23, 24, 25, 254, 255, 256, 257, 300]) } else { cx.g.below(12) };
    let mut b = ArrayBuilder::new();
    let mut items: Vec<Vec<u8>> = vec![];
    let o = Opt { depth: 1, size: 3, ..Opt::std() };
    for _ in 0..n {
        let it = cx.g.item(&o);
        let mut e = it.enc();
        match cx.g.below(5) {
            4 => {
                // something that uses a builder itself
                let t = Tr::arb(&mut cx.g, 2);
                e = t.model().enc();
                b.append_encodable(&t)
            }
            0 => b.append(Writer::new_from_vec(e.clone()).finalize_data()),
            1 => {
                let d = Reader::new(&e).data().map_err(er)?.owned();
                b.append_encodable(&d)
            }
            2 => {
                let mut w = Writer::new();
                w.data(&Reader::new(&e).data().map_err(er)?);
                b.append(w.finalize_data())
            }
            _ => {
                let d = Reader::new(&e).exact_decodable_data::<DataOwned>().map_err(er)?;
                b.append(d.untype())
            }
        }
        items.push(e);
    }
    let ind = cx.g.p(1, 2);
    let a = if ind { b.indefinite() } else { b.finite() };
    ck!(a.len() == n, "built array has {} elements instead of {}", a.len(), n);
    let mut want = vec![];
    if ind {
        want.push(0x9f)
    } else {
        head(4, W::min(n as u64), n as u64, &mut want)
    }
    for i in &items {
        want.extend(i)
    }
    if ind {
        want.push(0xff)
    }
    match cx.g.below(3) {
        0 => w.array(&a.borrow()),
        1 => w.encode(&a.borrow()),
        _ => w.encode(&DataOwned::Array(a.clone())),
    }
    let back = Reader::new(&want).array().map_err(er)?;
    ck!(back.len() == n, "built array of {} reads back as {}", n, back.len());
    ck!(back.owned() == a, "built array reads back as another");
    out.extend(want);
    cx.count("array builders compared");
    Ok(())
}

fn scripts(cx: &mut Cx) -> Result<(), String> {
    let n = cx.g.below(8);
    let pre = match cx.g.below(3) {
        0 => vec![],
        1 => cx.g.hostile(),
        _ => {
            let n = cx.g.below(20);
            cx.g.bytes_n(n)
        }
    };
    let mut want = pre.clone();
    let mut w = if pre.is_empty() && cx.g.p(1, 2) {
        Writer::new()
    } else if cx.g.p(1, 2) {
        // with room left, or none
        let mut v = Vec::with_capacity(pre.len() + cx.g.below(64));
        v.extend(&pre);
        Writer::new_from_vec(v)
    } else {
        Writer::new_from_vec(pre.clone())
    };
    let depth = cx.g.below(4);
    for _ in 0..n {
        put(cx, &mut w, &mut want, depth)?;
    }
    cx.input(&want);
    let got = if cx.g.p(1, 2) { w.finalize() } else { w.finalize_data().as_ref().to_vec() };
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("written {} instead of {}: differs at {}", hex(&got), hex(&want), at));
    }
    // writing goes on after it
    let mut w = Writer::new_from_vec(got);
    w.encode(&true);
    want.push(0xf5);
    ck!(w.finalize() == want, "a writer continuing what another wrote");
    cx.seen_bytes(&want, n > 0);
    cx.sample(|| hex(&want));
    Ok(())
}

/// vectors of native values: the count is the number of elements, and they read back
fn vectors(cx: &mut Cx) -> Result<(), String> {
    let n = match cx.g.below(4) {
        0 => *cx.g.pick(&[0, 1, 22, 23, 24, 25, 254, 255, 256, 257, 65534, 65535, 65536, 65537]),
        _ => cx.g.below(60),
    };
    let n = if n > 1000 && cx.idx % 50 != 0 { n % 100 } else { n };
    let v: Vec<u64> = (0..n).map(|_| cx.g.uint()).collect();
    let want = It::arr(v.iter().map(|x| It::pos(*x)).collect()).enc();
    let mut w = Writer::new();
    encode_vec(&v, &mut w);
    let b = w.finalize();
    cx.input(&b);
    ck!(b == want, "vector of {} is written {} instead of {}", n, hex(&b), hex(&want));
    let back: Vec<u64> = decode_vec(&mut Reader::new(&b)).map_err(er)?;
    ck!(back == v, "vector of {} reads back as another", n);
    let s: Vec<String> = v.iter().take(300).map(|x| format!("{}", x)).collect();
    let mut w = Writer::new();
    encode_vec(&s, &mut w);
    let b = w.finalize();
    ck!(b == It::arr(s.iter().map(|x| It::text(x)).collect()).enc(), "vector of strings is written {}", hex(&b));
    ck!(decode_vec::<String>(&mut Reader::new(&b)).map_err(er)? == s, "vector of strings reads back as another");
    let mut w = Writer::new();
    encode_vec::<VecOf<u64>>(&[VecOf(v.clone()), VecOf(vec![])], &mut w);
    let b = w.finalize();
    let mut x = vec![0x82];
    x.extend(&want);
    x.push(0x80);
    ck!(b == x, "vector of vectors is written {}", hex(&b));
    cx.count("vectors compared");
    cx.seen_bytes(&b, n > 0);
    Ok(())
}

/// large contents, nested
fn large(cx: &mut Cx) -> Result<(), String> {
    let n = 1 + cx.g.below(200_000);
    let d = cx.g.bytes_n(n);
    let mut w = Writer::new_from_vec(vec![1, 2, 3]);
    w.array_build(StructureLength::Indefinite, |w| {
        w.tag_build(TagValue::from_u64(1 << 40), |w| w.bytes(&Bytes::from_slice(&d)));
        w.map_build(StructureLength::from(1), |w| {
            w.encode(&d[..n / 2]);
            w.array_build(StructureLength::Indefinite, |_| ())
        })
    });
    let mut want = vec![1, 2, 3];
    It::Arr(
        Len::Ind,
        vec![It::tag(1 << 40, It::bytes(&d)), It::map(vec![(It::bytes(&d[..n / 2]), It::Arr(Len::Ind, vec![]))])],
    )
    .enc_to(&mut want);
    let got = w.finalize();
    ck!(got == want, "large content of {} bytes is written otherwise", n);
    cx.seen_bytes(&want[..want.len().min(64)], true);
    cx.max("max content", n as u64);
    Ok(())
}

/// values whose encoding uses builders, writers and readers of its own
fn nested(cx: &mut Cx) -> Result<(), String> {
    let d = 1 + cx.g.below(4);
    let t = Tr::arb(&mut cx.g, d);
    let want = t.model().enc();
    cx.input(&want);
    let got = encode_to_bytes(&t);
    ck!(got == want, "nested value {:?} is written {} instead of {}", t, hex(&got), hex(&want));
    let n = cx.g.below(40);
    let pre = cx.g.bytes_n(n);
    let mut w = Writer::new_from_vec(pre.clone());
    let mut all = pre;
    for _ in 0..2 {
        builder(cx, &mut w, &mut all)?;
        w.encode(&t);
        all.extend(&want);
    }
    let got = w.finalize();
    ck!(got == all, "nested values among others are written {} instead of {}", hex(&got), hex(&all));
    cx.count("nested values compared");
    cx.seen_bytes(&want, true);
    cx.sample(|| hex(&want));
    Ok(())
}

fn main() {
    run(&[
        ph("scripts", 200_000, 10_000_000, scripts),
        ph("vectors", 20_000, 500_000, vectors),
        ph("nested", 60_000, 2_000_000, nested),
        ph("large", 200, 5000, large),
        big!("big scripts", 2000, 80000, scripts),
        big!("big vectors", 3000, 120000, vectors),
    ])
}
