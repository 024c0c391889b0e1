//! C10: canonical constructors give the shortest form and the canonicity test agrees
use cbored::state::HeaderValue;
use cbored::*;
use mon::obs;
use mon::refc::*;
use mon::rt::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

fn wr(f: impl FnOnce(&mut Writer)) -> Vec<u8> {
    let mut w = Writer::new();
    f(&mut w);
    w.finalize()
}
fn h(major: u8, v: u64) -> Vec<u8> {
    let mut o = vec![];
    head(major, W::min(v), v, &mut o);
    o
}

/// everything built from one native number
fn number(cx: &mut Cx, v: u64) -> Result<(), String> {
    let (p, n) = (h(0, v), h(1, v));
    cx.input(&v.to_be_bytes());
    macro_rules! same {
        ($e:expr, $want:expr, $what:expr) => {{
            let e: Vec<u8> = $e;
            ck!(e == $want, "{} of {} is written {} instead of {}", $what, v, hex(&e), hex(&$want));
            cx.count("built values compared with the shortest form");
        }};
    }
    let hv = HeaderValue::canonical(v);
    ck!(hv.is_canonical() && obs::hv(hv) == (W::min(v), v), "header value of {}: {:?}", v, hv);
    ck!(hv.to_u64() == v, "header value of {} is {}", v, hv.to_u64());
    same!(wr(|w| w.positive(Positive::canonical(v))), p, "positive");
    same!(encode_to_bytes(&Positive::canonical(v)), p, "positive");
    same!(wr(|w| w.scalar(Scalar::canonical_positive(v))), p, "scalar");
    same!(encode_to_bytes(&v), p, "u64");
    same!(wr(|w| w.encode(&v)), p, "u64");
    if v <= u8::MAX as u64 {
        same!(encode_to_bytes(&(v as u8)), p, "u8");
    }
    if v <= u16::MAX as u64 {
        same!(encode_to_bytes(&(v as u16)), p, "u16");
    }
    if v <= u32::MAX as u64 {
        same!(encode_to_bytes(&(v as u32)), p, "u32");
    }
    same!(wr(|w| w.negative(Negative::canonical(v))), n, "negative");
    same!(wr(|w| w.scalar(Scalar::canonical_negative(v))), n, "scalar");
    same!(encode_to_bytes(&Scalar::canonical_negative(v)), n, "scalar");
    for s in [Scalar::canonical_positive(v), Scalar::canonical_negative(v)] {
        ck!(s.is_canonical(), "built scalar of {} is not canonical", v)
    }
    ck!(Positive::canonical(v).is_canonical() && Negative::canonical(v).is_canonical(), "built {} is not canonical", v);
    // tags and lengths
    let mut t = h(6, v);
    t.push(0xf6);
    same!(wr(|w| w.tag_build(TagValue::from_u64(v), |w| w.constant(Constant::Null))), t, "tag");
    ck!(TagValue::from_u64(v).to_u64() == v && obs::hv(TagValue::from_u64(v).raw_value()) == (W::min(v), v), "tag value of {}", v);
    for l in [StructureLength::from(v), StructureLength::from(Some(HeaderValue::canonical(v)))] {
        same!(wr(|w| w.array_build(l, |_| ())), h(4, v), "array length");
        same!(wr(|w| w.map_build(l, |_| ())), h(5, v), "map length");
    }
    // as read, in every width
    for w in WS {
        let max = match w {
            W::I => 23,
            W::W1 => 255,
            W::W2 => 65535,
            W::W4 => u32::MAX as u64,
            W::W8 => u64::MAX,
        };
        if v > max {
            continue;
        }
        let want = w == W::min(v);
        let (mut bp, mut bn) = (vec![], vec![]);
        head(0, w, v, &mut bp);
        head(1, w, v, &mut bn);
        cx.input(&bp);
        let x = Reader::new(&bp).positive().map_err(|e| format!("{:?}", e))?;
        ckeq!(x.is_canonical(), want, "canonicity of {}", hex(&bp));
        let y = Reader::new(&bn).negative().map_err(|e| format!("{:?}", e))?;
        ckeq!(y.is_canonical(), want, "canonicity of {}", hex(&bn));
        for b in [&bp, &bn] {
            let s = Reader::new(b).scalar().map_err(|e| format!("{:?}", e))?;
            ckeq!(s.is_canonical(), want, "canonicity of scalar {}", hex(b));
            ckeq!(s.raw_value().is_canonical(), want, "canonicity of the raw value of {}", hex(b));
        }
        ckeq!(obs::to_hv(w, v).is_canonical(), want, "canonicity of header value {:?} {}", w, v);
        if want {
            ck!(x == Positive::canonical(v) && y == Negative::canonical(v), "canonical {} differs from the one read", v);
        }
        let mut bt = vec![];
        head(6, w, v, &mut bt);
        bt.push(0);
        let t = Reader::new(&bt).tag().map_err(|e| format!("{:?}", e))?;
        ckeq!(t.tag_repr().raw_value().is_canonical(), want, "canonicity of tag {}", hex(&bt));
        cx.add("canonicity queries compared", 7);
        // built by hand in that width, written as such
        if let Some(e) = [bp].first() {
            let got = wr(|wt| wt.positive(Reader::new(e).positive().unwrap()));
            ck!(got == *e, "{} is written {}", hex(e), hex(&got));
        }
    }
    cx.seen(v, true);
    Ok(())
}

fn bytes_(cx: &mut Cx, v: u8) -> Result<(), String> {
    cx.input(&[v]);
    // simple values: one byte below 20, otherwise two (20 to 23 in one byte are the constants)
    let want = if v < 20 { vec![0xe0 | v] } else { vec![0xf8, v] };
    let b = Byte::canonical(v);
    let got = wr(|w| w.byte(b));
    ck!(got == want, "byte {} is written {} instead of {}", v, hex(&got), hex(&want));
    ck!(encode_to_bytes(&b) == want, "byte {} is encoded otherwise", v);
    ck!(b.is_canonical() && b.to_u8() == v, "byte {}: canonical {} value {}", v, b.is_canonical(), b.to_u8());
    let r = Reader::new(&got).byte().map_err(|e| format!("byte {}: {:?}", v, e))?;
    ck!(r == b, "byte {} reads back as {:?}", v, r);
    for e in [vec![0xf8, v], want.clone()] {
        let x = Reader::new(&e).byte().map_err(|e| format!("{:?}", e))?;
        ckeq!(x.is_canonical(), e == want, "canonicity of {}", hex(&e));
        ckeq!(x.to_u8(), v, "value of {}", hex(&e));
        ckeq!(x.raw_value().to_u8(), v, "raw value of {}", hex(&e));
        ckeq!(x.raw_value().is_canonical(), e == want, "canonicity of the raw value of {}", hex(&e));
    }
    cx.add("canonicity queries compared", 3);
    cx.add("built values compared with the shortest form", 2);
    cx.seen(v as u64 | 1 << 63, true);
    Ok(())
}

/// strings, arrays and maps of a number of elements
fn length(cx: &mut Cx, n: usize) -> Result<(), String> {
    cx.input(&(n as u64).to_be_bytes());
    let data = vec![b'x'; n];
    let s = String::from_utf8(data.clone()).unwrap();
    let (mut b, mut t) = (h(2, n as u64), h(3, n as u64));
    b.extend(&data);
    t.extend(&data);
    let check = |what: &str, got: Vec<u8>, want: &Vec<u8>| -> Result<(), String> {
        ck!(got == *want, "{} of {} elements starts {} instead of {} ({} bytes, {})", what, n, hex(&got[..got.len().min(10)]), hex(&want[..want.len().min(10)]), got.len(), want.len());
        Ok(())
    };
    check("bytes from_slice", wr(|w| w.bytes(&Bytes::from_slice(&data))), &b)?;
    check("bytes from_vec", encode_to_bytes(&BytesOwned::from_vec(data.clone())), &b)?;
    check("bytes from data", wr(|w| w.bytes(&Bytes::Imm(BytesData::from_slice(&data)))), &b)?;
    check("bytes owned data", encode_to_bytes(&BytesOwned::Imm(BytesDataOwned::from_vec(data.clone()))), &b)?;
    check("[u8]", wr(|w| w.encode(&data[..])), &b)?;
    check("Vec<u8>", encode_to_bytes(&data), &b)?;
    check("text from_str", wr(|w| w.text(&Text::from_str(&s))), &t)?;
    check("text from data", wr(|w| w.text(&Text::Imm(TextData::from_str(&s)))), &t)?;
    check("text from_string", wr(|w| w.text(&TextOwned::from_string(s.clone()).borrow())), &t)?;
    check("text owned data", wr(|w| w.text(&TextOwned::Imm(TextDataOwned::from_string(s.clone())).borrow())), &t)?;
    check("str", wr(|w| w.encode(&s[..])), &t)?;
    check("String", encode_to_bytes(&s), &t)?;
    // chunks are strings with their own header
    let (mut bc, mut tc) = (vec![0x5f], vec![0x7f]);
    bc.extend(&b);
    tc.extend(&t);
    bc.push(0xff);
    tc.push(0xff);
    check("bytes chunk", wr(|w| w.bytes(&Bytes::Chunks(vec![BytesData::from_slice(&data)]))), &bc)?;
    check("text chunk", wr(|w| w.text(&Text::Chunks(vec![TextData::from_str(&s)]))), &tc)?;
    let mut arr = h(4, n as u64);
    arr.extend(std::iter::repeat(0xf5).take(n));
    let mut ab = ArrayBuilder::new();
    for _ in 0..n {
        ab.append_encodable(&true)
    }
    check("array builder", wr(|w| w.array(&ab.finite().borrow())), &arr)?;
    check("encode_vec", wr(|w| encode_vec(&vec![true; n], w)), &arr)?;
    check("array_build", wr(|w| w.array_build(StructureLength::from(n as u64), |w| (0..n).for_each(|_| w.bool(true)))), &arr)?;
    cx.add("built values compared with the shortest form", 17);
    cx.seen(n as u64 | 1 << 62, true);
    Ok(())
}

fn small(cx: &mut Cx) -> Result<(), String> {
    let i = cx.idx;
    number(cx, i)
}
fn around(cx: &mut Cx) -> Result<(), String> {
    let k = cx.idx / 64;
    let d = cx.idx % 64;
    // around every power of two
    number(cx, (1u64 << k).wrapping_add(d).wrapping_sub(32))?;
    number(cx, (u64::MAX >> k).wrapping_sub(d))
}
fn random(cx: &mut Cx) -> Result<(), String> {
    let v = if cx.g.p(1, 2) { cx.g.uint() } else { cx.g.u64() >> (cx.g.u64() % 64) };
    cx.sample(|| format!("number {}", v));
    number(cx, v)
}
fn simple(cx: &mut Cx) -> Result<(), String> {
    let v = cx.idx as u8;
    bytes_(cx, v)
}
fn lengths(cx: &mut Cx) -> Result<(), String> {
    const L: [usize; 24] = [0, 1, 2, 15, 16, 22, 23, 24, 25, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 70000];
    let n = if (cx.idx as usize) < L.len() {
        L[cx.idx as usize]
    } else if cx.idx < 324 {
        cx.idx as usize - 24
    } else {
        let m = if cx.g.p(1, 10) { 200_000 } else { 3000 };
        cx.g.below(m)
    };
    length(cx, n)
}

fn main() {
    run(&[
        Phase { name: "small", quick: 70_000, thorough: 20_000_000, f: small, seeded: false },
        Phase { name: "around powers of two", quick: 64 * 64, thorough: 64 * 64, f: around, seeded: false },
        Phase { name: "simple values", quick: 256, thorough: 256, f: simple, seeded: false },
        ph("random", 100_000, 10_000_000, random),
        ph("lengths", 500, 5000, lengths),
    ])
}
