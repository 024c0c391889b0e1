//! C11: numbers read mean what their encoding denotes
use cbored::*;
use mon::gen::*;
use mon::refc::*;
use mon::rt::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

fn er<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}

fn integer(cx: &mut Cx, w: W, v: u64) -> Result<(), String> {
    let (mut p, mut n) = (vec![], vec![]);
    head(0, w, v, &mut p);
    head(1, w, v, &mut n);
    cx.input(&p);
    let x = Reader::new(&p).positive().map_err(er)?;
    ckeq!(x.to_u64(), v, "positive {}", hex(&p));
    let pi: Option<i64> = if v as i128 <= i64::MAX as i128 { Some(v as i64) } else { None };
    let ni: i128 = -1 - v as i128;
    let ni: Option<i64> = if ni >= i64::MIN as i128 { Some(ni as i64) } else { None };
    let y = Reader::new(&n).negative().map_err(er)?;
    ckeq!(y.negative_u64(), v, "negative {}", hex(&n));
    ckeq!(y.to_i64(), ni, "negative {} as i64", hex(&n));
    let s = Reader::new(&p).scalar().map_err(er)?;
    ckeq!(s.to_i64(), pi, "scalar {} as i64", hex(&p));
    ck!(s.is_positive() && !s.is_negative(), "sign of scalar {}", hex(&p));
    ckeq!(s.raw_value().to_u64(), v, "raw value of scalar {}", hex(&p));
    let s = Reader::new(&n).scalar().map_err(er)?;
    ckeq!(s.to_i64(), ni, "scalar {} as i64", hex(&n));
    ck!(!s.is_positive() && s.is_negative(), "sign of scalar {}", hex(&n));
    ckeq!(s.raw_value().to_u64(), v, "raw value of scalar {}", hex(&n));
    // through generic data and native decoding
    match Reader::new(&p).data() {
        Ok(Data::Positive(x)) => ckeq!(x.to_u64(), v, "data {}", hex(&p)),
        e => return Err(format!("data {}: {:?}", hex(&p), e)),
    }
    match Reader::new(&n).data() {
        Ok(Data::Negative(x)) => ckeq!(x.to_i64(), ni, "data {}", hex(&n)),
        e => return Err(format!("data {}: {:?}", hex(&n), e)),
    }
    ckeq!(decode_from_bytes::<u64>(&p).ok(), Some(v), "u64 from {}", hex(&p));
    ckeq!(decode_from_bytes::<u32>(&p).ok(), u32::try_from(v).ok(), "u32 from {}", hex(&p));
    ckeq!(decode_from_bytes::<u16>(&p).ok(), u16::try_from(v).ok(), "u16 from {}", hex(&p));
    ckeq!(decode_from_bytes::<u8>(&p).ok(), u8::try_from(v).ok(), "u8 from {}", hex(&p));
    ck!(decode_from_bytes::<u64>(&n).is_err(), "a negative decodes as u64: {}", hex(&n));
    // tag numbers and lengths are integers too
    let mut t = vec![];
    head(6, w, v, &mut t);
    t.push(1);
    ckeq!(Reader::new(&t).tag().map_err(er)?.value(), v, "tag {}", hex(&t));
    cx.add("integer readings compared", 17);
    cx.seen(hash_bytes(&p), true);
    cx.sample(|| hex(&p));
    Ok(())
}

/// the same real number, sign of zero included, or both NaN
fn same64(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
}
fn same32(a: f32, b: f32) -> bool {
    (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
}

/// single precision bits of a double, round to nearest even, by integer arithmetic
fn to_single(d: u64) -> u32 {
    let s = ((d >> 63) as u32) << 31;
    let e = ((d >> 52) & 0x7ff) as i64;
    let m = d & ((1 << 52) - 1);
    if e == 0x7ff {
        return if m == 0 { s | 0x7f80_0000 } else { s | 0x7fc0_0000 };
    }
    if e == 0 {
        // below 2^-1022: nearest single is zero
        return s;
    }
    let m = m | 1 << 52; // value = m * 2^(e - 1075)
    // exponent of the result's unit in the last place
    let q = (e - 1023 - 23).max(-149);
    let shift = q - (e - 1075); // > 0
    if shift > 60 {
        return s;
    }
    let half = 1u64 << (shift - 1);
    let rest = m & ((1u64 << shift) - 1);
    let mut r = m >> shift;
    if rest > half || (rest == half && r & 1 == 1) {
        r += 1
    }
    // r * 2^q, r <= 2^24
    let mut q = q;
    if r == 1 << 24 {
        r = 1 << 23;
        q += 1
    }
    if r < 1 << 23 {
        return s | r as u32; // subnormal (q is -149)
    }
    let ex = q + 23 + 127;
    if ex >= 255 {
        return s | 0x7f80_0000;
    }
    s | (ex as u32) << 23 | (r as u32 & 0x7f_ffff)
}

/// double precision bits of a single, by integer arithmetic
fn to_double(f: u32) -> u64 {
    let s = ((f >> 31) as u64) << 63;
    let e = (f >> 23 & 0xff) as i64;
    let mut m = (f & 0x7f_ffff) as u64;
    if e == 255 {
        return if m == 0 { s | 0x7ff << 52 } else { s | 0x7ff8 << 48 };
    }
    if e == 0 && m == 0 {
        return s;
    }
    let mut x = if e == 0 { -126 } else { e - 127 };
    if e != 0 {
        m |= 1 << 23
    }
    while m & 1 << 23 == 0 {
        m <<= 1;
        x -= 1
    }
    s | ((x + 1023) as u64) << 52 | (m & 0x7f_ffff) << 29
}

fn float(cx: &mut Cx, it: It) -> Result<(), String> {
    let b = it.enc();
    cx.input(&b);
    let f = Reader::new(&b).float().map_err(er)?;
    let (w32, w64) = match it {
        It::F16(h) => {
            let v = half_value(h);
            ckeq!(f, Float::FP16(h), "float {}", hex(&b));
            (f32::from_bits(to_single(v.to_bits())), v)
        }
        It::F32(s) => {
            ckeq!(f, Float::FP32(s), "float {}", hex(&b));
            (f32::from_bits(s), f64::from_bits(to_double(s)))
        }
        It::F64(d) => {
            ckeq!(f, Float::FP64(d), "float {}", hex(&b));
            (f32::from_bits(to_single(d)), f64::from_bits(d))
        }
        _ => unreachable!(),
    };
    let (g32, g64) = (f.to_f32(), f.to_f64());
    ck!(same32(g32, w32), "float {} as f32 is {:?} ({:08x}) instead of {:?} ({:08x})", hex(&b), g32, g32.to_bits(), w32, w32.to_bits());
    ck!(same64(g64, w64), "float {} as f64 is {:?} ({:016x}) instead of {:?} ({:016x})", hex(&b), g64, g64.to_bits(), w64, w64.to_bits());
    // the sign of a NaN as well
    let neg = match it {
        It::F16(h) => h >> 15 == 1,
        It::F32(h) => h >> 31 == 1,
        It::F64(h) => h >> 63 == 1,
        _ => unreachable!(),
    };
    if !w64.is_nan() || matches!(it, It::F16(_)) {
        ck!(g64.is_sign_negative() == neg && g32.is_sign_negative() == neg, "sign of float {}", hex(&b));
    }
    cx.add("float conversions compared", 2);
    cx.seen(hash_bytes(&b), true);
    cx.sample(|| format!("{} = {:?}", hex(&b), g64));
    Ok(())
}

fn ints(cx: &mut Cx) -> Result<(), String> {
    let v = if (cx.idx as usize) < BOUNDS.len() { BOUNDS[cx.idx as usize] } else { cx.g.uint() };
    for w in WS {
        if w >= W::min(v) {
            integer(cx, w, v)?
        }
    }
    Ok(())
}
fn small(cx: &mut Cx) -> Result<(), String> {
    let v = cx.idx;
    for w in WS {
        if w >= W::min(v) {
            integer(cx, w, v)?
        }
    }
    Ok(())
}
fn halves(cx: &mut Cx) -> Result<(), String> {
    let v = cx.idx as u16;
    float(cx, It::F16(v))
}
/// thorough: all of them
fn singles(cx: &mut Cx) -> Result<(), String> {
    if cx.thorough {
        for i in 0..4096u32 {
            let v = (cx.idx as u32) << 12 | i;
            let f = Float::FP32(v);
            let w = f64::from_bits(to_double(v));
            cx.input = v.to_be_bytes().to_vec();
            ck!(same32(f.to_f32(), f32::from_bits(v)), "single {:08x} as f32", v);
            ck!(same64(f.to_f64(), w), "single {:08x} as f64", v);
        }
        cx.add("float conversions compared", 8192);
        cx.seen(cx.idx, true);
        return Ok(());
    }
    let v = match cx.g.below(3) {
        0 => cx.g.single(),
        1 => {
            // around the limits of each exponent
            let e = cx.g.u64() as u32 & 0xff;
            (cx.g.u64() as u32 & 1) << 31 | (e << 23).wrapping_add(cx.g.below(5) as u32).wrapping_sub(2) & 0x7fff_ffff
        }
        _ => cx.g.u64() as u32,
    };
    float(cx, It::F32(v))
}
fn doubles(cx: &mut Cx) -> Result<(), String> {
    let v = match cx.g.below(6) {
        0 => cx.g.double(),
        1 => cx.g.u64(),
        2 => {
            // near a single or half way between two of them
            let s = cx.g.u64() as u32;
            let d = to_double(s);
            let half = 1u64 << 28;
            d.wrapping_add(*cx.g.pick(&[0, 1, half, half - 1, half + 1, 2 * half - 1])).wrapping_sub(*cx.g.pick(&[0, 0, 1]))
        }
        3 => {
            // exponents around the limits of single precision, subnormals included
            let e = *cx.g.pick(&[1023 - 151, 1023 - 150, 1023 - 149, 1023 - 148, 1023 - 127, 1023 - 126, 1023 - 125, 1023 + 127, 1023 + 128, 0, 1, 0x7fe, 0x7ff]) as u64;
            let m = match cx.g.below(4) {
                0 => 0,
                1 => (1 << 52) - 1 - cx.g.u64() % 4,
                2 => (1u64 << cx.g.below(52)).wrapping_sub(cx.g.u64() & 1),
                _ => cx.g.u64() & ((1 << 52) - 1),
            };
            (cx.g.u64() & 1) << 63 | e << 52 | m
        }
        4 => {
            // subnormal singles, halfway cases
            let e = (1023 - 150 + cx.g.below(26)) as u64;
            let k = cx.g.below(52);
            (cx.g.u64() & 1) << 63 | e << 52 | ((cx.g.u64() << k) & ((1 << 52) - 1))
        }
        _ => to_double(cx.g.u64() as u32),
    };
    float(cx, It::F64(v))
}

fn main() {
    // the reference conversions against the definition
    assert!(to_single(1.5f64.to_bits()) == 1.5f32.to_bits() && to_double(0.1f32.to_bits()) == (0.1f32 as f64).to_bits());
    run(&[
        Phase { name: "halves", quick: 65536, thorough: 65536, f: halves, seeded: false },
        Phase { name: "small integers", quick: 70_000, thorough: 5_000_000, f: small, seeded: false },
        ph("integers", 60_000, 3_000_000, ints),
        Phase { name: "singles", quick: 500_000, thorough: 1 << 20, f: singles, seeded: true },
        ph("doubles", 800_000, 50_000_000, doubles),
    ])
}
