//! C12: native values survive encode and decode, and decoding never coerces
use cbored::*;
use mon::gen::*;
use mon::refc::*;
use mon::rt::*;
use mon::sch::*;
use mon::typ::*;
use mon::*;
use std::fmt::Debug;

#[global_allocator]
static A: Counting = Counting;

/// what decoding T from b gives, against the schema
fn compare<T: Typ>(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    cx.input(b);
    let want = expect_decode::<T>(b);
    let mut r = Reader::new(b);
    let got = r.decode::<T>();
    match (&want, &got) {
        (Some((n, layout)), Ok(v)) => {
            ckeq!(v.items(), *layout, "{} decoded from {}", T::name(), hex(b));
            ck!(r.consumed_bytes() == *n, "{} uses {} bytes instead of {}", T::name(), r.consumed_bytes(), n);
            let e = encode_to_bytes(v);
            ck!(e == enc_all(layout), "{} decoded from {} is written {} instead of {}", T::name(), hex(b), hex(&e), hex(&enc_all(layout)));
            cx.count("accepted, values compared");
        }
        (None, Err(e)) => {
            cx.count("rejected as they have to be");
            facts::<T>(cx, b, e)?
        }
        (Some((_, l)), Err(e)) => return Err(format!("{} not decoded from {} ({:?}): {:?}", T::name(), hex(b), l, e)),
        (None, Ok(v)) => return Err(format!("{} decoded from {} gives {:?}", T::name(), hex(b), v.items())),
    }
    let whole = decode_from_bytes::<T>(b);
    let want_whole = matches!(&want, Some((n, _)) if *n == b.len());
    ck!(whole.is_ok() == want_whole, "{} from the whole of {}: {}", T::name(), hex(b), if want_whole { "refused" } else { "accepted" });
    if let (Ok(v), Some((_, l))) = (&whole, &want) {
        ckeq!(v.items(), *l, "{} decoded from the whole of {}", T::name(), hex(b));
    }
    Ok(())
}

/// an error that gives numbers gives the right ones
fn facts<T: Typ>(cx: &mut Cx, b: &[u8], e: &DecodeError) -> Result<(), String> {
    match e.error() {
        DecodeErrorKind::OutOfRange { min, max, got } => {
            ck!(!(min..=max).contains(&got), "{} from {}: {:?}", T::name(), hex(b), e);
            if let (Sch::U(m), (items, _)) = (T::sch(), leading_items(b)) {
                ck!(*min == 0 && *max == m && matches!(items.first(), Some(It::Pos(_, v)) if v == got), "{} from {}: {:?}", T::name(), hex(b), e);
            }
            cx.count("ranges reported")
        }
        DecodeErrorKind::UnexpectedLength { expected, got } => {
            ck!(expected != got, "{} from {}: {:?}", T::name(), hex(b), e);
            if let (Sch::FixBytes(n), (items, _)) = (T::sch(), leading_items(b)) {
                ck!(*expected == n && matches!(items.first(), Some(It::Bytes(s)) if s.content().len() == *got), "{} from {}: {:?}", T::name(), hex(b), e);
            }
            cx.count("lengths reported")
        }
        _ => {}
    }
    Ok(())
}

fn near_t<T: Typ>(cx: &mut Cx) -> Result<(), String> {
    let b = try_bytes::<T>(&mut cx.g);
    compare::<T>(cx, &b)?;
    cx.seen(hash_bytes(&b) ^ hash_bytes(T::name().as_bytes()), true);
    cx.sample(|| format!("{} from {}", T::name(), hex(&b)));
    Ok(())
}

/// one hostile input against every type
fn each_t<T: Typ>(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    compare::<T>(cx, b)
}
fn each(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    for k in NATIVE {
        with_types!(k, each_t, cx, b)?
    }
    cx.seen_bytes(b, true);
    Ok(())
}
const NATIVE: [usize; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 21, 29];

fn near(cx: &mut Cx) -> Result<(), String> {
    let k = *cx.g.pick(&NATIVE);
    with_types!(k, near_t, cx)
}
fn hostile(cx: &mut Cx) -> Result<(), String> {
    let b = cx.g.hostile();
    each(cx, &b)
}
fn ex_bytes(cx: &mut Cx) -> Result<(), String> {
    each(cx, &exhaustive_bytes(cx.idx))
}
fn ex_alpha(cx: &mut Cx) -> Result<(), String> {
    each(cx, &exhaustive_alpha(cx.idx))
}

/// a native value, its documented encoding, and back, by equality of native values
fn value<T: Typ + PartialEq + Debug>(cx: &mut Cx, v: T, it: It) -> Result<(), String> {
    let e = encode_to_bytes(&v);
    cx.input(&e);
    ck!(e == it.enc(), "{:?} is encoded {} instead of {}", v, hex(&e), hex(&it.enc()));
    let mut w = Writer::new();
    w.encode(&v);
    ck!(w.finalize() == e, "{:?} is written otherwise by a writer", v);
    let d = decode_from_bytes::<T>(&e).map_err(|x| format!("{:?} does not decode back: {:?}", v, x))?;
    ck!(d == v, "{:?} decodes back as {:?}", v, d);
    for _ in 0..4 {
        let o = cx.g.reencode(&it);
        let b = o.enc();
        cx.input(&b);
        let d = decode_from_bytes::<T>(&b).map_err(|x| format!("{:?} does not decode from {}: {:?}", v, hex(&b), x))?;
        ck!(d == v, "{:?} decodes from {} as {:?}", v, hex(&b), d);
        cx.count("other encodings decoded to the same value");
    }
    cx.count("native values back and forth");
    cx.seen(hash_bytes(&e), true);
    Ok(())
}

fn natives(cx: &mut Cx) -> Result<(), String> {
    let k = cx.g.below(14);
    macro_rules! num {
        ($t:ty) => {{
            let v = cx.g.uint() as $t;
            value::<$t>(cx, v, It::pos(v as u64))
        }};
    }
    let n = cx.g.slen();
    match k {
        0 => num!(u8),
        1 => num!(u16),
        2 => num!(u32),
        3 => num!(u64),
        4 => {
            let v = cx.g.p(1, 2);
            value::<bool>(cx, v, It::bool(v))
        }
        5 => {
            let v = cx.g.text_n(n);
            let mut w = Writer::new();
            w.encode(&v[..]);
            ck!(w.finalize() == It::text(&v).enc(), "str {:?} is encoded otherwise", v);
            let it = It::text(&v);
            value::<String>(cx, v, it)
        }
        6 => {
            let v = cx.g.bytes_n(n);
            let mut w = Writer::new();
            w.encode(&v[..]);
            ck!(w.finalize() == It::bytes(&v).enc(), "slice of bytes is encoded otherwise");
            let it = It::bytes(&v);
            value::<Vec<u8>>(cx, v, it)
        }
        7 => {
            let v = cx.g.bytes_n(32);
            value::<[u8; 32]>(cx, v[..].try_into().unwrap(), It::bytes(&v))
        }
        8 => {
            let v = cx.g.bytes_n(1);
            value::<[u8; 1]>(cx, v[..].try_into().unwrap(), It::bytes(&v))?;
            value::<[u8; 0]>(cx, [], It::bytes(&[]))?;
            let v = cx.g.bytes_n(300);
            value::<[u8; 300]>(cx, v[..].try_into().unwrap(), It::bytes(&v))
        }
        9 => {
            let v = cx.g.uint();
            let (s, it) = if cx.g.p(1, 2) { (Scalar::canonical_positive(v), It::pos(v)) } else { (Scalar::canonical_negative(v), It::neg(v)) };
            // other widths are other scalars: only the canonical form
            let e = encode_to_bytes(&s);
            ck!(e == it.enc() && decode_from_bytes::<Scalar>(&e).ok() == Some(s), "scalar {:?} does not survive", s);
            cx.count("native values back and forth");
            cx.seen(hash_bytes(&e), true);
            Ok(())
        }
        10 => {
            let v: Vec<u64> = (0..n).map(|_| cx.g.uint()).collect();
            let it = It::arr(v.iter().map(|x| It::pos(*x)).collect());
            value(cx, VecOf(v), it)
        }
        11 => {
            let v: Vec<String> = (0..n.min(40))
                .map(|_| {
                    let m = cx.g.below(30);
                    cx.g.text_n(m)
                })
                .collect();
            let it = It::arr(v.iter().map(|x| It::text(x)).collect());
            value(cx, VecOf(v), it)
        }
        12 => {
            let v: Vec<VecOf<u16>> = (0..n.min(30))
                .map(|_| {
                    let m = cx.g.below(30);
                    VecOf((0..m).map(|_| cx.g.uint() as u16).collect())
                })
                .collect();
            let it = It::arr(v.iter().map(|x| It::arr(x.0.iter().map(|y| It::pos(*y as u64)).collect())).collect());
            value(cx, VecOf(v), it)
        }
        _ => {
            let v: Vec<bool> = (0..n).map(|_| cx.g.p(1, 2)).collect();
            let it = It::arr(v.iter().map(|x| It::bool(*x)).collect());
            value(cx, VecOf(v), it)
        }
    }
}

/// every value of the small types, every limit of the others, in every width
fn limits(cx: &mut Cx) -> Result<(), String> {
    let i = cx.idx;
    let v = if i < 66_000 { i } else { BOUNDS[(i - 66_000) as usize % BOUNDS.len()].wrapping_add((i / 100) % 3).wrapping_sub(1) };
    for w in WS {
        if w < W::min(v) {
            continue;
        }
        for b in [It::Pos(w, v).enc(), It::Neg(w, v).enc()] {
            cx.input(&b);
            macro_rules! lim {
                ($t:ty) => {{
                    let want = if b[0] < 0x20 { <$t>::try_from(v).ok() } else { None };
                    let got = decode_from_bytes::<$t>(&b);
                    ck!(got.is_ok() == want.is_some() && got.as_ref().ok().copied() == want, "{} from {} is {:?} instead of {:?}", stringify!($t), hex(&b), got, want);
                }};
            }
            lim!(u8);
            lim!(u16);
            lim!(u32);
            lim!(u64);
            cx.add("integer limits compared", 4);
            cx.seen_bytes(&b, true);
        }
    }
    Ok(())
}
/// fixed-size arrays from strings of every length around theirs, in any chunking
fn fixed(cx: &mut Cx) -> Result<(), String> {
    let n = match cx.g.below(4) {
        0 => 4,
        1 => 32,
        2 => cx.g.below(40),
        _ => *cx.g.pick(&[0, 1, 3, 5, 31, 33, 36, 64, 260, 288, 65540]),
    };
    let v = cx.g.bytes_n(n);
    let it = It::Bytes(cx.g.rechunk(&v, false));
    let b = it.enc();
    cx.input(&b);
    macro_rules! fx {
        ($n:expr) => {{
            let got = decode_from_bytes::<[u8; $n]>(&b);
            let want: Option<[u8; $n]> = v[..].try_into().ok();
            ck!(got.is_ok() == want.is_some() && got.as_ref().ok().copied() == want, "{} bytes decode as [u8; {}]: {:?}", n, $n, got);
            cx.count("fixed sizes compared");
        }};
    }
    fx!(0);
    fx!(1);
    fx!(4);
    fx!(32);
    fx!(33);
    cx.seen_bytes(&b, true);
    Ok(())
}

fn main() {
    run(&[
        Phase { name: "exhaustive-bytes", quick: exhaustive_bytes_count(2), thorough: exhaustive_bytes_count(2), f: ex_bytes, seeded: false },
        Phase { name: "exhaustive-alphabet", quick: exhaustive_alpha_count(3), thorough: exhaustive_alpha_count(4), f: ex_alpha, seeded: false },
        Phase { name: "limits", quick: 70_000, thorough: 200_000, f: limits, seeded: false },
        ph("natives", 150_000, 8_000_000, natives),
        ph("near", 600_000, 30_000_000, near),
        ph("fixed", 60_000, 2_000_000, fixed),
        ph("hostile", 40_000, 2_000_000, hostile),
        big!("big natives", 3000, 120000, natives),
        big!("big near", 1200, 48000, near),
    ])
}
