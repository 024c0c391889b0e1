//! C07: typed reads succeed exactly on their own type and return the encoded value
use cbored::*;
use mon::gen::*;
use mon::obs;
use mon::refc::*;
use mon::rt::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

const ACC: usize = 15;
const NAMES: [&str; ACC] =
    ["positive", "negative", "scalar", "byte", "float", "constant", "null", "undefined", "bool", "bytes", "text", "array", "map", "tag", "data"];

/// kinds accepted by each accessor
fn accepts(k: usize, kind: Kind) -> bool {
    use Kind::*;
    match k {
        0 => kind == Pos,
        1 => kind == Neg,
        2 => matches!(kind, Pos | Neg),
        3 => kind == Byte,
        4 => kind == Float,
        5 => matches!(kind, False | True | Null | Undef),
        6 => kind == Null,
        7 => kind == Undef,
        8 => matches!(kind, False | True),
        9 => kind == Bytes,
        10 => kind == Text,
        11 => kind == Arr,
        12 => kind == Map,
        13 => kind == Tag,
        _ => kind != Break,
    }
}
fn expected(k: usize) -> Vec<Kind> {
    use Kind::*;
    [Pos, Neg, Bytes, Text, Arr, Map, Tag, False, True, Null, Undef, Float, Byte].into_iter().filter(|x| accepts(k, *x)).collect()
}

fn access(r: &mut Reader, k: usize) -> Result<Result<It, String>, ReaderError> {
    Ok(Ok(match k {
        0 => obs::pos(r.positive()?),
        1 => obs::neg(r.negative()?),
        2 => obs::scalar(r.scalar()?),
        3 => obs::byte(r.byte()?),
        4 => obs::float(r.float()?),
        5 => obs::constant(r.constant()?),
        6 => {
            r.null()?;
            It::S1(22)
        }
        7 => {
            r.undefined()?;
            It::S1(23)
        }
        8 => It::bool(r.bool()?),
        9 => return Ok(obs::bytes(&r.bytes()?).map(It::Bytes)),
        10 => return Ok(obs::text(&r.text()?).map(It::Text)),
        11 => return Ok(obs::array(&r.array()?)),
        12 => return Ok(obs::map(&r.map()?)),
        13 => return Ok(obs::tag(&r.tag()?)),
        _ => return Ok(obs::data(&r.data()?)),
    }))
}

fn all_valid(it: &It) -> bool {
    match it {
        It::Text(s) => s.utf8(),
        It::Arr(_, v) => v.iter().all(all_valid),
        It::Map(_, v) => v.iter().all(|(a, b)| all_valid(a) && all_valid(b)),
        It::Tag(_, _, i) => all_valid(i),
        _ => true,
    }
}

/// what the bytes at the position hold
enum Head {
    Empty,
    Bad,
    Break,
    /// kind, and how many argument bytes are there of how many
    Short(Kind, u64, u64),
    Kind(Kind),
}

fn head_of(b: &[u8]) -> Head {
    let l = match b.first() {
        None => return Head::Empty,
        Some(l) => *l,
    };
    match lead_kind(l) {
        None => Head::Bad,
        Some(Kind::Break) => Head::Break,
        Some(k) => {
            let n = lead_extra(l);
            if b.len() - 1 < n {
                Head::Short(k, n as u64, (b.len() - 1) as u64)
            } else {
                Head::Kind(k)
            }
        }
    }
}

fn named(k: usize, e: &ReaderError, got: Kind) -> Result<(), String> {
    let (exp, g) = match e {
        ReaderError::WrongExpectedType { expected, got } => (vec![obs::kind(*expected)], obs::kind(*got)),
        ReaderError::WrongExpectedTypes { expected, got } => (expected.iter().map(|t| obs::kind(*t)).collect(), obs::kind(*got)),
        e => return Err(format!("{} on a {:?} reports {:?} instead of the kind", NAMES[k], got, e)),
    };
    ck!(g == got, "{} on a {:?} reports a {:?}", NAMES[k], got, g);
    let mut exp = exp;
    exp.sort();
    let mut want = expected(k);
    want.sort();
    ck!(exp == want, "{} on a {:?} says it expects {:?} instead of {:?}", NAMES[k], got, exp, want);
    Ok(())
}

/// the accessors on what is at the position of a reader that got there after `pre` bytes of items
fn check(cx: &mut Cx, b: &[u8], pre: usize, n_pre: usize) -> Result<bool, String> {
    let mk = || {
        let mut r = Reader::new(b);
        for _ in 0..n_pre {
            let _ = r.data();
        }
        r
    };
    let rest = &b[pre..];
    let h = head_of(rest);
    // a reader on which nothing that fails by kind may leave a trace
    let mut keep = mk();
    ck!(keep.consumed_bytes() == pre, "the leading items use {} bytes instead of {}", keep.consumed_bytes(), pre);
    // peek
    let pk = keep.peek_type();
    match (&h, &pk) {
        (Head::Empty, Err(ReaderError::DataMissing(m))) => ck!(obs::missing(m) == (Part::Header, 1, 0), "peek at the end: {:?}", m),
        (Head::Bad, Err(_)) => {}
        (Head::Break, Ok(Type::Break)) => {}
        (Head::Short(k, ..), Ok(t)) | (Head::Kind(k), Ok(t)) => ck!(obs::kind(*t) == *k, "peek gives {:?} for a {:?}", t, k),
        _ => return Err(format!("peek gives {:?} for {}", pk, hex(rest))),
    }
    ck!(keep.consumed_bytes() == pre, "peek moved the reader");
    cx.count("peeks compared");
    let whole = match &h {
        Head::Kind(_) => parse(rest),
        _ => None,
    };
    // a different order each time
    let rot = cx.g.below(ACC);
    for k in (0..ACC).map(|k| (k + rot) % ACC) {
        // accessors that fail by kind, on the same reader; others on their own
        let on_kind = matches!(h, Head::Kind(x) if accepts(k, x));
        let mut own = mk();
        let r = if on_kind { &mut own } else { &mut keep };
        let res = access(r, k);
        let used = r.consumed_bytes() - pre;
        match &h {
            Head::Kind(kind) if on_kind => match (&whole, res) {
                (Some((it, n)), Ok(v)) => {
                    let shallow = it.utf8_shallow();
                    ck!(shallow, "{} accepts a text that is not valid", NAMES[k]);
                    if all_valid(it) {
                        let v = v.map_err(|e| format!("{}: {}", NAMES[k], e))?;
                        ck!(v == *it, "{} gives {:?} for {:?}", NAMES[k], v, it);
                    }
                    ck!(used == *n, "{} consumed {} bytes of an item of {}", NAMES[k], used, n);
                    cx.count("reads of their own kind, values compared");
                }
                (Some((it, _)), Err(e)) => {
                    ck!(!it.utf8_shallow(), "{} fails on its own kind: {:?} ({:?})", NAMES[k], e, it);
                    cx.count("invalid texts refused");
                }
                (None, Ok(v)) => return Err(format!("{} gives {:?} for an item that is not well-formed", NAMES[k], v)),
                (None, Err(e)) => {
                    ck!(
                        !matches!(e, ReaderError::WrongExpectedType { .. } | ReaderError::WrongExpectedTypes { .. }) || !matches!(scan(rest), Scan::Truncated(..)),
                        "{} on a truncated {:?} blames the kind: {:?}",
                        NAMES[k],
                        kind,
                        e
                    );
                    cx.count("malformed content refused");
                }
            },
            _ => {
                let e = match res {
                    Ok(v) => return Err(format!("{} gives {:?} for {}", NAMES[k], v, hex(rest))),
                    Err(e) => e,
                };
                ck!(used == 0, "{} failed ({:?}) but consumed {} bytes of {}", NAMES[k], e, used, hex(rest));
                ck!(r.remaining_bytes() == rest.len(), "{} failed but {} bytes remain of {}", NAMES[k], r.remaining_bytes(), rest.len());
                match &h {
                    Head::Empty => match &e {
                        ReaderError::DataMissing(m) => ck!(obs::missing(m) == (Part::Header, 1, 0), "{} at the end: {:?}", NAMES[k], m),
                        e => return Err(format!("{} at the end: {:?}", NAMES[k], e)),
                    },
                    Head::Bad => ck!(matches!(e, ReaderError::LeadError(_)), "{} on the reserved header {:02x} reports {:?}", NAMES[k], rest[0], e),
                    Head::Break if k == 14 => ck!(matches!(e, ReaderError::UnexpectedBreakType), "generic read of a break: {:?}", e),
                    Head::Break => named(k, &e, Kind::Break)?,
                    Head::Short(kind, need, have) => match &e {
                        ReaderError::DataMissing(m) => ck!(obs::missing(m) == (Part::Length, *need, *have), "{} on a short header: {:?}", NAMES[k], m),
                        // when the kind is not the one wanted either, both are right
                        e if !accepts(k, *kind) => named(k, e, *kind)?,
                        e => return Err(format!("{} on a short header: {:?}", NAMES[k], e)),
                    },
                    Head::Kind(kind) => named(k, &e, *kind)?,
                }
                cx.count("refusals by kind or header compared, nothing consumed");
            }
        }
    }
    // after all these failures, the right read gives the value
    if let (Head::Kind(kind), Some((it, n))) = (&h, &whole) {
        if all_valid(it) {
            let k = (0..ACC).filter(|k| accepts(*k, *kind)).nth(cx.g.below(2)).unwrap_or(14);
            let v = access(&mut keep, k).map_err(|e| format!("{} after failed reads: {:?}", NAMES[k], e))?;
            let v = v.map_err(|e| format!("{} after failed reads: {}", NAMES[k], e))?;
            ck!(v == *it, "{} after failed reads gives {:?} for {:?}", NAMES[k], v, it);
            ck!(keep.consumed_bytes() == pre + n, "{} after failed reads consumed {} bytes of {}", NAMES[k], keep.consumed_bytes() - pre, n);
            cx.count("right reads after failed ones");
        }
    }
    Ok(true)
}

fn one(cx: &mut Cx, b: Vec<u8>) -> Result<(), String> {
    cx.input(&b);
    let nt = check(cx, &b, 0, 0)?;
    cx.seen_bytes(&b, nt);
    cx.sample(|| hex(&b));
    Ok(())
}
fn ex_bytes(cx: &mut Cx) -> Result<(), String> {
    one(cx, exhaustive_bytes(cx.idx))
}
fn ex_alpha(cx: &mut Cx) -> Result<(), String> {
    one(cx, exhaustive_alpha(cx.idx))
}
fn hostile(cx: &mut Cx) -> Result<(), String> {
    let b = cx.g.hostile();
    one(cx, b)
}
/// every lead byte, with something behind
fn leads(cx: &mut Cx) -> Result<(), String> {
    let mut b = vec![cx.idx as u8];
    let n = cx.g.below(12);
    b.extend(cx.g.bytes_n(n));
    if cx.g.p(1, 2) && b.len() > 1 {
        let k = (cx.g.below(9)).min(b.len() - 1);
        for x in &mut b[1..=k] {
            *x = 0
        }
    }
    one(cx, b)
}
/// an item, after others and before anything
fn items(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 3, size: 10, ..Opt::std() };
    let n = cx.g.below(3);
    let mut b = vec![];
    for _ in 0..n {
        cx.g.item(&o).enc_to(&mut b)
    }
    let pre = b.len();
    let o2 = if cx.g.p(1, 6) { Opt { depth: 3, size: 10, ..Opt::any_text() } } else { o };
    cx.g.item(&o2).enc_to(&mut b);
    match cx.g.below(4) {
        0 => b.extend(cx.g.hostile()),
        1 => b.push(0xff),
        2 if cx.g.p(1, 3) => {
            let k = cx.g.below(b.len() - pre);
            b.truncate(pre + k)
        }
        _ => {}
    }
    cx.input(&b);
    check(cx, &b, pre, n)?;
    cx.seen_bytes(&b, true);
    cx.sample(|| hex(&b));
    Ok(())
}
/// decoding a native type finds another kind: nothing is consumed
fn natives(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 2, size: 6, ..Opt::std() };
    let it = cx.g.item(&o);
    let b = it.enc();
    cx.input(&b);
    let kind = it.kind();
    macro_rules! n {
        ($t:ty, $($k:pat_param)|+) => {{
            if !matches!(kind, $($k)|+) {
                let mut r = Reader::new(&b);
                let x = r.decode::<$t>();
                ck!(x.is_err(), "decoding a {} from a {:?} succeeds", stringify!($t), kind);
                ck!(r.consumed_bytes() == 0, "decoding a {} from a {:?} fails but consumes {}", stringify!($t), kind, r.consumed_bytes());
                let d = r.data().map_err(|e| format!("after a failed decode: {:?}", e))?;
                ck!(obs::data(&d)? == it, "after a failed decode: another value");
                cx.count("native decodes of another kind, nothing consumed");
            }
        }};
    }
    n!(bool, Kind::True | Kind::False);
    n!(u8, Kind::Pos);
    n!(u16, Kind::Pos);
    n!(u32, Kind::Pos);
    n!(u64, Kind::Pos);
    n!(Scalar, Kind::Pos | Kind::Neg);
    n!(String, Kind::Text);
    n!(Vec<u8>, Kind::Bytes);
    n!([u8; 4], Kind::Bytes);
    n!(mon::typ::VecOf<u64>, Kind::Arr);
    cx.seen_bytes(&b, true);
    Ok(())
}

fn main() {
    run(&[
        Phase { name: "exhaustive-bytes", quick: exhaustive_bytes_count(2), thorough: exhaustive_bytes_count(3), f: ex_bytes, seeded: false },
        Phase { name: "exhaustive-alphabet", quick: exhaustive_alpha_count(3), thorough: exhaustive_alpha_count(5), f: ex_alpha, seeded: false },
        ph("leads", 60_000, 2_000_000, leads),
        ph("items", 200_000, 10_000_000, items),
        ph("hostile", 100_000, 5_000_000, hostile),
        ph("natives", 100_000, 3_000_000, natives),
        big!("big", 1200, 48000, items),
        big!("big natives", 30, 1200, natives),
    ])
}
