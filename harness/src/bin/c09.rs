//! C09: truncated input always reports missing data with the exact shortfall
use cbored::tagged::*;
use cbored::validate::*;
use cbored::*;
use mon::gen::*;
use mon::obs;
use mon::refc::*;
use mon::rt::*;
use mon::typ::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

type Miss = Result<(Part, u64, u64), String>;

fn rd<T>(r: Result<T, ReaderError>) -> Miss {
    match r {
        Ok(_) => Err("succeeds".into()),
        Err(ReaderError::DataMissing(m)) => Ok(obs::missing(&m)),
        Err(e) => Err(format!("reports {:?}", e)),
    }
}
fn dec<T>(r: Result<T, DecodeError>) -> Miss {
    match r {
        Ok(_) => Err("succeeds".into()),
        Err(e) => match e.error() {
            DecodeErrorKind::ReaderError(ReaderError::DataMissing(m)) => Ok(obs::missing(m)),
            e => Err(format!("reports {:?}", e)),
        },
    }
}
fn val<T>(r: Result<T, ValidateError>) -> Miss {
    match r {
        Ok(_) => Err("succeeds".into()),
        Err(ValidateError::DataMissing(m)) => Ok(obs::missing(&m)),
        Err(e) => Err(format!("reports {:?}", e)),
    }
}

const OPS: usize = 8;
/// operations for an item of that kind, over b, after `pre` items
fn attempt(b: &[u8], pre: usize, kind: Kind, k: usize) -> (&'static str, Miss) {
    let mut r = Reader::new(b);
    for _ in 0..pre {
        let _ = r.data();
    }
    match k {
        0 => {
            let mut v = Validator::new(b);
            for _ in 0..pre {
                let _ = v.next();
            }
            ("validator", val(v.next()))
        }
        1 => ("data", rd(r.data())),
        2 => ("decode::<DataOwned>", dec(r.decode::<DataOwned>())),
        3 => ("exact_decodable_slice", dec(r.exact_decodable_slice::<DataOwned>())),
        4 => ("exact_decodable_data", dec(r.exact_decodable_data::<DataOwned>())),
        5 => ("decode_one", dec(r.decode_one::<DataOwned>())),
        6 => match kind {
            Kind::Pos => ("positive", rd(r.positive())),
            Kind::Neg => ("negative", rd(r.negative())),
            Kind::Byte => ("byte", rd(r.byte())),
            Kind::Float => ("float", rd(r.float())),
            Kind::False | Kind::True => ("bool", rd(r.bool())),
            Kind::Null => ("null", rd(r.null())),
            Kind::Undef => ("undefined", rd(r.undefined())),
            Kind::Bytes => ("bytes", rd(r.bytes())),
            Kind::Text => ("text", rd(r.text())),
            Kind::Arr => ("array", rd(r.array())),
            Kind::Map => ("map", rd(r.map())),
            _ => ("tag", rd(r.tag())),
        },
        _ => match kind {
            Kind::Pos => ("decode::<u64>", dec(r.decode::<u64>())),
            Kind::Neg => ("scalar", rd(r.scalar())),
            Kind::False | Kind::True => ("decode::<bool>", dec(r.decode::<bool>())),
            Kind::Null | Kind::Undef => ("constant", rd(r.constant())),
            Kind::Bytes => ("decode::<Vec<u8>>", dec(r.decode::<Vec<u8>>())),
            Kind::Text => ("decode::<String>", dec(r.decode::<String>())),
            Kind::Arr => ("decode_vec", dec(r.decode::<VecOf<DataOwned>>())),
            _ => ("decode::<CborDataOf>", dec(r.decode::<CborDataOf<DataOwned>>())),
        },
    }
}

/// every cut of an item that follows `lead`
fn cuts(cx: &mut Cx, lead: &[It], it: &It, all: bool) -> Result<(), String> {
    let mut b = enc_all(lead);
    let pre = b.len();
    it.enc_to(&mut b);
    let kind = it.kind();
    let mut ps = pieces(it);
    let end: usize = ps.iter().map(|p| p.2).sum();
    ck!(end == b.len() - pre, "(harness) pieces do not tile the item");
    if b.len() > 5000 {
        // the first and last pieces, long ones, some of the others
        let n = ps.len();
        let some: Vec<usize> = (0..12).map(|_| cx.g.below(n)).collect();
        let mut i = 0;
        ps.retain(|p| {
            i += 1;
            i <= 4 || i + 3 > n || p.2 > 1000 || some.contains(&i)
        });
        cx.count("long items cut");
    }
    for (part, start, len) in ps {
        // every position in the piece; some of the positions of long pieces
        let mut at: Vec<usize> = if len <= 12 || all { (0..len).collect() } else { vec![0, 1, len / 2, len - 2, len - 1, cx.g.below(len)] };
        at.dedup();
        for a in at {
            let cut = pre + start + a;
            let c = &b[..cut];
            cx.input(c);
            let want = (part, len as u64, a as u64);
            for k in 0..OPS {
                let (name, got) = attempt(c, lead.len(), kind, k);
                match got {
                    Ok(g) => ck!(
                        g == want,
                        "{} on the first {} of {} bytes of an item reports missing (part, needs, has) {:?} instead of {:?}",
                        name,
                        cut - pre,
                        b.len() - pre,
                        g,
                        want
                    ),
                    Err(e) => return Err(format!("{} on the first {} of {} bytes of an item {} instead of missing data {:?}", name, cut - pre, b.len() - pre, e, want)),
                }
            }
            cx.add("shortfalls compared", OPS as u64);
            cx.count(match part {
                Part::Header => "cuts before a header",
                Part::Length => "cuts in a length",
                Part::Content => "cuts in a content",
            });
            cx.seen_bytes(c, true);
        }
    }
    cx.sample(|| format!("every prefix of {} after {} other items", hex(&b[pre..]), lead.len()));
    Ok(())
}

/// each kind, width and length
fn leaves(cx: &mut Cx) -> Result<(), String> {
    let i = cx.idx as usize;
    let w = WS[i / 8 % 5];
    let max = match w {
        W::I => 23,
        W::W1 => 255,
        W::W2 => 65535,
        W::W4 => u32::MAX as u64,
        W::W8 => u64::MAX,
    };
    let v = cx.g.uint() & max;
    let v = if w == W::I { v % 24 } else { v };
    let n = (cx.g.slen() as u64 % 300).min(max) as usize;
    let it = match i % 8 {
        0 => It::Pos(w, v),
        1 => It::Neg(w, v),
        2 => It::Bytes(Str::Def(w, cx.g.bytes_n(n))),
        3 => It::Text(Str::Def(w, vec![b'a'; n])),
        4 => It::Tag(w, v, Box::new(It::S1(22))),
        5 => match i / 8 % 4 {
            0 => It::F16(v as u16),
            1 => It::F32(v as u32),
            2 => It::F64(v),
            _ => It::S2(v as u8),
        },
        6 => It::Arr(Len::Def(w), (0..n % 20).map(|j| It::pos(j as u64 * 200)).collect()),
        _ => It::Map(Len::Def(w), (0..n % 20).map(|j| (It::pos(j as u64 * 20), It::neg(j as u64))).collect()),
    };
    cuts(cx, &[], &it, true)
}
fn trees(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 4, size: 10, ..Opt::std() };
    let it = cx.g.container(&o);
    let n = cx.g.below(3);
    let o2 = Opt { depth: 1, size: 3, ..Opt::std() };
    let lead: Vec<It> = (0..n).map(|_| cx.g.item(&o2)).collect();
    cuts(cx, &lead, &it, false)
}
fn strings(cx: &mut Cx) -> Result<(), String> {
    let o = Opt::std();
    let t = cx.g.p(1, 2);
    let s = cx.g.string(t, &o);
    let it = if t { It::Text(s) } else { It::Bytes(s) };
    let it = match cx.g.below(4) {
        0 => It::arr(vec![it]),
        1 => It::tag(5, it),
        2 => It::Map(Len::Ind, vec![(it, It::null())]),
        _ => it,
    };
    cuts(cx, &[], &it, false)
}
/// lengths that cannot be supplied, with part of the content there
fn huge(cx: &mut Cx) -> Result<(), String> {
    let text = cx.g.p(1, 2);
    let w = *cx.g.pick(&[W::W2, W::W4, W::W8]);
    let max = match w {
        W::W2 => 65535,
        W::W4 => u32::MAX as u64,
        _ => u64::MAX,
    };
    let have = cx.g.below(40);
    let len = loop {
        let l = match cx.g.below(3) {
            0 => max - cx.g.u64() % 4,
            1 => have as u64 + 1 + cx.g.u64() % 3,
            _ => cx.g.uint() & max,
        };
        if l > have as u64 {
            break l;
        }
    };
    let mut b = vec![];
    let ind = cx.g.p(1, 3);
    if ind {
        b.push(if text { 0x7f } else { 0x5f });
        head(if text { 3 } else { 2 }, W::I, 2, &mut b);
        b.extend(b"xy");
    }
    head(if text { 3 } else { 2 }, w, len, &mut b);
    b.extend(std::iter::repeat(b'z').take(have));
    cx.input(&b);
    for k in 0..OPS {
        let (name, got) = attempt(&b, 0, if text { Kind::Text } else { Kind::Bytes }, k);
        let got = got.map_err(|e| format!("{} of a string of {} bytes with {} there {}", name, len, have, e))?;
        // (a size that the platform has no number for is the largest it has)
        ckeq!(got, (Part::Content, len.min(usize::MAX as u64), have as u64), "{} of a string of {} bytes with {} there", name, len, have);
    }
    cx.add("shortfalls compared", OPS as u64);
    cx.seen_bytes(&b, true);
    // a container that lacks elements: the next header is missing
    let mut b = vec![];
    let n = cx.g.below(5) as u64;
    let map = cx.g.p(1, 2);
    head(if map { 5 } else { 4 }, w, len.max(n + 1), &mut b);
    for i in 0..n {
        It::pos(i).enc_to(&mut b);
    }
    {
        cx.input(&b);
        for k in 0..OPS {
            let (name, got) = attempt(&b, 0, if map { Kind::Map } else { Kind::Arr }, k);
            let got = got.map_err(|e| format!("{} of a container of {} entries with {} items there {}", name, len, n, e))?;
            ckeq!(got, (Part::Header, 1, 0), "{} of a container of {} entries with {} items there", name, len, n);
        }
        cx.add("shortfalls compared", OPS as u64);
        cx.seen_bytes(&b, true);
    }
    Ok(())
}

/// the same operations where the item is all there: whatever is refused, nothing is missing
fn there<T: Typ>(cx: &mut Cx) -> Result<(), String> {
    let mut b = try_bytes::<T>(&mut cx.g);
    match parse(&b) {
        Some(_) => {}
        None => {
            // end at its last complete item, or complete it with items
            match leading_items(&b).1.last() {
                Some(e) => b.truncate(*e),
                None => return Ok(()),
            }
        }
    }
    whole::<T>(cx, &b)
}
fn whole<T: Typ>(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    cx.input(b);
    let kinds = [
        Kind::Pos, Kind::Neg, Kind::Byte, Kind::Float, Kind::True, Kind::Null, Kind::Undef,
        Kind::Bytes, Kind::Text, Kind::Arr, Kind::Map, Kind::Tag,
    ];
    let say = |name: &str, m: Miss| -> Result<(), String> {
        match m {
            Ok(m) => Err(format!("{} reports missing (part, needs, has) {:?} of an item that is complete", name, m)),
            Err(_) => Ok(()),
        }
    };
    let mut n = 1;
    for k in 0..6 {
        let (name, m) = attempt(b, 0, Kind::Pos, k);
        say(name, m)?;
        n += 1;
    }
    for kind in kinds {
        for k in 6..OPS {
            let (name, m) = attempt(b, 0, kind, k);
            say(name, m)?;
            n += 1;
        }
    }
    let name = T::name();
    let v = dec(Reader::new(b).decode::<T>());
    if !matches!(&v, Err(e) if e == "succeeds") {
        cx.count("complete items refused by a type");
    }
    say(name, v)?;
    say(name, dec(Reader::new(b).exact_decodable_slice::<T>().map(|_| ())))?;
    say(name, dec(Reader::new(b).exact_decodable_data::<T>().map(|_| ())))?;
    say(name, dec(Reader::new(b).decode_one::<T>()))?;
    cx.add("operations on complete items", n + 4);
    cx.seen_bytes(b, true);
    Ok(())
}
fn complete(cx: &mut Cx) -> Result<(), String> {
    let i = cx.idx as usize;
    with_types!(i, there, cx)
}
/// the shape of one type with what is inside exchanged: rationals, vectors, tags in each other
fn swapped(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 2, size: 4, ..Opt::any_text() };
    let inner = |g: &mut Rng| -> It {
        let t = *g.pick(&[0, 1, 2, 3, 4, 24, 30, 1000]);
        match g.below(5) {
            0 => g.leaf(&o),
            1 => It::tag(t, g.leaf(&o)),
            2 => It::tag(t, It::bytes(&[1, 2])),
            3 => It::tag(t, g.item(&o)),
            _ => It::pos(g.uint()),
        }
    };
    let n = *cx.g.pick(&[0, 1, 2, 2, 2, 2, 3]);
    let v: Vec<It> = (0..n).map(|_| inner(&mut cx.g)).collect();
    let l = cx.g.lenenc(v.len(), &o);
    let it = It::Arr(l, v);
    let t = *cx.g.pick(&[30, 30, 30, 2, 3, 24, 0]);
    let it = if cx.g.p(7, 8) { It::tag(t, it) } else { it };
    let b = it.enc();
    match cx.g.below(4) {
        0 => whole::<VecOf<RationalNumber>>(cx, &b),
        1 => whole::<VecOf<PositiveBignum>>(cx, &b),
        _ => whole::<RationalNumber>(cx, &b),
    }
}

fn main() {
    run(&[
        ph("complete", 60_000, 2_000_000, complete),
        ph("swapped", 60_000, 2_000_000, swapped),
        Phase { name: "leaves", quick: 400, thorough: 4_000, f: leaves, seeded: true },
        ph("trees", 20_000, 800_000, trees),
        ph("strings", 15_000, 600_000, strings),
        ph("huge", 60_000, 2_000_000, huge),
        big!("big trees", 120, 4800, trees),
        big!("big strings", 800, 32000, strings),
    ])
}
