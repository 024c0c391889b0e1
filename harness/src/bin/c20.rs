//! C20: whole-input decoding rejects trailing data
use cbored::*;
use mon::gen::*;
use mon::refc::*;
use mon::rt::*;
use mon::typ::*;
use mon::*;
use std::borrow::Borrow;

#[global_allocator]
static A: Counting = Counting;

/// what a decoder says about some bytes, alone
struct Want {
    /// layout of the value if it decodes and uses every byte
    all: Option<Vec<It>>,
    /// the error of decoding from a reader, when that fails
    err: Option<String>,
    /// the bytes used when decoding from a reader
    used: usize,
}

/// an error: as printed, and what it says about what is left over (position, bytes left, next byte)
type Fail = (String, Option<(Option<usize>, usize, Option<u8>)>);
fn fail(e: &DecodeErrorKind) -> Fail {
    let left = match e {
        DecodeErrorKind::ReaderNotTerminated { remaining_bytes } => Some((None, *remaining_bytes, None)),
        DecodeErrorKind::ReaderError(ReaderError::NotTerminated { at, remaining_bytes, next_byte }) => Some((Some(*at), *remaining_bytes, Some(*next_byte))),
        _ => None,
    };
    (format!("{:?}", e), left)
}

fn want<T: Typ>(cx: &mut Cx, b: &[u8]) -> Result<Want, String> {
    let (items, ends) = leading_items(b);
    let all = if ends.last().copied().unwrap_or(0) == b.len() { T::sch().canon_whole(&items) } else { None };
    let mut r = Reader::new(b);
    let err = match r.decode::<T>() {
        Err(e) => {
            ck!(all.is_none(), "decode::<{}> from a reader over {} fails: {:?}", T::name(), hex(b), e);
            cx.count("inputs that do not decode");
            Some(format!("{:?}", e.error()))
        }
        Ok(v) => {
            match &all {
                Some(l) => {
                    ck!(r.is_finished(), "decode::<{}> of {} leaves {} bytes", T::name(), hex(b), r.remaining_bytes());
                    ck!(v.items() == *l, "decode::<{}> of {} gives {:?} instead of {:?}", T::name(), hex(b), v.items(), l);
                    cx.count("inputs with nothing left over");
                }
                None => {
                    ck!(r.remaining_bytes() > 0, "decode::<{}> of {} succeeds and uses every byte", T::name(), hex(b));
                    cx.count("inputs that decode with something left over");
                }
            }
            None
        }
    };
    Ok(Want { all, err, used: r.consumed_bytes() })
}

fn judge<T: Typ>(cx: &mut Cx, what: &str, b: &[u8], w: &Want, got: Result<Vec<It>, Fail>) -> Result<(), String> {
    match (got, &w.all, &w.err) {
        (Ok(v), Some(l), _) => ck!(v == *l, "{} of {} as {} gives {:?} instead of {:?}", what, hex(b), T::name(), v, l),
        (Ok(_), None, _) => return Err(format!("{} of {} as {} succeeds without using every byte", what, hex(b), T::name())),
        (Err(e), Some(_), _) => return Err(format!("{} of {} as {} fails: {}", what, hex(b), T::name(), e.0)),
        (Err(e), None, Some(re)) => ck!(e.0 == *re, "{} of {} as {} fails with {}, a reader with {}", what, hex(b), T::name(), e.0, re),
        (Err(e), None, None) => {
            // what is said to be left over is what is left over
            if let Some((at, left, next)) = e.1 {
                let first = at.unwrap_or(w.used);
                ck!(
                    left == b.len() - w.used && next.unwrap_or(b[w.used]) == b[w.used] && (first == w.used || first > w.used && what.contains("after other items")),
                    "{} of {} as {}, which uses {} bytes, fails with {}",
                    what,
                    hex(b),
                    T::name(),
                    w.used,
                    e.0
                );
                cx.count("left over reported exactly")
            }
        }
    }
    cx.count("verdicts compared");
    Ok(())
}

fn layout<T: Typ>(r: Result<T, DecodeError>) -> Result<Vec<It>, Fail> {
    r.map(|v| v.items()).map_err(|e| fail(e.error()))
}

fn check<T: Typ>(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    cx.input(b);
    let w = want::<T>(cx, b)?;
    judge::<T>(cx, "decode_from_bytes", b, &w, layout(decode_from_bytes::<T>(b)))?;
    let mut r = Reader::new(b);
    judge::<T>(cx, "decode_one", b, &w, layout(r.decode_one::<T>()))?;
    // after other items
    let o = Opt { depth: 1, size: 3, ..Opt::std() };
    let mut p = vec![];
    let n = 1 + cx.g.below(3);
    for _ in 0..n {
        let i = cx.g.item(&o);
        if i.utf8_shallow() {
            i.enc_to(&mut p);
        }
    }
    let pre = p.len();
    p.extend(b);
    let mut r = Reader::new(&p);
    while r.consumed_bytes() < pre {
        r.data().map_err(|e| format!("harness: item before does not read: {:?}", e))?;
    }
    judge::<T>(cx, "decode_one after other items", b, &w, layout(r.decode_one::<T>()))?;

    let d = Writer::new_from_vec(b.to_vec()).finalize_data();
    let c: &CborSlice = d.borrow();
    judge::<T>(cx, "CborData::decode", b, &w, layout(d.decode::<T>()))?;
    judge::<T>(cx, "CborSlice::decode", b, &w, layout(c.decode::<T>()))?;
    judge::<T>(cx, "CborData::validate_as", b, &w, layout(d.validate_as::<T>().map(|x| x.unserialize())))?;
    judge::<T>(cx, "CborSlice::validate_as", b, &w, layout(c.validate_as::<T>().map(|x| x.to_owned().unserialize())))?;
    judge::<T>(cx, "owned slice decode", b, &w, layout(c.to_owned().decode::<T>()))?;

    // as an element of a container, when it is one item
    if let Scan::Complete(n) = scan(b) {
        if n == b.len() {
            inside::<T>(cx, b, &w)?
        }
    }
    Ok(())
}

fn inside<T: Typ>(cx: &mut Cx, b: &[u8], w: &Want) -> Result<(), String> {
    let k = cx.g.u64();
    // [ b, 0, b ] , { 0: b, b: 1 } , tag(b)
    let mut a = if k & 1 == 0 { vec![0x83] } else { vec![0x9f] };
    a.extend(b);
    a.push(0);
    a.extend(b);
    if k & 1 == 1 {
        a.push(0xff)
    }
    a.extend([0xf6, 0xff]);
    let arr = Reader::new(&a).array().map_err(|e| format!("array around {}: {:?}", hex(b), e))?;
    judge::<T>(cx, "array element decode", b, w, layout(arr[0].decode::<T>()))?;
    judge::<T>(cx, "array element decode", b, w, layout(arr[2].decode::<T>()))?;
    judge::<T>(cx, "array element validate_as", b, w, layout(arr[0].validate_as::<T>().map(|x| x.to_owned().unserialize())))?;
    let o = arr.owned();
    judge::<T>(cx, "owned array element decode", b, w, layout(o[2].decode::<T>()))?;
    judge::<T>(cx, "owned array element validate_as", b, w, layout(o[0].validate_as::<T>().map(|x| x.unserialize())))?;
    for mut r in arr.iter().step_by(2) {
        judge::<T>(cx, "decode_one of an iterated element", b, w, layout(r.decode_one::<T>()))?;
    }
    let mut m = if k & 2 == 0 { vec![0xa2, 0] } else { vec![0xbf, 0] };
    m.extend(b);
    m.extend(b);
    m.push(1);
    if k & 2 == 2 {
        m.push(0xff)
    }
    m.push(1);
    let map = Reader::new(&m).map().map_err(|e| format!("map around {}: {:?}", hex(b), e))?;
    judge::<T>(cx, "map value decode", b, w, layout(map[0].1.decode::<T>()))?;
    judge::<T>(cx, "map key decode", b, w, layout(map[1].0.decode::<T>()))?;
    judge::<T>(cx, "map value validate_as", b, w, layout(map[0].1.validate_as::<T>().map(|x| x.to_owned().unserialize())))?;
    let mut t = vec![];
    let tv = cx.g.uint();
    head(6, cx.g.width(tv, false), tv, &mut t);
    t.extend(b);
    t.push(0x01);
    let tag = Reader::new(&t).tag().map_err(|e| format!("tag around {}: {:?}", hex(b), e))?;
    judge::<T>(cx, "Tag::decode_data", b, w, layout(tag.decode_data::<T>()))?;
    judge::<T>(cx, "Tag data decode", b, w, layout(tag.data().decode::<T>()))?;
    judge::<T>(cx, "tag reader decode_one", b, w, layout(tag.reader().decode_one::<T>()))?;
    judge::<T>(cx, "owned tag data decode", b, w, layout(tag.owned().data().decode::<T>()))?;
    judge::<T>(cx, "owned tag reader decode_one", b, w, layout(tag.owned().read_data().decode_one::<T>()))?;
    judge::<T>(cx, "owned and borrowed tag decode_data", b, w, layout(tag.owned().borrow().decode_data::<T>()))?;
    // through a closure of the user: whatever it reads
    let mut left = 0;
    let mut failed = None;
    let got = tag.read_data(|r| match r.decode::<T>() {
        Ok(v) => {
            left = r.remaining_bytes();
            Ok(Some(v))
        }
        Err(e) => {
            failed = Some(e);
            Err(ReaderError::UnexpectedBreakType)
        }
    });
    match (&got, &failed) {
        (Ok(_), Some(_)) => return Err(format!("read_data of {} succeeds when the closure fails", hex(b))),
        (Ok(v), None) => {
            ck!(left == 0, "read_data of {} as {} succeeds with {} bytes not read", hex(b), T::name(), left);
            let v = v.as_ref().map(|v| v.items());
            ck!(v == w.all, "read_data of {} as {} gives {:?}", hex(b), T::name(), v)
        }
        (Err(e), None) => ck!(left > 0, "read_data of {} as {} fails: {:?}", hex(b), T::name(), e),
        (Err(_), Some(_)) => {}
    }
    let nothing = tag.read_data(|_| Ok(()));
    ck!(nothing.is_err(), "read_data of {} succeeds when the closure reads nothing", hex(b));
    let looks = tag.read_data(|r| r.peek_type().map(|_| ()));
    ck!(looks.is_err(), "read_data of {} succeeds when the closure only looks at it", hex(b));
    cx.add("closures over a tag's content", 3);
    Ok(())
}

fn tails(g: &mut Rng, b: &mut Vec<u8>) {
    match g.below(8) {
        0 => b.push(0),
        1 => b.push(0xff),
        2 => b.push(0xf6),
        3 => b.push(g.u64() as u8),
        4 => {
            let n = b.len();
            b.extend_from_within(..n)
        }
        5 => {
            let n = 1 + g.below(9);
            b.extend(g.bytes_n(n))
        }
        6 => b.push(0x1c),
        _ => b.extend([0x80, 0xff]),
    }
}

fn near_t<T: Typ>(cx: &mut Cx) -> Result<(), String> {
    let mut b = if cx.g.p(1, 2) {
        let v = T::sch().arb(&mut cx.g, 3);
        let g = &mut cx.g;
        enc_all(&v.iter().map(|i| g.reencode_valid(i)).collect::<Vec<_>>())
    } else {
        try_bytes::<T>(&mut cx.g)
    };
    check::<T>(cx, &b)?;
    cx.seen(hash_bytes(&b) ^ hash_bytes(T::name().as_bytes()), !b.is_empty());
    tails(&mut cx.g, &mut b);
    check::<T>(cx, &b)?;
    cx.seen(hash_bytes(&b) ^ hash_bytes(T::name().as_bytes()), true);
    cx.sample(|| format!("{} from {}", T::name(), hex(&b)));
    Ok(())
}
fn near(cx: &mut Cx) -> Result<(), String> {
    let k = cx.g.below(30);
    with_types!(k, near_t, cx)
}
fn odd(cx: &mut Cx) -> Result<(), String> {
    match cx.g.below(6) {
        0 => near_t::<Nothing>(cx),
        1 => near_t::<Two<u64, u64>>(cx),
        2 => near_t::<Two<Nothing, String>>(cx),
        3 => near_t::<Two<DataOwned, Two<u8, bool>>>(cx),
        4 => near_t::<Two<Two<u8, u8>, Two<String, Nothing>>>(cx),
        _ => near_t::<CborDataOf<CborDataOf<u16>>>(cx),
    }
}
fn small_t<T: Typ>(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    check::<T>(cx, b)
}
fn small(cx: &mut Cx) -> Result<(), String> {
    let b = exhaustive_alpha(cx.idx);
    for k in 0..30 {
        with_types!(k, small_t, cx, &b)?;
    }
    check::<Nothing>(cx, &b)?;
    check::<Two<u64, u64>>(cx, &b)?;
    cx.seen_bytes(&b, true);
    Ok(())
}
/// every single byte after a complete encoding of each type
fn follow_t<T: Typ>(cx: &mut Cx, last: u8) -> Result<(), String> {
    let v = T::sch().arb(&mut cx.g, 2);
    let mut b = enc_all(&v);
    b.push(last);
    check::<T>(cx, &b)?;
    cx.seen(hash_bytes(&b) ^ hash_bytes(T::name().as_bytes()), true);
    Ok(())
}
fn follow(cx: &mut Cx) -> Result<(), String> {
    let k = (cx.idx / 256) as usize;
    let b = cx.idx as u8;
    with_types!(k, follow_t, cx, b)
}

fn main() {
    run(&[
        Phase { name: "exhaustive-alphabet", quick: exhaustive_alpha_count(2), thorough: exhaustive_alpha_count(4), f: small, seeded: false },
        ph("one-byte-more", 30 * 256, 30 * 256 * 40, follow),
        ph("near", 100_000, 6_000_000, near),
        ph("odd", 30_000, 2_000_000, odd),
        big!("big", 250, 10000, near),
    ])
}
