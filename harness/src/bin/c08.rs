//! C08: the reader's position is exact, monotone and consistent
use cbored::*;
use mon::gen::*;
use mon::obs;
use mon::refc::*;
use mon::rt::*;
use mon::typ::*;
use mon::*;
use std::borrow::Borrow;

#[global_allocator]
static A: Counting = Counting;

/// the accounting of a reader over b, known to be at p
fn position(r: &Reader, b: &[u8], p: usize) -> Result<(), String> {
    ck!(r.consumed_bytes() == p, "consumed {} instead of {}", r.consumed_bytes(), p);
    ck!(r.remaining_bytes() == b.len() - p, "at {} of {}: {} bytes remain", p, b.len(), r.remaining_bytes());
    ck!(r.is_finished() == (p == b.len()), "at {} of {}: finished is {}", p, b.len(), r.is_finished());
    match r.expect_finished() {
        Ok(()) => ck!(p == b.len(), "expect_finished succeeds at {} of {}", p, b.len()),
        Err(ReaderError::NotTerminated { at, remaining_bytes, next_byte }) => {
            ck!(p < b.len(), "expect_finished fails at the end");
            ck!(
                (at, remaining_bytes, next_byte) == (p, b.len() - p, b[p]),
                "expect_finished reports at {} remaining {} next {:02x} instead of {} {} {:02x}",
                at,
                remaining_bytes,
                next_byte,
                p,
                b.len() - p,
                b[p]
            )
        }
        Err(e) => return Err(format!("expect_finished: {:?}", e)),
    }
    Ok(())
}

const OPS: usize = 34;
/// run an operation; gives (succeeded, bytes it has to use if it does, must it succeed)
fn op(r: &mut Reader, k: usize, rest: &[u8]) -> (bool, Option<usize>, bool) {
    let it = parse(rest);
    let kind = it.as_ref().map(|x| x.0.kind());
    let text_ok = it.as_ref().map(|x| x.0.utf8_shallow()).unwrap_or(false);
    let n = it.as_ref().map(|x| x.1);
    let is = |ks: &[Kind]| n.is_some() && text_ok && ks.contains(&kind.unwrap());
    macro_rules! d {
        ($t:ty) => {{
            let e = expect_decode::<$t>(rest).map(|x| x.0);
            (r.decode::<$t>().is_ok(), e, e.is_some())
        }};
    }
    use Kind::*;
    match k {
        0 => (r.positive().is_ok(), n, is(&[Pos])),
        1 => (r.negative().is_ok(), n, is(&[Neg])),
        2 => (r.scalar().is_ok(), n, is(&[Pos, Neg])),
        3 => (r.byte().is_ok(), n, is(&[Byte])),
        4 => (r.float().is_ok(), n, is(&[Float])),
        5 => (r.constant().is_ok(), n, is(&[True, False, Null, Undef])),
        6 => (r.null().is_ok(), n, is(&[Null])),
        7 => (r.undefined().is_ok(), n, is(&[Undef])),
        8 => (r.bool().is_ok(), n, is(&[True, False])),
        9 => (r.bytes().is_ok(), n, is(&[Bytes])),
        10 => (r.text().is_ok(), n, is(&[Text])),
        11 => (r.array().is_ok(), n, is(&[Arr])),
        12 => (r.map().is_ok(), n, is(&[Map])),
        13 => (r.tag().is_ok(), n, is(&[Tag])),
        14..=17 => (r.data().is_ok(), n, n.is_some() && text_ok),
        18 => (r.exact_decodable_slice::<DataOwned>().is_ok(), n, n.is_some() && text_ok),
        19 => (r.exact_decodable_data::<DataOwned>().is_ok(), n, n.is_some() && text_ok),
        20 => (r.peek_type().is_ok(), Some(0), rest.first().map(|l| lead_kind(*l).is_some()).unwrap_or(false)),
        21 => d!(bool),
        22 => d!(u8),
        23 => d!(u32),
        24 => d!(u64),
        25 => d!(String),
        26 => d!(Vec<u8>),
        27 => d!([u8; 4]),
        28 => d!(Scalar),
        29 => d!(DataOwned),
        30 => d!(VecOf<u64>),
        31 => d!(Nothing),
        32 => d!(Two<u64, DataOwned>),
        _ => d!(CborDataOf<u64>),
    }
}

fn script(cx: &mut Cx, b: &[u8], mut r: Reader, n: usize) -> Result<u64, String> {
    let mut p = 0;
    position(&r, b, 0)?;
    let mut oks = 0;
    for _ in 0..n {
        let k = cx.g.below(OPS);
        let (ok, used, must) = op(&mut r, k, &b[p..]);
        let q = r.consumed_bytes();
        ck!(q >= p, "operation {} moved the position backwards from {} to {}", k, p, q);
        ck!(q <= b.len(), "operation {} moved the position to {} past the end {}", k, q, b.len());
        if ok {
            let u = match used {
                Some(u) => u,
                None => return Err(format!("operation {} succeeded at {} where there is no item of it", k, p)),
            };
            ck!(q == p + u, "operation {} at {} used {} bytes instead of {}", k, p, q - p, u);
            oks += 1;
            cx.count("successful reads of exact size");
        } else {
            ck!(!must, "operation {} failed at {} on its own item", k, p);
            ck!(k != 20 || q == p, "peek moved");
            cx.count("failed reads, monotone");
        }
        position(&r, b, q)?;
        p = q;
    }
    Ok(oks)
}

fn one(cx: &mut Cx, b: Vec<u8>, n: usize) -> Result<(), String> {
    cx.input(&b);
    let r = Reader::new(&b);
    script(cx, &b, r, n)?;
    cx.seen_bytes(&b, true);
    cx.sample(|| hex(&b));
    Ok(())
}

fn hostile(cx: &mut Cx) -> Result<(), String> {
    let b = cx.g.hostile();
    let n = 1 + cx.g.below(20);
    one(cx, b, n)
}
fn ex_alpha(cx: &mut Cx) -> Result<(), String> {
    one(cx, exhaustive_alpha(cx.idx), 12)
}
/// items laid end to end, read one after another by the reads of their kind
fn items(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 3, size: 8, ..Opt::std() };
    let n = 1 + cx.g.below(8);
    let its: Vec<It> = (0..n).map(|_| cx.g.item(&o)).collect();
    let b = enc_all(&its);
    cx.input(&b);
    let mut r = Reader::new(&b);
    let mut p = 0;
    for (i, it) in its.iter().enumerate() {
        position(&r, &b, p)?;
        // failing reads in between change nothing
        if cx.g.p(1, 2) {
            let wrong = match it.kind() {
                Kind::Pos => r.negative().is_err(),
                Kind::Arr => r.map().is_err(),
                Kind::Bytes => r.text().is_err(),
                Kind::Null => r.undefined().is_err(),
                Kind::False | Kind::True => r.null().is_err(),
                _ => r.positive().is_err(),
            };
            ck!(wrong, "a read of another kind succeeds on {:?}", it);
            position(&r, &b, p)?;
        }
        let n = it.enc().len();
        let ks: Vec<usize> = (0..20).filter(|k| op(&mut Reader::new(&b[p..]), *k, &b[p..]).2).collect();
        ck!(!ks.is_empty(), "nothing reads {:?}", it);
        let k = *cx.g.pick(&ks);
        let (ok, _, _) = op(&mut r, k, &b[p..]);
        ck!(ok, "operation {} fails on item {} ({:?})", k, i, it);
        p += n;
        cx.count("items read end to end");
    }
    position(&r, &b, p)?;
    ck!(r.is_finished(), "not finished after all the items");
    cx.seen_bytes(&b, true);
    cx.sample(|| hex(&b));
    Ok(())
}
/// readers over parts: elements, keys, values, tag content, owned or not
fn parts(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 3, size: 12, ..Opt::any_text() };
    let it = cx.g.container(&o);
    let b = it.enc();
    cx.input(&b);
    let subs: Vec<Vec<u8>> = match &it {
        It::Arr(_, v) => v.iter().map(|i| i.enc()).collect(),
        It::Map(_, v) => v.iter().flat_map(|(a, b)| [a.enc(), b.enc()]).collect(),
        It::Tag(_, _, i) => vec![i.enc()],
        _ => vec![],
    };
    let n = 1 + cx.g.below(5);
    let mut rd = Reader::new(&b);
    match it.kind() {
        Kind::Arr => {
            let a = rd.array().map_err(|e| format!("{:?}", e))?;
            let ow = a.owned();
            for (s, r) in subs.iter().zip(a.iter()).chain(subs.iter().zip(ow.iter())) {
                script(cx, s, r, n)?;
            }
            for (i, s) in subs.iter().enumerate() {
                script(cx, s, a[i].reader(), n)?;
                script(cx, s, ow[i].read(), n)?;
            }
        }
        Kind::Map => {
            let m = rd.map().map_err(|e| format!("{:?}", e))?;
            let ow = m.owned();
            for (j, (k, v)) in m.iter().chain(ow.iter()).enumerate() {
                let j = j % m.len();
                script(cx, &subs[2 * j], k, n)?;
                script(cx, &subs[2 * j + 1], v, n)?;
            }
            for (j, k) in m.keys().enumerate() {
                script(cx, &subs[2 * j], k, n)?;
            }
            for (j, k) in ow.values().enumerate() {
                script(cx, &subs[2 * j + 1], k, n)?;
            }
        }
        Kind::Tag => {
            let t = rd.tag().map_err(|e| format!("{:?}", e))?;
            let ow = t.owned();
            script(cx, &subs[0], t.reader(), n)?;
            script(cx, &subs[0], ow.read_data(), n)?;
            script(cx, &subs[0], t.data().reader(), n)?;
            let c: &CborSlice = ow.data().borrow();
            script(cx, &subs[0], c.reader(), n)?;
        }
        _ => {}
    }
    position(&rd, &b, b.len())?;
    cx.add("readers over parts", subs.len() as u64);
    cx.seen_bytes(&b, !subs.is_empty());
    let _ = obs::hv;
    Ok(())
}
/// what follows an item does not change how much of it is read
fn follow(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 2, size: 6, ..Opt::std() };
    let mut b = cx.g.item(&o).enc();
    let h = cx.g.hostile();
    b.extend(h);
    let n = 1 + cx.g.below(12);
    one(cx, b, n)
}

fn main() {
    run(&[
        Phase { name: "exhaustive-alphabet", quick: exhaustive_alpha_count(3), thorough: exhaustive_alpha_count(5), f: ex_alpha, seeded: true },
        ph("items", 120_000, 6_000_000, items),
        ph("hostile", 120_000, 6_000_000, hostile),
        ph("follow", 80_000, 4_000_000, follow),
        ph("parts", 60_000, 3_000_000, parts),
        big!("big items", 400, 16000, items),
        big!("big parts", 400, 16000, parts),
        big!("big follow", 400, 16000, follow),
    ])
}
