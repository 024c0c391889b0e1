//! C02: the validator accepts exactly the well-formed items and finds their boundary
use cbored::validate::Validator;
use mon::gen::*;
use mon::refc::*;
use mon::rt::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

fn check(cx: &mut Cx, b: &[u8]) -> Result<bool, String> {
    let mut v = Validator::new(b);
    let mut p = 0;
    let mut n = 0u64;
    loop {
        ck!(v.remaining_bytes() == b.len() - p, "at {}: validator says {} bytes remain of {}", p, v.remaining_bytes(), b.len());
        let want = scan(&b[p..]);
        let got = v.next();
        match (&want, got) {
            (Scan::Complete(l), Ok((s, d))) => {
                ck!(d == *l, "at {}: item has {} bytes, the validator says {}", p, l, d);
                let s: &[u8] = s.as_ref();
                ck!(s == &b[p..p + l], "at {}: validator returned {} instead of {}", p, hex(s), hex(&b[p..p + l]));
                p += l;
                n += 1;
            }
            (Scan::Complete(l), Err(e)) => return Err(format!("at {}: well-formed item {} rejected: {:?}", p, hex(&b[p..p + l]), e)),
            (w, Ok((_, d))) => return Err(format!("at {}: accepted {} bytes {} which are not well-formed ({:?})", p, d, hex(&b[p..(p + d).min(b.len())]), w)),
            (_, Err(_)) => break,
        }
    }
    cx.add("items accepted and compared", n);
    cx.count("rejections compared");
    Ok(n > 0 || b.len() > 1)
}

fn one(cx: &mut Cx, b: Vec<u8>) -> Result<(), String> {
    cx.input(&b);
    let nt = check(cx, &b)?;
    cx.seen_bytes(&b, nt);
    cx.sample(|| hex(&b));
    Ok(())
}
fn ex_bytes(cx: &mut Cx) -> Result<(), String> {
    one(cx, exhaustive_bytes(cx.idx))
}
fn ex_alpha(cx: &mut Cx) -> Result<(), String> {
    one(cx, exhaustive_alpha(cx.idx))
}
fn hostile(cx: &mut Cx) -> Result<(), String> {
    let b = cx.g.hostile();
    one(cx, b)
}
fn concat(cx: &mut Cx) -> Result<(), String> {
    let n = 1 + cx.g.below(5);
    let mut b = vec![];
    for _ in 0..n {
        let o = Opt { size: 12, ..Opt::any_text() };
        cx.g.item(&o).enc_to(&mut b)
    }
    if cx.g.p(1, 2) {
        cx.g.mutate(&mut b)
    }
    one(cx, b)
}
/// well-formed containers with exactly one grammatical damage
fn damage(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 4, size: 20, ..Opt::any_text() };
    let it = cx.g.container(&o);
    let mut b = it.enc();
    // replace, insert or remove at a position that is the start of a piece
    let ps: Vec<_> = pieces(&it).into_iter().filter(|p| p.0 == Part::Header).collect();
    let at = ps[cx.g.below(ps.len())].1;
    match cx.g.below(7) {
        0 => b.insert(at, 0xff),
        1 => b.insert(at, 0x00),
        2 => {
            b[at] = b[at] & 0xe0 | 31;
        }
        3 => b[at] = b[at] & 0xe0 | (28 + cx.g.below(3) as u8),
        4 => {
            b.remove(at);
        }
        5 => b[at] ^= 0x20,
        _ => {
            let s: Vec<u8> = vec![*cx.g.pick(&[0xc0u8, 0x5f, 0x7f, 0x9f, 0xbf, 0x40, 0x60, 0x80, 0xa0, 0xf6])];
            b.insert(at, s[0])
        }
    }
    one(cx, b)
}
/// deep and wide items
fn large(cx: &mut Cx) -> Result<(), String> {
    let n = 1 + cx.g.below(3000);
    let mut b = vec![];
    let mut close = vec![];
    for _ in 0..n {
        match cx.g.below(6) {
            0 => b.push(0x81),
            1 => {
                b.push(0x9f);
                close.push(1)
            }
            2 => b.extend([0xa1, 0x01]),
            3 => {
                b.extend([0xbf, 0x02]);
                close.push(1)
            }
            4 => b.push(0xc5),
            _ => b.push(0x81),
        }
    }
    b.push(0x00);
    // definite containers are closed by their single element; close indefinite ones
    for _ in &close {
        b.push(0xff)
    }
    match cx.g.below(4) {
        0 => {
            b.pop();
        }
        1 => b.push(0xff),
        2 => {
            let i = cx.g.below(b.len());
            b[i] ^= 1 << cx.g.below(8)
        }
        _ => {}
    }
    cx.max("max nesting", n as u64);
    one(cx, b)
}

fn main() {
    run(&[
        Phase { name: "exhaustive-bytes", quick: exhaustive_bytes_count(2), thorough: exhaustive_bytes_count(3), f: ex_bytes, seeded: false },
        Phase { name: "exhaustive-alphabet", quick: exhaustive_alpha_count(4), thorough: exhaustive_alpha_count(6), f: ex_alpha, seeded: false },
        ph("hostile", 600_000, 30_000_000, hostile),
        ph("concat", 200_000, 10_000_000, concat),
        ph("damage", 300_000, 15_000_000, damage),
        ph("large", 3_000, 100_000, large),
        big!("big concat", 3000, 120000, concat),
        big!("big damage", 3000, 120000, damage),
    ])
}
