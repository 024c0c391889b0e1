//! C01: reading an item and writing it back reproduces its exact bytes
use mon::gen::*;
use mon::paths::roundtrips;
use mon::refc::*;
use mon::rt::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

fn check(cx: &mut Cx, b: &[u8], lead: usize, start: usize, it: &It) -> Result<(), String> {
    let want = it.enc();
    let paths = roundtrips(b, lead, it.kind());
    for (name, r) in &paths {
        match r {
            Err(e) => return Err(format!("{}: reading {} failed: {}", name, hex(&want), e)),
            Ok((out, used)) => {
                ck!(*used == want.len(), "{}: consumed {} bytes of an item of {} bytes", name, used, want.len());
                ck!(
                    out[..] == b[start..start + used],
                    "{}: read {} but wrote {}",
                    name,
                    hex(&b[start..start + used]),
                    hex(out)
                );
            }
        }
    }
    cx.add("read-write paths compared", paths.len() as u64);
    if it.noncanonical() {
        cx.count("items with a non-preferred encoding");
    }
    cx.count(&format!("kind {:?}", it.kind()));
    cx.seen_bytes(&want, it.noncanonical() || it.size() > 1 || matches!(it.kind(), Kind::Float));
    cx.sample(|| hex(&want));
    Ok(())
}

fn random(cx: &mut Cx) -> Result<(), String> {
    let o = match cx.g.below(4) {
        0 => Opt { depth: 0, ..Opt::std() },
        1 => Opt { depth: 2, size: 12, ..Opt::std() },
        2 => Opt { depth: 8, size: 400, ..Opt::std() },
        _ => Opt::std(),
    };
    let it = if o.depth > 0 && cx.g.p(1, 2) { cx.g.container(&o) } else { cx.g.item(&o) };
    let lead = if cx.g.p(1, 3) { cx.g.below(4) } else { 0 };
    let mut b = vec![];
    for _ in 0..lead {
        let x = cx.g.leaf(&o);
        x.enc_to(&mut b)
    }
    let start = b.len();
    it.enc_to(&mut b);
    if cx.g.p(1, 2) {
        let h = cx.g.hostile();
        b.extend(h)
    }
    cx.input(&b);
    check(cx, &b, lead, start, &it)
}

fn from_bytes(cx: &mut Cx, b: Vec<u8>) -> Result<(), String> {
    cx.input(&b);
    if let Some((it, _)) = parse(&b) {
        if all_utf8(&it) {
            return check(cx, &b, 0, 0, &it);
        }
    }
    cx.seen(0, false);
    Ok(())
}

fn all_utf8(i: &It) -> bool {
    match i {
        It::Text(s) => s.utf8(),
        It::Arr(_, v) => v.iter().all(all_utf8),
        It::Map(_, v) => v.iter().all(|(a, b)| all_utf8(a) && all_utf8(b)),
        It::Tag(_, _, i) => all_utf8(i),
        _ => true,
    }
}

fn ex_bytes(cx: &mut Cx) -> Result<(), String> {
    from_bytes(cx, exhaustive_bytes(cx.idx))
}
fn ex_alpha(cx: &mut Cx) -> Result<(), String> {
    from_bytes(cx, exhaustive_alpha(cx.idx))
}

/// every width of every header kind, with boundary arguments
fn headers(cx: &mut Cx) -> Result<(), String> {
    let i = cx.idx as usize;
    let w = WS[i % 5];
    let v = BOUNDS[(i / 5) % BOUNDS.len()];
    let major = (i / 5 / BOUNDS.len()) % 8;
    if W::min(v) > w {
        return Ok(());
    }
    let it = match major {
        0 => It::Pos(w, v),
        1 => It::Neg(w, v),
        2 | 3 => {
            if v > 70000 {
                return Ok(());
            }
            let c = vec![b'x'; v as usize];
            let s = if cx.g.p(1, 2) { Str::Def(w, c) } else { Str::Ind(vec![(w, c), (W::I, vec![])]) };
            if major == 2 {
                It::Bytes(s)
            } else {
                It::Text(s)
            }
        }
        4 => {
            if v > 70000 {
                return Ok(());
            }
            It::Arr(Len::Def(w), vec![It::pos(0); v as usize])
        }
        5 => {
            if v > 70000 {
                return Ok(());
            }
            It::Map(Len::Def(w), vec![(It::pos(0), It::null()); v as usize])
        }
        6 => It::Tag(w, v, Box::new(cx.g.leaf(&Opt::std()))),
        _ => It::S2(v as u8),
    };
    let b = it.enc();
    cx.input(&b[..b.len().min(64)]);
    check(cx, &b, 0, 0, &it)
}

fn floats(cx: &mut Cx) -> Result<(), String> {
    let it = It::F16(cx.idx as u16);
    check(cx, &it.enc(), 0, 0, &it)?;
    let it = if cx.g.p(1, 2) { It::F32(cx.g.single()) } else { It::F64(cx.g.double()) };
    check(cx, &it.enc(), 0, 0, &it)
}

fn main() {
    run(&[
        ph("headers", 5 * 37 * 8, 5 * 37 * 8, headers),
        ph("floats", 65536, 65536, floats),
        Phase { name: "exhaustive-bytes", quick: exhaustive_bytes_count(2), thorough: exhaustive_bytes_count(3), f: ex_bytes, seeded: false },
        Phase { name: "exhaustive-alphabet", quick: exhaustive_alpha_count(4), thorough: exhaustive_alpha_count(5), f: ex_alpha, seeded: false },
        ph("random", 150_000, 8_000_000, random),
        big!("big", 1500, 60000, random),
    ])
}
