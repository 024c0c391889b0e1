//! C04: no input makes reading, validating or decoding panic, crash or hang
use cbored::validate::Validator;
use cbored::*;
use mon::ex::*;
use mon::gen::*;
use mon::refc::*;
use mon::rt::*;
use mon::typ::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

fn drive(cx: &mut Cx, b: Vec<u8>) -> Result<(), String> {
    cx.input(&b);
    let mut s = Sink::new(false);
    let mut g = cx.g.clone();
    everything(&mut s, &b, &mut g, 2);
    cx.add("calls that returned", s.ops);
    cx.add("calls that returned a value", s.oks);
    cx.seen_bytes(&b, true);
    cx.sample(|| hex(&b));
    Ok(())
}
fn ex_bytes(cx: &mut Cx) -> Result<(), String> {
    let b = exhaustive_bytes(cx.idx);
    drive(cx, b)
}
fn ex_alpha(cx: &mut Cx) -> Result<(), String> {
    let b = exhaustive_alpha(cx.idx);
    drive(cx, b)
}
fn hostile(cx: &mut Cx) -> Result<(), String> {
    let b = cx.g.hostile();
    drive(cx, b)
}
/// every type on something close to it, damaged
fn types(cx: &mut Cx) -> Result<(), String> {
    fn f<T: Typ>(g: &mut Rng) -> Vec<u8> {
        try_bytes::<T>(g)
    }
    let k = cx.g.below(30);
    let b = with_types!(k, f, &mut cx.g);
    cx.input(&b);
    let mut s = Sink::new(false);
    use_types(&mut s, &b, k);
    for j in 0..6 {
        use_types(&mut s, &b, j * 5 + (cx.idx % 5) as usize);
    }
    cx.add("calls that returned", s.ops);
    cx.add("calls that returned a value", s.oks);
    cx.seen_bytes(&b, true);
    Ok(())
}
/// long op scripts over concatenations with errors in the middle
fn scripts(cx: &mut Cx) -> Result<(), String> {
    let mut b = vec![];
    for _ in 0..cx.g.below(8) {
        let h = cx.g.hostile();
        b.extend(h)
    }
    cx.input(&b);
    let mut s = Sink::new(false);
    let mut g = cx.g.clone();
    script(&mut s, &b, &mut g, 60, 1);
    validator(&mut s, &b, 40);
    cx.add("calls that returned", s.ops);
    cx.add("calls that returned a value", s.oks);
    cx.seen_bytes(&b, true);
    Ok(())
}
/// declared lengths around every power of two and around the size of the data and of the address space
fn lengths(cx: &mut Cx) -> Result<(), String> {
    let mut b = vec![];
    let pre: &[&[u8]] = &[&[], &[0x00], &[0x9f], &[0x82, 0x00], &[0x5f], &[0x7f], &[0x5f, 0x41, 0x00], &[0xbf, 0x00], &[0xa1], &[0xc2], &[0xd8, 30, 0x82, 0x01], &[0x81, 0x81]];
    b.extend_from_slice(*cx.g.pick(pre));
    let n = match cx.g.below(5) {
        0 => u64::MAX - cx.g.u64() % 40,
        1 => (1u64 << cx.g.below(64)).wrapping_add(cx.g.u64() % 5).wrapping_sub(2),
        2 => (i64::MAX as u64).wrapping_add(cx.g.u64() % 5).wrapping_sub(2),
        3 => (isize::MAX as u64 / (1 + cx.g.u64() % 64)).wrapping_add(cx.g.u64() % 3),
        _ => cx.g.u64() % 40,
    };
    let m = 2 + cx.g.below(4) as u8;
    let w = if cx.g.p(1, 2) { W::W8 } else { cx.g.width(n, false) };
    head(m, if W::min(n) <= w { w } else { W::W8 }, n, &mut b);
    for _ in 0..cx.g.below(40) {
        b.push(*cx.g.pick(&LEADS))
    }
    drive(cx, b)
}

/// nesting far beyond what any stack could recurse on, in a small stack
fn deep(cx: &mut Cx) -> Result<(), String> {
    const SHAPES: [&[&[u8]]; 10] = [
        &[&[0x81]],
        &[&[0x9f]],
        &[&[0xa1, 0x00]],
        &[&[0xa1]],
        &[&[0xbf, 0x00]],
        &[&[0xc2]],
        &[&[0x81], &[0x9f], &[0xa1, 0x00], &[0xbf, 0x01], &[0xd8, 0x20]],
        &[&[0x82, 0x00]],
        &[&[0xbf]],
        &[&[0xd8, 0x1e, 0x82]],
    ];
    let shape = SHAPES[cx.idx as usize % SHAPES.len()];
    let end = (cx.idx as usize / SHAPES.len()) % 4;
    let n = if cx.thorough { 3_000_000 } else { 400_000 };
    let mut b = vec![];
    let mut close = vec![];
    for i in 0..n {
        let p = shape[if shape.len() == 1 { 0 } else { (i * 7 + i / 5) % shape.len() }];
        b.extend_from_slice(p);
        close.push(p)
    }
    match end {
        // complete where it can be, cut, broken, and everything closed by breaks
        0 => {
            b.push(0);
            for p in close.iter().rev() {
                match p[0] {
                    0x9f => b.push(0xff),
                    0xbf if p.len() == 2 => b.push(0xff),
                    0xbf => b.extend([0x00, 0xff]),
                    0xa1 if p.len() == 1 => b.push(0x00),
                    0xd8 if p.len() == 3 => b.push(0x01),
                    _ => {}
                }
            }
        }
        1 => {}
        2 => b.push(0x1c),
        _ => b.resize(b.len() + n, 0xff),
    }
    cx.seen_bytes(&b, true);
    cx.max("max nesting", n as u64);
    let b = &b;
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn_scoped(s, move || {
                set_case_of(cx);
                nopanic(|| {
                    let mut ok = 0u64;
                    let mut v = Validator::new(b);
                    ok += v.next().is_ok() as u64;
                    let _ = v.next();
                    let mut r = Reader::new(b);
                    if let Ok(d) = r.data() {
                        ok += 1;
                        let o = d.owned();
                        let w = encode_to_bytes(&o);
                        ok += (w.len() <= b.len()) as u64;
                        let o2 = o.clone();
                        ok += (o2 == o) as u64;
                        ok += (o.borrow() == d) as u64;
                    }
                    let mut r = Reader::new(b);
                    ok += r.array().is_ok() as u64;
                    let mut r = Reader::new(b);
                    ok += r.map().is_ok() as u64;
                    let mut r = Reader::new(b);
                    ok += r.tag().is_ok() as u64;
                    let mut r = Reader::new(b);
                    ok += r.exact_decodable_slice::<DataOwned>().is_ok() as u64;
                    let mut r = Reader::new(b);
                    ok += r.exact_decodable_data::<DataOwned>().is_ok() as u64;
                    ok += decode_from_bytes::<DataOwned>(b).is_ok() as u64;
                    ok += decode_from_bytes::<VecOf<DataOwned>>(b).is_ok() as u64;
                    ok += decode_from_bytes::<VecOf<VecOf<u16>>>(b).is_ok() as u64;
                    ok += decode_from_bytes::<cbored::tagged::RationalNumber>(b).is_ok() as u64;
                    ok += decode_from_bytes::<cbored::tagged::PositiveBignum>(b).is_ok() as u64;
                    let d = Writer::new_from_vec(b.to_vec()).finalize_data();
                    ok += d.validate_as::<DataOwned>().is_ok() as u64;
                    ok
                })
            })
            .unwrap()
            .join()
            .unwrap()
    });
    let ok = r.map_err(|e| format!("panic: {}", e))?;
    ck!(!(end == 0 && ok == 0), "complete deep item was refused everywhere");
    Ok(())
}
fn set_case_of(cx: &Cx) {
    set_case(cx.phase, cx.idx)
}

fn main() {
    run(&[
        Phase { name: "exhaustive-bytes", quick: exhaustive_bytes_count(2), thorough: exhaustive_bytes_count(2) + 256 * 65536, f: ex_bytes, seeded: false },
        Phase { name: "exhaustive-alphabet", quick: exhaustive_alpha_count(3), thorough: exhaustive_alpha_count(5), f: ex_alpha, seeded: false },
        ph("hostile", 150_000, 6_000_000, hostile),
        ph("types", 150_000, 6_000_000, types),
        ph("scripts", 60_000, 2_000_000, scripts),
        ph("lengths", 80_000, 3_000_000, lengths),
        Phase { name: "deep", quick: 40, thorough: 40, f: deep, seeded: false },
    ])
}
