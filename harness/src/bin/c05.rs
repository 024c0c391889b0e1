//! C05: memory linear in the input, whatever lengths it claims
use cbored::tagged::*;
use cbored::validate::Validator;
use cbored::*;
use mon::gen::*;
use mon::refc::*;
use mon::rt::*;
use mon::shapes;
use mon::typ::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

/// peak bytes live at once, per byte of input and fixed; and everything ever allocated by one call
const PEAK_A: u64 = 512;
const PEAK_B: u64 = 32 << 10;
const TOTAL_A: u64 = 8192;
const TOTAL_B: u64 = 256 << 10;

fn check(cx: &mut Cx, b: &[u8], what: &str, m: Mem) -> Result<(), String> {
    let n = b.len() as u64;
    ck!(m.peak <= PEAK_A * n + PEAK_B, "{} over {} bytes held {} bytes at once", what, n, m.peak);
    ck!(m.total <= TOTAL_A * n + TOTAL_B, "{} over {} bytes allocated {} bytes", what, n, m.total);
    if n >= 512 {
        cx.max("max peak bytes per 100 input bytes (inputs over 512)", m.peak * 100 / n);
        cx.max("max allocated bytes per 100 input bytes (inputs over 512)", m.total * 100 / n)
    } else {
        cx.max("max peak bytes (inputs under 512)", m.peak);
        cx.max("max allocated bytes (inputs under 512)", m.total);
    }
    cx.count("calls measured");
    Ok(())
}

fn drive(cx: &mut Cx, b: Vec<u8>, types: usize) -> Result<(), String> {
    cx.input(&b);
    cx.seen_bytes(&b, true);
    cx.sample(|| hex(&b));
    macro_rules! m {
        ($what:expr, $e:expr) => {{
            let (r, m) = measure(|| $e);
            check(cx, &b, $what, m)?;
            r
        }};
    }
    m!("validator", {
        let mut v = Validator::new(&b);
        while v.next().is_ok() {}
    });
    m!("peek_type", Reader::new(&b).peek_type().is_ok());
    m!("positive", Reader::new(&b).positive().is_ok());
    m!("constant", Reader::new(&b).constant().is_ok());
    m!("bytes", Reader::new(&b).bytes().is_ok());
    m!("text", Reader::new(&b).text().is_ok());
    m!("array", Reader::new(&b).array().is_ok());
    m!("map", Reader::new(&b).map().is_ok());
    m!("tag", Reader::new(&b).tag().is_ok());
    m!("data", Reader::new(&b).data().is_ok());
    m!("data and back", Reader::new(&b).data().map(|d| encode_to_bytes(&d.owned())).is_ok());
    m!("all the data", {
        let mut r = Reader::new(&b);
        while r.data().is_ok() {}
    });
    m!("exact slice", Reader::new(&b).exact_decodable_slice::<DataOwned>().is_ok());
    m!("exact data", Reader::new(&b).exact_decodable_data::<DataOwned>().is_ok());
    m!("tag data", Reader::new(&b).tag().map(|t| t.decode_data::<DataOwned>().is_ok()).is_ok());
    m!("decode whole", decode_from_bytes::<DataOwned>(&b).is_ok());
    m!("vec of data", decode_from_bytes::<VecOf<DataOwned>>(&b).is_ok());
    m!("vec of vec", decode_from_bytes::<VecOf<VecOf<u64>>>(&b).is_ok());
    m!("vec of strings", decode_from_bytes::<VecOf<String>>(&b).is_ok());
    m!("array of 4096", decode_from_bytes::<[u8; 4096]>(&b).is_ok());
    m!("rational", decode_from_bytes::<RationalNumber>(&b).is_ok());
    m!("bignum", decode_from_bytes::<PositiveBignum>(&b).is_ok());
    m!("date", decode_from_bytes::<StandardDateTime>(&b).is_ok());
    fn f<T: Typ>(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
        let (_, m) = measure(|| Reader::new(b).decode::<T>().is_ok());
        check(cx, b, T::name(), m)?;
        let (_, m) = measure(|| Reader::new(b).exact_decodable_data::<T>().is_ok());
        check(cx, b, T::name(), m)
    }
    for i in 0..types {
        with_types!(cx.idx as usize + i * 7, f, cx, &b)?;
    }
    Ok(())
}

/// headers that claim a lot, with little behind them, alone and inside of others
fn claims(cx: &mut Cx) -> Result<(), String> {
    let mut b = vec![];
    let pre: &[&[u8]] = &[&[], &[], &[0x9f], &[0x81], &[0x82, 0x00], &[0x5f], &[0x7f], &[0x5f, 0x41, 0x00], &[0xbf, 0x00], &[0xa1], &[0xc2], &[0xd8, 30], &[0x81, 0x81], &[0xd8, 24], &[0xc0], &[0x9f, 0x9f]];
    b.extend_from_slice(*cx.g.pick(pre));
    let n = match cx.g.below(6) {
        0 => u64::MAX - cx.g.u64() % 40,
        1 => (1u64 << cx.g.below(64)).wrapping_add(cx.g.u64() % 5).wrapping_sub(2),
        2 => i64::MAX as u64 - cx.g.u64() % 3,
        // amounts that would fit in memory
        3 => 1 << (10 + cx.g.below(20)),
        4 => 100_000 + cx.g.u64() % 40_000_000,
        _ => cx.g.uint(),
    };
    let reps = 1 + if cx.g.p(1, 3) { cx.g.below(200) } else { 0 };
    let m = 2 + cx.g.below(4) as u8;
    for _ in 0..reps {
        head(m, W::min(n).max(if cx.g.p(1, 2) { W::W8 } else { W::I }), n, &mut b);
    }
    for _ in 0..cx.g.below(40) {
        b.push(*cx.g.pick(&LEADS))
    }
    drive(cx, b, 6)
}
fn hostile(cx: &mut Cx) -> Result<(), String> {
    let b = cx.g.hostile();
    drive(cx, b, 4)
}
fn near(cx: &mut Cx) -> Result<(), String> {
    fn f<T: Typ>(g: &mut Rng) -> Vec<u8> {
        try_bytes::<T>(g)
    }
    let b = with_types!(cx.idx as usize, f, &mut cx.g);
    drive(cx, b, 2)
}
fn large(cx: &mut Cx) -> Result<(), String> {
    let k = cx.idx as usize % shapes::NAMES.len();
    let n = [10, 100, 1000, 10_000, 100_000][cx.idx as usize / shapes::NAMES.len() % 5];
    let mut b = shapes::shape(k, n);
    match cx.idx as usize / shapes::NAMES.len() / 5 {
        0 => {}
        1 => {
            b.pop();
        }
        2 => {
            let l = b.len();
            b[l / 2] = 0x1c
        }
        _ => b = [&[0x82u8, 0x00][..], &b].concat(),
    }
    drive(cx, b, 30)
}

const NSHAPES: u64 = shapes::NAMES.len() as u64;

fn main() {
    set_alloc_limit(1 << 30);
    run(&[
        ph("claims", 60_000, 3_000_000, claims),
        ph("hostile", 60_000, 3_000_000, hostile),
        ph("near", 60_000, 3_000_000, near),
        Phase { name: "large", quick: NSHAPES * 5 * 4, thorough: NSHAPES * 5 * 4, f: large, seeded: false },
        big!("big near", 300, 12000, near),
    ])
}
