//! C15: tagged extension types accept exactly their tag and content and stay exact
use cbored::tagged::*;
use cbored::*;
use mon::gen::*;
use mon::obs;
use mon::refc::*;
use mon::rt::*;
use mon::typ::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

trait Ext: Typ + Clone + PartialEq + std::fmt::Debug {
    const TAG: u64;
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError>;
    /// what the value exposes, against the item it was decoded from
    fn exposes(&self, it: &It) -> Result<(), String>;
}

fn content(it: &It) -> Vec<u8> {
    match it {
        It::Tag(_, _, c) => match &**c {
            It::Bytes(s) | It::Text(s) => s.content(),
            _ => vec![],
        },
        _ => vec![],
    }
}

impl Ext for StandardDateTime {
    const TAG: u64 = 0;
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        Self::read(r)
    }
    fn exposes(&self, _: &It) -> Result<(), String> {
        Ok(())
    }
}
impl Ext for PositiveBignum {
    const TAG: u64 = 2;
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        Self::read(r)
    }
    fn exposes(&self, it: &It) -> Result<(), String> {
        ck!(self.to_be_bytes() == content(it), "bignum of {:?} exposes {}", it, hex(&self.to_be_bytes()));
        Ok(())
    }
}
impl Ext for NegativeBignum {
    const TAG: u64 = 3;
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        Self::read(r)
    }
    fn exposes(&self, it: &It) -> Result<(), String> {
        ck!(self.to_be_bytes() == content(it), "negative bignum of {:?} exposes {}", it, hex(&self.to_be_bytes()));
        Ok(())
    }
}
impl Ext for EncodedCBOR {
    const TAG: u64 = 24;
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        Self::read(r)
    }
    fn exposes(&self, it: &It) -> Result<(), String> {
        ck!(self.to_bytes() == content(it), "encoded CBOR of {:?} exposes {}", it, hex(&self.to_bytes()));
        Ok(())
    }
}
impl Ext for RationalNumber {
    const TAG: u64 = 30;
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        Self::read(r)
    }
    fn exposes(&self, it: &It) -> Result<(), String> {
        let v = match it {
            It::Tag(_, _, c) => match &**c {
                It::Arr(_, v) => v,
                _ => return Err("(harness) not a rational".into()),
            },
            _ => return Err("(harness) not a rational".into()),
        };
        match (self.numerator(), &v[0]) {
            (RationalNumerator::Positive(p), i @ It::Pos(..)) => ckeq!(obs::pos(*p), *i, "numerator"),
            (RationalNumerator::Negative(p), i @ It::Neg(..)) => ckeq!(obs::neg(*p), *i, "numerator"),
            (RationalNumerator::PositiveBignum(b), i @ It::Tag(_, 2, _)) => {
                b.exposes(i)?;
                ck!(encode_to_bytes(b) == i.enc(), "numerator bignum is not {:?}", i)
            }
            (RationalNumerator::NegativeBignum(b), i @ It::Tag(_, 3, _)) => {
                b.exposes(i)?;
                ck!(encode_to_bytes(b) == i.enc(), "numerator bignum is not {:?}", i)
            }
            (n, i) => return Err(format!("numerator {:?} for {:?}", n, i)),
        }
        match (self.denominator(), &v[1]) {
            (RationalDenominator::Positive(p), i @ It::Pos(..)) => ckeq!(obs::pos(*p), *i, "denominator"),
            (RationalDenominator::PositiveBignum(b), i @ It::Tag(_, 2, _)) => {
                b.exposes(i)?;
                ck!(encode_to_bytes(b) == i.enc(), "denominator bignum is not {:?}", i)
            }
            (n, i) => return Err(format!("denominator {:?} for {:?}", n, i)),
        }
        Ok(())
    }
}

/// a T where an item starts, among others or not
fn check<T: Ext>(cx: &mut Cx, b: &[u8]) -> Result<bool, String> {
    cx.input(b);
    let (items, ends) = leading_items(b);
    let ok = items.first().map(|i| T::sch().canon_whole(std::slice::from_ref(i)).is_some()).unwrap_or(false);
    let mut vals = vec![];
    for how in 0..3 {
        let mut r = Reader::new(b);
        let got: Result<T, String> = match how {
            0 => T::read_it(&mut r).map_err(|e| format!("{:?}", e)),
            1 => r.decode::<T>().map_err(|e| format!("{:?}", e)),
            _ => {
                let n = ends.first().copied().unwrap_or(b.len());
                let x = decode_from_bytes::<T>(&b[..n]).map_err(|e| format!("{:?}", e));
                if x.is_ok() {
                    let _ = r.data();
                }
                x
            }
        };
        match got {
            Ok(v) => {
                ck!(ok, "{} decoded ({}) from {}", T::name(), how, hex(b));
                let it = &items[0];
                ck!(r.consumed_bytes() == ends[0], "{} used {} bytes of {}", T::name(), r.consumed_bytes(), ends[0]);
                v.exposes(it)?;
                for x in [encode_to_bytes(&v), encode_to_bytes(&v.clone())] {
                    ck!(x == b[..ends[0]], "{} decoded from {} is written {}", T::name(), hex(&b[..ends[0]]), hex(&x));
                }
                cx.count("decoded, content and bytes compared");
                vals.push(v);
            }
            Err(e) => {
                ck!(!ok, "{} not decoded ({}) from {}: {}", T::name(), how, hex(b), e);
                cx.count("refused");
            }
        }
    }
    if ok {
        ck!(vals.len() == 3 && vals[0] == vals[1] && vals[1] == vals[2], "{} read, decoded and decoded whole differ", T::name());
        // with more behind: not the whole
        if b.len() > ends[0] {
            ck!(decode_from_bytes::<T>(b).is_err(), "{} decoded whole with trailing data", T::name());
        }
    }
    // an error that gives numbers gives the right ones
    if !ok {
        match (T::read_it(&mut Reader::new(b)), items.first()) {
            (Err(ReaderError::WrongExpectedLength { expected, got }), Some(It::Tag(_, _, c))) => {
                ck!(matches!(&**c, It::Arr(_, v) if v.len() == got) && expected == 2, "{} from {}: expected {} elements, got {}", T::name(), hex(b), expected, got);
                cx.count("lengths reported")
            }
            (Err(ReaderError::WrongExpectedTypes { expected, got }), _) => ck!(!expected.contains(&got), "{} from {}: expected {:?}, got {:?}", T::name(), hex(b), expected, got),
            _ => {}
        }
    }
    // a wrong tag, or no tag: nothing is consumed, and reading as what it is works
    if let Some(it) = items.first() {
        let wrong = match it {
            It::Tag(_, t, _) if *t == T::TAG => None,
            It::Tag(_, t, _) => Some(Some(*t)),
            _ => Some(None),
        };
        if let Some(tag) = wrong {
            let mut r = Reader::new(b);
            let e = match T::read_it(&mut r) {
                Ok(_) => return Err(format!("{} decoded from {:?}", T::name(), it)),
                Err(e) => e,
            };
            ck!(r.consumed_bytes() == 0, "{} refused {:?} but consumed {} bytes", T::name(), it, r.consumed_bytes());
            let mut r2 = Reader::new(b);
            ck!(r2.decode::<T>().is_err() && r2.consumed_bytes() == 0, "decoding a {} refused {:?} but consumed {} bytes", T::name(), it, r2.consumed_bytes());
            if let Some(t) = tag {
                match e {
                    ReaderError::WrongExpectedTag { expected, got } => ck!(expected == T::TAG && got == t, "{} on tag {} reports expected {} got {}", T::name(), t, expected, got),
                    e => return Err(format!("{} on tag {}: {:?}", T::name(), t, e)),
                }
                let x = r.tag().map_err(|e| format!("reading the tag after: {:?}", e))?;
                ck!(x.value() == t, "the tag read after is {}", x.value());
            }
            cx.count("wrong tags or kinds, nothing consumed");
        }
    }
    Ok(!items.is_empty())
}

fn all(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    let mut nt = false;
    nt |= check::<StandardDateTime>(cx, b)?;
    nt |= check::<PositiveBignum>(cx, b)?;
    nt |= check::<NegativeBignum>(cx, b)?;
    nt |= check::<EncodedCBOR>(cx, b)?;
    nt |= check::<RationalNumber>(cx, b)?;
    cx.seen_bytes(b, nt);
    cx.sample(|| hex(b));
    Ok(())
}
fn tw(cx: &mut Cx, t: u64, c: It) -> It {
    It::Tag(cx.g.width(t, false), t, Box::new(c))
}
fn a_tag(cx: &mut Cx) -> u64 {
    match cx.g.below(12) {
        0 => cx.g.uint(),
        1 => *cx.g.pick(&[256, 258, 259, 280, 286, 1 << 32, (1 << 32) + 2, 1 << 16, 5, 25, 31, 4]),
        _ => *cx.g.pick(&[0, 1, 2, 3, 24, 30]),
    }
}
/// something in place of an integer or bignum
fn number(cx: &mut Cx) -> It {
    let o = Opt { depth: 1, size: 3, ..Opt::std() };
    let v = cx.g.uint();
    let w = cx.g.width(v, false);
    match cx.g.below(12) {
        0 | 1 | 2 => It::Pos(w, v),
        3 | 4 => It::Neg(w, v),
        5 | 6 => {
            let s = cx.g.string(false, &o);
            tw(cx, 2, It::Bytes(s))
        }
        7 | 8 => {
            let s = cx.g.string(false, &o);
            tw(cx, 3, It::Bytes(s))
        }
        9 => {
            let s = cx.g.string(false, &o);
            let t = a_tag(cx);
            tw(cx, t, It::Bytes(s))
        }
        10 => {
            let i = cx.g.item(&o);
            let t = *cx.g.pick(&[2, 3]);
            tw(cx, t, i)
        }
        _ => cx.g.item(&o),
    }
}
fn structured(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 2, size: 5, ..Opt::std() };
    let any = Opt::any_text();
    let c = match cx.g.below(8) {
        0 => It::Text(cx.g.string(true, &o)),
        1 => It::Text(cx.g.string(true, &any)),
        2 => It::Bytes(cx.g.string(false, &o)),
        3 => cx.g.item(&o),
        _ => {
            let n = *cx.g.pick(&[2, 2, 2, 2, 2, 2, 0, 1, 3, 4]);
            let v: Vec<It> = (0..n).map(|_| number(cx)).collect();
            let l = cx.g.lenenc(n, &o);
            It::Arr(l, v)
        }
    };
    let t = if matches!(c, It::Arr(..)) && cx.g.p(4, 5) { 30 } else { a_tag(cx) };
    let it = match cx.g.below(20) {
        0 => c,
        1 => {
            let i = tw(cx, t, c);
            tw(cx, t, i)
        }
        _ => tw(cx, t, c),
    };
    let mut b = it.enc();
    match cx.g.below(6) {
        0 => {
            let h = cx.g.hostile();
            b.extend(h)
        }
        1 => {
            let k = cx.g.below(b.len());
            if cx.g.p(1, 4) {
                b.truncate(k)
            } else if cx.g.p(1, 3) {
                cx.g.mutate(&mut b)
            }
        }
        _ => {}
    }
    all(cx, &b)
}
/// every tag number and width with the contents of each type
fn tags(cx: &mut Cx) -> Result<(), String> {
    let i = cx.idx;
    let t = if i < 600 { i } else { a_tag(cx) };
    let contents = [
        It::text("2013-03-21T20:04:00Z"),
        It::bytes(&[1, 0, 0, 0, 0, 0, 0, 0, 0]),
        It::arr(vec![It::neg(1), It::pos(3)]),
        It::arr(vec![It::tag(3, It::bytes(&[1])), It::tag(2, It::bytes(&[2]))]),
    ];
    for w in WS {
        if w < W::min(t) {
            continue;
        }
        for c in &contents {
            let b = It::Tag(w, t, Box::new(c.clone())).enc();
            all(cx, &b)?
        }
    }
    Ok(())
}
fn hostile(cx: &mut Cx) -> Result<(), String> {
    let b = cx.g.hostile();
    all(cx, &b)
}
fn near(cx: &mut Cx) -> Result<(), String> {
    let b = match cx.g.below(5) {
        0 => try_bytes::<StandardDateTime>(&mut cx.g),
        1 => try_bytes::<PositiveBignum>(&mut cx.g),
        2 => try_bytes::<NegativeBignum>(&mut cx.g),
        3 => try_bytes::<EncodedCBOR>(&mut cx.g),
        _ => try_bytes::<RationalNumber>(&mut cx.g),
    };
    all(cx, &b)
}
/// encoded CBOR made from bytes
fn made(cx: &mut Cx) -> Result<(), String> {
    let n = cx.g.slen();
    let v = cx.g.bytes_n(n);
    cx.input(&v);
    let e = EncodedCBOR::from_bytes(&v);
    let want = It::tag(24, It::bytes(&v)).enc();
    ck!(encode_to_bytes(&e) == want, "encoded CBOR of {} is written {}", hex(&v), hex(&encode_to_bytes(&e)));
    ck!(e.to_bytes() == v, "encoded CBOR of {} exposes {}", hex(&v), hex(&e.to_bytes()));
    let d = decode_from_bytes::<EncodedCBOR>(&want).map_err(|e| format!("{:?}", e))?;
    ck!(d == e, "encoded CBOR of {} decodes otherwise", hex(&v));
    cx.seen_bytes(&v, true);
    Ok(())
}

fn main() {
    run(&[
        Phase { name: "tags", quick: 700, thorough: 20_000, f: tags, seeded: true },
        ph("structured", 250_000, 12_000_000, structured),
        ph("near", 100_000, 5_000_000, near),
        ph("hostile", 40_000, 2_000_000, hostile),
        ph("made", 20_000, 500_000, made),
        big!("big structured", 2000, 80000, structured),
        big!("big near", 2000, 80000, near),
    ])
}
