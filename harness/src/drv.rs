//! Monitors of derived types: generic over types generated together with their documented layout.
pub use crate::gen::Rng;
pub use crate::refc::*;
use crate::rt::*;
pub use crate::sch::*;
pub use crate::typ::*;
use crate::*;
use cbored::tagged::*;
use cbored::*;
pub use std::fmt::Debug;

/// where decoding has to fail
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    /// outermost first
    pub path: Vec<String>,
    /// what decoding the failing element alone reports: the cause and its own contexts (outermost first)
    pub leaf: Option<(String, Vec<String>)>,
}
pub type Loc = fn(&[It]) -> Result<usize, Fault>;

pub trait Arb: Typ + PartialEq + Debug + Clone {
    /// a value made without decoding
    fn arb(g: &mut Rng, d: usize) -> Self;
    /// items used when decoding a value at the start of these items, or where it fails
    fn locate(items: &[It]) -> Result<usize, Fault> {
        leaf::<Self>(items)
    }
}

fn contexts(e: &DecodeError) -> Vec<String> {
    e.context().iter().rev().map(|c| c.to_string()).collect()
}

pub fn leaf<T: Typ>(items: &[It]) -> Result<usize, Fault> {
    match T::sch().canon(items) {
        Some((n, _)) => Ok(n),
        None => {
            let b = items.first().map(|i| i.enc()).unwrap_or_default();
            let l = match Reader::new(&b).decode::<T>() {
                Err(e) => (format!("{:?}", e.error()), contexts(&e)),
                Ok(_) => ("decoded, although it should not".to_string(), vec![]),
            };
            Err(Fault { path: vec![], leaf: Some(l) })
        }
    }
}
fn at(name: &str, f: Fault) -> Fault {
    let mut path = vec![name.to_string()];
    path.extend(f.path);
    Fault { path, leaf: f.leaf }
}
fn here(names: &[&str]) -> Fault {
    Fault { path: names.iter().map(|s| s.to_string()).collect(), leaf: None }
}
fn whole(l: Loc, i: &It) -> Result<(), Fault> {
    l(std::slice::from_ref(i)).map(|_| ())
}
pub fn loc_vec(l: Loc, it: &It) -> Result<(), Fault> {
    match it {
        It::Arr(_, v) => v.iter().enumerate().try_for_each(|(i, x)| whole(l, x).map_err(|f| at(&i.to_string(), f))),
        _ => {
            let b = it.enc();
            let x = match decode_vec::<DataOwned>(&mut Reader::new(&b)) {
                Err(e) => (format!("{:?}", e.error()), contexts(&e)),
                Ok(_) => ("decoded, although it should not".to_string(), vec![]),
            };
            Err(Fault { path: vec![], leaf: Some(x) })
        }
    }
}
/// how an element of a variant is laid out
#[derive(Clone, Copy)]
pub enum Fl {
    One(Loc),
    Vec(Loc),
}
impl Fl {
    fn run(&self, i: &It) -> Result<(), Fault> {
        match self {
            Fl::One(l) => whole(*l, i),
            Fl::Vec(l) => loc_vec(*l, i),
        }
    }
}
fn tagged<'a>(ty: &str, tag: Option<u64>, items: &'a [It]) -> Result<&'a [It], Fault> {
    match tag {
        None => Ok(items),
        Some(n) => match items.first() {
            Some(It::Tag(_, t, c)) if *t == n => Ok(std::slice::from_ref(&**c)),
            _ => Err(here(&[ty])),
        },
    }
}
pub fn loc_flat(ty: &str, tag: Option<u64>, fields: &[(&str, Loc)], items: &[It]) -> Result<usize, Fault> {
    let inner = tagged(ty, tag, items)?;
    let mut n = 0;
    for (name, l) in fields {
        n += l(&inner[n..]).map_err(|f| at(ty, at(name, f)))?
    }
    Ok(if tag.is_some() { 1 } else { n })
}
pub fn loc_array(ty: &str, tag: Option<u64>, lastopt: bool, fields: &[(&str, Loc)], items: &[It]) -> Result<usize, Fault> {
    match tagged(ty, tag, items)?.first() {
        Some(It::Arr(_, v)) if v.len() == fields.len() || lastopt && v.len() + 1 == fields.len() => {
            for ((name, l), x) in fields.iter().zip(v) {
                whole(*l, x).map_err(|f| at(ty, at(name, f)))?
            }
            Ok(1)
        }
        _ => Err(here(&[ty])),
    }
}
pub fn loc_map(ty: &str, tag: Option<u64>, fields: &[(u64, bool, &str, Loc)], items: &[It]) -> Result<usize, Fault> {
    match tagged(ty, tag, items)?.first() {
        Some(It::Map(_, v)) => {
            let mut seen = vec![];
            for (k, x) in v {
                whole(<u64 as Arb>::locate, k).map_err(|f| at(ty, f))?;
                let k = match k {
                    It::Pos(_, k) => *k,
                    _ => unreachable!(),
                };
                match fields.iter().find(|f| f.0 == k) {
                    Some((_, _, name, l)) if !seen.contains(&k) => {
                        whole(*l, x).map_err(|f| at(ty, at(name, f)))?;
                        seen.push(k)
                    }
                    _ => return Err(here(&[ty])),
                }
            }
            if fields.iter().any(|f| f.1 && !seen.contains(&f.0)) {
                return Err(here(&[ty]));
            }
            Ok(1)
        }
        _ => Err(here(&[ty])),
    }
}
pub fn loc_variants(ty: &str, vs: &[(u64, &str, &[(&str, Fl)])], items: &[It]) -> Result<usize, Fault> {
    match items.first() {
        Some(It::Arr(_, v)) if !v.is_empty() => {
            whole(<u64 as Arb>::locate, &v[0]).map_err(|f| at(ty, f))?;
            let k = match &v[0] {
                It::Pos(_, k) => *k,
                _ => unreachable!(),
            };
            match vs.iter().find(|x| x.0 == k) {
                Some((_, vname, fields)) if fields.len() + 1 == v.len() => {
                    for ((name, l), x) in fields.iter().zip(&v[1..]) {
                        l.run(x).map_err(|f| at(ty, at(vname, at(name, f))))?
                    }
                    Ok(1)
                }
                _ => Err(here(&[ty])),
            }
        }
        _ => Err(here(&[ty])),
    }
}
pub fn loc_enumint(ty: &str, vs: &[u64], items: &[It]) -> Result<usize, Fault> {
    <u64 as Arb>::locate(items).map_err(|f| at(ty, f))?;
    match items.first() {
        Some(It::Pos(_, k)) if vs.contains(k) => Ok(1),
        _ => Err(here(&[ty])),
    }
}
pub fn loc_enumkind(ty: &str, vs: &[(Kind, &str, Option<(&str, Loc)>)], items: &[It]) -> Result<usize, Fault> {
    match items.first().and_then(|i| vs.iter().find(|v| v.0 == i.kind())) {
        None => Err(here(&[ty])),
        Some((_, _, None)) => Ok(1),
        Some((_, vname, Some((name, l)))) => l(items).map_err(|f| at(ty, at(vname, at(name, f)))),
    }
}

// ------------------------------------------------------------ leaf types

macro_rules! uarb {
    ($t:ty) => {
        impl Arb for $t {
            fn arb(g: &mut Rng, _: usize) -> Self {
                arb_u(g, <$t>::MAX as u64) as $t
            }
        }
    };
}
uarb!(u8);
uarb!(u16);
uarb!(u32);
uarb!(u64);
impl Arb for bool {
    fn arb(g: &mut Rng, _: usize) -> Self {
        g.p(1, 2)
    }
}
impl Arb for String {
    fn arb(g: &mut Rng, _: usize) -> Self {
        let n = g.slen();
        g.text_n(n)
    }
}
impl Arb for Vec<u8> {
    fn arb(g: &mut Rng, _: usize) -> Self {
        let n = g.slen();
        g.bytes_n(n)
    }
}
impl<const N: usize> Arb for [u8; N] {
    fn arb(g: &mut Rng, _: usize) -> Self {
        g.bytes_n(N).try_into().unwrap()
    }
}
impl<T: Arb> Arb for VecOf<T> {
    fn arb(g: &mut Rng, d: usize) -> Self {
        VecOf(arb_vec(g, d))
    }
    fn locate(items: &[It]) -> Result<usize, Fault> {
        match items.first() {
            Some(i) => loc_vec(T::locate, i).map(|_| 1),
            None => leaf::<Self>(items),
        }
    }
}
/// exact types are made by decoding
macro_rules! exact {
    ($($t:ty),*) => {
        $(impl Arb for $t {
            fn arb(g: &mut Rng, _: usize) -> Self {
                decode_from_bytes(&Self::sch().arb1(g, 2).enc()).expect("a conforming item decodes")
            }
        })*
    };
}
exact!(Scalar, DataOwned, CborDataOf<u64>, CborDataOf<String>, StandardDateTime, PositiveBignum, NegativeBignum, EncodedCBOR, RationalNumber);

/// user written type: a negative number, kept as it is
#[derive(Clone, Debug, PartialEq)]
pub struct Neg(pub Negative);
impl Decode for Neg {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        r.negative().map(Neg).map_err(|e| DecodeErrorKind::ReaderError(e).context::<Self>())
    }
}
impl Encode for Neg {
    fn encode(&self, w: &mut Writer) {
        w.encode(&self.0)
    }
}
impl Typ for Neg {
    fn sch() -> Sch {
        Sch::EnumKind(vec![(Kind::Neg, None)])
    }
    fn layout(&self, out: &mut Vec<It>) {
        let (w, v) = obs::hv(self.0.raw_value());
        out.push(It::Neg(w, v))
    }
}
impl Arb for Neg {
    fn arb(g: &mut Rng, _: usize) -> Self {
        let v = g.uint();
        let b = It::Neg(g.width(v, false), v).enc();
        Neg(Reader::new(&b).negative().expect("a negative reads"))
    }
}

pub fn arb_vec<T: Arb>(g: &mut Rng, d: usize) -> Vec<T> {
    if g.take_big(1, 1) {
        let first = T::arb(g, 0);
        let n = g.threshold(20_000).min(300_000 / (1 + enc_all(&first.items()).len()));
        // (some generated types take over 100 KB)
        let n = n.min((64 << 20) / std::mem::size_of::<T>().max(1));
        return std::iter::once(first).chain((0..n).map(|_| T::arb(g, 0))).collect();
    }
    let n = if d == 0 {
        0
    } else {
        match g.below(40) {
            0 => 22 + g.below(4),
            1 => 254 + g.below(4),
            2..=8 => 0,
            _ => 1 + g.below(4),
        }
    };
    let d = if n > 20 { 0 } else { d.saturating_sub(1) };
    (0..n).map(|_| T::arb(g, d)).collect()
}
/// a value that is of this kind
pub fn arb_kind<T: Arb>(g: &mut Rng, d: usize, k: Kind) -> T {
    loop {
        let v = T::arb(g, d);
        if v.items()[0].kind() == k {
            return v;
        }
    }
}
pub fn lay1<T: Typ>(t: &T) -> It {
    let mut v = t.items();
    assert!(v.len() == 1, "field is not one item");
    v.remove(0)
}
pub fn lay_vec<T: Typ>(t: &[T]) -> It {
    It::arr(t.iter().map(lay1).collect())
}

// ------------------------------------------------- walking along a schema

/// the parts of an item that conforms to a schema
fn kids<'a>(s: &Sch, it: &'a mut It) -> Vec<(Sch, &'a mut It)> {
    match (s, it) {
        (Sch::Lazy(f), it) => kids(&f(), it),
        (Sch::Seq(v), it) => match flat(v).as_slice() {
            [x] => kids(x, it),
            _ => vec![],
        },
        (Sch::Vec(s), It::Arr(_, v)) => v.iter_mut().map(|i| ((**s).clone(), i)).collect(),
        (Sch::Array(f, _), It::Arr(_, v)) => f.iter().cloned().zip(v).collect(),
        (Sch::MapInt(f), It::Map(_, v)) => v
            .iter_mut()
            .filter_map(|(k, x)| match k {
                It::Pos(_, k) => f.iter().find(|f| f.0 == *k).map(|f| (f.2.clone(), x)),
                _ => None,
            })
            .collect(),
        (Sch::Tagged(_, s) | Sch::FlatTagged(_, s), It::Tag(_, _, c)) => vec![((**s).clone(), &mut **c)],
        (Sch::Variants(vs), It::Arr(_, v)) => {
            let k = match v.first() {
                Some(It::Pos(_, k)) => *k,
                _ => return vec![],
            };
            match vs.iter().find(|x| x.0 == k) {
                Some((_, f)) => f.iter().cloned().zip(&mut v[1..]).collect(),
                None => vec![],
            }
        }
        (Sch::EnumKind(vs), it) => {
            let k = it.kind();
            match vs.iter().find(|v| v.0 == k) {
                Some((_, Some(s))) => kids(s, it),
                _ => vec![],
            }
        }
        _ => vec![],
    }
}
fn flat(v: &[Sch]) -> Vec<Sch> {
    v.iter()
        .flat_map(|s| match s {
            Sch::Seq(v) => flat(v),
            Sch::Lazy(f) => flat(&[f()]),
            s => vec![s.clone()],
        })
        .collect()
}
/// other order of the entries of the integer keyed maps
pub fn reorder(s: &Sch, it: &mut It, g: &mut Rng) {
    for (s, i) in kids(s, it) {
        reorder(&s, i, g)
    }
    if is_mapint(s) {
        let mut x = it;
        while let It::Tag(_, _, c) = x {
            x = c
        }
        if let It::Map(_, v) = x {
            for i in (1..v.len()).rev() {
                let j = g.below(i + 1);
                v.swap(i, j)
            }
        }
    }
}
fn is_mapint(s: &Sch) -> bool {
    match s {
        Sch::MapInt(_) => true,
        Sch::Lazy(f) => is_mapint(&f()),
        _ => false,
    }
}

/// damage one thing at one place, along the schema
pub fn inject(s: &Sch, it: &mut It, g: &mut Rng) {
    let mut k = kids(s, it);
    if !k.is_empty() && g.p(4, 5) {
        let i = g.below(k.len());
        let (s, x) = &mut k[i];
        return inject(&s.clone(), x, g);
    }
    drop(k);
    damage(s, it, g)
}
fn wrong_kind(g: &mut Rng) -> It {
    match g.below(12) {
        0 => It::pos(g.uint()),
        1 => It::neg(g.uint()),
        2 => It::bytes(&[1, 2, 3]),
        3 => It::text("abc"),
        4 => It::arr(vec![]),
        5 => It::map(vec![]),
        6 => It::tag(77, It::pos(1)),
        7 => It::null(),
        8 => It::bool(true),
        9 => It::S1(23),
        10 => It::S1(5),
        _ => It::F16(0x3c00),
    }
}
fn damage(s: &Sch, it: &mut It, g: &mut Rng) {
    match s {
        Sch::Lazy(f) => return damage(&f(), it, g),
        Sch::Tagged(t, s) => match it {
            It::Tag(w, n, c) => {
                if g.p(1, 2) {
                    return damage(s, c, g);
                }
                if g.p(1, 2) {
                    *n = *g.pick(&[t.wrapping_add(1), t.wrapping_sub(1), t ^ 256, t ^ (1 << 32), 0, 24]);
                    *w = g.width(*n, false);
                    return;
                }
                if g.p(1, 2) {
                    let x = (**c).clone();
                    *it = x;
                    return;
                }
            }
            _ => {}
        },
        Sch::EnumKind(vs) if g.p(1, 3) => {
            let k = it.kind();
            if let Some((_, Some(s))) = vs.iter().find(|v| v.0 == k) {
                return damage(s, it, g);
            }
        }
        Sch::Array(f, lastopt) => {
            if let It::Arr(l, v) = it {
                match g.below(3) {
                    0 => {
                        // too many
                        while v.len() <= f.len() {
                            v.push(wrong_kind(g))
                        }
                        *l = g.lenenc(v.len(), &crate::gen::Opt::std());
                        return;
                    }
                    1 if f.len() > *lastopt as usize => {
                        v.truncate(f.len() - 1 - *lastopt as usize);
                        *l = g.lenenc(v.len(), &crate::gen::Opt::std());
                        return;
                    }
                    _ => {}
                }
            }
        }
        Sch::MapInt(f) => {
            if let It::Map(l, v) = it {
                match g.below(4) {
                    0 => {
                        // unknown or wrong key
                        let k = loop {
                            let k = match g.below(4) {
                                0 => f.last().map(|x| x.0.wrapping_add(1)).unwrap_or(0),
                                1 => f.first().map(|x| x.0.wrapping_add(1 << 32)).unwrap_or(0),
                                2 => g.u64() % 70,
                                _ => g.uint(),
                            };
                            if f.iter().all(|x| x.0 != k) {
                                break k;
                            }
                        };
                        let i = g.below(v.len() + 1);
                        let key = if g.p(1, 2) {
                            It::pos(k)
                        } else {
                            loop {
                                let x = wrong_kind(g);
                                if x.kind() != Kind::Pos {
                                    break x;
                                }
                            }
                        };
                        v.insert(i, (key, wrong_kind(g)));
                    }
                    1 if !v.is_empty() => {
                        // duplicate
                        let i = g.below(v.len());
                        let x = v[i].clone();
                        let j = g.below(v.len() + 1);
                        v.insert(j, x)
                    }
                    2 if !v.is_empty() => {
                        let i = g.below(v.len());
                        v.remove(i);
                    }
                    _ => {
                        *it = wrong_kind(g);
                        return;
                    }
                }
                *l = g.lenenc(v.len(), &crate::gen::Opt::std());
                return;
            }
        }
        Sch::Variants(vs) => {
            if let It::Arr(l, v) = it {
                match g.below(5) {
                    0 => v.push(wrong_kind(g)),
                    1 if !v.is_empty() => {
                        v.pop();
                    }
                    2 | 3 if !v.is_empty() => {
                        v[0] = if g.p(1, 2) {
                            loop {
                                let x = wrong_kind(g);
                                if x.kind() != Kind::Pos {
                                    break x;
                                }
                            }
                        } else {
                            loop {
                                let k = match g.below(4) {
                                    0 => vs.last().unwrap().0.wrapping_add(1),
                                    1 => vs.first().unwrap().0.wrapping_sub(1),
                                    2 => vs[0].0 ^ (1 << g.below(64)),
                                    _ => g.uint(),
                                };
                                if vs.iter().all(|x| x.0 != k) {
                                    break It::pos(k);
                                }
                            }
                        }
                    }
                    _ => {
                        *it = wrong_kind(g);
                        return;
                    }
                }
                *l = g.lenenc(v.len(), &crate::gen::Opt::std());
                return;
            }
        }
        Sch::U(max) if *max < u64::MAX && g.p(1, 2) => {
            let v = match g.below(3) {
                0 => max + 1,
                1 => u64::MAX,
                _ => max + 1 + g.u64() % (u64::MAX - max),
            };
            *it = It::Pos(g.width(v, false), v);
            return;
        }
        Sch::FixBytes(n) if g.p(1, 2) => {
            let n = if *n > 0 && g.p(1, 2) { n - 1 } else { n + 1 };
            *it = It::bytes(&g.bytes_n(n));
            return;
        }
        Sch::Text if g.p(1, 2) => {
            *it = It::Text(Str::canon(&[0x61, 0xff]));
            return;
        }
        _ => {}
    }
    *it = wrong_kind(g)
}

// --------------------------------------------------------------- monitors

/// a value of some derived type
pub trait Val {
    fn items(&self) -> Vec<It>;
    fn written(&self) -> Vec<u8>;
    fn same(&self, o: &dyn Val) -> bool;
    fn show(&self) -> String;
    fn any(&self) -> &dyn std::any::Any;
}
impl<T: Arb> Val for T {
    fn items(&self) -> Vec<It> {
        Typ::items(self)
    }
    fn written(&self) -> Vec<u8> {
        encode_to_bytes(self)
    }
    fn same(&self, o: &dyn Val) -> bool {
        o.any().downcast_ref::<T>() == Some(self)
    }
    fn show(&self) -> String {
        format!("{:?}", self)
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}
type BV = Box<dyn Val>;
pub fn f_arb<T: Arb>(g: &mut Rng, d: usize) -> BV {
    Box::new(T::arb(g, d))
}
pub fn f_decode<T: Arb>(r: &mut Reader) -> Result<BV, DecodeError> {
    match r.decode::<T>() {
        Ok(v) => Ok(Box::new(v)),
        Err(e) => Err(e),
    }
}
pub fn f_whole<T: Arb>(b: &[u8]) -> Result<BV, DecodeError> {
    match decode_from_bytes::<T>(b) {
        Ok(v) => Ok(Box::new(v)),
        Err(e) => Err(e),
    }
}
/// what can be done with a type
pub struct Ent {
    pub name: &'static str,
    pub record: bool,
    pub derived: bool,
    pub sch: fn() -> Sch,
    pub arb: fn(&mut Rng, usize) -> BV,
    pub decode: fn(&mut Reader) -> Result<BV, DecodeError>,
    pub whole: fn(&[u8]) -> Result<BV, DecodeError>,
    pub locate: Loc,
}
#[macro_export]
macro_rules! ent {
    ($t:ty, $n:expr, $record:expr, $derived:expr) => {
        $crate::drv::Ent {
            name: $n,
            record: $record,
            derived: $derived,
            sch: <$t as $crate::typ::Typ>::sch,
            arb: $crate::drv::f_arb::<$t>,
            decode: $crate::drv::f_decode::<$t>,
            whole: $crate::drv::f_whole::<$t>,
            locate: <$t as $crate::drv::Arb>::locate,
        }
    };
}

fn key(t: &Ent, b: &[u8]) -> u64 {
    crate::gen::hash_bytes(b) ^ crate::gen::hash_bytes(t.name.as_bytes()).rotate_left(13)
}
fn shown(r: &Result<BV, DecodeError>) -> String {
    match r {
        Ok(v) => v.show(),
        Err(e) => format!("error {}", e),
    }
}

/// decoding a conforming input: from a reader with something after, and as a whole
fn good(t: &Ent, b: &[u8], want: &[It], v: Option<&dyn Val>, g: &mut Rng) -> Result<BV, String> {
    let n = t.name;
    let x = (t.whole)(b).map_err(|e| format!("{}: {} is not decoded: {}", n, hex(b), e))?;
    ck!(x.items() == want, "{}: {} is decoded as {}", n, hex(b), x.show());
    if let Some(v) = v {
        ck!(x.same(v), "{}: {} is decoded as {} instead of {}", n, hex(b), x.show(), v.show());
    }
    let mut c = b.to_vec();
    c.extend([g.u64() as u8 & 0x17, 0xff, 0x00]);
    let mut r = Reader::new(&c);
    let y = (t.decode)(&mut r).map_err(|e| format!("{}: {} followed by other items is not decoded: {}", n, hex(b), e))?;
    ck!(r.consumed_bytes() == b.len(), "{}: decoding {} uses {} bytes", n, hex(b), r.consumed_bytes());
    ck!(x.same(&*y), "{}: decoding {} from a reader gives {}, as a whole {}", n, hex(b), y.show(), x.show());
    Ok(x)
}

/// the layout of a value, and reading it back
fn enc(cx: &mut Cx) -> Result<(), String> {
    let t = pick(cx);
    let d = if cfg!(miri) { 1 } else { 1 + cx.g.below(4) };
    let v = (t.arb)(&mut cx.g, d);
    let want = v.items();
    let wb = enc_all(&want);
    cx.input(&wb);
    let b = v.written();
    ck!(b == wb, "{}: {} is written as {} instead of {}", t.name, v.show(), hex(&b), hex(&wb));
    let x = good(t, &b, &want, Some(&*v), &mut cx.g)?;
    // decoded values write the same
    ck!(x.written() == b, "{}: {} is written back as {}", t.name, hex(&b), hex(&x.written()));
    cx.seen(key(t, &b), b.len() > 1);
    cx.count("values written and read back");
    cx.sample(|| format!("{} {}", t.name, hex(&wb)));
    Ok(())
}

/// other encodings of the same items, other order of the entries
fn alt(cx: &mut Cx) -> Result<(), String> {
    let t = pick(cx);
    let d = if cfg!(miri) { 1 } else { 1 + cx.g.below(3) };
    let v = (t.arb)(&mut cx.g, d);
    let s = (t.sch)();
    let want = v.items();
    let mut items = want.clone();
    match &s {
        Sch::Seq(f) => flat(f).iter().zip(items.iter_mut()).for_each(|(s, i)| reorder(s, i, &mut cx.g)),
        s => items.iter_mut().for_each(|i| reorder(s, i, &mut cx.g)),
    }
    if cx.g.p(3, 4) {
        items = items.iter().map(|i| cx.g.reencode_valid(i)).collect();
    }
    let canon = match s.canon_whole(&items) {
        Some(c) => c,
        None => return Err(format!("the model does not accept {:?}", items)),
    };
    let b = enc_all(&items);
    cx.input(&b);
    // (types that keep their encoding decode to another value)
    let same = canon == want;
    good(t, &b, &canon, if same { Some(&*v) } else { None }, &mut cx.g)?;
    cx.seen(key(t, &b), items != want);
    cx.count("other encodings read");
    Ok(())
}

fn verdict(cx: &mut Cx, t: &Ent, s: &Sch, b: &[u8]) -> Result<(), String> {
    cx.input(b);
    let n = t.name;
    let (items, ends) = leading_items(b);
    let want = s.canon(&items).map(|(n, o)| (if n == 0 { 0 } else { ends[n - 1] }, o));
    let mut r = Reader::new(b);
    let x = (t.decode)(&mut r);
    match (&x, &want) {
        (Ok(x), Some((k, o))) => {
            ck!(x.items() == *o, "{}: {} is decoded as {}", n, hex(b), x.show());
            ck!(r.consumed_bytes() == *k, "{}: decoding {} uses {} bytes instead of {}", n, hex(b), r.consumed_bytes(), k);
        }
        (Err(_), None) => {}
        (Ok(x), None) => return Err(format!("{}: {} is decoded as {}", n, hex(b), x.show())),
        (Err(e), Some(_)) => return Err(format!("{}: {} is not decoded: {}", n, hex(b), e)),
    }
    let y = (t.whole)(b);
    let whole = matches!(&want, Some((k, _)) if *k == b.len());
    ck!(y.is_ok() == whole, "{}: {} as a whole: {}", n, hex(b), shown(&y));
    if let (Ok(x), Ok(y)) = (&x, &y) {
        ck!(x.same(&**y), "{}: {} as a whole: {}, from a reader: {}", n, hex(b), y.show(), x.show());
    }
    cx.seen(key(t, b), true);
    cx.count(if whole { "accepted" } else { "refused" });
    Ok(())
}

/// near misses
fn near(cx: &mut Cx) -> Result<(), String> {
    let t = pick(cx);
    let s = (t.sch)();
    let g = &mut cx.g;
    let b = match g.below(15) {
        0..=5 => {
            let d = 1 + g.below(3);
            let v = (t.arb)(g, d);
            let mut items = v.items();
            if g.p(1, 2) {
                items = items.iter().map(|i| g.reencode_valid(i)).collect();
            }
            damage_one(&s, &mut items, g);
            enc_all(&items)
        }
        6 => g.hostile(),
        7 => {
            let mut b = enc_all(&s.near(g));
            g.mutate(&mut b);
            b
        }
        8 => {
            // followed by something
            let v = s.arb(g, 3);
            let mut b = enc_all(&v.iter().map(|i| g.reencode_valid(i)).collect::<Vec<_>>());
            b.extend(g.hostile());
            b
        }
        _ => enc_all(&s.near(g)),
    };
    cx.sample(|| format!("{} {}", t.name, hex(&b)));
    verdict(cx, t, &s, &b)
}
/// one number (key, variant, tag, value) off by a power of two, or by several
fn off(cx: &mut Cx) -> Result<(), String> {
    fn numbers_of<'a>(i: &'a mut It, v: &mut Vec<(&'a mut W, &'a mut u64)>) {
        match i {
            It::Pos(w, n) | It::Neg(w, n) => v.push((w, n)),
            It::Tag(w, n, x) => {
                v.push((w, n));
                numbers_of(x, v)
            }
            It::Arr(_, l) => l.iter_mut().for_each(|i| numbers_of(i, v)),
            It::Map(_, l) => l.iter_mut().for_each(|(a, b)| {
                numbers_of(a, v);
                numbers_of(b, v)
            }),
            _ => {}
        }
    }
    let t = pick(cx);
    let s = (t.sch)();
    let v = (t.arb)(&mut cx.g, if cfg!(miri) { 1 } else { 2 });
    let mut items = v.items();
    let mut all = vec![];
    items.iter_mut().for_each(|i| numbers_of(i, &mut all));
    if !all.is_empty() {
        // (the first ones are those of the type itself)
        let k = cx.g.below(all.len());
        let k = if cx.g.p(1, 2) { cx.g.below(k + 1) } else { k };
        let (w, n) = &mut all[k];
        let bit = 1u64 << *cx.g.pick(&[5, 8, 16, 24, 31, 32, 32, 32, 33, 40, 48, 63, 63, 64 - 3]);
        **n = match cx.g.below(3) {
            0 => **n ^ bit,
            1 => n.wrapping_add(bit),
            _ => n.wrapping_add(bit.wrapping_mul(cx.g.u64() | 1)),
        };
        **w = cx.g.width(**n, false);
    }
    verdict(cx, t, &s, &enc_all(&items))
}
fn damage_one(s: &Sch, items: &mut Vec<It>, g: &mut Rng) {
    if items.is_empty() {
        return;
    }
    let i = g.below(items.len());
    let f = match s {
        Sch::Seq(f) => flat(f)[i].clone(),
        s => s.clone(),
    };
    inject(&f, &mut items[i], g)
}

fn numbers_near(ks: &[u64]) -> Vec<u64> {
    let mut v: Vec<u64> = (0..70).collect();
    for k in ks {
        for d in 0..3 {
            v.push(k.wrapping_add(d));
            v.push(k.wrapping_sub(d));
        }
    }
    if let (Some(a), Some(b)) = (ks.first(), ks.last()) {
        for i in 0..64 {
            for k in [a, b] {
                v.push(k ^ (1 << i));
                v.push(k.wrapping_add(1 << i));
                v.push(k.wrapping_sub(1 << i));
            }
        }
    }
    v.extend([u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1]);
    v.sort();
    v.dedup();
    v
}

/// every number around those in use: keys, variants, tags, and every number of elements
fn numbers(cx: &mut Cx) -> Result<(), String> {
    let t = pick(cx);
    let s = (t.sch)();
    numbers_in(cx, t, &s, &s, &|i| i)
}
fn numbers_in(cx: &mut Cx, ty: &Ent, all: &Sch, s: &Sch, wrap: &dyn Fn(It) -> It) -> Result<(), String> {
    let go = |cx: &mut Cx, i: It| verdict(cx, ty, all, &wrap(i).enc());
    match s {
        Sch::Tagged(t, x) | Sch::FlatTagged(t, x) => {
            let c = x.arb1(&mut cx.g, 2);
            for n in numbers_near(&[*t]) {
                let w = cx.g.width(n, false);
                go(cx, It::Tag(w, n, Box::new(c.clone())))?
            }
            go(cx, c.clone())?;
            go(cx, It::tag(*t, It::tag(*t, c)))?;
            let t = *t;
            return numbers_in(cx, ty, all, x, &|i| wrap(It::tag(t, i)));
        }
        Sch::Array(f, _) => {
            let full: Vec<It> = f.iter().map(|s| s.arb1(&mut cx.g, 2)).collect();
            for n in 0..f.len() + 4 {
                let mut v = full.clone();
                v.truncate(n);
                while v.len() < n {
                    let x = match full.last() {
                        Some(l) if cx.g.p(1, 2) => l.clone(),
                        _ => wrong_kind(&mut cx.g),
                    };
                    v.push(x)
                }
                go(cx, It::arr(v.clone()))?;
                go(cx, It::Arr(Len::Ind, v))?
            }
            for i in 0..f.len() {
                for k in 0..30 {
                    let mut v = full.clone();
                    match k {
                        0 if i + 1 < f.len() => v.swap(i, i + 1),
                        1 => {
                            v.remove(i);
                        }
                        2 => v[i] = It::arr(vec![v[i].clone()]),
                        _ => v[i] = wrong_kind(&mut cx.g),
                    }
                    go(cx, It::arr(v))?
                }
            }
        }
        Sch::MapInt(f) => {
            let ks: Vec<u64> = f.iter().map(|f| f.0).collect();
            let full: Vec<(It, It)> = f.iter().map(|f| (It::pos(f.0), f.2.arb1(&mut cx.g, 2))).collect();
            let must: Vec<(It, It)> = f.iter().zip(&full).filter(|(f, _)| f.1).map(|(_, e)| e.clone()).collect();
            go(cx, It::map(full.clone()))?;
            go(cx, It::map(must.clone()))?;
            // each key alone, each one missing, each one twice (same or other width, same or other value)
            for i in 0..full.len() {
                let mut v = full.clone();
                let e = v.remove(i);
                go(cx, It::map(v))?;
                go(cx, It::map(vec![e.clone()]))?;
                for j in [0, i, full.len()] {
                    let mut v = full.clone();
                    let w = cx.g.width(ks[i], false);
                    let x = if cx.g.p(1, 2) { e.1.clone() } else { f[i].2.arb1(&mut cx.g, 1) };
                    v.insert(j, (It::Pos(w, ks[i]), x));
                    go(cx, It::map(v))?
                }
                // its value in place of another one's key
                let j = cx.g.below(full.len());
                let mut v = full.clone();
                v[i].0 = v[j].0.clone();
                go(cx, It::map(v))?;
                let mut v = full.clone();
                v[i].1 = wrong_kind(&mut cx.g);
                go(cx, It::map(v))?;
                let mut v = full.clone();
                v[i].0 = It::neg(ks[i]);
                go(cx, It::map(v))?;
            }
            // only some
            for _ in 0..20 {
                let v: Vec<(It, It)> = full.iter().filter(|_| cx.g.p(1, 2)).cloned().collect();
                go(cx, It::map(v))?
            }
            for k in numbers_near(&ks) {
                let x = if full.is_empty() { wrong_kind(&mut cx.g) } else { full[cx.g.below(full.len())].1.clone() };
                // in addition, and in place of one
                let mut v = must.clone();
                let i = cx.g.below(v.len() + 1);
                v.insert(i, (It::pos(k), x.clone()));
                go(cx, It::map(v))?;
                if !full.is_empty() {
                    let mut v = full.clone();
                    let i = cx.g.below(v.len());
                    v[i].0 = It::pos(k);
                    go(cx, It::map(v))?
                }
            }
        }
        Sch::Variants(vs) => {
            let ks: Vec<u64> = vs.iter().map(|v| v.0).collect();
            for k in numbers_near(&ks) {
                let (_, f) = &vs[cx.g.below(vs.len())];
                let mut v = vec![It::Pos(cx.g.width(k, false), k)];
                v.extend(f.iter().map(|s| s.arb1(&mut cx.g, 1)));
                go(cx, It::arr(v))?
            }
            for (k, f) in vs {
                let mut full = vec![It::pos(*k)];
                full.extend(f.iter().map(|s| s.arb1(&mut cx.g, 2)));
                for n in 0..full.len() + 3 {
                    let mut v = full.clone();
                    v.truncate(n);
                    while v.len() < n {
                        v.push(wrong_kind(&mut cx.g))
                    }
                    let l = cx.g.lenenc(v.len(), &crate::gen::Opt::std());
                    go(cx, It::Arr(l, v))?
                }
                for i in 0..full.len() {
                    for _ in 0..8 {
                        let mut v = full.clone();
                        v[i] = wrong_kind(&mut cx.g);
                        go(cx, It::arr(v))?
                    }
                }
                go(cx, It::neg(*k))?;
                let mut v = full.clone();
                v[0] = It::neg(*k);
                go(cx, It::arr(v))?;
                go(cx, It::pos(*k))?;
            }
        }
        Sch::EnumInt(vs) => {
            for k in numbers_near(vs) {
                let w = cx.g.width(k, false);
                go(cx, It::Pos(w, k))?;
                go(cx, It::neg(k))?;
                go(cx, It::arr(vec![It::pos(k)]))?
            }
        }
        Sch::EnumKind(vs) => {
            for _ in 0..60 {
                let x = wrong_kind(&mut cx.g);
                go(cx, x)?
            }
            for (_, x) in vs {
                if let Some(x) = x {
                    for _ in 0..10 {
                        let i = x.arb1(&mut cx.g, 2);
                        go(cx, i)?
                    }
                }
            }
        }
        _ => {
            let mut v = s.arb(&mut cx.g, 2);
            for n in 0..v.len() {
                let mut x = v.clone();
                x.truncate(n);
                verdict(cx, ty, all, &enc_all(&x))?;
                for _ in 0..12 {
                    let mut x = v.clone();
                    x[n] = wrong_kind(&mut cx.g);
                    verdict(cx, ty, all, &enc_all(&x))?
                }
            }
            v.push(wrong_kind(&mut cx.g));
            verdict(cx, ty, all, &enc_all(&v))?
        }
    }
    Ok(())
}

fn tail(s: &str) -> &str {
    let s = s.rsplit("::").next().unwrap_or(s);
    s.strip_prefix("r#").unwrap_or(s)
}

/// where a decode error says it happened
fn path(cx: &mut Cx) -> Result<(), String> {
    let t = pick(cx);
    let s = (t.sch)();
    let mut tries = 0;
    let items = loop {
        let d = 1 + cx.g.below(4);
        let v = (t.arb)(&mut cx.g, d);
        let mut items = v.items();
        if cx.g.p(1, 3) {
            items = items.iter().map(|i| cx.g.reencode_valid(i)).collect()
        }
        if cx.g.p(1, 40) {
            items.pop();
        } else {
            damage_one(&s, &mut items, &mut cx.g);
        }
        if s.canon(&items).is_none() {
            break items;
        }
        tries += 1;
        if tries > 200 {
            cx.count("no fault found");
            return Ok(());
        }
    };
    let b = enc_all(&items);
    cx.input(&b);
    let f = match (t.locate)(&items) {
        Err(f) => f,
        Ok(_) => return Err(format!("{}: the model does not find the fault in {}", t.name, hex(&b))),
    };
    let e = match (t.decode)(&mut Reader::new(&b)) {
        Ok(v) => return Err(format!("{}: {} is decoded as {}", t.name, hex(&b), v.show())),
        Err(e) => e,
    };
    let mut want: Vec<String> = f.path.clone();
    if let Some((cause, own)) = &f.leaf {
        ck!(format!("{:?}", e.error()) == *cause, "{}: {} reports {:?}; the failing element alone: {}", t.name, hex(&b), e.error(), cause);
        want.extend(own.iter().cloned());
    }
    let all = contexts(&e);
    let strip = |v: &[String]| -> Vec<String> { v.iter().filter(|s| *s != "Vec").map(|s| tail(s).to_string()).collect() };
    ck!(strip(&all) == strip(&want), "{}: the error of {} is located at {:?} instead of {:?}", t.name, hex(&b), all, want);
    printed(&e)?;
    let w = (t.whole)(&b);
    ck!(matches!(&w, Err(x) if contexts(x) == all && format!("{:?}", x.error()) == format!("{:?}", e.error())), "{}: {} as a whole reports {}, from a reader {:?}", t.name, hex(&b), shown(&w), e);
    cx.seen(key(t, &b), !f.path.is_empty());
    cx.add("names in paths", want.len() as u64);
    cx.max("max names in a path", want.len() as u64);
    cx.count(if f.leaf.is_some() { "faults in a leaf" } else { "faults in a container" });
    cx.sample(|| format!("{} -> {}", hex(&b), e.context_as_path()));
    Ok(())
}

/// the printed forms of an error, from its list of contexts
pub fn printed(e: &DecodeError) -> Result<(), String> {
    let l: Vec<String> = e.context().iter().map(|c| c.to_string()).collect();
    let mut o = l.clone();
    o.reverse();
    let p = o.join("->");
    ck!(e.context_as_path() == p, "the path of contexts {:?} is {:?}", l, e.context_as_path());
    let d = format!("{}", e);
    ck!(d.starts_with(&p) && d.len() > p.len(), "the error with path {:?} prints as {:?}", p, d);
    Ok(())
}

use std::sync::OnceLock;
static TABLE: OnceLock<Vec<&'static Ent>> = OnceLock::new();
fn ents() -> &'static [&'static Ent] {
    TABLE.get().expect("types")
}
fn pick(cx: &Cx) -> &'static Ent {
    let t = ents();
    t[cx.idx as usize % t.len()]
}
/// contexts added in any order to any error
fn push(cx: &mut Cx) -> Result<(), String> {
    fn kind(g: &mut Rng) -> DecodeErrorKind {
        match g.below(4) {
            0 => DecodeErrorKind::Custom(format!("cause {}", g.below(100))),
            1 => DecodeErrorKind::ReaderError(Reader::new(&[0x60]).bytes().unwrap_err()),
            2 => DecodeErrorKind::ReaderError(Reader::new(&[0x19, 0]).positive().unwrap_err()),
            _ => {
                let e = Reader::new(&[0x61, 0xff]).text().unwrap_err();
                let k = DecodeErrorKind::from(e.clone());
                assert!(matches!(&k, DecodeErrorKind::ReaderError(x) if format!("{:?}", x) == format!("{:?}", e)), "{:?} became {:?}", e, k);
                k
            }
        }
    }
    const STRS: [&str; 6] = ["a", "field", "array[3]", "x->y", "Vec", "é"];
    macro_rules! types {
        ($i:expr, $m:ident) => {
            match $i % 4 {
                0 => $m!(u32),
                1 => $m!(VecOf<String>),
                2 => $m!(Vec<u8>),
                _ => $m!(Neg),
            }
        };
    }
    let k = kind(&mut cx.g);
    let kd = format!("{:?}", k);
    let mut want: Vec<String> = vec![];
    let i = cx.g.below(6);
    let tag = cx.g.below(50);
    let mut e = match cx.g.below(5) {
        0 => {
            want.push(STRS[i].into());
            DecodeError::new_str(STRS[i], k)
        }
        1 => {
            want.push(format!("s{}", tag));
            DecodeError::new_string(format!("s{}", tag), k)
        }
        2 => {
            want.push(STRS[i].into());
            k.context_str(STRS[i])
        }
        3 => {
            macro_rules! m {
                ($t:ty) => {{
                    want.push(std::any::type_name::<$t>().into());
                    DecodeError::new::<$t>(k)
                }};
            }
            types!(i, m)
        }
        _ => {
            macro_rules! m {
                ($t:ty) => {{
                    want.push(std::any::type_name::<$t>().into());
                    k.context::<$t>()
                }};
            }
            types!(i, m)
        }
    };
    let n = match cx.g.below(10) {
        0 => 200 + cx.g.below(300),
        _ => cx.g.below(12),
    };
    for _ in 0..n {
        let i = cx.g.below(6);
        e = match cx.g.below(3) {
            0 => {
                want.push(STRS[i].into());
                e.push_str(STRS[i])
            }
            1 => {
                let s = format!("{}", cx.g.below(10000));
                want.push(s.clone());
                e.push_string(s)
            }
            _ => {
                macro_rules! m {
                    ($t:ty) => {{
                        want.push(std::any::type_name::<$t>().into());
                        e.push::<$t>()
                    }};
                }
                types!(i, m)
            }
        };
        if cx.g.p(1, 4) {
            let l: Vec<String> = e.context().iter().map(|c| c.to_string()).collect();
            ck!(l == want, "contexts are {:?} instead of {:?}", l, want);
        }
    }
    let l: Vec<String> = e.context().iter().map(|c| c.to_string()).collect();
    ck!(l == want, "contexts are {:?} instead of {:?}", l, want);
    ck!(format!("{:?}", e.error()) == kd, "the cause {} became {:?}", kd, e.error());
    printed(&e)?;
    ck!(format!("{}", e).contains(&format!("{}", e.error())), "the error prints as {} without its cause {}", e, e.error());
    cx.seen(crate::gen::hash_bytes(format!("{:?} {}", l, kd).as_bytes()), l.len() > 1);
    cx.count("context scripts");
    Ok(())
}

/// a wrong element far into a long vector
fn long(cx: &mut Cx) -> Result<(), String> {
    fn one<T: Arb>(cx: &mut Cx, good: It, bad: It) -> Result<(), String> {
        let n = if cfg!(miri) { 1 + cx.g.below(40) } else { 1 + cx.g.threshold(140_000) };
        let i = match cx.g.below(4) {
            0 => n - 1,
            1 => cx.g.below(n),
            _ => cx.g.threshold(140_000).min(n - 1),
        };
        let mut v = vec![good.clone(); n];
        v[i] = bad.clone();
        let indef = cx.g.p(1, 2);
        let it = if indef { It::Arr(Len::Ind, v) } else { It::arr(v) };
        let b = it.enc();
        cx.seen(crate::gen::hash_bytes(&b), true);
        let what = format!("{} elements of {}, the wrong one ({:?}) at {}", n, std::any::type_name::<T>(), bad, i);
        cx.input(&bad.enc());
        let f = match loc_vec(T::locate, &it) {
            Err(f) => f,
            Ok(_) => return Err(format!("{}: no fault found by the model", what)),
        };
        let mut want = f.path.clone();
        let (cause, own) = f.leaf.clone().unwrap_or_default();
        want.extend(own);
        let strip = |v: &[String]| -> Vec<String> { v.iter().filter(|s| *s != "Vec").map(|s| tail(s).to_string()).collect() };
        for k in 0..3 {
            let e = match k {
                0 => decode_vec::<T>(&mut Reader::new(&b)).err(),
                1 => decode_from_bytes::<VecOf<T>>(&b).err(),
                _ => Reader::new(&b).exact_decodable_slice::<VecOf<T>>().err(),
            };
            let Some(e) = e else { return Err(format!("{}: decoded", what)) };
            let all = contexts(&e);
            ck!(strip(&all) == strip(&want), "{}: the error is located at {:?} instead of {:?}", what, all, want);
            ck!(cause.is_empty() || format!("{:?}", e.error()) == cause, "{}: reports {:?}; the element alone: {}", what, e.error(), cause);
            printed(&e)?;
        }
        cx.max("max index of a wrong element", i as u64);
        cx.count("wrong elements in long vectors");
        Ok(())
    }
    let t = It::text("x");
    match cx.g.below(5) {
        0 => one::<u8>(cx, It::pos(7), if cx.idx % 2 == 0 { t } else { It::pos(256) }),
        1 => one::<bool>(cx, It::bool(true), It::pos(1)),
        2 => one::<String>(cx, t, It::pos(1)),
        3 => one::<VecOf<u16>>(cx, It::arr(vec![It::pos(1), It::pos(2)]), It::arr(vec![It::pos(1), t])),
        _ => one::<[u8; 2]>(cx, It::bytes(b"ab"), It::bytes(b"abc")),
    }
}

/// the monitor of one property over the generated types
pub fn main(prop: &str, table: &'static [Ent]) {
    let t: Vec<&'static Ent> = table
        .iter()
        .filter(|e| match prop {
            "c16" => e.record,
            "c17" => e.derived && !e.record,
            "c18" => e.derived,
            _ => true,
        })
        .collect();
    // room for vectors of generated types that take over 100 KB each (address space, hardly touched)
    if cfg!(target_pointer_width = "64") {
        set_alloc_limit((64u64 << 30) as usize);
    }
    let n = t.len() as u64;
    assert!(n > 0);
    let _ = TABLE.set(t);
    match prop {
        "c16" | "c17" => run(&[ph("layout", n * 1500, n * 20_000, enc), ph("encodings", n * 1000, n * 15_000, alt), big!("big layout", n * 8, n * 200, enc), big!("big encodings", n * 8, n * 200, alt)]),
        "c18" => run(&[ph("numbers", n * 2, n * 30, numbers), ph("near", n * 1500, n * 20_000, near), ph("off", n * 300, n * 5_000, off), big!("big near", n * 10, n * 300, near)]),
        _ => run(&[ph("contexts", 60_000, 2_000_000, push), ph("long", 300, 5_000, long), ph("paths", n * 1500, n * 25_000, path), big!("big paths", n * 10, n * 300, path)]),
    }
}
