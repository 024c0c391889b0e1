//! Schemas: what a decodable type accepts, independently of its implementation.
use crate::gen::*;
use crate::refc::*;

#[derive(Clone)]
pub enum Sch {
    Bool,
    /// unsigned integer up to a maximum
    U(u64),
    Text,
    Bytes,
    FixBytes(usize),
    /// positive or negative, kept with its width
    Scalar,
    /// any item, kept as is; text (of the item itself) has to be valid
    Any,
    /// array of elements
    Vec(Box<Sch>),
    /// the item is kept as is, and is accepted by the schema as a whole
    Exact(Box<Sch>),
    /// tagged extension types, kept as they are
    DateTime,
    Bignum(u64),
    Rational,
    /// several values one after the other, not enclosed
    Seq(Vec<Sch>),
    /// array with exactly these fields; the last one possibly missing
    Array(Vec<Sch>, bool),
    /// fields (key, mandatory, type)
    MapInt(Vec<(u64, bool, Sch)>),
    Tagged(u64, Box<Sch>),
    /// variants (number, fields) in an array
    Variants(Vec<(u64, Vec<Sch>)>),
    /// plain integer
    EnumInt(Vec<u64>),
    /// by kind of the item
    EnumKind(Vec<(Kind, Option<Sch>)>),
    Lazy(fn() -> Sch),
    Unit,
    /// one tag with exactly these items, flat, as its content: at most one item can be there
    FlatTagged(u64, Box<Sch>),
}

impl Sch {
    /// If decoding a value that starts at items[0] has to succeed: how many items it uses, and the
    /// documented layout of the resulting value. None if it has to fail.
    pub fn canon(&self, items: &[It]) -> Option<(usize, Vec<It>)> {
        match self {
            Sch::Seq(v) => {
                let mut n = 0;
                let mut out = vec![];
                for s in v {
                    let (k, o) = s.canon(&items[n..])?;
                    n += k;
                    out.extend(o)
                }
                return Some((n, out));
            }
            Sch::Unit => return Some((0, vec![])),
            Sch::Lazy(f) => return f().canon(items),
            _ => {}
        }
        let it = items.first()?;
        self.canon1(it).map(|o| (1, vec![o]))
    }

    /// like canon, for exactly these items
    pub fn canon_whole(&self, items: &[It]) -> Option<Vec<It>> {
        let (n, o) = self.canon(items)?;
        if n == items.len() {
            Some(o)
        } else {
            None
        }
    }

    fn canon1(&self, it: &It) -> Option<It> {
        match (self, it) {
            (Sch::Bool, It::S1(20 | 21)) => Some(it.clone()),
            (Sch::U(max), It::Pos(_, v)) if v <= max => Some(It::pos(*v)),
            (Sch::Text, It::Text(s)) if s.utf8() => Some(It::Text(Str::canon(&s.content()))),
            (Sch::Bytes, It::Bytes(s)) => Some(It::Bytes(Str::canon(&s.content()))),
            (Sch::FixBytes(n), It::Bytes(s)) if s.content().len() == *n => Some(It::Bytes(Str::canon(&s.content()))),
            (Sch::Scalar, It::Pos(..) | It::Neg(..)) => Some(it.clone()),
            (Sch::Any, i) if i.utf8_shallow() => Some(it.clone()),
            (Sch::Vec(s), It::Arr(_, v)) => Some(It::arr(v.iter().map(|i| one(s, i)).collect::<Option<Vec<_>>>()?)),
            (Sch::Exact(s), i) => s.canon_whole(std::slice::from_ref(i)).map(|_| i.clone()),
            (Sch::DateTime, It::Tag(_, 0, c)) => match &**c {
                It::Text(s) if s.utf8() => Some(it.clone()),
                _ => None,
            },
            (Sch::Bignum(n), It::Tag(_, t, c)) if n == t => match &**c {
                It::Bytes(_) => Some(it.clone()),
                _ => None,
            },
            (Sch::Rational, It::Tag(_, 30, c)) => match &**c {
                It::Arr(_, v) if v.len() == 2 => {
                    let num = match &v[0] {
                        It::Pos(..) | It::Neg(..) => true,
                        It::Tag(_, 2 | 3, x) => matches!(**x, It::Bytes(_)),
                        _ => false,
                    };
                    let den = match &v[1] {
                        It::Pos(..) => true,
                        It::Tag(_, 2, x) => matches!(**x, It::Bytes(_)),
                        _ => false,
                    };
                    if num && den {
                        Some(it.clone())
                    } else {
                        None
                    }
                }
                _ => None,
            },
            (Sch::Array(f, lastopt), It::Arr(_, v)) => {
                let min = if *lastopt { f.len() - 1 } else { f.len() };
                if v.len() > f.len() || v.len() < min {
                    return None;
                }
                let mut out = vec![];
                for (s, i) in f.iter().zip(v) {
                    out.push(one(s, i)?)
                }
                Some(It::arr(out))
            }
            (Sch::MapInt(f), It::Map(_, v)) => {
                let mut got: Vec<Option<It>> = vec![None; f.len()];
                for (k, x) in v {
                    let k = match k {
                        It::Pos(_, k) => *k,
                        _ => return None,
                    };
                    let i = f.iter().position(|(fk, _, _)| *fk == k)?;
                    if got[i].is_some() {
                        return None;
                    }
                    got[i] = Some(one(&f[i].2, x)?);
                }
                let mut out = vec![];
                for (i, (k, mandatory, _)) in f.iter().enumerate() {
                    match got[i].take() {
                        Some(x) => out.push((It::pos(*k), x)),
                        None if *mandatory => return None,
                        None => {}
                    }
                }
                Some(It::map(out))
            }
            (Sch::Tagged(t, s), It::Tag(_, u, i)) if t == u => Some(It::tag(*t, one(s, i)?)),
            (Sch::FlatTagged(t, s), It::Tag(_, u, i)) if t == u => Some(It::tag(*t, one(s, i)?)),
            (Sch::Variants(vs), It::Arr(_, v)) => {
                let k = match v.first()? {
                    It::Pos(_, k) => *k,
                    _ => return None,
                };
                let (_, f) = vs.iter().find(|(n, _)| *n == k)?;
                if v.len() != f.len() + 1 {
                    return None;
                }
                let mut out = vec![It::pos(k)];
                for (s, i) in f.iter().zip(&v[1..]) {
                    out.push(one(s, i)?)
                }
                Some(It::arr(out))
            }
            (Sch::EnumInt(vs), It::Pos(_, k)) if vs.contains(k) => Some(It::pos(*k)),
            (Sch::EnumKind(vs), i) => {
                let (_, s) = vs.iter().find(|(k, _)| *k == i.kind())?;
                match s {
                    None => Some(i.clone()),
                    Some(s) => one(s, i),
                }
            }
            (Sch::Lazy(f), i) => f().canon1(i),
            (Sch::Seq(_), i) => self.canon_whole(std::slice::from_ref(i)).map(|mut v| v.remove(0)),
            _ => None,
        }
    }

    /// random items that a value of this type is laid out as
    pub fn arb(&self, g: &mut Rng, depth: usize) -> Vec<It> {
        let o = Opt {
            depth: 2,
            size: 8,
            valid_text: true,
            canonical: false,
        };
        let raw = |g: &mut Rng| -> It { g.item(&o) };
        vec![match self {
            Sch::Seq(v) => return v.iter().flat_map(|s| s.arb(g, depth)).collect(),
            Sch::Unit => return vec![],
            Sch::Lazy(f) => return f().arb(g, depth),
            Sch::Bool => It::bool(g.p(1, 2)),
            Sch::U(max) => It::pos(arb_u(g, *max)),
            Sch::Text => {
                let b = g.text_payload(true);
                It::Text(Str::canon(&b))
            }
            Sch::Bytes => {
                let n = g.slen();
                It::bytes(&g.bytes_n(n))
            }
            Sch::FixBytes(n) => It::bytes(&g.bytes_n(*n)),
            Sch::Scalar => {
                let v = g.uint();
                let w = g.width(v, false);
                if g.p(1, 2) {
                    It::Pos(w, v)
                } else {
                    It::Neg(w, v)
                }
            }
            Sch::Any => loop {
                let i = raw(g);
                if i.utf8_shallow() {
                    break i;
                }
            },
            Sch::Vec(s) if g.take_big(1, 1) => {
                let n = g.threshold(70000);
                let few: Vec<It> = (0..1 + g.below(4)).map(|_| s.arb1(g, depth.min(1).saturating_sub(1))).filter(|i| i.enc().len() < 200).collect();
                if few.is_empty() {
                    It::arr(vec![])
                } else {
                    let most = few.iter().map(|i| i.enc().len()).max().unwrap();
                    It::arr((0..n.min(1_000_000 / most)).map(|_| g.pick(&few).clone()).collect())
                }
            }
            Sch::Vec(s) => {
                let n = if depth == 0 {
                    0
                } else {
                    match g.below(24) {
                        0 => 23 + g.below(3),
                        1..=4 => 0,
                        _ => 1 + g.below(4),
                    }
                };
                It::arr((0..n).map(|_| s.arb1(g, depth - 1)).collect())
            }
            Sch::Exact(s) => {
                let i = s.arb1(g, depth);
                g.reencode_valid(&i)
            }
            Sch::DateTime => {
                let s = g.string(true, &Opt::std());
                It::Tag(g.width(0, false), 0, Box::new(It::Text(s)))
            }
            Sch::Bignum(n) => {
                let s = g.string(false, &Opt::std());
                It::Tag(g.width(*n, false), *n, Box::new(It::Bytes(s)))
            }
            Sch::Rational => {
                let num = match g.below(4) {
                    0 => {
                        let v = g.uint();
                        It::Pos(g.width(v, false), v)
                    }
                    1 => {
                        let v = g.uint();
                        It::Neg(g.width(v, false), v)
                    }
                    2 => Sch::Bignum(2).arb1(g, depth),
                    _ => Sch::Bignum(3).arb1(g, depth),
                };
                let den = match g.below(2) {
                    0 => {
                        let v = g.uint();
                        It::Pos(g.width(v, false), v)
                    }
                    _ => Sch::Bignum(2).arb1(g, depth),
                };
                let l = g.lenenc(2, &Opt::std());
                It::Tag(g.width(30, false), 30, Box::new(It::Arr(l, vec![num, den])))
            }
            Sch::Array(f, lastopt) => {
                let n = if *lastopt && g.p(1, 2) { f.len() - 1 } else { f.len() };
                It::arr(f[..n].iter().map(|s| s.arb1(g, depth)).collect())
            }
            Sch::MapInt(f) => {
                let p = g.below(4) as u32;
                It::map(
                    f.iter()
                        .filter_map(|(k, m, s)| {
                            if *m || g.p(p, 3) {
                                Some((It::pos(*k), s.arb1(g, depth)))
                            } else {
                                None
                            }
                        })
                        .collect(),
                )
            }
            Sch::Tagged(t, s) | Sch::FlatTagged(t, s) => It::tag(*t, s.arb1(g, depth)),
            Sch::Variants(vs) => {
                let vs: Vec<_> = if depth == 0 {
                    let m = vs.iter().map(|v| v.1.len()).min().unwrap();
                    vs.iter().filter(|v| v.1.len() == m).collect()
                } else {
                    vs.iter().collect()
                };
                let (k, f) = *g.pick(&vs);
                let mut v = vec![It::pos(*k)];
                for s in f {
                    v.push(s.arb1(g, depth.saturating_sub(1)))
                }
                It::arr(v)
            }
            Sch::EnumInt(vs) => It::pos(*g.pick(vs)),
            Sch::EnumKind(vs) => {
                let (k, s) = g.pick(vs);
                match s {
                    Some(s) => loop {
                        let i = s.arb1(g, depth);
                        if i.kind() == *k {
                            break i;
                        }
                    },
                    None if *k == Kind::Neg => {
                        let v = g.uint();
                        It::Neg(g.width(v, false), v)
                    }
                    None => {
                        assert!(*k == Kind::Null);
                        It::null()
                    }
                }
            }
        }]
    }

    pub fn arb1(&self, g: &mut Rng, depth: usize) -> It {
        let mut v = self.arb(g, depth);
        assert!(v.len() == 1, "schema is not a single item");
        v.remove(0)
    }

    /// does a value always take exactly one item
    pub fn single(&self) -> bool {
        match self {
            Sch::Unit => false,
            Sch::Seq(v) => v.len() == 1 && v[0].single(),
            _ => true,
        }
    }

    /// items worth trying against this type: conforming ones, re-encodings and near misses
    pub fn near(&self, g: &mut Rng) -> Vec<It> {
        let mut v = self.arb(g, 3);
        let n = g.below(5);
        if g.p(1, 2) {
            v = v.iter().map(|i| g.reencode_valid(i)).collect();
        }
        for _ in 0..n {
            mutate_items(&mut v, g, self);
        }
        v
    }
}

fn one(s: &Sch, i: &It) -> Option<It> {
    s.canon_whole(std::slice::from_ref(i)).and_then(|mut v| if v.len() == 1 { Some(v.remove(0)) } else { None })
}

pub fn arb_u(g: &mut Rng, max: u64) -> u64 {
    loop {
        let v = g.uint();
        if v <= max {
            return v;
        }
        if g.p(1, 3) {
            return max - g.u64() % 3;
        }
        if g.p(1, 3) && max < u64::MAX {
            return v % (max + 1);
        }
    }
}

impl Rng {
    /// reencode, leaving the item decodable to the same value
    pub fn reencode_valid(&mut self, it: &It) -> It {
        self.reencode(it)
    }
}

/// visit a random item of the tree and replace it
pub fn mutate_items(v: &mut Vec<It>, g: &mut Rng, s: &Sch) {
    match g.below(14) {
        0 => {
            let i = g.below(v.len() + 1);
            let o = Opt { depth: 1, size: 4, ..Opt::any_text() };
            let x = g.item(&o);
            v.insert(i, x)
        }
        1 if !v.is_empty() => {
            let i = g.below(v.len());
            v.remove(i);
        }
        2 if !v.is_empty() => {
            // splice a value of the type in place of something
            let i = g.below(v.len());
            let mut n = s.arb(g, 2);
            if let Some(x) = n.pop() {
                let d = 1 + g.below(3);
                mutate_at(&mut v[i], g, d, Some(x))
            }
        }
        _ if !v.is_empty() => {
            let i = g.below(v.len());
            let d = g.below(5);
            mutate_at(&mut v[i], g, d, None)
        }
        _ => {}
    }
}

fn mutate_at(it: &mut It, g: &mut Rng, depth: usize, put: Option<It>) {
    if depth > 0 {
        match it {
            It::Arr(_, v) if !v.is_empty() => {
                let i = g.below(v.len());
                return mutate_at(&mut v[i], g, depth - 1, put);
            }
            It::Map(_, v) if !v.is_empty() => {
                let i = g.below(v.len());
                let (k, x) = &mut v[i];
                return if g.p(1, 3) { mutate_at(k, g, depth - 1, put) } else { mutate_at(x, g, depth - 1, put) };
            }
            It::Tag(_, _, i) if g.p(3, 4) => return mutate_at(i, g, depth - 1, put),
            _ => {}
        }
    }
    if let Some(x) = put {
        *it = x;
        return;
    }
    let o = Opt { depth: 1, size: 4, ..Opt::any_text() };
    if g.p(1, 6) {
        *it = g.item(&o);
        return;
    }
    if g.p(1, 12) {
        let x = it.clone();
        *it = match g.below(3) {
            0 => It::tag(g.uint(), x),
            1 => It::arr(vec![x]),
            _ => It::bytes(&x.enc()),
        };
        return;
    }
    match it {
        It::Pos(w, v) => {
            let n = match g.below(9) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => v.wrapping_add(1 << 8),
                3 => v.wrapping_add(1 << 16),
                4 => v.wrapping_add(1 << 32),
                5 => v.wrapping_add(*g.pick(&[32, 64, 128, 1 << 63])),
                6 => g.u64() % 48,
                7 => {
                    *it = It::Neg(*w, *v);
                    return;
                }
                _ => g.uint(),
            };
            *it = It::Pos(g.width(n, false), n)
        }
        It::Neg(w, v) => *it = It::Pos(*w, *v),
        It::Bytes(s) => match g.below(4) {
            0 => *it = It::Text(s.clone()),
            1 => {
                let mut c = s.content();
                c.push(7);
                *it = It::Bytes(g.rechunk(&c, false))
            }
            2 => {
                let mut c = s.content();
                c.pop();
                *it = It::Bytes(g.rechunk(&c, false))
            }
            _ => *it = It::Bytes(g.string(false, &o)),
        },
        It::Text(s) => match g.below(3) {
            0 => *it = It::Bytes(s.clone()),
            1 => *it = It::Text(g.string(true, &Opt::any_text())),
            _ => {
                // bad bytes in the last chunk, or split inside of a character
                let bad = g.pick(&BADTEXTS).to_vec();
                match s {
                    Str::Def(w, b) => {
                        b.extend(bad);
                        *w = (*w).max(W::min(b.len() as u64))
                    }
                    Str::Ind(c) => {
                        c.push((W::W1, vec![0xc3]));
                        c.push((W::I, vec![0xa9]))
                    }
                }
            }
        },
        It::Arr(l, v) => {
            match g.below(6) {
                0 if !v.is_empty() => {
                    let i = g.below(v.len());
                    v.remove(i);
                }
                1 if !v.is_empty() => {
                    let i = g.below(v.len());
                    let x = v[i].clone();
                    let j = g.below(v.len() + 1);
                    v.insert(j, x)
                }
                2 if v.len() > 1 => {
                    let i = g.below(v.len());
                    let j = g.below(v.len());
                    v.swap(i, j)
                }
                3 => {
                    let x = g.item(&o);
                    v.push(x)
                }
                4 => {
                    v.pop();
                }
                _ => v.push(It::null()),
            }
            *l = g.lenenc(v.len(), &Opt::std())
        }
        It::Map(l, v) => {
            match g.below(9) {
                0 if !v.is_empty() => {
                    let i = g.below(v.len());
                    v.remove(i);
                }
                1 if !v.is_empty() => {
                    // duplicate a key, or an entry
                    let i = g.below(v.len());
                    let x = v[i].clone();
                    let j = g.below(v.len() + 1);
                    v.insert(j, x)
                }
                2 if v.len() > 1 => {
                    let i = g.below(v.len());
                    let j = g.below(v.len());
                    v.swap(i, j)
                }
                3 if !v.is_empty() => {
                    // key off by one, or by a power of two
                    let i = g.below(v.len());
                    if let It::Pos(_, k) = &v[i].0 {
                        let n = match g.below(5) {
                            0 => k.wrapping_add(1),
                            1 => k.wrapping_sub(1),
                            2 => k ^ (1 << g.below(64)),
                            3 => k.wrapping_add(1 << 32),
                            _ => g.uint(),
                        };
                        v[i].0 = It::Pos(g.width(n, false), n)
                    }
                }
                4 if v.len() > 1 => {
                    // duplicate key with another value, dropping one entry: same count
                    let i = g.below(v.len());
                    let j = g.below(v.len());
                    v[i].0 = v[j].0.clone()
                }
                5 | 6 => {
                    let k = match g.below(3) {
                        0 => g.u64() % 70,
                        _ => g.uint(),
                    };
                    let x = if !v.is_empty() && g.p(1, 2) { v[g.below(v.len())].1.clone() } else { g.item(&o) };
                    let j = g.below(v.len() + 1);
                    v.insert(j, (It::Pos(g.width(k, false), k), x))
                }
                _ => {
                    for i in (1..v.len()).rev() {
                        let j = g.below(i + 1);
                        v.swap(i, j)
                    }
                }
            }
            *l = g.lenenc(v.len(), &Opt::std())
        }
        It::Tag(w, t, c) => match g.below(4) {
            0 => {
                let x = (**c).clone();
                *it = x
            }
            1 => {
                let n = match g.below(4) {
                    0 => t.wrapping_add(1),
                    1 => t.wrapping_sub(1),
                    2 => t.wrapping_add(*g.pick(&[1 << 8, 1 << 16, 1 << 32])),
                    _ => *g.pick(&[0, 1, 2, 3, 4, 24, 30]),
                };
                *t = n;
                *w = g.width(n, false)
            }
            _ => {
                let x = g.item(&o);
                **c = x
            }
        },
        It::S1(v) => *v = g.below(24) as u8,
        x => *x = g.item(&o),
    }
}
