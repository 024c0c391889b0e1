//! Drive every reading, validating and decoding entry point over some bytes, and everything that can
//! be done with what they return. What comes out is folded into a digest.
use crate::gen::Rng;
use crate::rt::nopanic;
use crate::typ::*;
use cbored::validate::Validator;
use cbored::*;
use std::borrow::Borrow;
use std::fmt::{Debug, Write as _};

pub struct Sink {
    /// fold the printed form of every outcome in the digest (otherwise only counts)
    pub print: bool,
    pub h: u64,
    pub ops: u64,
    pub oks: u64,
    /// strings handed out that are not valid UTF-8
    pub bad_utf8: u64,
    pub strs: u64,
    buf: String,
    /// fold the content of byte strings in the digest, not only their lengths
    pub fold: bool,
}

impl Sink {
    pub fn new(print: bool) -> Sink {
        Sink { print, h: 0xcbf29ce484222325, ops: 0, oks: 0, bad_utf8: 0, strs: 0, buf: String::new(), fold: !cfg!(miri) }
    }
    pub fn raw(&mut self, b: &[u8]) {
        if !self.fold {
            // (interpreted) look at each byte, but natively
            let same = *b == *std::hint::black_box(b);
            return self.num(b.len() as u64 + same as u64);
        }
        self.h = (self.h ^ b.len() as u64).wrapping_mul(0xff51afd7ed558ccd);
        for x in b {
            self.h = (self.h ^ *x as u64).wrapping_mul(0x100000001b3)
        }
    }
    pub fn num(&mut self, n: u64) {
        self.h = (self.h.rotate_left(5) ^ n).wrapping_mul(0xff51afd7ed558ccd);
    }
    /// the payload of a converted NaN is up to the compiler
    pub fn f64(&mut self, f: f64) {
        self.num(if f.is_nan() { 1 } else { f.to_bits() })
    }
    pub fn out<T: Debug>(&mut self, t: &T) {
        if self.print {
            let mut b = std::mem::take(&mut self.buf);
            b.clear();
            let _ = write!(b, "{:?}", t);
            self.raw(b.as_bytes());
            self.buf = b;
        }
    }
    pub fn res<T, E: Debug>(&mut self, r: &Result<T, E>) {
        self.ops += 1;
        match r {
            Ok(_) => {
                self.oks += 1;
                self.num(1)
            }
            Err(e) => {
                self.num(2);
                self.out(e)
            }
        }
    }
    pub fn text(&mut self, s: &str) {
        self.strs += 1;
        // the compiler may assume a str is valid: look at the bytes themselves
        let b: &[u8] = std::hint::black_box(s.as_bytes());
        if std::str::from_utf8(b).is_err() {
            self.bad_utf8 += 1
        }
        self.raw(b)
    }
}

fn wr(f: impl FnOnce(&mut Writer)) -> Vec<u8> {
    let mut w = Writer::new();
    f(&mut w);
    w.finalize()
}

fn hv(h: state::HeaderValue) -> u64 {
    h.to_u64() << 1 ^ h.is_canonical() as u64
}

/// look at what an index past the end gives, if it gives anything
fn past<'a>(s: &mut Sink, len: usize, f: impl Fn(usize) -> &'a [u8]) {
    for i in [len, len + 1, len + 9, usize::MAX / 16, usize::MAX / 24 + 1, usize::MAX / 2 + 1 + len, usize::MAX] {
        s.ops += 1;
        if let Ok(b) = nopanic(|| {
            let b = f(i);
            std::hint::black_box(b.iter().fold(b.len(), |x, y| x ^ *y as usize))
        }) {
            s.num(b as u64)
        }
    }
}

/// containers asked for what they do not have
pub fn past_the_end(s: &mut Sink, b: &[u8], depth: usize) {
    match Reader::new(b).data() {
        Ok(Data::Array(a)) => {
            past(s, a.len(), |i| a[i].as_ref());
            let o = a.owned();
            past(s, o.len(), |i| o[i].as_ref());
            s.num(a.iter().nth(usize::MAX).is_some() as u64 + o.iter().nth(a.len()).is_some() as u64);
            for i in 0..a.len().min(if depth > 0 { 2 } else { 0 }) {
                past_the_end(s, a[i].as_ref(), depth - 1)
            }
        }
        Ok(Data::Map(a)) => {
            past(s, a.len(), |i| a[i].0.as_ref());
            past(s, a.len(), |i| a[i].1.as_ref());
            let o = a.owned();
            s.num(a.keys().nth(a.len()).is_some() as u64 + o.values().nth(usize::MAX).is_some() as u64 + o.iter().nth(a.len()).is_some() as u64);
            for i in 0..a.len().min(if depth > 0 { 2 } else { 0 }) {
                past_the_end(s, a[i].1.as_ref(), depth - 1)
            }
        }
        Ok(Data::Tag(t)) if depth > 0 => past_the_end(s, t.data().as_ref(), depth - 1),
        _ => (),
    }
}

pub fn use_bytes(s: &mut Sink, b: &Bytes) {
    s.num(b.len() as u64);
    s.raw(&b.to_vec());
    let chunk = |s: &mut Sink, d: &BytesData| {
        s.raw(d.as_slice());
        s.num(hv(d.value()));
        let o = d.owned();
        s.raw(o.as_slice());
        s.num(hv(o.value()) ^ (o.borrow() == *d) as u64);
    };
    match b {
        Bytes::Imm(d) => chunk(s, d),
        Bytes::Chunks(c) => c.iter().for_each(|d| chunk(s, d)),
    }
    let o = b.owned();
    match &o {
        BytesOwned::Imm(d) => s.raw(d.as_slice()),
        BytesOwned::Chunks(c) => c.iter().for_each(|d| s.raw(d.as_slice())),
    }
    s.num((o.borrow() == *b) as u64);
    s.out(b);
    s.raw(&wr(|w| w.bytes(&o.borrow())));
    s.raw(&wr(|w| w.encode(&o)));
}
pub fn use_text(s: &mut Sink, t: &Text) {
    s.text(&t.to_string());
    for c in t.to_str_chunks() {
        s.text(c)
    }
    let chunk = |s: &mut Sink, d: &TextData| {
        s.text(d.as_str());
        let a: &&str = d.as_ref();
        s.text(a);
        s.num(hv(d.value()));
        let o = d.owned();
        s.text(o.as_str());
        s.text(o.borrow().as_str());
        s.num(hv(o.value()) ^ (o.borrow() == *d) as u64);
    };
    match t {
        Text::Imm(d) => chunk(s, d),
        Text::Chunks(c) => c.iter().for_each(|d| chunk(s, d)),
    }
    let o = t.owned();
    match &o {
        TextOwned::Imm(d) => s.text(d.as_str()),
        TextOwned::Chunks(c) => c.iter().for_each(|d| s.text(d.as_str())),
    }
    s.out(t);
    s.raw(&wr(|w| w.text(&o.borrow())));
}
pub fn use_array(s: &mut Sink, a: &Array, depth: usize) {
    s.num(a.len() as u64);
    s.out(&a.struct_len());
    let o = a.owned();
    for (i, mut r) in a.iter().enumerate() {
        s.num(r.remaining_bytes() as u64);
        let e = a[i];
        s.num(((*e).to_owned() == o[i]) as u64);
        s.raw(o[i].as_ref());
        let x = r.data();
        s.res(&x);
        if let Ok(d) = x {
            if depth > 0 {
                use_data(s, &d, depth - 1)
            }
        }
        if depth > 0 {
            use_slice(s, e, i);
        }
    }
    s.num(o.len() as u64);
    s.out(&o.struct_len());
    for mut r in o.iter() {
        let x = r.peek_type();
        s.res(&x);
        s.res(&r.scalar());
        s.num(r.consumed_bytes() as u64);
    }
    let v = a.to_vec(|r| r.decode::<u64>().map_err(|e| e.error().clone()));
    s.res(&v);
    let v = o.to_vec(|r| r.decode::<DataOwned>().map_err(|e| e.error().clone()));
    s.res(&v);
    s.num((o.borrow() == *a) as u64);
    s.raw(&wr(|w| w.array(&o.borrow())));
}
pub fn use_map(s: &mut Sink, a: &Map, depth: usize) {
    s.num(a.len() as u64);
    s.out(&a.struct_len());
    for (mut k, mut v) in a.iter() {
        let x = k.data();
        s.res(&x);
        let y = v.data();
        s.res(&y);
        if depth > 0 {
            for d in [x, y].iter().flatten() {
                use_data(s, d, depth - 1)
            }
        }
    }
    for mut r in a.keys().chain(a.values()) {
        s.num(r.remaining_bytes() as u64);
        let x = r.positive();
        s.res(&x)
    }
    let v = a.to_vec(|r| r.decode::<u64>().map_err(|e| e.error().clone()), |r| r.decode::<DataOwned>().map_err(|e| e.error().clone()));
    s.res(&v);
    for i in 0..a.len() {
        let (k, v) = a[i];
        s.raw(k.as_ref());
        s.raw(v.as_ref());
    }
    let o = a.owned();
    s.num(o.len() as u64);
    s.out(&o.struct_len());
    for (mut k, mut v) in o.iter() {
        s.res(&k.positive());
        s.res(&v.constant());
        s.num((k.remaining_bytes() + v.remaining_bytes()) as u64)
    }
    let v = o.to_vec(|r| r.decode::<DataOwned>().map_err(|e| e.error().clone()), |r| r.decode::<bool>().map_err(|e| e.error().clone()));
    s.res(&v);
    for mut r in o.keys().chain(o.values()) {
        let x = r.text();
        s.res(&x);
    }
    s.num((o.borrow() == *a) as u64);
    s.raw(&wr(|w| w.map(&o.borrow())));
}
pub fn use_tag(s: &mut Sink, t: &Tag, depth: usize) {
    s.num(t.value());
    s.out(&t.tag_repr());
    let mut r = t.reader();
    let x = r.data();
    s.res(&x);
    if let Ok(d) = x {
        if depth > 0 {
            use_data(s, &d, depth - 1)
        }
    }
    let x = t.read_data(|r| r.bytes().map(|b| b.to_vec()));
    s.res(&x);
    let x = t.read_data(|r| r.text().map(|b| b.to_string()));
    s.res(&x);
    if let Ok(x) = &x {
        s.text(x)
    }
    s.res(&t.decode_data::<u64>());
    s.res(&t.decode_data::<DataOwned>());
    let o = t.owned();
    s.num(o.value());
    s.num(hv(o.tag_repr().raw_value()) ^ o.tag_repr().to_u64());
    s.raw(o.data().as_ref());
    let x = o.read_data().data().map(|d| d.owned());
    s.res(&x);
    s.num((o.borrow() == *t) as u64);
    s.raw(&wr(|w| w.tag(&o.borrow())));
    if depth > 0 {
        use_slice(s, t.data(), t.value() as usize)
    }
}
pub fn use_data(s: &mut Sink, d: &Data, depth: usize) {
    match d {
        Data::Bytes(b) => use_bytes(s, b),
        Data::Text(b) => use_text(s, b),
        Data::Array(b) => use_array(s, b, depth),
        Data::Map(b) => use_map(s, b, depth),
        Data::Tag(b) => use_tag(s, b, depth),
        Data::Positive(p) => s.num(p.to_u64() ^ p.is_canonical() as u64 ^ hv(p.raw_value()) << 1),
        Data::Negative(p) => {
            s.num(hv(p.raw_value()));
            s.num(p.negative_u64() ^ p.is_canonical() as u64);
            s.out(&p.to_i64())
        }
        Data::Byte(b) => s.num(b.to_u8() as u64 ^ (b.is_canonical() as u64) << 8),
        Data::Float(f) => {
            s.f64(f.to_f64());
            s.f64(f.to_f32() as f64)
        }
        _ => s.out(d),
    }
    let o = d.owned();
    let b = o.borrow();
    s.num((b == *d) as u64);
    s.raw(&wr(|w| w.data(&b)));
    s.raw(&wr(|w| w.encode(&o)));
}

pub fn slice_as<T: Typ>(s: &mut Sink, c: &CborSlice) {
    let x = c.decode::<T>();
    s.res(&x);
    if let Ok(v) = &x {
        s.raw(&encode_to_bytes(v))
    }
    let x = c.validate_as::<T>();
    s.res(&x);
    if let Ok(v) = x {
        s.raw(v.untype().as_ref());
        s.raw(&wr(|w| w.encode(v)));
        let o: CborDataOf<T> = v.to_owned();
        s.raw(o.as_ref());
        let t = o.unserialize();
        s.raw(&encode_to_bytes(&t));
        let c = o.clone();
        s.raw(c.as_ref());
        s.raw(c.untype().as_ref());
    }
}

/// what can be done with a slice, a few types only
pub fn use_slice(s: &mut Sink, c: &CborSlice, i: usize) {
    s.raw(c.as_ref());
    crate::with_types!(i, slice_as, s, c);
    let o = c.to_owned();
    let b: &CborSlice = o.borrow();
    s.num((b == c) as u64);
    s.out(&c);
}

pub fn reader_as<T: Typ>(s: &mut Sink, b: &[u8]) {
    let mut r = Reader::new(b);
    let x = r.decode::<T>();
    s.res(&x);
    s.num(r.consumed_bytes() as u64);
    if let Ok(v) = &x {
        s.raw(&encode_to_bytes(v))
    }
    let x = decode_from_bytes::<T>(b);
    s.res(&x);
    if let Err(e) = &x {
        if s.print {
            let d = format!("{} {:?}", e, e.context_as_path());
            s.raw(d.as_bytes())
        }
    }
    let mut r = Reader::new(b);
    let x = r.decode_one::<T>();
    s.res(&x);
    let mut r = Reader::new(b);
    let x = r.exact_decodable_slice::<T>();
    s.res(&x);
    if let Ok(v) = x {
        s.raw(v.untype().as_ref());
        s.raw(&wr(|w| w.encode(v)))
    }
    s.num(r.consumed_bytes() as u64);
    let mut r = Reader::new(b);
    let x = r.exact_decodable_data::<T>();
    s.res(&x);
    if let Ok(v) = &x {
        s.raw(&encode_to_bytes(&v.unserialize()))
    }
    // data that nothing was checked about: what a writer was given as its initial buffer
    let d = Writer::new_from_vec(b.to_vec()).finalize_data();
    s.res(&d.decode::<T>());
    let x = d.validate_as::<T>();
    s.res(&x);
    if let Ok(v) = &x {
        s.raw(&encode_to_bytes(&v.unserialize()))
    }
    let c: &CborSlice = d.borrow();
    slice_as::<T>(s, c);
    let mut r = d.read();
    let x = decode_vec::<T>(&mut r);
    s.res(&x);
}

pub fn use_types(s: &mut Sink, b: &[u8], i: usize) {
    crate::with_types!(i, reader_as, s, b)
}

/// one operation of a reader; the number of operations
pub const OPS: usize = 26;
pub fn op(s: &mut Sink, r: &mut Reader, k: usize, depth: usize) -> bool {
    macro_rules! go {
        ($e:expr, $v:ident => $u:expr) => {{
            let x = $e;
            s.res(&x);
            match x {
                Ok($v) => {
                    $u;
                    true
                }
                Err(_) => false,
            }
        }};
    }
    match k {
        0 => go!(r.positive(), v => s.num(v.to_u64())),
        1 => go!(r.negative(), v => s.num(v.negative_u64())),
        2 => go!(r.scalar(), v => {
            s.out(&v);
            s.num(hv(v.raw_value()) ^ v.to_i64().unwrap_or(5) as u64);
            s.num(v.is_positive() as u64 + 2 * v.is_negative() as u64 + 4 * v.is_canonical() as u64)
        }),
        3 => go!(r.byte(), v => s.num(v.to_u8() as u64 ^ v.raw_value().to_u8() as u64 ^ v.raw_value().is_canonical() as u64)),
        4 => go!(r.float(), v => s.f64(v.to_f64())),
        5 => go!(r.constant(), v => s.out(&v)),
        6 => go!(r.null(), _v => ()),
        7 => go!(r.undefined(), _v => ()),
        8 => go!(r.bool(), v => s.num(v as u64)),
        9 => go!(r.bytes(), v => use_bytes(s, &v)),
        10 => go!(r.text(), v => use_text(s, &v)),
        11 => go!(r.array(), v => use_array(s, &v, depth)),
        12 => go!(r.map(), v => use_map(s, &v, depth)),
        13 => go!(r.tag(), v => use_tag(s, &v, depth)),
        14 | 15 => go!(r.data(), v => use_data(s, &v, depth)),
        16 => go!(r.peek_type(), v => s.out(&v)),
        17 => {
            s.num(r.remaining_bytes() as u64);
            s.num(r.consumed_bytes() as u64);
            s.num(r.is_finished() as u64);
            s.res(&r.expect_finished());
            true
        }
        18 => go!(r.decode::<u64>(), v => s.num(v)),
        19 => go!(r.decode::<String>(), v => s.text(&v)),
        20 => go!(r.decode::<DataOwned>(), v => s.raw(&encode_to_bytes(&v))),
        21 => go!(r.decode::<VecOf<DataOwned>>(), v => s.num(v.0.len() as u64)),
        22 => go!(r.exact_decodable_slice::<DataOwned>(), v => s.raw(v.untype().as_ref())),
        23 => go!(r.exact_decodable_data::<DataOwned>(), v => s.raw(&encode_to_bytes(&v.unserialize()))),
        24 => go!(r.decode_one::<DataOwned>(), v => s.raw(&encode_to_bytes(&v))),
        _ => go!(r.decode::<[u8; 4]>(), v => s.raw(&v)),
    }
}

/// each operation on a fresh reader
pub fn all_ops(s: &mut Sink, b: &[u8], depth: usize) {
    for k in 0..OPS {
        let mut r = Reader::new(b);
        op(s, &mut r, k, depth);
        s.num(r.consumed_bytes() as u64);
        s.num(r.remaining_bytes() as u64);
        s.num(r.is_finished() as u64);
    }
}

/// a random sequence of operations on one reader, going on after errors
pub fn script(s: &mut Sink, b: &[u8], g: &mut Rng, n: usize, depth: usize) {
    let mut r = Reader::new(b);
    for _ in 0..n {
        let k = g.below(OPS);
        op(s, &mut r, k, depth);
        s.num(r.consumed_bytes() as u64);
        if g.p(1, 4) {
            s.num(r.remaining_bytes() as u64);
            s.res(&r.expect_finished());
        }
    }
}

/// the validator, called again after errors as well
pub fn validator(s: &mut Sink, b: &[u8], extra: usize) {
    let mut v = Validator::new(b);
    let mut bad = 0;
    loop {
        let x = v.next();
        s.res(&x);
        s.num(v.remaining_bytes() as u64);
        match x {
            Ok((c, n)) => {
                s.num(n as u64);
                s.raw(c.as_ref())
            }
            Err(_) => {
                bad += 1;
                if bad > extra {
                    break;
                }
            }
        }
    }
}

/// everything
pub fn everything(s: &mut Sink, b: &[u8], g: &mut Rng, depth: usize) {
    validator(s, b, 3);
    all_ops(s, b, depth);
    script(s, b, g, 6, depth.min(1));
    let k = g.below(30);
    use_types(s, b, k);
    use_types(s, b, k + 7);
    use_types(s, b, k + 17);
}
