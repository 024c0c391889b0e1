//! C22: owned and borrowed forms are equivalent, and equality means same representation
use cbored::*;
use mon::gen::*;
use mon::obs;
use mon::refc::*;
use mon::rt::*;
use mon::*;
use std::borrow::Borrow;

#[global_allocator]
static A: Counting = Counting;

fn wr(f: impl FnOnce(&mut Writer)) -> Vec<u8> {
    let mut w = Writer::new();
    f(&mut w);
    w.finalize()
}

/// one borrowed value against its owned form: equality, clones, accessors, bytes
macro_rules! forms {
    ($cx:ident, $what:expr, $b:expr, $v:expr, $own:ty, $see:path, $see_owned:path, $write:ident, $it:expr) => {{
        let v = $v;
        let o: $own = v.owned();
        let back = o.borrow();
        ck!(back == v, "{} of {}: owned and borrowed again differs", $what, hex($b));
        ck!(back.owned() == o, "{} of {}: owned, borrowed and owned again differs", $what, hex($b));
        ck!(v.clone() == v && o.clone() == o, "{} of {}: a clone differs", $what, hex($b));
        let s = $see(&v)?;
        ck!(s == $it, "{} of {} exposes {:?}", $what, hex($b), s);
        let s = $see_owned(&o)?;
        ck!(s == $it, "owned {} of {} exposes {:?}", $what, hex($b), s);
        let s = $see(&back)?;
        ck!(s == $it, "{} of {}, owned and borrowed again, exposes {:?}", $what, hex($b), s);
        for (how, x) in [("borrowed", &v), ("borrowed again", &back), ("cloned", &o.clone().borrow())] {
            let y = wr(|w| w.$write(x));
            ck!(y == $b, "{} of {} {}: writes {}", $what, hex($b), how, hex(&y));
        }
        $cx.count("borrowed and owned forms compared");
        o
    }};
}

fn see_bytes(b: &Bytes) -> Result<It, String> {
    obs::bytes(b).map(It::Bytes)
}
fn see_bytes_owned(b: &BytesOwned) -> Result<It, String> {
    obs::bytes_owned(b).map(It::Bytes)
}
fn see_text(b: &Text) -> Result<It, String> {
    obs::text(b).map(It::Text)
}
fn see_text_owned(b: &TextOwned) -> Result<It, String> {
    obs::text_owned(b).map(It::Text)
}

enum Own {
    Bytes(BytesOwned),
    Text(TextOwned),
    Array(ArrayOwned),
    Map(MapOwned),
    Tag(TagOwned),
    Other,
}

/// conversions of what is read from a buffer that is then overwritten and gone
fn convert(cx: &mut Cx, it: &It) -> Result<(), String> {
    let b = &it.enc()[..];
    cx.input(b);
    let mut buf = b.to_vec();
    let (o, typed, raw, exact, slice) = {
        let fail = |e: ReaderError| format!("{} does not read: {:?}", hex(b), e);
        let d = Reader::new(&buf).data().map_err(fail)?;
        let o = forms!(cx, "data", b, d, DataOwned, obs::data, obs::data_owned, data, *it);
        let y = wr(|w| w.encode(&o));
        ck!(y == b, "owned data of {} encodes as {}", hex(b), hex(&y));
        let mut r = Reader::new(&buf);
        let typed = match it {
            It::Bytes(_) => Own::Bytes(forms!(cx, "bytes", b, r.bytes().map_err(fail)?, BytesOwned, see_bytes, see_bytes_owned, bytes, *it)),
            It::Text(_) => Own::Text(forms!(cx, "text", b, r.text().map_err(fail)?, TextOwned, see_text, see_text_owned, text, *it)),
            It::Arr(..) => Own::Array(forms!(cx, "array", b, r.array().map_err(fail)?, ArrayOwned, obs::array, obs::array_owned, array, *it)),
            It::Map(..) => Own::Map(forms!(cx, "map", b, r.map().map_err(fail)?, MapOwned, obs::map, obs::map_owned, map, *it)),
            It::Tag(..) => Own::Tag(forms!(cx, "tag", b, r.tag().map_err(fail)?, TagOwned, obs::tag, obs::tag_owned, tag, *it)),
            _ => Own::Other,
        };
        let x = Reader::new(&buf).exact_decodable_data::<DataOwned>().map_err(|e| format!("{:?}", e))?;
        let s = Reader::new(&buf).exact_decodable_slice::<DataOwned>().map_err(|e| format!("{:?}", e))?;
        ck!(s.to_owned() == x, "exact slice and exact data of {} differ", hex(b));
        let sb: &CborSliceOf<DataOwned> = x.borrow();
        ck!(sb.untype() == s.untype(), "exact data of {} borrowed differs from the slice", hex(b));
        let mut a = vec![0x81];
        a.extend(&buf);
        let arr = Reader::new(&a).array().map_err(|e| format!("{:?}", e))?;
        let raw = arr[0].to_owned();
        let rb: &CborSlice = raw.borrow();
        ck!(rb == arr[0] && arr[0].to_owned() == raw, "element {} differs from its owned form", hex(b));
        (o, typed, raw, x, s.to_owned())
    };
    // the buffer changes and goes away
    buf.iter_mut().for_each(|x| *x = !*x);
    drop(buf);
    let s = obs::data_owned(&o)?;
    ck!(s == *it, "owned data of {} exposes {:?} after its buffer is gone", hex(b), s);
    let y = wr(|w| w.encode(&o));
    ck!(y == b, "owned data of {} encodes as {} after its buffer is gone", hex(b), hex(&y));
    let (s, y) = match &typed {
        Own::Bytes(o) => (see_bytes_owned(o)?, wr(|w| w.bytes(&o.borrow()))),
        Own::Text(o) => (see_text_owned(o)?, wr(|w| w.text(&o.borrow()))),
        Own::Array(o) => (obs::array_owned(o)?, wr(|w| w.array(&o.borrow()))),
        Own::Map(o) => (obs::map_owned(o)?, wr(|w| w.map(&o.borrow()))),
        Own::Tag(o) => (obs::tag_owned(o)?, wr(|w| w.tag(&o.borrow()))),
        Own::Other => (it.clone(), b.to_vec()),
    };
    ck!(s == *it && y == b, "owned value of {} is {:?} and writes {} after its buffer is gone", hex(b), s, hex(&y));
    ck!(raw.as_ref() == b && exact.as_ref() == b && slice.as_ref() == b, "owned raw data of {} changes when its buffer is gone", hex(b));
    // and the same bytes elsewhere are equal to it
    let b2 = b.to_vec();
    let d2 = Reader::new(&b2).data().map_err(|e| format!("{:?}", e))?;
    ck!(o.borrow() == d2 && d2.owned() == o, "{} read from another buffer is not equal", hex(b));
    cx.count("owned values outliving their buffer");
    Ok(())
}

/// equality of all forms against equality of the bytes
fn pair(cx: &mut Cx, x: &It, y: &It) -> Result<(), String> {
    let (bx, by) = (x.enc(), y.enc());
    cx.input(&bx);
    let same = bx == by;
    let say = |what: &str| format!("{} of {} and {} compare as {}", what, hex(&bx), hex(&by), if same { "different" } else { "equal" });
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {{
            ck!(($a == $b) == same, "{}", say($what));
            ck!(($a != $b) != same, "{} (by !=)", say($what));
            ck!(($b == $a) == same, "{} (other order)", say($what));
            cx.count(if same { "equal values compared" } else { "different values compared" });
        }};
    }
    // a value of one copied over the other, to which it then has to be equal, also in what it writes
    macro_rules! over {
        ($what:expr, $a:expr, $b:expr, $show:expr) => {{
            for (from, to, fb, tb) in [(&$a, &$b, &bx, &by), (&$b, &$a, &by, &bx)] {
                let mut c = to.clone();
                c.clone_from(from);
                ck!(&c == from, "{} of {} cloned over that of {} differs from it", $what, hex(fb), hex(tb));
                let (w, v): (Vec<u8>, Vec<u8>) = ($show(&c), $show(from));
                ck!(w == v, "{} of {} cloned over that of {} writes {}", $what, hex(fb), hex(tb), hex(&w));
                cx.count("values cloned over another");
            }
        }};
    }
    let rd = |b| Reader::new(b).data().map_err(|e| format!("{} does not read: {:?}", hex(b), e));
    let (dx, dy) = (rd(&bx)?, rd(&by)?);
    eq!("data", dx, dy);
    over!("data", dx, dy, |d: &Data| wr(|w| w.encode(d)));
    let (ox, oy) = (dx.owned(), dy.owned());
    eq!("owned data", ox, oy);
    over!("owned data", ox, oy, |d: &DataOwned| wr(|w| w.encode(d)));
    eq!("owned and borrowed data", ox.borrow(), dy);
    macro_rules! typed {
        ($m:ident) => {{
            if let (Ok(a), Ok(b)) = (Reader::new(&bx).$m(), Reader::new(&by).$m()) {
                eq!(stringify!($m), a, b);
                true
            } else {
                false
            }
        }};
    }
    macro_rules! own {
        (bytes, $d:expr) => {{
            let d: &BytesOwned = $d;
            wr(|w| w.bytes(&d.borrow()))
        }};
        (text, $d:expr) => {{
            let d: &TextOwned = $d;
            wr(|w| w.text(&d.borrow()))
        }};
        (array, $d:expr) => {{
            let d: &ArrayOwned = $d;
            wr(|w| w.array(&d.borrow()))
        }};
        (map, $d:expr) => {{
            let d: &MapOwned = $d;
            wr(|w| w.map(&d.borrow()))
        }};
        (tag, $d:expr) => {{
            let d: &TagOwned = $d;
            wr(|w| w.tag(&d.borrow()))
        }};
    }
    macro_rules! typed_owned {
        ($m:ident) => {{
            if let (Ok(a), Ok(b)) = (Reader::new(&bx).$m(), Reader::new(&by).$m()) {
                eq!(stringify!($m), a, b);
                over!(stringify!($m), a, b, |d: &_| wr(|w| w.$m(d)));
                let (a, b) = (a.owned(), b.owned());
                eq!(concat!("owned ", stringify!($m)), a, b);
                over!(concat!("owned ", stringify!($m)), a, b, |d: &_| own!($m, d));
            }
        }};
    }
    typed!(positive);
    typed!(negative);
    typed!(scalar);
    typed!(byte);
    typed!(float);
    typed!(constant);
    typed_owned!(bytes);
    typed_owned!(text);
    typed_owned!(array);
    typed_owned!(map);
    typed_owned!(tag);
    if let (Ok(a), Ok(b)) = (Reader::new(&bx).bytes(), Reader::new(&by).bytes()) {
        if let (Bytes::Imm(a), Bytes::Imm(b)) = (&a, &b) {
            eq!("bytes chunk", a, b);
            eq!("owned bytes chunk", a.owned(), b.owned());
            over!("bytes chunk", *a, *b, |d: &BytesData| d.as_slice().to_vec());
            let (c, d) = (a.owned(), b.owned());
            over!("owned bytes chunk", c, d, |d: &BytesDataOwned| d.as_slice().to_vec());
            eq!("bytes chunk borrowed again", &a.owned().borrow(), b);
        }
    }
    if let (Ok(a), Ok(b)) = (Reader::new(&bx).text(), Reader::new(&by).text()) {
        if let (Text::Imm(a), Text::Imm(b)) = (&a, &b) {
            eq!("text chunk", a, b);
            eq!("owned text chunk", a.owned(), b.owned());
            over!("text chunk", *a, *b, |d: &TextData| d.as_str().as_bytes().to_vec());
            let (c, d) = (a.owned(), b.owned());
            over!("owned text chunk", c, d, |d: &TextDataOwned| d.as_str().as_bytes().to_vec());
            eq!("text chunk borrowed again", &a.owned().borrow(), b);
        }
    }
    let ex = |b| Reader::new(b).exact_decodable_data::<DataOwned>().map_err(|e| format!("{:?}", e));
    let (ex, ey) = (ex(&bx)?, ex(&by)?);
    eq!("exact data", ex, ey);
    over!("exact data", ex, ey, |d: &CborDataOf<DataOwned>| d.as_ref().to_vec());
    let (ux, uy) = (ex.untype(), ey.untype());
    eq!("untyped data", ux, uy);
    for (f, t) in [(&ux, &uy), (&uy, &ux)] {
        let mut c = t.clone();
        c.clone_from(f);
        ck!(c == *f && c.as_ref() == f.as_ref(), "untyped data {} cloned over {} is {}", hex(f.as_ref()), hex(t.as_ref()), hex(c.as_ref()));
        let s: &CborSlice = (*f).borrow();
        let mut c = t.clone();
        s.clone_into(&mut c);
        ck!(c == *f && c.as_ref() == f.as_ref(), "raw slice {} cloned into {} is {}", hex(f.as_ref()), hex(t.as_ref()), hex(c.as_ref()));
    }
    let (sx, sy): (&CborSlice, &CborSlice) = (ux.borrow(), uy.borrow());
    eq!("raw slice", sx, sy);
    eq!("raw owned data", sx.to_owned(), sy.to_owned());
    Ok(())
}

/// change one thing about a random node
fn tweak(it: &mut It, g: &mut Rng) {
    let down = match it {
        It::Arr(_, v) => !v.is_empty() && g.p(3, 4),
        It::Map(_, v) => !v.is_empty() && g.p(3, 4),
        It::Tag(..) => g.p(2, 3),
        _ => false,
    };
    if down {
        match it {
            It::Arr(_, v) => {
                let i = g.below(v.len());
                return tweak(&mut v[i], g);
            }
            It::Map(_, v) => {
                let i = g.below(v.len());
                let (k, x) = &mut v[i];
                return tweak(if g.p(1, 2) { k } else { x }, g);
            }
            It::Tag(_, _, i) => return tweak(i, g),
            _ => {}
        }
    }
    fn st(s: &mut Str, g: &mut Rng, text: bool) {
        match (g.below(6), &mut *s) {
            (0, Str::Def(_, b)) if !b.is_empty() => {
                let i = g.below(b.len());
                if b[i] < 0x80 {
                    b[i] = if text { b'A' + g.below(26) as u8 } else { b[i] ^ (1 << g.below(8)) }
                }
            }
            (1, Str::Ind(c)) => {
                let i = g.below(c.len() + 1);
                c.insert(i, (W::I, vec![]))
            }
            (2, Str::Ind(c)) if !c.is_empty() => {
                let i = g.below(c.len());
                let n = c[i].1.len() as u64;
                c[i].0 = g.width(n, false)
            }
            (3, Str::Ind(c)) if c.len() > 1 => {
                let i = g.below(c.len() - 1);
                let x = c.remove(i + 1);
                c[i].1.extend(x.1);
                c[i].0 = W::W4
            }
            (_, Str::Def(w, b)) => match g.below(2) {
                0 => *w = g.width(b.len() as u64, false),
                _ => *s = Str::Ind(vec![(*w, b.clone())]),
            },
            (_, Str::Ind(_)) => *s = Str::canon(&s.content()),
        }
    }
    let n = g.below(4);
    match it {
        It::Pos(w, v) | It::Neg(w, v) => match n {
            0 => {
                *v = v.wrapping_add(1);
                *w = g.width(*v, false)
            }
            1 => {
                let (w, v) = (*w, *v);
                *it = if matches!(it, It::Pos(..)) { It::Neg(w, v) } else { It::Pos(w, v) }
            }
            _ => *w = g.width(*v, false),
        },
        It::Bytes(s) => st(s, g, false),
        It::Text(s) => st(s, g, true),
        It::Arr(l, v) => {
            if n == 0 && v.len() > 1 {
                let i = g.below(v.len() - 1);
                v.swap(i, i + 1)
            } else {
                *l = g.lenenc(v.len(), &Opt::std())
            }
        }
        It::Map(l, v) => {
            if n == 0 && v.len() > 1 {
                let i = g.below(v.len() - 1);
                v.swap(i, i + 1)
            } else if n == 1 && !v.is_empty() {
                let i = g.below(v.len());
                let (a, b) = v[i].clone();
                v[i] = (b, a)
            } else {
                *l = g.lenenc(v.len(), &Opt::std())
            }
        }
        It::Tag(w, t, c) => match n {
            0 => {
                *t ^= 1;
                *w = g.width(*t, false)
            }
            1 => {
                let c = (**c).clone();
                *it = c
            }
            _ => *w = g.width(*t, false),
        },
        It::S1(v) => *it = if n == 0 { It::S1((*v + 1) % 24) } else { It::S2(*v) },
        It::S2(v) => *it = if *v < 24 && n > 0 { It::S1(*v) } else { It::S2(v.wrapping_add(1)) },
        It::F16(v) => {
            *it = match n {
                0 => It::F16(*v ^ 0x8000),
                1 => It::F16(*v ^ 1),
                2 => It::F32((half_value(*v) as f32).to_bits()),
                _ => It::F64(half_value(*v).to_bits()),
            }
        }
        It::F32(v) => {
            *it = match n {
                0 => It::F32(*v ^ 0x8000_0000),
                1 => It::F32(*v ^ 1),
                2 => It::F32(f32::NAN.to_bits()),
                _ => It::F64((f32::from_bits(*v) as f64).to_bits()),
            }
        }
        It::F64(v) => {
            *it = match n {
                0 => It::F64(*v ^ 1 << 63),
                1 => It::F64(*v ^ 1),
                2 => It::F64(f64::NAN.to_bits()),
                _ => It::F32((f64::from_bits(*v) as f32).to_bits()),
            }
        }
    }
}

fn trees(cx: &mut Cx) -> Result<(), String> {
    let big = cx.g.big > 0;
    let o = Opt { depth: 1 + cx.g.below(4), size: if cx.idx % 40 == 0 { 60 } else { 10 }, ..Opt::std() };
    let first = if cx.g.p(1, 2) { cx.g.container(&o) } else { cx.g.item(&o) };
    let mut pool = vec![first.clone(), first.clone()];
    for _ in 0..if big { 1 } else { 5 } {
        let mut x = pool[cx.g.below(pool.len())].clone();
        tweak(&mut x, &mut cx.g);
        pool.push(x)
    }
    pool.push(cx.g.reencode(&first));
    let mut encs = vec![];
    for x in &pool {
        let e = hash_bytes(&x.enc());
        if !encs.contains(&e) {
            encs.push(e);
            convert(cx, x)?;
            cx.seen(e, x.noncanonical() || x.size() > 1);
        }
    }
    for i in 0..pool.len() {
        for j in i + big as usize..pool.len() {
            pair(cx, &pool[i], &pool[j])?
        }
    }
    cx.sample(|| format!("{} against {}", hex(&pool[0].enc()), hex(&pool[2].enc())));
    Ok(())
}

/// every representation of some numbers, simple values and strings, each against each
fn representations(cx: &mut Cx) -> Result<(), String> {
    let mut pool = vec![];
    let vals: Vec<u64> = (0..3).map(|k| cx.idx * 3 + k).chain([20, 21, 22, 23, 24, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX]).collect();
    for v in vals {
        for w in WS {
            if w >= W::min(v) {
                pool.push(It::Pos(w, v));
                pool.push(It::Neg(w, v));
                if v < 2 {
                    pool.push(It::Tag(w, v, Box::new(It::pos(0))));
                }
                if v < 5 {
                    pool.push(It::Bytes(Str::Def(w, vec![b'x'; v as usize])));
                    pool.push(It::Text(Str::Def(w, vec![b'x'; v as usize])));
                    pool.push(It::Text(Str::Ind(vec![(w, vec![b'x'; v as usize])])));
                    pool.push(It::Arr(Len::Def(w), vec![It::pos(0); v as usize]));
                    pool.push(It::Map(Len::Def(w), vec![(It::pos(0), It::pos(0)); v as usize]));
                }
            }
        }
        if v < 24 {
            pool.push(It::S1(v as u8));
        }
        if v < 256 {
            pool.push(It::S2(v as u8));
        }
        let f = v as f64;
        pool.push(It::F64(f.to_bits()));
        pool.push(It::F32((f as f32).to_bits()));
        pool.push(It::F16(v as u16));
        pool.push(It::F64((-f).to_bits()));
    }
    for p in [It::F16(0x7e00), It::F16(0x7e01), It::F32(0x7fc00000), It::F32(0xffc00000), It::F64(f64::NAN.to_bits()), It::F64(f64::NAN.to_bits() | 1), It::F16(0x8000)] {
        pool.push(p)
    }
    for i in 0..pool.len() {
        convert(cx, &pool[i])?;
        cx.seen_bytes(&pool[i].enc(), true);
        for j in i..pool.len() {
            pair(cx, &pool[i], &pool[j])?
        }
    }
    Ok(())
}

/// built values against read ones
fn built(cx: &mut Cx) -> Result<(), String> {
    macro_rules! eq {
        ($what:expr, $read:expr, $built:expr, $b:expr, $c:expr) => {{
            let same = $b == $c;
            ck!(($read == $built) == same, "{} read from {} against the one built for {}: compares as {}", $what, hex(&$b), hex(&$c), if same { "different" } else { "equal" });
            ck!(($built == $read) == same, "{} built for {} against the one read from {}: compares otherwise", $what, hex(&$c), hex(&$b));
            cx.count("built values compared");
        }};
    }
    let n = cx.g.below(30);
    let t = cx.g.text_n(n);
    let s = cx.g.rechunk(t.as_bytes(), true);
    let (b, c) = (It::Text(s.clone()).enc(), It::text(&t).enc());
    cx.input(&b);
    let r = Reader::new(&b).text().map_err(|e| format!("{:?}", e))?;
    eq!("text", r, Text::from_str(&t), b, c);
    eq!("owned text", r.owned(), TextOwned::from_string(t.clone()), b, c);
    let ch: Vec<&str> = r.to_str_chunks();
    let again = Text::Chunks(ch.iter().map(|x| TextData::from_str(x)).collect());
    let cc = wr(|w| w.text(&again));
    eq!("chunked text", r, again, b, cc);
    let s = cx.g.rechunk(t.as_bytes(), false);
    let (b, c) = (It::Bytes(s.clone()).enc(), It::bytes(t.as_bytes()).enc());
    let r = Reader::new(&b).bytes().map_err(|e| format!("{:?}", e))?;
    eq!("bytes", r, Bytes::from_slice(t.as_bytes()), b, c);
    eq!("owned bytes", r.owned(), BytesOwned::from_vec(t.as_bytes().to_vec()), b, c);
    let v = cx.g.uint();
    let u = if cx.g.p(1, 2) { v } else { cx.g.uint() };
    let w = cx.g.width(v, false);
    let (b, c) = (It::Pos(w, v).enc(), It::pos(u).enc());
    eq!("positive", Reader::new(&b).positive().map_err(|e| format!("{:?}", e))?, Positive::canonical(u), b, c);
    let tag = It::Tag(w, v, Box::new(It::null())).enc();
    let (b, c) = (tag.clone(), It::tag(u, It::null()).enc());
    eq!("tag value", Reader::new(&tag).tag().map_err(|e| format!("{:?}", e))?.tag_repr(), TagValue::from_u64(u), b, c);
    cx.seen(hash_bytes(&tag) ^ hash_bytes(t.as_bytes()), true);
    Ok(())
}

/// the tagged types: equal exactly when their encodings are; clones
fn tagged(cx: &mut Cx) -> Result<(), String> {
    use mon::typ::Typ;
    fn go<T: Typ + Clone + PartialEq>(cx: &mut Cx) -> Result<(), String> {
        let mut pool: Vec<It> = vec![];
        for _ in 0..2 {
            let v = T::sch().arb(&mut cx.g, 3);
            pool.extend(v.iter().map(|i| cx.g.reencode_valid(i)));
            pool.extend(v);
        }
        for k in 0..4 {
            let mut x = pool[k].clone();
            tweak(&mut x, &mut cx.g);
            pool.push(x);
        }
        let mut got = vec![];
        for i in &pool {
            let b = i.enc();
            if let Ok(v) = decode_from_bytes::<T>(&b) {
                got.push((b, v))
            }
        }
        cx.input(&pool[0].enc());
        for (b, v) in &got {
            for (c, u) in &got {
                let same = b == c;
                ck!((v == u) == same && (v != u) != same, "{} of {} and {} compare as {}", T::name(), hex(b), hex(c), if same { "different" } else { "equal" });
                let mut w = u.clone();
                w.clone_from(v);
                ck!(w == *v && encode_to_bytes(&w) == *b, "{} of {} cloned over that of {} writes {}", T::name(), hex(b), hex(c), hex(&encode_to_bytes(&w)));
                cx.count("tagged values compared");
            }
            let w = v.clone();
            ck!(w == *v && encode_to_bytes(&w) == *b, "{} of {} cloned writes {}", T::name(), hex(b), hex(&encode_to_bytes(&w)));
            cx.seen_bytes(b, true);
        }
        Ok(())
    }
    use cbored::tagged::*;
    match cx.idx % 6 {
        0 => go::<StandardDateTime>(cx),
        1 => go::<PositiveBignum>(cx),
        2 => go::<NegativeBignum>(cx),
        3 => go::<EncodedCBOR>(cx),
        _ => go::<RationalNumber>(cx),
    }
}

fn main() {
    run(&[
        ph("built", 40_000, 2_000_000, built),
        Phase { name: "representations", quick: 90, thorough: 90, f: representations, seeded: false },
        ph("trees", 25_000, 1_500_000, trees),
        ph("tagged", 30_000, 1_000_000, tagged),
        big!("big trees", 100, 4000, trees),
        big!("big built", 1000, 40000, built),
    ])
}
