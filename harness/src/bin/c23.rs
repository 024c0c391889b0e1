//! C23: accessors report exactly the encoded content
use cbored::*;
use mon::gen::*;
use mon::obs;
use mon::refc::*;
use mon::rt::*;
use mon::*;
use std::borrow::Borrow;
use std::cell::RefCell;

#[global_allocator]
static A: Counting = Counting;

fn rest(r: &Reader) -> usize {
    r.remaining_bytes()
}

/// a reader over exactly these bytes
fn over(r: Reader, want: &[u8], what: &str) -> Result<(), String> {
    ck!(rest(&r) == want.len() && r.consumed_bytes() == 0, "{}: a reader over {} bytes (at {}) instead of {}", what, rest(&r), r.consumed_bytes(), hex(want));
    // what it reads is checked through the raw item
    let mut r = r;
    match r.exact_decodable_slice::<Raw>() {
        Ok(s) => ck!(s.untype().as_ref() == want, "{}: a reader over {} instead of {}", what, hex(s.untype().as_ref()), hex(want)),
        Err(e) => return Err(format!("{}: a reader over {} reports {:?}", what, hex(want), e)),
    }
    Ok(())
}

/// accepts anything, reading nothing of what it holds
struct Raw(Vec<u8>);
impl Decode for Raw {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        let n = r.remaining_bytes();
        let t = r.peek_type().map_err(|e| DecodeErrorKind::ReaderError(e).context_str("raw"))?;
        let x = match t {
            Type::Array => r.array().map(|_| ()),
            Type::Map => r.map().map(|_| ()),
            Type::Tag => r.tag().map(|_| ()),
            _ => r.data().map(|_| ()),
        };
        x.map_err(|e| DecodeErrorKind::ReaderError(e).context_str("raw"))?;
        Ok(Raw(vec![0; n - r.remaining_bytes()]))
    }
}

fn slen(cx: &mut Cx, l: StructureLength, want: &Len, n: usize, what: &str) -> Result<(), String> {
    let got = match l {
        StructureLength::Indefinite => Len::Ind,
        StructureLength::Definite(h) => {
            let (w, v) = obs::hv(h);
            ck!(v == n as u64, "{}: length {} encoded as {}", what, n, v);
            ck!(h.to_u64() == n as u64, "{}: header value {} of length {}", what, h.to_u64(), n);
            Len::Def(w)
        }
    };
    ck!(got == *want, "{}: length encoding {:?} instead of {:?}", what, got, want);
    ck!(l.is_indefinite() == (*want == Len::Ind), "{}: is_indefinite of {:?}", what, want);
    cx.count("lengths and encodings");
    Ok(())
}

/// an iterator over n elements, moved about: what it gives is what stands there
fn walk<T, I: Iterator<Item = T>>(cx: &mut Cx, what: &str, n: usize, make: impl Fn() -> I, is: impl Fn(T, usize) -> Result<(), String>) -> Result<(), String> {
    let hint = |i: &I, pos: usize| -> Result<(), String> {
        let (lo, hi) = i.size_hint();
        ck!(lo <= n - pos && hi.map(|h| h >= n - pos).unwrap_or(true), "{}: an iterator at {} of {} announces {}..{:?}", what, pos, n, lo, hi);
        Ok(())
    };
    let mut i = make();
    let mut pos = 0;
    for _ in 0..6 {
        hint(&i, pos)?;
        match cx.g.below(4) {
            0 | 1 => match i.next() {
                Some(x) => {
                    ck!(pos < n, "{}: an iterator gives more than {}", what, n);
                    is(x, pos)?;
                    pos += 1
                }
                None => {
                    ck!(pos == n, "{}: an iterator ends at {} of {}", what, pos, n);
                    break;
                }
            },
            2 => {
                let k = cx.g.below(4);
                match i.nth(k) {
                    Some(x) => {
                        ck!(pos + k < n, "{}: an iterator gives more than {}", what, n);
                        is(x, pos + k)?;
                        pos += k + 1
                    }
                    None => {
                        ck!(pos + k >= n, "{}: an iterator at {} of {} has nothing {} further", what, pos, n, k);
                        pos = n;
                        break;
                    }
                }
            }
            _ => {
                let k = cx.g.below(3);
                for x in i.by_ref().take(k) {
                    ck!(pos < n, "{}: an iterator gives more than {}", what, n);
                    is(x, pos)?;
                    pos += 1
                }
            }
        }
    }
    let left = i.count();
    ck!(left == n - pos, "{}: an iterator at {} of {} counts {} left", what, pos, n, left);
    match make().last() {
        Some(x) => is(x, n.wrapping_sub(1))?,
        None => ck!(n == 0, "{}: the last of {} is missing", what, n),
    }
    let (k, s) = (cx.g.below(4), 1 + cx.g.below(3));
    let mut at = k;
    for x in make().skip(k).step_by(s) {
        ck!(at < n, "{}: skip and step_by give too many", what);
        is(x, at)?;
        at += s;
    }
    ck!(at >= n, "{}: skip({}) and step_by({}) end at {} of {}", what, k, s, at, n);
    let r = make().fold(Ok(0), |a: Result<usize, String>, x| {
        let a = a?;
        is(x, a)?;
        Ok(a + 1)
    })?;
    ck!(r == n, "{}: fold goes over {} of {}", what, r, n);
    let v: Vec<T> = make().collect();
    ck!(v.len() == n, "{}: collects {} of {}", what, v.len(), n);
    for (j, x) in v.into_iter().enumerate() {
        is(x, j)?
    }
    cx.count("iterators moved about");
    Ok(())
}

macro_rules! array_acc {
    ($cx:ident, $a:expr, $l:expr, $e:expr, $at:expr, $what:expr) => {{
        let (a, l, e) = ($a, $l, $e);
        let what = $what;
        ck!(a.len() == e.len(), "{}: len {} instead of {}", what, a.len(), e.len());
        slen($cx, a.struct_len(), l, e.len(), what)?;
        for i in 0..e.len() {
            let x: &[u8] = $at(&a, i);
            ck!(x == &e[i][..], "{}: [{}] is {} instead of {}", what, i, hex(x), hex(&e[i]));
        }
        let k = $cx.g.below(3);
        ck!(nopanic(|| $at(&a, e.len() + k).to_vec()).is_err(), "{}: [{}] gives an element", what, e.len() + k);
        for _ in 0..2 {
            ck!(a.iter().count() == e.len(), "{}: {} elements iterated instead of {}", what, a.iter().count(), e.len());
            for (i, r) in a.iter().enumerate() {
                over(r, &e[i], what)?;
            }
        }
        if !e.is_empty() {
            let i = $cx.g.below(e.len());
            over(a.iter().nth(i).ok_or("nth gives nothing")?, &e[i], what)?;
            over(a.iter().skip(i).next().ok_or("skip gives nothing")?, &e[i], what)?;
        }
        walk($cx, what, e.len(), || a.iter(), |r, i| match e.get(i) {
            Some(x) => over(r, x, what),
            None => Err(format!("{}: an element past the end", what)),
        })?;
        // element-wise, all and with one that fails
        let stop = if $cx.g.p(1, 3) { $cx.g.below(e.len() + 1) } else { e.len() };
        let seen = RefCell::new(vec![]);
        let v = a.to_vec(|r: &mut Reader| {
            let n = seen.borrow().len();
            seen.borrow_mut().push(rest(r));
            if n == stop {
                return Err(DecodeErrorKind::Custom(format!("stop {}", n)));
            }
            let x = r.exact_decodable_slice::<Raw>().map_err(|e| e.error().clone())?;
            let x = x.untype();
            Ok(Keep(x.as_ref().to_vec()))
        });
        let called = if stop < e.len() { stop + 1 } else { e.len() };
        let want: Vec<usize> = e[..called].iter().map(|x| x.len()).collect();
        ck!(*seen.borrow() == want, "{}: to_vec called over elements of {:?} bytes instead of {:?}", what, seen.borrow(), want);
        match v {
            Ok(v) => ck!(stop >= e.len() && v.iter().map(|k| &k.0).eq(e.iter()), "{}: to_vec gives {} elements, or others", what, v.len()),
            Err(x) => ck!(stop < e.len() && format!("{:?}", x).contains(&format!("stop {}", stop)), "{}: to_vec fails with {:?}", what, x),
        }
        $cx.add("elements looked at", e.len() as u64 * 4);
    }};
}

/// what a closure made of an element
struct Keep(Vec<u8>);
impl Decode for Keep {
    fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Err(DecodeErrorKind::Custom("not to be used".into()).context::<Self>())
    }
}

macro_rules! map_acc {
    ($cx:ident, $a:expr, $l:expr, $e:expr, $what:expr) => {{
        let (a, l, e) = ($a, $l, $e);
        let what = $what;
        ck!(a.len() == e.len(), "{}: len {} instead of {}", what, a.len(), e.len());
        slen($cx, a.struct_len(), l, e.len(), what)?;
        ck!(a.iter().count() == e.len() && a.keys().count() == e.len() && a.values().count() == e.len(), "{}: wrong number of entries iterated", what);
        for (i, (k, v)) in a.iter().enumerate() {
            over(k, &e[i].0, what)?;
            over(v, &e[i].1, what)?;
        }
        for (i, (k, v)) in a.keys().zip(a.values()).enumerate() {
            over(k, &e[i].0, what)?;
            over(v, &e[i].1, what)?;
        }
        let at = |i: usize| e.get(i).ok_or_else(|| format!("{}: an entry past the end", what));
        walk($cx, what, e.len(), || a.iter(), |(k, v), i| over(k, &at(i)?.0, what).and_then(|_| over(v, &at(i)?.1, what)))?;
        walk($cx, what, e.len(), || a.keys(), |k, i| over(k, &at(i)?.0, what))?;
        walk($cx, what, e.len(), || a.values(), |k, i| over(k, &at(i)?.1, what))?;
        let stop = if $cx.g.p(1, 3) { $cx.g.below(2 * e.len() + 1) } else { 2 * e.len() };
        let seen = RefCell::new(vec![]);
        let take = |key: bool| {
            let seen = &seen;
            move |r: &mut Reader| {
                let n = seen.borrow().len();
                seen.borrow_mut().push((key, rest(r)));
                if n == stop {
                    return Err(DecodeErrorKind::Custom(format!("stop {}", n)));
                }
                let x = r.exact_decodable_slice::<Raw>().map_err(|e| e.error().clone())?;
                let x = x.untype();
                Ok(Keep(x.as_ref().to_vec()))
            }
        };
        let v = a.to_vec(take(true), take(false));
        let mut want = vec![];
        for (k, v) in e {
            want.push((true, k.len()));
            want.push((false, v.len()))
        }
        want.truncate(stop + 1);
        ck!(*seen.borrow() == want, "{}: to_vec called over {:?} instead of {:?}", what, seen.borrow(), want);
        match v {
            Ok(v) => ck!(stop >= 2 * e.len() && v.len() == e.len() && v.iter().zip(e).all(|(x, y)| x.0 .0 == y.0 && x.1 .0 == y.1), "{}: to_vec gives {} entries, or others", what, v.len()),
            Err(x) => ck!(stop < 2 * e.len() && format!("{:?}", x).contains(&format!("stop {}", stop)), "{}: to_vec fails with {:?}", what, x),
        }
        $cx.add("elements looked at", e.len() as u64 * 6);
    }};
}

fn bytes(cx: &mut Cx, b: &Bytes, s: &Str, what: &str) -> Result<(), String> {
    let c = s.content();
    ck!(b.len() == c.len(), "{}: len {} instead of {}", what, b.len(), c.len());
    ck!(b.to_vec() == c, "{}: content {} instead of {}", what, hex(&b.to_vec()), hex(&c));
    let x = obs::bytes(b)?;
    ck!(x == *s, "{}: chunks {:?}", what, x);
    let chunks: Vec<&BytesData> = match b {
        Bytes::Imm(d) => vec![d],
        Bytes::Chunks(v) => v.iter().collect(),
    };
    for (d, c) in chunks.iter().zip(s.chunks()) {
        ck!(d.as_slice() == c && d.value().to_u64() == c.len() as u64, "{}: a chunk is {}", what, hex(d.as_slice()));
        let o = d.owned();
        ck!(o.as_slice() == c && o.value() == d.value() && o.borrow().as_slice() == c, "{}: an owned chunk differs", what);
    }
    cx.add("chunks looked at", chunks.len() as u64);
    Ok(())
}

fn text(cx: &mut Cx, b: &Text, s: &Str, what: &str) -> Result<(), String> {
    let c = s.content();
    ck!(b.to_string().as_bytes() == c, "{}: content {} instead of {}", what, hex(b.to_string().as_bytes()), hex(&c));
    let l: Vec<&[u8]> = b.to_str_chunks().into_iter().map(|x| x.as_bytes()).collect();
    ck!(l == s.chunks(), "{}: chunk list {:?}", what, l);
    let x = obs::text(b)?;
    ck!(x == *s, "{}: chunks {:?}", what, x);
    let chunks: Vec<&TextData> = match b {
        Text::Imm(d) => vec![d],
        Text::Chunks(v) => v.iter().collect(),
    };
    for (d, c) in chunks.iter().zip(s.chunks()) {
        let a: &&str = d.as_ref();
        ck!(d.as_str().as_bytes() == c && a.as_bytes() == c && d.value().to_u64() == c.len() as u64, "{}: a chunk is {:?}", what, d.as_str());
        let o = d.owned();
        ck!(o.as_str().as_bytes() == c && o.value() == d.value() && o.borrow().as_str().as_bytes() == c, "{}: an owned chunk differs", what);
    }
    cx.add("chunks looked at", chunks.len() as u64);
    Ok(())
}

fn look(cx: &mut Cx, it: &It, deep: usize) -> Result<(), String> {
    let b = it.enc();
    cx.input(&b);
    let fail = |e: ReaderError| format!("{} does not read: {:?}", hex(&b), e);
    let mut r = Reader::new(&b);
    match it {
        It::Bytes(s) => {
            let v = r.bytes().map_err(fail)?;
            bytes(cx, &v, s, "bytes")?;
            let o = v.owned();
            let x = obs::bytes_owned(&o)?;
            ck!(x == *s, "owned bytes: chunks {:?}", x);
            bytes(cx, &o.borrow(), s, "owned bytes")?;
        }
        It::Text(s) => {
            let v = r.text().map_err(fail)?;
            text(cx, &v, s, "text")?;
            let o = v.owned();
            let x = obs::text_owned(&o)?;
            ck!(x == *s, "owned text: chunks {:?}", x);
            text(cx, &o.borrow(), s, "owned text")?;
        }
        It::Arr(l, v) => {
            let e: Vec<Vec<u8>> = v.iter().map(|i| i.enc()).collect();
            let a = r.array().map_err(fail)?;
            array_acc!(cx, &a, l, &e, at, "array");
            let o = a.owned();
            array_acc!(cx, &o, l, &e, at_owned, "owned array");
            let a2 = o.borrow();
            array_acc!(cx, &a2, l, &e, at, "array, owned and borrowed");
            // a builder given the same elements
            let mut bl = ArrayBuilder::new();
            for i in 0..a.len() {
                bl.append(o[i].clone())
            }
            let (bo, bl2) = if cx.g.p(1, 2) { (bl.finite(), Len::Def(W::min(e.len() as u64))) } else { (bl.indefinite(), Len::Ind) };
            array_acc!(cx, &bo, &bl2, &e, at_owned, "built array");
        }
        It::Map(l, v) => {
            let e: Vec<(Vec<u8>, Vec<u8>)> = v.iter().map(|(k, i)| (k.enc(), i.enc())).collect();
            let a = r.map().map_err(fail)?;
            let idx = |a: &Map, what: &str| -> Result<(), String> {
                for i in 0..e.len() {
                    let (k, x) = a[i];
                    ck!(k.as_ref() == e[i].0 && x.as_ref() == e[i].1, "{}: [{}] is {} and {}", what, i, hex(k.as_ref()), hex(x.as_ref()));
                }
                ck!(nopanic(|| a[e.len()].0.as_ref().len()).is_err(), "{}: [{}] gives an entry", what, e.len());
                Ok(())
            };
            idx(&a, "map")?;
            map_acc!(cx, &a, l, &e, "map");
            let o = a.owned();
            map_acc!(cx, &o, l, &e, "owned map");
            let a2 = o.borrow();
            idx(&a2, "map, owned and borrowed")?;
            map_acc!(cx, &a2, l, &e, "map, owned and borrowed");
        }
        It::Tag(w, t, c) => {
            let e = c.enc();
            let a = r.tag().map_err(fail)?;
            let hv = |v: TagValue, what: &str| -> Result<(), String> {
                ck!(obs::hv(v.raw_value()) == (*w, *t) && v.to_u64() == *t, "{}: raw value {:?} of tag {} in width {:?}", what, v.raw_value(), t, w);
                Ok(())
            };
            hv(a.tag_repr(), "tag")?;
            ck!(a.value() == *t && a.data().as_ref() == e, "tag: value {} content {}", a.value(), hex(a.data().as_ref()));
            over(a.reader(), &e, "tag")?;
            let o = a.owned();
            hv(o.tag_repr(), "owned tag")?;
            ck!(o.value() == *t, "owned tag: value {}", o.value());
            let od: &CborSlice = o.data().borrow();
            ck!(od.as_ref() == e, "owned tag: content {}", hex(od.as_ref()));
            over(o.read_data(), &e, "owned tag")?;
            let a2 = o.borrow();
            hv(a2.tag_repr(), "tag, owned and borrowed")?;
            ck!(a2.value() == *t && a2.data().as_ref() == e, "tag, owned and borrowed: value {} content {}", a2.value(), hex(a2.data().as_ref()));
            let got = a.read_data(|r| {
                let n = rest(r);
                let x = r.exact_decodable_slice::<Raw>();
                Ok((n, x.map(|x| x.untype().as_ref().to_vec()).ok()))
            });
            ck!(matches!(&got, Ok((n, Some(x))) if *n == e.len() && *x == e), "tag: read_data over {:?}", got.map_err(|e| format!("{:?}", e)));
            cx.count("tags looked at");
        }
        It::Pos(w, v) => {
            let p = r.positive().map_err(fail)?;
            ck!(obs::hv(p.raw_value()) == (*w, *v) && p.to_u64() == *v, "positive: raw value {:?}", p.raw_value());
        }
        It::Neg(w, v) => {
            let p = r.negative().map_err(fail)?;
            ck!(obs::hv(p.raw_value()) == (*w, *v) && p.negative_u64() == *v, "negative: raw value {:?}", p.raw_value());
        }
        _ => {
            let d = r.data().map_err(fail)?;
            let x = obs::data(&d)?;
            ck!(x == *it, "exposes {:?} for {:?}", x, it);
        }
    }
    cx.seen_bytes(&b, it.size() > 1 || it.noncanonical());
    if deep > 0 {
        match it {
            It::Arr(_, v) => v.iter().try_for_each(|i| look(cx, i, deep - 1))?,
            It::Map(_, v) => v.iter().try_for_each(|(k, i)| look(cx, k, deep - 1).and_then(|_| look(cx, i, deep - 1)))?,
            It::Tag(_, _, c) => look(cx, c, deep - 1)?,
            _ => {}
        }
    }
    Ok(())
}

fn at<'a>(a: &'a Array, i: usize) -> &'a [u8] {
    a[i].as_ref()
}
fn at_owned(a: &ArrayOwned, i: usize) -> &[u8] {
    a[i].as_ref()
}

fn trees(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 1 + cx.g.below(4), size: 2 + cx.g.below(40), ..Opt::std() };
    let it = if cx.g.p(3, 4) { cx.g.container(&o) } else { cx.g.item(&o) };
    look(cx, &it, 3)?;
    cx.sample(|| hex(&it.enc()));
    Ok(())
}
fn strings(cx: &mut Cx) -> Result<(), String> {
    let text = cx.g.p(1, 2);
    let n = match cx.g.below(8) {
        0 => 65530 + cx.g.below(12),
        1 => 250 + cx.g.below(12),
        _ => cx.g.below(60),
    };
    let s = if text {
        let t = cx.g.text_n(n);
        cx.g.rechunk(t.as_bytes(), true)
    } else {
        let b = cx.g.bytes_n(n);
        cx.g.rechunk(&b, false)
    };
    look(cx, &if text { It::Text(s) } else { It::Bytes(s) }, 0)
}
/// every number of elements around the header widths, in every width
fn wide(cx: &mut Cx) -> Result<(), String> {
    let ns = [0usize, 1, 2, 3, 22, 23, 24, 25, 31, 32, 63, 64, 65, 254, 255, 256, 257, 1000];
    let n = ns[cx.idx as usize / 12 % ns.len()];
    let k = cx.idx as usize % 12;
    let l = match k % 6 {
        5 => Len::Ind,
        i if WS[i] >= W::min(n as u64) => Len::Def(WS[i]),
        _ => Len::Ind,
    };
    let mut el = |i: usize| {
        if cx.g.p(1, 8) {
            let o = Opt { depth: 1, size: 3, ..Opt::std() };
            cx.g.item(&o)
        } else {
            It::pos(i as u64)
        }
    };
    let it = if k < 6 { It::Arr(l, (0..n).map(|i| el(i)).collect()) } else { It::Map(l, (0..n).map(|i| (el(i), el(i + 1))).collect()) };
    look(cx, &it, 0)
}

fn main() {
    run(&[
        ph("wide", 12 * 18, 12 * 18 * 100, wide),
        ph("trees", 40_000, 3_000_000, trees),
        ph("strings", 20_000, 800_000, strings),
        big!("big trees", 250, 10000, trees),
        big!("big strings", 1500, 60000, strings),
    ])
}
