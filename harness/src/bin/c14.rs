//! C14: typed exact data holds exactly one valid value and keeps its bytes
use cbored::*;
use mon::gen::*;
use mon::refc::*;
use mon::rt::*;
use mon::typ::*;
use mon::*;
use std::borrow::Borrow;

#[global_allocator]
static A: Counting = Counting;

fn wr(f: impl FnOnce(&mut Writer)) -> Vec<u8> {
    let mut w = Writer::new();
    f(&mut w);
    w.finalize()
}

/// exact data that was obtained: what it has to be, through all conversions
fn held<T: Typ>(cx: &mut Cx, what: &str, d: &CborDataOf<T>, b: &[u8], layout: &[It]) -> Result<(), String> {
    let same = |x: &[u8], how: &str| -> Result<(), String> {
        ck!(x == b, "{} of {} {}: bytes {} instead of {}", what, T::name(), how, hex(x), hex(b));
        Ok(())
    };
    same(d.as_ref(), "as_ref")?;
    for _ in 0..2 {
        let v = nopanic(|| d.unserialize()).map_err(|e| format!("{} of {} from {}: decoding later fails: {}", what, T::name(), hex(b), e))?;
        ck!(v.items() == layout, "{} of {} from {}: decoding later gives {:?} instead of {:?}", what, T::name(), hex(b), v.items(), layout);
        cx.count("decoded later, value compared");
    }
    same(&wr(|w| w.encode(d)), "written")?;
    same(&encode_to_bytes(d), "encoded")?;
    let c = d.clone();
    same(c.as_ref(), "cloned")?;
    let s: &CborSliceOf<T> = d.borrow();
    slice(cx, what, s, b, layout)?;
    let u = c.untype();
    same(u.as_ref(), "untyped")?;
    same(&encode_to_bytes(&u), "untyped and written")?;
    let back = u.decode::<T>().map_err(|e| format!("{} of {} untyped does not decode: {:?}", what, T::name(), e))?;
    ck!(back.items() == layout, "{} of {} untyped decodes otherwise", what, T::name());
    let again = u.validate_as::<T>().map_err(|e| format!("{} of {} untyped does not validate: {:?}", what, T::name(), e))?;
    same(again.as_ref(), "untyped and validated")?;
    ck!(again.unserialize().items() == layout, "{} of {} untyped and validated decodes otherwise", what, T::name());
    cx.add("conversions compared", 10);
    Ok(())
}

/// copied over other data: shorter, longer, of the same length
fn over<T: Typ>(cx: &mut Cx, d: &CborDataOf<T>, b: &[u8]) -> Result<(), String> {
    for k in 0..3 {
        let v = T::sch().arb(&mut cx.g, if k == 0 { 0 } else { 3 });
        let Ok(v) = Reader::new(&enc_all(&v)).decode::<T>() else { continue };
        let mut c = CborDataOf::<T>::from(&v);
        let was = hex(c.as_ref());
        for _ in 0..2 {
            c.clone_from(d);
            ck!(c.as_ref() == b && c.clone().as_ref() == b && c.clone().untype().as_ref() == b, "exact data of {} {} cloned over {} has the bytes {}", T::name(), hex(b), was, hex(c.as_ref()));
        }
        let s: &CborSliceOf<T> = d.borrow();
        let mut c = CborDataOf::<T>::from(&v);
        s.clone_into(&mut c);
        ck!(c.as_ref() == b, "exact slice of {} {} cloned into {} has the bytes {}", T::name(), hex(b), was, hex(c.as_ref()));
        cx.count("cloned over other data");
    }
    Ok(())
}

fn slice<T: Typ>(cx: &mut Cx, what: &str, s: &CborSliceOf<T>, b: &[u8], layout: &[It]) -> Result<(), String> {
    let same = |x: &[u8], how: &str| -> Result<(), String> {
        ck!(x == b, "{} slice of {} {}: bytes {} instead of {}", what, T::name(), how, hex(x), hex(b));
        Ok(())
    };
    same(s.untype().as_ref(), "untyped")?;
    same(&wr(|w| w.encode(s)), "written")?;
    let o: CborDataOf<T> = s.to_owned();
    same(o.as_ref(), "owned")?;
    let v = nopanic(|| o.unserialize()).map_err(|e| format!("{} slice of {} from {}, owned: decoding fails: {}", what, T::name(), hex(b), e))?;
    ck!(v.items() == layout, "{} slice of {} from {}: decoding gives {:?} instead of {:?}", what, T::name(), hex(b), v.items(), layout);
    let v = s.untype().decode::<T>().map_err(|e| format!("{} slice of {} untyped does not decode: {:?}", what, T::name(), e))?;
    ck!(v.items() == layout, "{} slice of {} untyped decodes otherwise", what, T::name());
    let t = s.untype().validate_as::<T>().map_err(|e| format!("{} slice of {} untyped does not validate: {:?}", what, T::name(), e))?;
    same(t.untype().as_ref(), "validated again")?;
    cx.add("conversions compared", 7);
    Ok(())
}

fn check<T: Typ>(cx: &mut Cx, b: &[u8]) -> Result<bool, String> {
    cx.input(b);
    let sch = T::sch();
    let (items, ends) = leading_items(b);
    // by reading: exactly the first item
    let one = items.first().and_then(|i| sch.canon_whole(std::slice::from_ref(i))).map(|l| (ends[0], l));
    // all the bytes
    let all = if ends.last().copied().unwrap_or(0) == b.len() { sch.canon_whole(&items) } else { None };
    macro_rules! verdict {
        ($what:expr, $got:expr, $want:expr) => {{
            match (&$got, &$want) {
                (Ok(_), None) => return Err(format!("{} gives exact data of {} from {}", $what, T::name(), hex(b))),
                (Err(e), Some(_)) => return Err(format!("{} refuses exact data of {} from {}: {:?}", $what, T::name(), hex(b), e)),
                (Ok(_), Some(_)) => {
                    cx.count("obtained");
                }
                (Err(_), None) => cx.count("refused"),
            }
        }};
    }
    let mut r = Reader::new(b);
    let got = r.exact_decodable_slice::<T>();
    verdict!("exact_decodable_slice", got, one);
    if let (Ok(s), Some((n, l))) = (&got, &one) {
        ck!(r.consumed_bytes() == *n, "exact slice of {} uses {} bytes of {}", T::name(), r.consumed_bytes(), n);
        slice(cx, "exact_decodable_slice", s, &b[..*n], l)?;
        held(cx, "exact_decodable_slice to_owned", &(*s).to_owned(), &b[..*n], l)?;
    }
    let mut r = Reader::new(b);
    let got = r.exact_decodable_data::<T>();
    verdict!("exact_decodable_data", got, one);
    if let (Ok(s), Some((n, l))) = (&got, &one) {
        ck!(r.consumed_bytes() == *n, "exact data of {} uses {} bytes of {}", T::name(), r.consumed_bytes(), n);
        held(cx, "exact_decodable_data", s, &b[..*n], l)?;
        over(cx, s, &b[..*n])?;
        let d: &CborDataOf<T> = s;
        let e = encode_to_bytes(d);
        let again = decode_from_bytes::<CborDataOf<T>>(&e).map_err(|e| format!("exact data written does not decode: {:?}", e))?;
        held(cx, "written and decoded", &again, &b[..*n], l)?;
    }
    let mut r = Reader::new(b);
    let got = r.decode::<CborDataOf<T>>();
    verdict!("decode::<CborDataOf>", got, one);
    if let (Ok(s), Some((n, l))) = (&got, &one) {
        ck!(r.consumed_bytes() == *n, "decoding exact data of {} uses {} bytes of {}", T::name(), r.consumed_bytes(), n);
        held(cx, "decode::<CborDataOf>", s, &b[..*n], l)?;
    }
    // validation of arbitrary bytes: what a writer was given
    let d = Writer::new_from_vec(b.to_vec()).finalize_data();
    let got = d.validate_as::<T>();
    verdict!("CborData::validate_as", got, all);
    if let (Ok(s), Some(l)) = (&got, &all) {
        held(cx, "CborData::validate_as", s, b, l)?;
    }
    let c: &CborSlice = d.borrow();
    let got = c.validate_as::<T>();
    verdict!("CborSlice::validate_as", got, all);
    if let (Ok(s), Some(l)) = (&got, &all) {
        slice(cx, "CborSlice::validate_as", s, b, l)?;
    }
    // as an element of something: same as alone
    if let (Some(n), true) = (ends.first(), items.len() == 1) {
        let mut v = vec![0x82, 0x00];
        v.extend(&b[..*n]);
        let a = Reader::new(&v).array().map_err(|e| format!("{:?}", e))?;
        let got = a[1].validate_as::<T>();
        verdict!("validate_as of an element", got, one);
        if let (Ok(s), Some((n, l))) = (&got, &one) {
            slice(cx, "element", s, &b[..*n], l)?;
        }
    }
    // from a value
    if let Some((_, l)) = expect_decode::<T>(b) {
        let v = Reader::new(b).decode::<T>().map_err(|e| format!("{:?}", e))?;
        let d = CborDataOf::<T>::from(&v);
        let l2 = l.clone();
        held(cx, "from a value", &d, &enc_all(&l), &l2)?;
    }
    Ok(one.is_some() || all.is_some() || !items.is_empty())
}

fn near_t<T: Typ>(cx: &mut Cx) -> Result<(), String> {
    let mut b = try_bytes::<T>(&mut cx.g);
    if cx.g.p(1, 8) {
        let h = cx.g.hostile();
        b.extend(h)
    }
    let nt = check::<T>(cx, &b)?;
    cx.seen(hash_bytes(&b) ^ hash_bytes(T::name().as_bytes()), nt);
    cx.sample(|| format!("{} from {}", T::name(), hex(&b)));
    Ok(())
}
fn near(cx: &mut Cx) -> Result<(), String> {
    let k = cx.g.below(30);
    with_types!(k, near_t, cx)
}
/// user types that take nothing, or several items
fn odd(cx: &mut Cx) -> Result<(), String> {
    match cx.g.below(6) {
        0 => near_t::<Nothing>(cx),
        1 => near_t::<Two<u64, u64>>(cx),
        2 => near_t::<Two<Nothing, String>>(cx),
        3 => near_t::<Two<DataOwned, Two<u8, bool>>>(cx),
        4 => near_t::<VecOf<Two<Nothing, u8>>>(cx),
        _ => near_t::<CborDataOf<CborDataOf<u16>>>(cx),
    }
}
fn small_t<T: Typ>(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    check::<T>(cx, b).map(|_| ())
}
fn small(cx: &mut Cx) -> Result<(), String> {
    let b = exhaustive_alpha(cx.idx);
    for k in 0..30 {
        with_types!(k, small_t, cx, &b)?;
    }
    check::<Nothing>(cx, &b)?;
    check::<Two<u64, u64>>(cx, &b)?;
    cx.seen_bytes(&b, true);
    Ok(())
}

fn main() {
    run(&[
        Phase { name: "exhaustive-alphabet", quick: exhaustive_alpha_count(2), thorough: exhaustive_alpha_count(4), f: small, seeded: false },
        ph("near", 250_000, 12_000_000, near),
        ph("odd", 60_000, 3_000_000, odd),
        big!("big", 250, 10000, near),
    ])
}
