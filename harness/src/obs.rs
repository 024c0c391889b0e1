//! What the crate's public accessors say about a value, as a model item.
use crate::refc::*;
use cbored::state::HeaderValue;
use cbored::*;

pub fn hv(h: HeaderValue) -> (W, u64) {
    match h {
        HeaderValue::Imm(v) => (W::I, v as u64),
        HeaderValue::U8(v) => (W::W1, v as u64),
        HeaderValue::U16(v) => (W::W2, v as u64),
        HeaderValue::U32(v) => (W::W4, v as u64),
        HeaderValue::U64(v) => (W::W8, v),
    }
}

pub fn to_hv(w: W, v: u64) -> HeaderValue {
    match w {
        W::I => HeaderValue::Imm(v as u8),
        W::W1 => HeaderValue::U8(v as u8),
        W::W2 => HeaderValue::U16(v as u16),
        W::W4 => HeaderValue::U32(v as u32),
        W::W8 => HeaderValue::U64(v),
    }
}

pub fn kind(t: Type) -> Kind {
    match t {
        Type::Positive => Kind::Pos,
        Type::Negative => Kind::Neg,
        Type::Bytes => Kind::Bytes,
        Type::Text => Kind::Text,
        Type::Array => Kind::Arr,
        Type::Map => Kind::Map,
        Type::Tag => Kind::Tag,
        Type::False => Kind::False,
        Type::True => Kind::True,
        Type::Null => Kind::Null,
        Type::Undefined => Kind::Undef,
        Type::Float => Kind::Float,
        Type::Byte => Kind::Byte,
        Type::Break => Kind::Break,
    }
}

type R<T> = Result<T, String>;

fn lenw(h: HeaderValue, n: usize, what: &str) -> R<W> {
    let (w, v) = hv(h);
    if v != n as u64 {
        return Err(format!("{} header says {} but there are {}", what, v, n));
    }
    Ok(w)
}

pub fn bytes(b: &Bytes) -> R<Str> {
    Ok(match b {
        Bytes::Imm(d) => Str::Def(lenw(d.value(), d.as_slice().len(), "bytes")?, d.as_slice().to_vec()),
        Bytes::Chunks(c) => Str::Ind(
            c.iter()
                .map(|d| Ok((lenw(d.value(), d.as_slice().len(), "bytes chunk")?, d.as_slice().to_vec())))
                .collect::<R<Vec<_>>>()?,
        ),
    })
}

pub fn bytes_owned(b: &BytesOwned) -> R<Str> {
    Ok(match b {
        BytesOwned::Imm(d) => Str::Def(lenw(d.value(), d.as_slice().len(), "bytes")?, d.as_slice().to_vec()),
        BytesOwned::Chunks(c) => Str::Ind(
            c.iter()
                .map(|d| Ok((lenw(d.value(), d.as_slice().len(), "bytes chunk")?, d.as_slice().to_vec())))
                .collect::<R<Vec<_>>>()?,
        ),
    })
}

fn tx(s: &str) -> R<Vec<u8>> {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        return Err("handed out a str that is not valid UTF-8".into());
    }
    Ok(s.as_bytes().to_vec())
}

pub fn text(b: &Text) -> R<Str> {
    Ok(match b {
        Text::Imm(d) => Str::Def(lenw(d.value(), d.as_str().len(), "text")?, tx(d.as_str())?),
        Text::Chunks(c) => Str::Ind(
            c.iter()
                .map(|d| Ok((lenw(d.value(), d.as_str().len(), "text chunk")?, tx(d.as_str())?)))
                .collect::<R<Vec<_>>>()?,
        ),
    })
}

pub fn text_owned(b: &TextOwned) -> R<Str> {
    Ok(match b {
        TextOwned::Imm(d) => Str::Def(lenw(d.value(), d.as_str().len(), "text")?, tx(d.as_str())?),
        TextOwned::Chunks(c) => Str::Ind(
            c.iter()
                .map(|d| Ok((lenw(d.value(), d.as_str().len(), "text chunk")?, tx(d.as_str())?)))
                .collect::<R<Vec<_>>>()?,
        ),
    })
}

pub fn slen(l: StructureLength, n: usize, what: &str) -> R<Len> {
    Ok(match l {
        StructureLength::Indefinite => Len::Ind,
        StructureLength::Definite(h) => Len::Def(lenw(h, n, what)?),
    })
}

pub fn pos(p: Positive) -> It {
    let (w, v) = hv(p.raw_value());
    It::Pos(w, v)
}
pub fn neg(p: Negative) -> It {
    let (w, v) = hv(p.raw_value());
    It::Neg(w, v)
}
pub fn scalar(s: Scalar) -> It {
    match s {
        Scalar::Positive(p) => pos(p),
        Scalar::Negative(n) => neg(n),
    }
}
pub fn byte(b: Byte) -> It {
    let v = b.to_u8();
    if v < 20 && b == Byte::canonical(v) {
        It::S1(v)
    } else {
        It::S2(v)
    }
}
pub fn float(f: Float) -> It {
    match f {
        Float::FP16(v) => It::F16(v),
        Float::FP32(v) => It::F32(v),
        Float::FP64(v) => It::F64(v),
    }
}
pub fn constant(c: Constant) -> It {
    It::S1(match c {
        Constant::False => 20,
        Constant::True => 21,
        Constant::Null => 22,
        Constant::Undefined => 23,
    })
}

/// everything a reader over exactly one item exposes, recursively
pub fn whole(mut r: Reader) -> R<It> {
    let d = r.data().map_err(|e| format!("element does not read: {:?}", e))?;
    if !r.is_finished() {
        return Err(format!("element has {} trailing bytes", r.remaining_bytes()));
    }
    data(&d)
}

pub fn array(a: &Array) -> R<It> {
    let items = a.iter().map(whole).collect::<R<Vec<_>>>()?;
    Ok(It::Arr(slen(a.struct_len(), items.len(), "array")?, items))
}
pub fn array_owned(a: &ArrayOwned) -> R<It> {
    let items = a.iter().map(whole).collect::<R<Vec<_>>>()?;
    Ok(It::Arr(slen(a.struct_len(), items.len(), "array")?, items))
}
pub fn map(m: &Map) -> R<It> {
    let items = m.iter().map(|(k, v)| Ok((whole(k)?, whole(v)?))).collect::<R<Vec<_>>>()?;
    Ok(It::Map(slen(m.struct_len(), items.len(), "map")?, items))
}
pub fn map_owned(m: &MapOwned) -> R<It> {
    let items = m.iter().map(|(k, v)| Ok((whole(k)?, whole(v)?))).collect::<R<Vec<_>>>()?;
    Ok(It::Map(slen(m.struct_len(), items.len(), "map")?, items))
}
pub fn tag(t: &Tag) -> R<It> {
    let (w, v) = hv(t.tag_repr().raw_value());
    if v != t.value() {
        return Err(format!("tag value {} is not its raw value {}", t.value(), v));
    }
    Ok(It::Tag(w, v, Box::new(whole(t.reader())?)))
}
pub fn tag_owned(t: &TagOwned) -> R<It> {
    let (w, v) = hv(t.tag_repr().raw_value());
    if v != t.value() {
        return Err(format!("tag value {} is not its raw value {}", t.value(), v));
    }
    Ok(It::Tag(w, v, Box::new(whole(t.read_data())?)))
}

pub fn data(d: &Data) -> R<It> {
    Ok(match d {
        Data::Positive(p) => pos(*p),
        Data::Negative(p) => neg(*p),
        Data::Float(f) => float(*f),
        Data::Byte(b) => byte(*b),
        Data::Bytes(b) => It::Bytes(bytes(b)?),
        Data::Text(t) => It::Text(text(t)?),
        Data::Array(a) => array(a)?,
        Data::Map(m) => map(m)?,
        Data::Tag(t) => tag(t)?,
        Data::True => It::S1(21),
        Data::False => It::S1(20),
        Data::Null => It::S1(22),
        Data::Undefined => It::S1(23),
    })
}

pub fn data_owned(d: &DataOwned) -> R<It> {
    Ok(match d {
        DataOwned::Positive(p) => pos(*p),
        DataOwned::Negative(p) => neg(*p),
        DataOwned::Float(f) => float(*f),
        DataOwned::Byte(b) => byte(*b),
        DataOwned::Bytes(b) => It::Bytes(bytes_owned(b)?),
        DataOwned::Text(t) => It::Text(text_owned(t)?),
        DataOwned::Array(a) => array_owned(a)?,
        DataOwned::Map(m) => map_owned(m)?,
        DataOwned::Tag(t) => tag_owned(t)?,
        DataOwned::True => It::S1(21),
        DataOwned::False => It::S1(20),
        DataOwned::Null => It::S1(22),
        DataOwned::Undefined => It::S1(23),
    })
}

pub fn wdata(d: &Data) -> Vec<u8> {
    let mut w = Writer::new();
    w.data(d);
    w.finalize()
}

/// (part, needed, available) of a missing data error
pub fn missing(e: &cbored::validate::CborDataMissing) -> (Part, u64, u64) {
    let p = match format!("{:?}", e.context).as_str() {
        "Header" => Part::Header,
        "IndirectLen" => Part::Length,
        _ => Part::Content,
    };
    (p, e.expecting_bytes as u64, e.got_bytes as u64)
}
