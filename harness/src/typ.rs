//! Decodable types with their schema and a view of their content that does not use `Encode`.
use crate::gen::Rng;
use crate::obs;
use crate::refc::*;
use crate::sch::*;
use cbored::tagged::*;
use cbored::*;

pub trait Typ: Decode + Encode + Sized + 'static {
    fn sch() -> Sch;
    /// documented layout of this value
    fn layout(&self, out: &mut Vec<It>);

    fn items(&self) -> Vec<It> {
        let mut v = vec![];
        self.layout(&mut v);
        v
    }
    fn name() -> &'static str {
        std::any::type_name::<Self>()
    }
}

macro_rules! uint {
    ($t:ty, $max:expr) => {
        impl Typ for $t {
            fn sch() -> Sch {
                Sch::U($max)
            }
            fn layout(&self, out: &mut Vec<It>) {
                out.push(It::pos(*self as u64))
            }
        }
    };
}
uint!(u8, 255);
uint!(u16, 65535);
uint!(u32, 4294967295);
uint!(u64, 18446744073709551615);

impl Typ for bool {
    fn sch() -> Sch {
        Sch::Bool
    }
    fn layout(&self, out: &mut Vec<It>) {
        out.push(It::bool(*self))
    }
}
impl Typ for String {
    fn sch() -> Sch {
        Sch::Text
    }
    fn layout(&self, out: &mut Vec<It>) {
        out.push(It::text(self))
    }
}
impl Typ for Vec<u8> {
    fn sch() -> Sch {
        Sch::Bytes
    }
    fn layout(&self, out: &mut Vec<It>) {
        out.push(It::bytes(self))
    }
}
impl<const N: usize> Typ for [u8; N] {
    fn sch() -> Sch {
        Sch::FixBytes(N)
    }
    fn layout(&self, out: &mut Vec<It>) {
        out.push(It::bytes(self))
    }
}
impl Typ for Scalar {
    fn sch() -> Sch {
        Sch::Scalar
    }
    fn layout(&self, out: &mut Vec<It>) {
        out.push(obs::scalar(*self))
    }
}
impl Typ for DataOwned {
    fn sch() -> Sch {
        Sch::Any
    }
    fn layout(&self, out: &mut Vec<It>) {
        // what it contains may hold text that is not valid: parse what is kept instead of reading it
        let b = match self {
            DataOwned::Array(a) => {
                let mut v = Vec::new();
                let items: Vec<It> = (0..a.len()).filter_map(|i| parse(a[i].as_ref()).map(|x| x.0)).collect();
                let l = match a.struct_len() {
                    StructureLength::Indefinite => Len::Ind,
                    StructureLength::Definite(h) => Len::Def(obs::hv(h).0),
                };
                It::Arr(l, items).enc_to(&mut v);
                parse(&v).map(|x| x.0)
            }
            DataOwned::Map(m) => {
                let b = m.borrow();
                let items: Vec<(It, It)> = (0..b.len())
                    .filter_map(|i| {
                        let (k, v) = b[i];
                        Some((parse(k.as_ref())?.0, parse(v.as_ref())?.0))
                    })
                    .collect();
                let l = match m.struct_len() {
                    StructureLength::Indefinite => Len::Ind,
                    StructureLength::Definite(h) => Len::Def(obs::hv(h).0),
                };
                Some(It::Map(l, items))
            }
            DataOwned::Tag(t) => {
                let (w, v) = obs::hv(t.tag_repr().raw_value());
                parse(t.data().as_ref()).map(|x| It::Tag(w, v, Box::new(x.0)))
            }
            d => obs::data_owned(d).ok(),
        };
        if let Some(b) = b {
            out.push(b)
        }
    }
}

impl<T: Typ> Typ for CborDataOf<T> {
    fn sch() -> Sch {
        Sch::Exact(Box::new(T::sch()))
    }
    fn layout(&self, out: &mut Vec<It>) {
        if let Some(v) = parse_all(self.as_ref()) {
            out.extend(v)
        }
    }
}

/// homogeneous vector, through `decode_vec` and `encode_vec`
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct VecOf<T>(pub Vec<T>);
impl<T: Decode> Decode for VecOf<T> {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        decode_vec(r).map(VecOf)
    }
}
impl<T: Encode> Encode for VecOf<T> {
    fn encode(&self, w: &mut Writer) {
        encode_vec(&self.0, w)
    }
}
impl<T: Typ> Typ for VecOf<T> {
    fn sch() -> Sch {
        Sch::Vec(Box::new(T::sch()))
    }
    fn layout(&self, out: &mut Vec<It>) {
        let mut v = vec![];
        for t in &self.0 {
            t.layout(&mut v)
        }
        out.push(It::arr(v))
    }
}

/// user types at the limits of what decoding can do: nothing at all, and two items
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Nothing;
impl Decode for Nothing {
    fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Nothing)
    }
}
impl Encode for Nothing {
    fn encode(&self, _: &mut Writer) {}
}
impl Typ for Nothing {
    fn sch() -> Sch {
        Sch::Unit
    }
    fn layout(&self, _: &mut Vec<It>) {}
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Two<A, B>(pub A, pub B);
impl<A: Decode, B: Decode> Decode for Two<A, B> {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        let a = r.decode()?;
        let b = r.decode()?;
        Ok(Two(a, b))
    }
}
impl<A: Encode, B: Encode> Encode for Two<A, B> {
    fn encode(&self, w: &mut Writer) {
        w.encode(&self.0);
        w.encode(&self.1)
    }
}
impl<A: Typ, B: Typ> Typ for Two<A, B> {
    fn sch() -> Sch {
        Sch::Seq(vec![A::sch(), B::sch()])
    }
    fn layout(&self, out: &mut Vec<It>) {
        self.0.layout(out);
        self.1.layout(out)
    }
}

fn strict_tag(b: &[u8], out: &mut Vec<It>) {
    if let Some(v) = parse_all(b) {
        out.extend(v)
    }
}

// the tagged types are exact and partly opaque: what they hold is what they write
impl Typ for StandardDateTime {
    fn sch() -> Sch {
        Sch::DateTime
    }
    fn layout(&self, out: &mut Vec<It>) {
        strict_tag(&encode_to_bytes(self), out)
    }
}
impl Typ for PositiveBignum {
    fn sch() -> Sch {
        Sch::Bignum(2)
    }
    fn layout(&self, out: &mut Vec<It>) {
        strict_tag(&encode_to_bytes(self), out)
    }
}
impl Typ for NegativeBignum {
    fn sch() -> Sch {
        Sch::Bignum(3)
    }
    fn layout(&self, out: &mut Vec<It>) {
        strict_tag(&encode_to_bytes(self), out)
    }
}
impl Typ for EncodedCBOR {
    fn sch() -> Sch {
        Sch::Bignum(24)
    }
    fn layout(&self, out: &mut Vec<It>) {
        strict_tag(&encode_to_bytes(self), out)
    }
}
impl Typ for RationalNumber {
    fn sch() -> Sch {
        Sch::Rational
    }
    fn layout(&self, out: &mut Vec<It>) {
        strict_tag(&encode_to_bytes(self), out)
    }
}

/// all items at the start of the bytes, as far as they are well formed (and how many bytes they use)
pub fn leading_items(b: &[u8]) -> (Vec<It>, Vec<usize>) {
    let mut v = vec![];
    let mut ends = vec![];
    let mut p = 0;
    while p < b.len() {
        match parse(&b[p..]) {
            Some((i, n)) => {
                p += n;
                v.push(i);
                ends.push(p);
            }
            None => break,
        }
    }
    (v, ends)
}

/// What decoding a T from a reader over b has to give: bytes used and layout of the value
pub fn expect_decode<T: Typ>(b: &[u8]) -> Option<(usize, Vec<It>)> {
    let (items, ends) = leading_items(b);
    let (n, o) = T::sch().canon(&items)?;
    Some((if n == 0 { 0 } else { ends[n - 1] }, o))
}

/// Bytes to try a type with: conforming, near, and hostile
pub fn try_bytes<T: Typ>(g: &mut Rng) -> Vec<u8> {
    match g.below(10) {
        0 => g.hostile(),
        1 => {
            let v = T::sch().near(g);
            let mut b = enc_all(&v);
            g.mutate(&mut b);
            b
        }
        2 => {
            let v = T::sch().arb(g, 3);
            enc_all(&v)
        }
        3 => {
            let v = T::sch().arb(g, 3);
            enc_all(&v.iter().map(|i| g.reencode_valid(i)).collect::<Vec<_>>())
        }
        4 => {
            // followed by something
            let v = T::sch().arb(g, 3);
            let mut b = enc_all(&v.iter().map(|i| g.reencode_valid(i)).collect::<Vec<_>>());
            let h = g.hostile();
            b.extend(h);
            b
        }
        _ => enc_all(&T::sch().near(g)),
    }
}

#[macro_export]
macro_rules! with_types {
    ($i:expr, $f:ident, $($args:expr),*) => {{
        use $crate::typ::*;
        use cbored::*;
        use cbored::tagged::*;
        match $i % 30 {
            0 => $f::<bool>($($args),*),
            1 => $f::<u8>($($args),*),
            2 => $f::<u16>($($args),*),
            3 => $f::<u32>($($args),*),
            4 => $f::<u64>($($args),*),
            5 => $f::<String>($($args),*),
            6 => $f::<Vec<u8>>($($args),*),
            7 => $f::<[u8; 0]>($($args),*),
            8 => $f::<[u8; 1]>($($args),*),
            9 => $f::<[u8; 4]>($($args),*),
            10 => $f::<[u8; 32]>($($args),*),
            11 => $f::<Scalar>($($args),*),
            12 => $f::<DataOwned>($($args),*),
            13 => $f::<VecOf<u8>>($($args),*),
            14 => $f::<VecOf<u64>>($($args),*),
            15 => $f::<VecOf<String>>($($args),*),
            16 => $f::<VecOf<VecOf<u16>>>($($args),*),
            17 => $f::<VecOf<Scalar>>($($args),*),
            18 => $f::<VecOf<bool>>($($args),*),
            19 => $f::<CborDataOf<u64>>($($args),*),
            20 => $f::<CborDataOf<String>>($($args),*),
            21 => $f::<VecOf<[u8; 2]>>($($args),*),
            22 => $f::<StandardDateTime>($($args),*),
            23 => $f::<PositiveBignum>($($args),*),
            24 => $f::<NegativeBignum>($($args),*),
            25 => $f::<EncodedCBOR>($($args),*),
            26 => $f::<RationalNumber>($($args),*),
            27 => $f::<VecOf<DataOwned>>($($args),*),
            28 => $f::<CborDataOf<VecOf<u32>>>($($args),*),
            _ => $f::<VecOf<Vec<u8>>>($($args),*),
        }
    }};
}
