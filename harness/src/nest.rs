//! User types whose encoding and decoding use the library again inside: builders, writers, readers, validators
//! of their own; and that may panic in the middle.
use crate::gen::Rng;
use crate::refc::*;
use cbored::validate::Validator;
use cbored::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Tr {
    Num(u64),
    Text(String),
    /// through an array builder
    Built(bool, Vec<Tr>),
    /// through the writer's array and map building
    Arr(bool, Vec<Tr>),
    Map(bool, Vec<(Tr, Tr)>),
    Tag(u64, Box<Tr>),
    /// encoded on its own, as a byte string
    Wrapped(Box<Tr>),
    /// encoded as exact data of it
    Exact(Box<Tr>),
    /// encoded on its own, read back, and written again
    Again(Box<Tr>),
    /// a vector
    Vec(Vec<Tr>),
    Panic,
}

pub fn len(ind: bool, n: usize) -> StructureLength {
    if ind {
        StructureLength::Indefinite
    } else {
        StructureLength::from(n as u64)
    }
}

impl Encode for Tr {
    fn encode(&self, w: &mut Writer) {
        match self {
            Tr::Num(v) => v.encode(w),
            Tr::Text(t) => w.text(&Text::from_str(t)),
            Tr::Built(ind, v) => {
                let mut b = ArrayBuilder::new();
                for x in v {
                    b.append_encodable(x)
                }
                let a = if *ind { b.indefinite() } else { b.finite() };
                w.array(&a.borrow())
            }
            Tr::Arr(ind, v) => w.array_build(len(*ind, v.len()), |w| v.iter().for_each(|x| w.encode(x))),
            Tr::Map(ind, v) => w.map_build(len(*ind, v.len()), |w| {
                v.iter().for_each(|(k, x)| {
                    w.encode(k);
                    w.encode(x)
                })
            }),
            Tr::Tag(t, x) => w.tag_build(TagValue::from_u64(*t), |w| w.encode(&**x)),
            Tr::Wrapped(x) => encode_to_bytes(&**x)[..].encode(w),
            Tr::Exact(x) => w.encode(&CborDataOf::from(&**x)),
            Tr::Again(x) => {
                let b = encode_to_bytes(&**x);
                let mut v = Validator::new(&b);
                let ok = v.next().is_ok();
                match Reader::new(&b).data() {
                    Ok(d) if ok => w.data(&d.owned().borrow()),
                    _ => w.bool(ok),
                }
            }
            Tr::Vec(v) => encode_vec(v, w),
            Tr::Panic => std::panic::panic_any("told to"),
        }
    }
}

impl Tr {
    /// what it has to be encoded as
    pub fn model(&self) -> It {
        let all = |v: &[Tr]| v.iter().map(|x| x.model()).collect::<Vec<_>>();
        let l = |ind: bool, n: usize| if ind { Len::Ind } else { Len::Def(W::min(n as u64)) };
        match self {
            Tr::Num(v) => It::pos(*v),
            Tr::Text(t) => It::text(t),
            Tr::Built(ind, v) | Tr::Arr(ind, v) => It::Arr(l(*ind, v.len()), all(v)),
            Tr::Map(ind, v) => It::Map(l(*ind, v.len()), v.iter().map(|(k, x)| (k.model(), x.model())).collect()),
            Tr::Tag(t, x) => It::tag(*t, x.model()),
            Tr::Wrapped(x) => It::bytes(&x.model().enc()),
            Tr::Exact(x) | Tr::Again(x) => x.model(),
            Tr::Vec(v) => It::arr(all(v)),
            Tr::Panic => It::null(),
        }
    }
    pub fn arb(g: &mut Rng, depth: usize) -> Tr {
        let n = g.below(5);
        let kids = |g: &mut Rng| (0..n).map(|_| Tr::arb(g, depth.saturating_sub(1))).collect::<Vec<_>>();
        let ind = g.p(1, 2);
        match g.below(if depth == 0 { 2 } else { 13 }) {
            0 => Tr::Num(g.uint()),
            1 => {
                let n = g.below(6);
                Tr::Text(g.text_n(n))
            }
            2 | 3 | 4 => Tr::Built(ind, kids(g)),
            5 => Tr::Arr(ind, kids(g)),
            6 => {
                let (k, v) = (kids(g), kids(g));
                Tr::Map(ind, k.into_iter().zip(v).collect())
            }
            7 => Tr::Tag(g.uint(), Box::new(Tr::arb(g, depth - 1))),
            8 => Tr::Wrapped(Box::new(Tr::arb(g, depth - 1))),
            9 => Tr::Exact(Box::new(Tr::arb(g, depth - 1))),
            10 => Tr::Again(Box::new(Tr::arb(g, depth - 1))),
            _ => Tr::Vec(kids(g)),
        }
    }
    /// a random node replaced by a panic
    pub fn broken(mut self, g: &mut Rng) -> Tr {
        self.break_it(g);
        self
    }
    fn break_it(&mut self, g: &mut Rng) {
        if g.p(1, 5) {
            *self = Tr::Panic;
            return;
        }
        match self {
            Tr::Built(_, v) | Tr::Arr(_, v) | Tr::Vec(v) if !v.is_empty() => {
                let i = g.below(v.len());
                v[i].break_it(g)
            }
            Tr::Map(_, v) if !v.is_empty() => {
                let i = g.below(v.len());
                if g.p(1, 2) {
                    v[i].0.break_it(g)
                } else {
                    v[i].1.break_it(g)
                }
            }
            Tr::Tag(_, x) | Tr::Wrapped(x) | Tr::Exact(x) | Tr::Again(x) => x.break_it(g),
            x => *x = Tr::Panic,
        }
    }
}

thread_local!(
    /// decoding panics when it comes to the n-th value from now
    pub static FUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) }
);

fn slen(l: StructureLength, n: usize) -> Result<Len, DecodeError> {
    crate::obs::slen(l, n, "nested").map_err(|e| DecodeErrorKind::Custom(e).context::<Any>())
}

/// decodes anything by reading it again and again inside
#[derive(Debug, Clone, PartialEq)]
pub struct Any(pub It);
impl Decode for Any {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        FUSE.with(|f| {
            if f.get() == 0 {
                std::panic::panic_any("told to")
            }
            f.set(f.get() - 1)
        });
        let rd = |e: ReaderError| DecodeErrorKind::ReaderError(e).context::<Any>();
        let ty = r.peek_type().map_err(rd)?;
        Ok(Any(match ty {
            Type::Array => {
                let a = r.array().map_err(rd)?;
                let k = a.to_vec(|r| r.decode::<Any>().map_err(|e| e.error().clone())).map_err(|e| e.context::<Any>())?;
                // each once more, on its own
                for (i, x) in k.iter().enumerate() {
                    if a[i].decode::<Any>()? != *x {
                        return Err(DecodeErrorKind::Custom("an element differs".into()).context::<Any>());
                    }
                }
                It::Arr(slen(a.struct_len(), a.len())?, k.into_iter().map(|x| x.0).collect())
            }
            Type::Map => {
                let a = r.map().map_err(rd)?;
                let mut k = vec![];
                for (mut x, mut y) in a.iter() {
                    k.push((x.decode::<Any>()?.0, y.decode::<Any>()?.0))
                }
                It::Map(slen(a.struct_len(), a.len())?, k)
            }
            Type::Tag => {
                let a = r.tag().map_err(rd)?;
                let (w, v) = crate::obs::hv(a.tag_repr().raw_value());
                It::Tag(w, v, Box::new(a.decode_data::<Any>()?.0))
            }
            _ => {
                let s = r.exact_decodable_slice::<DataOwned>()?;
                match parse(s.untype().as_ref()) {
                    Some((i, _)) => i,
                    None => return Err(DecodeErrorKind::Custom("not an item".into()).context::<Any>()),
                }
            }
        }))
    }
}
