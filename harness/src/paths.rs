//! Every way of reading one item and writing it back.
use crate::refc::*;
use cbored::*;

fn w(f: impl FnOnce(&mut Writer)) -> Vec<u8> {
    let mut w = Writer::new();
    f(&mut w);
    w.finalize()
}

fn enc<T: Encode + ?Sized>(t: &T) -> Vec<u8> {
    w(|x| x.encode(t))
}

type Out = Vec<(&'static str, Result<(Vec<u8>, usize), String>)>;

/// Read the item at `b[at..]` through all paths for an item of that kind, and write it back.
/// Gives for each path the bytes written and the bytes consumed.
pub fn roundtrips(b: &[u8], lead_items: usize, kind: Kind) -> Out {
    let mut out: Out = vec![];
    // a reader positioned on the item, after the leading items
    let reader = || -> Reader {
        let mut r = Reader::new(b);
        for _ in 0..lead_items {
            let _ = r.data();
        }
        r
    };
    macro_rules! path {
        ($name:expr, $r:ident => $e:expr) => {{
            let mut $r = reader();
            let start = $r.consumed_bytes();
            let res: Result<Vec<u8>, String> = (|| $e)();
            out.push(($name, res.map(|x| (x, $r.consumed_bytes() - start))));
        }};
    }
    fn s<E: std::fmt::Debug>(e: E) -> String {
        format!("{:?}", e)
    }
    path!("data", r => r.data().map_err(s).map(|d| w(|x| x.data(&d))));
    path!("data encode", r => r.data().map_err(s).map(|d| enc(&d)));
    path!("data owned encode", r => r.data().map_err(s).map(|d| enc(&d.owned())));
    path!("data owned borrow", r => r.data().map_err(s).map(|d| { let o = d.owned(); w(|x| x.data(&o.borrow())) }));
    path!("data clone", r => r.data().map_err(s).map(|d| enc(&d.clone().owned().clone().borrow().clone())));
    path!("decode DataOwned", r => r.decode::<DataOwned>().map_err(s).map(|d| enc(&d)));
    path!("exact slice", r => r.exact_decodable_slice::<DataOwned>().map_err(s).map(|d| enc(d)));
    path!("exact data", r => r.exact_decodable_data::<DataOwned>().map_err(s).map(|d| enc(&d)));
    match kind {
        Kind::Pos => {
            path!("positive", r => r.positive().map_err(s).map(|d| w(|x| x.positive(d))));
            path!("positive encode", r => r.positive().map_err(s).map(|d| enc(&d)));
        }
        Kind::Neg => {
            path!("negative", r => r.negative().map_err(s).map(|d| w(|x| x.negative(d))));
            path!("negative encode", r => r.negative().map_err(s).map(|d| enc(&d)));
        }
        Kind::Byte => {
            path!("byte", r => r.byte().map_err(s).map(|d| w(|x| x.byte(d))));
            path!("byte encode", r => r.byte().map_err(s).map(|d| enc(&d)));
        }
        Kind::Float => {
            path!("float", r => r.float().map_err(s).map(|d| w(|x| x.float(d))));
            path!("float encode", r => r.float().map_err(s).map(|d| enc(&d)));
        }
        Kind::False | Kind::True => {
            path!("bool", r => r.bool().map_err(s).map(|d| w(|x| x.bool(d))));
            path!("bool encode", r => r.bool().map_err(s).map(|d| enc(&d)));
            path!("constant", r => r.constant().map_err(s).map(|d| w(|x| x.constant(d))));
            path!("constant encode", r => r.constant().map_err(s).map(|d| enc(&d)));
        }
        Kind::Null | Kind::Undef => {
            path!("constant", r => r.constant().map_err(s).map(|d| w(|x| x.constant(d))));
            path!("constant encode", r => r.constant().map_err(s).map(|d| enc(&d)));
        }
        Kind::Bytes => {
            path!("bytes", r => r.bytes().map_err(s).map(|d| w(|x| x.bytes(&d))));
            path!("bytes encode", r => r.bytes().map_err(s).map(|d| enc(&d)));
            path!("bytes owned encode", r => r.bytes().map_err(s).map(|d| enc(&d.owned())));
            path!("bytes owned borrow", r => r.bytes().map_err(s).map(|d| w(|x| x.bytes(&d.owned().borrow()))));
        }
        Kind::Text => {
            path!("text", r => r.text().map_err(s).map(|d| w(|x| x.text(&d))));
            path!("text encode", r => r.text().map_err(s).map(|d| enc(&d)));
            path!("text owned borrow", r => r.text().map_err(s).map(|d| w(|x| x.text(&d.owned().borrow()))));
        }
        Kind::Arr => {
            path!("array", r => r.array().map_err(s).map(|d| w(|x| x.array(&d))));
            path!("array encode", r => r.array().map_err(s).map(|d| enc(&d)));
            path!("array owned borrow", r => r.array().map_err(s).map(|d| w(|x| x.array(&d.owned().borrow()))));
            path!("array by element", r => r.array().map_err(s).map(|d| w(|x| x.array_build(d.struct_len(), |x| {
                for i in 0..d.len() { x.encode(d[i]) }
            }))));
            path!("array owned by element", r => r.array().map_err(s).map(|d| { let d = d.owned(); w(|x| x.array_build(d.struct_len(), |x| {
                for i in 0..d.len() { x.encode(&d[i]) }
            }))}));
        }
        Kind::Map => {
            path!("map", r => r.map().map_err(s).map(|d| w(|x| x.map(&d))));
            path!("map encode", r => r.map().map_err(s).map(|d| enc(&d)));
            path!("map owned borrow", r => r.map().map_err(s).map(|d| w(|x| x.map(&d.owned().borrow()))));
            path!("map by element", r => r.map().map_err(s).map(|d| w(|x| x.map_build(d.struct_len(), |x| {
                for i in 0..d.len() { x.encode(d[i].0); x.encode(d[i].1) }
            }))));
        }
        Kind::Tag => {
            path!("tag", r => r.tag().map_err(s).map(|d| w(|x| x.tag(&d))));
            path!("tag encode", r => r.tag().map_err(s).map(|d| enc(&d)));
            path!("tag owned borrow", r => r.tag().map_err(s).map(|d| w(|x| x.tag(&d.owned().borrow()))));
            path!("tag by content", r => r.tag().map_err(s).map(|d| w(|x| x.tag_build(d.tag_repr(), |x| x.encode(d.data())))));
            path!("tag owned by content", r => r.tag().map_err(s).map(|d| { let d = d.owned(); w(|x| x.tag_build(d.tag_repr(), |x| x.encode(d.data())))}));
        }
        Kind::Break => {}
    }
    if matches!(kind, Kind::Pos | Kind::Neg) {
        path!("scalar", r => r.scalar().map_err(s).map(|d| w(|x| x.scalar(d))));
        path!("scalar encode", r => r.scalar().map_err(s).map(|d| enc(&d)));
        path!("decode Scalar", r => r.decode::<Scalar>().map_err(s).map(|d| enc(&d)));
    }
    out
}
