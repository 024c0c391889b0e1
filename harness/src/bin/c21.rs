//! C21: text is accepted exactly when every chunk is valid UTF-8
use cbored::tagged::StandardDateTime;
use cbored::*;
use mon::gen::*;
use mon::refc::*;
use mon::rt::*;
use mon::*;
use std::borrow::Borrow;

#[global_allocator]
static A: Counting = Counting;

/// RFC 3629 section 4, by its grammar
fn valid(b: &[u8]) -> bool {
    let t = |x: Option<&u8>, lo: u8, hi: u8| matches!(x, Some(v) if *v >= lo && *v <= hi);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let n = |k: usize| b.get(i + k);
        let k = if c < 0x80 {
            1
        } else if (0xc2..=0xdf).contains(&c) && t(n(1), 0x80, 0xbf) {
            2
        } else if (c == 0xe0 && t(n(1), 0xa0, 0xbf)
            || (0xe1..=0xec).contains(&c) && t(n(1), 0x80, 0xbf)
            || c == 0xed && t(n(1), 0x80, 0x9f)
            || (0xee..=0xef).contains(&c) && t(n(1), 0x80, 0xbf))
            && t(n(2), 0x80, 0xbf)
        {
            3
        } else if (c == 0xf0 && t(n(1), 0x90, 0xbf) || (0xf1..=0xf3).contains(&c) && t(n(1), 0x80, 0xbf) || c == 0xf4 && t(n(1), 0x80, 0x8f)) && t(n(2), 0x80, 0xbf) && t(n(3), 0x80, 0xbf) {
            4
        } else {
            return false;
        };
        i += k
    }
    true
}

/// chunks handed out, or whether the error is a text error
type Got = Result<Vec<Vec<u8>>, (bool, String)>;

fn re(e: ReaderError) -> (bool, String) {
    (matches!(e, ReaderError::TextUTF8Error(_)), format!("{:?}", e))
}
fn de(e: DecodeError) -> (bool, String) {
    match e.error() {
        DecodeErrorKind::ReaderError(r) => re(r.clone()),
        e => (false, format!("{:?}", e)),
    }
}
fn txt(t: &Text) -> Vec<Vec<u8>> {
    t.to_str_chunks().iter().map(|c| c.as_bytes().to_vec()).collect()
}

struct Case<'c> {
    chunks: &'c [Vec<u8>],
    all: Vec<u8>,
    ok: bool,
    bytes: &'c [u8],
}
impl Case<'_> {
    /// got: chunks as they are, or everything in one
    fn judge(&self, cx: &mut Cx, what: &str, got: Got, chunked: bool) -> Result<(), String> {
        match (got, self.ok) {
            (Ok(v), true) => {
                if chunked {
                    ck!(v == self.chunks, "{} of {} hands out {:?}", what, hex(self.bytes), v)
                } else {
                    ck!(v.concat() == self.all, "{} of {} hands out {}", what, hex(self.bytes), hex(&v.concat()))
                }
            }
            (Ok(v), false) => return Err(format!("{} of {} hands out {} from invalid UTF-8", what, hex(self.bytes), hex(&v.concat()))),
            (Err((_, e)), true) => return Err(format!("{} of {} refuses valid text: {}", what, hex(self.bytes), e)),
            (Err((t, e)), false) => ck!(t, "{} of {} reports invalid text as {}", what, hex(self.bytes), e),
        }
        cx.count("verdicts compared");
        Ok(())
    }
}

fn check(cx: &mut Cx, s: &Str, full: bool) -> Result<(), String> {
    let b = It::Text(s.clone()).enc();
    cx.input(&b);
    let chunks: Vec<Vec<u8>> = s.chunks().iter().map(|c| c.to_vec()).collect();
    let ok = chunks.iter().all(|c| valid(c));
    cx.count(if ok { "valid text" } else { "invalid text" });
    let c = Case { chunks: &chunks, all: s.content(), ok, bytes: &b };
    let mut r = Reader::new(&b);
    let t = r.text();
    if let Ok(t) = &t {
        c.judge(cx, "text, concatenated", Ok(vec![t.to_string().into_bytes()]), false)?;
        let o = t.owned();
        c.judge(cx, "owned text, borrowed again", Ok(txt(&o.borrow())), true)?;
        let v = match &o {
            TextOwned::Imm(d) => vec![d.as_str().as_bytes().to_vec()],
            TextOwned::Chunks(c) => c.iter().map(|d| d.as_str().as_bytes().to_vec()).collect(),
        };
        c.judge(cx, "owned text", Ok(v), true)?;
    }
    c.judge(cx, "Reader::text", t.map(|t| txt(&t)).map_err(re), true)?;
    c.judge(cx, "decode::<String>", Reader::new(&b).decode::<String>().map(|s| vec![s.into_bytes()]).map_err(de), false)?;
    let d = Reader::new(&b).data();
    let d = d.map_err(re).and_then(|d| match d {
        Data::Text(t) => Ok(txt(&t)),
        d => Err((false, format!("{:?}", d))),
    });
    c.judge(cx, "Reader::data", d, true)?;
    if full || cx.g.p(1, 4) {
        // the same with other bytes behind it: items, what would complete a character, text, zeros
        for _ in 0..2 {
            let after: Vec<u8> = match cx.g.below(6) {
                0 => vec![0xa9; 1 + cx.g.below(3)],
                1 => b"\x82\xac\x80\x80".to_vec(),
                2 => vec![0; 1 + cx.g.below(40)],
                3 => b.clone(),
                4 => cx.g.bytes_n(9),
                _ => b"abc".to_vec(),
            };
            let f = [&b[..], &after].concat();
            c.judge(cx, "text with something behind it", Reader::new(&f).text().map(|t| txt(&t)).map_err(re), true)?;
            c.judge(cx, "decode with something behind it", Reader::new(&f).decode::<String>().map(|s| vec![s.into_bytes()]).map_err(de), false)?;
            c.judge(cx, "data with something behind it", Reader::new(&f).data().map(|d| if let Data::Text(t) = d { txt(&t) } else { vec![] }).map_err(re), true)?;
        }
    }
    if !full {
        return Ok(());
    }
    let it = It::Text(s.clone());
    c.judge(cx, "decode_from_bytes::<String>", decode_from_bytes::<String>(&b).map(|s| vec![s.into_bytes()]).map_err(de), false)?;
    let d = Reader::new(&b).decode::<DataOwned>().map_err(de).and_then(|d| match d {
        DataOwned::Text(t) => Ok(txt(&t.borrow())),
        d => Err((false, format!("{:?}", d))),
    });
    c.judge(cx, "decode::<DataOwned>", d, true)?;
    let d = Reader::new(&b).exact_decodable_data::<String>();
    c.judge(cx, "exact data of String", d.map(|d| vec![d.unserialize().into_bytes()]).map_err(de), false)?;
    let d = Reader::new(&b).exact_decodable_slice::<String>();
    c.judge(cx, "exact slice of String", d.map(|d| vec![d.to_owned().unserialize().into_bytes()]).map_err(de), false)?;
    let d = Writer::new_from_vec(b.clone()).finalize_data();
    c.judge(cx, "CborData::decode", d.decode::<String>().map(|s| vec![s.into_bytes()]).map_err(de), false)?;
    let sl: &CborSlice = d.borrow();
    c.judge(cx, "CborSlice::validate_as", sl.validate_as::<String>().map(|s| vec![s.to_owned().unserialize().into_bytes()]).map_err(de), false)?;

    // inside others
    let a = It::Arr(Len::Ind, vec![it.clone(), It::pos(1), it.clone()]).enc();
    let a = Reader::new(&a).array().map_err(|e| format!("array holding {}: {:?}", hex(&b), e))?;
    c.judge(cx, "array element", a[2].reader().text().map(|t| txt(&t)).map_err(re), true)?;
    c.judge(cx, "array element decode", a[0].decode::<String>().map(|s| vec![s.into_bytes()]).map_err(de), false)?;
    let o = a.owned();
    c.judge(cx, "owned array element", o[0].read().text().map(|t| txt(&t)).map_err(re), true)?;
    let v = It::arr(vec![it.clone()]).enc();
    c.judge(cx, "decode_vec", decode_vec::<String>(&mut Reader::new(&v)).map(|v| v.into_iter().map(|s| s.into_bytes()).collect()).map_err(de), false)?;
    let v = Reader::new(&v).array().map_err(|e| format!("{:?}", e))?.to_vec(|r| r.text().map(|t| t.to_string()).map_err(DecodeErrorKind::ReaderError));
    let v = v.map(|v| v.into_iter().map(|s| s.into_bytes()).collect()).map_err(|e| match e {
        DecodeErrorKind::ReaderError(r) => re(r),
        e => (false, format!("{:?}", e)),
    });
    c.judge(cx, "Array::to_vec", v, false)?;
    let m = It::map(vec![(it.clone(), it.clone())]).enc();
    let m = Reader::new(&m).map().map_err(|e| format!("map holding {}: {:?}", hex(&b), e))?;
    c.judge(cx, "map key", m[0].0.reader().text().map(|t| txt(&t)).map_err(re), true)?;
    c.judge(cx, "map value", m[0].1.reader().text().map(|t| txt(&t)).map_err(re), true)?;
    for mut k in m.keys().chain(m.values()) {
        c.judge(cx, "map key or value view", k.text().map(|t| txt(&t)).map_err(re), true)?;
    }
    let t = It::tag(0, it.clone()).enc();
    let g = Reader::new(&t).tag().map_err(|e| format!("tag holding {}: {:?}", hex(&b), e))?;
    c.judge(cx, "tag content", g.read_data(|r| r.text().map(|t| txt(&t))).map_err(re), true)?;
    c.judge(cx, "tag content decode", g.decode_data::<String>().map(|s| vec![s.into_bytes()]).map_err(de), false)?;
    let d = Reader::new(&t).decode::<StandardDateTime>();
    let d = d.map_err(de).map(|d| vec![parse(&encode_to_bytes(&d)[1..]).map(|(i, _)| if let It::Text(s) = i { s.content() } else { vec![] }).unwrap_or_default()]);
    c.judge(cx, "date and time", d, false)?;
    let mut r = Reader::new(&t);
    let d = StandardDateTime::read(&mut r);
    c.judge(cx, "date and time read", d.map_err(re).map(|_| vec![c.all.clone()]), false)?;
    Ok(())
}

fn w(g: &mut Rng, n: usize) -> W {
    g.width(n as u64, false)
}

/// every payload of one and two bytes (thorough: three), in one piece and in chunks
fn short(cx: &mut Cx) -> Result<(), String> {
    let b = exhaustive_bytes(cx.idx);
    check(cx, &Str::canon(&b), cx.idx < 66_000)?;
    if b.len() == 2 {
        check(cx, &Str::Ind(vec![(W::I, b[..1].to_vec()), (W::I, b[1..].to_vec())]), false)?;
        check(cx, &Str::Ind(vec![(W::I, b.clone())]), false)?;
    }
    cx.seen_bytes(&b, true);
    Ok(())
}

const EDGE: [u8; 27] = [
    0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xfe, 0xff,
];
/// every payload of up to four bytes at the edges of the classes
fn edges(cx: &mut Cx) -> Result<(), String> {
    let mut i = cx.idx as usize;
    let b: Vec<u8> = (0..4)
        .map(|_| {
            let x = EDGE[i % EDGE.len()];
            i /= EDGE.len();
            x
        })
        .collect();
    check(cx, &Str::canon(&b), false)?;
    let k = cx.g.below(4);
    check(cx, &Str::canon(&b[..k]), false)?;
    check(cx, &Str::Ind(vec![(W::I, b[..k].to_vec()), (W::I, b[k..].to_vec())]), false)?;
    cx.seen_bytes(&b, true);
    Ok(())
}

/// text split in two or three at every byte
fn split(cx: &mut Cx) -> Result<(), String> {
    let n = 1 + cx.g.below(14);
    let b = cx.g.text_n(n).into_bytes();
    let all = cx.g.p(1, 4);
    for i in 0..=b.len() {
        let (x, y) = b.split_at(i);
        let s = Str::Ind(vec![(w(&mut cx.g, x.len()), x.to_vec()), (w(&mut cx.g, y.len()), y.to_vec())]);
        check(cx, &s, all)?;
        let j = i + cx.g.below(b.len() - i + 1);
        let s = Str::Ind(vec![(W::I, vec![]), (W::W1, b[..i].to_vec()), (W::W2, b[i..j].to_vec()), (W::W1, b[j..].to_vec())]);
        check(cx, &s, all)?;
        cx.seen(hash_bytes(&b) ^ (i as u64) << 32, true);
    }
    cx.sample(|| format!("{} split at every byte", hex(&b)));
    Ok(())
}

/// something wrong, or nothing, at a place of a longer text
fn long(cx: &mut Cx) -> Result<(), String> {
    let n = match cx.g.below(6) {
        0 => 23 + cx.g.below(3),
        1 => 254 + cx.g.below(4),
        2 => 65534 + cx.g.below(4),
        3 => cx.g.threshold(9000),
        _ => cx.g.below(140),
    };
    let mut b = if cx.g.p(1, 2) { vec![b'a'; n] } else { cx.g.text_n(n).into_bytes() };
    let p = cx.g.below(b.len() + 1);
    match cx.g.below(7) {
        0 => {}
        1 => {
            let x = *cx.g.pick(&BADTEXTS);
            b.splice(p..p, x.iter().copied());
        }
        2 if p < b.len() => b[p] = EDGE[cx.g.below(EDGE.len())],
        3 if p < b.len() => {
            b.remove(p);
        }
        4 => b.truncate(p),
        // cut in its last character
        5 => {
            let x: &[u8] = cx.g.pick(&[&b"\xc3"[..], b"\xe2\x82", b"\xe2", b"\xf0\x9f\x98", b"\xf0\x9f", b"\xf0"]);
            b.extend(x)
        }
        _ => {
            let x = ["\u{e9}", "\u{20ac}", "\u{10ffff}", "\u{ffff}", "\u{d7ff}", "\u{e000}", "\0"][cx.g.below(7)];
            b.splice(p..p, x.bytes());
        }
    }
    let s = match cx.g.below(3) {
        0 => Str::Def(w(&mut cx.g, b.len()), b.clone()),
        k => {
            let mut v = vec![];
            let mut rest = &b[..];
            while !rest.is_empty() {
                let mut k2 = 1 + cx.g.below(rest.len().min(if k == 1 { 40 } else { rest.len() }));
                // mostly at the boundaries of characters
                if cx.g.p(7, 8) {
                    while k2 < rest.len() && rest[k2] & 0xc0 == 0x80 {
                        k2 += 1
                    }
                }
                let (x, y) = rest.split_at(k2);
                v.push((w(&mut cx.g, x.len()), x.to_vec()));
                rest = y
            }
            Str::Ind(v)
        }
    };
    check(cx, &s, b.len() < 400)?;
    cx.seen_bytes(&b, true);
    Ok(())
}

fn main() {
    let q = exhaustive_bytes_count(2);
    run(&[
        Phase { name: "short", quick: q, thorough: exhaustive_bytes_count(3), f: short, seeded: false },
        Phase { name: "edges", quick: (EDGE.len() as u64).pow(4), thorough: (EDGE.len() as u64).pow(4), f: edges, seeded: false },
        ph("split", 8_000, 400_000, split),
        ph("long", 40_000, 2_500_000, long),
    ])
}
