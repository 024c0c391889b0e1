//! Reference model of CBOR, written from RFC 8949 (and from the choices that cbored
//! documents), sharing no code with cbored.

/// width of a header argument: in the lead byte itself or in 1, 2, 4, 8 following bytes
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum W {
    I,
    W1,
    W2,
    W4,
    W8,
}
pub const WS: [W; 5] = [W::I, W::W1, W::W2, W::W4, W::W8];

impl W {
    pub fn min(v: u64) -> W {
        if v <= 23 {
            W::I
        } else if v <= u8::MAX as u64 {
            W::W1
        } else if v <= u16::MAX as u64 {
            W::W2
        } else if v <= u32::MAX as u64 {
            W::W4
        } else {
            W::W8
        }
    }
    pub fn extra(self) -> usize {
        match self {
            W::I => 0,
            W::W1 => 1,
            W::W2 => 2,
            W::W4 => 4,
            W::W8 => 8,
        }
    }
}

/// a string: definite or a list of definite chunks
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Str {
    Def(W, Vec<u8>),
    Ind(Vec<(W, Vec<u8>)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Len {
    Def(W),
    Ind,
}

/// A CBOR item with everything its encoding can express
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum It {
    Pos(W, u64),
    Neg(W, u64),
    Bytes(Str),
    Text(Str),
    Arr(Len, Vec<It>),
    Map(Len, Vec<(It, It)>),
    Tag(W, u64, Box<It>),
    /// one byte simple value, 0 to 23 (20 to 23 being the constants)
    S1(u8),
    /// two bytes simple value
    S2(u8),
    F16(u16),
    F32(u32),
    F64(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Pos,
    Neg,
    Bytes,
    Text,
    Arr,
    Map,
    Tag,
    False,
    True,
    Null,
    Undef,
    Float,
    Byte,
    Break,
}

pub fn head(major: u8, w: W, v: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    match w {
        W::I => {
            assert!(v < 24);
            out.push(m | v as u8)
        }
        W::W1 => {
            out.push(m | 24);
            out.push(v as u8)
        }
        W::W2 => {
            out.push(m | 25);
            out.extend_from_slice(&(v as u16).to_be_bytes())
        }
        W::W4 => {
            out.push(m | 26);
            out.extend_from_slice(&(v as u32).to_be_bytes())
        }
        W::W8 => {
            out.push(m | 27);
            out.extend_from_slice(&v.to_be_bytes())
        }
    }
}

impl Str {
    pub fn canon(b: &[u8]) -> Str {
        Str::Def(W::min(b.len() as u64), b.to_vec())
    }
    pub fn content(&self) -> Vec<u8> {
        match self {
            Str::Def(_, b) => b.clone(),
            Str::Ind(c) => c.iter().flat_map(|(_, b)| b.iter().copied()).collect(),
        }
    }
    pub fn chunks(&self) -> Vec<&[u8]> {
        match self {
            Str::Def(_, b) => vec![b],
            Str::Ind(c) => c.iter().map(|(_, b)| &b[..]).collect(),
        }
    }
    pub fn utf8(&self) -> bool {
        self.chunks().iter().all(|c| std::str::from_utf8(c).is_ok())
    }
    fn enc(&self, major: u8, out: &mut Vec<u8>) {
        match self {
            Str::Def(w, b) => {
                head(major, *w, b.len() as u64, out);
                out.extend_from_slice(b)
            }
            Str::Ind(c) => {
                out.push(major << 5 | 31);
                for (w, b) in c {
                    head(major, *w, b.len() as u64, out);
                    out.extend_from_slice(b)
                }
                out.push(0xff)
            }
        }
    }
}

impl It {
    pub fn pos(v: u64) -> It {
        It::Pos(W::min(v), v)
    }
    pub fn neg(v: u64) -> It {
        It::Neg(W::min(v), v)
    }
    pub fn bool(b: bool) -> It {
        It::S1(if b { 21 } else { 20 })
    }
    pub fn null() -> It {
        It::S1(22)
    }
    pub fn text(s: &str) -> It {
        It::Text(Str::canon(s.as_bytes()))
    }
    pub fn bytes(s: &[u8]) -> It {
        It::Bytes(Str::canon(s))
    }
    pub fn arr(v: Vec<It>) -> It {
        It::Arr(Len::Def(W::min(v.len() as u64)), v)
    }
    pub fn map(v: Vec<(It, It)>) -> It {
        It::Map(Len::Def(W::min(v.len() as u64)), v)
    }
    pub fn tag(t: u64, i: It) -> It {
        It::Tag(W::min(t), t, Box::new(i))
    }

    pub fn enc_to(&self, out: &mut Vec<u8>) {
        match self {
            It::Pos(w, v) => head(0, *w, *v, out),
            It::Neg(w, v) => head(1, *w, *v, out),
            It::Bytes(s) => s.enc(2, out),
            It::Text(s) => s.enc(3, out),
            It::Arr(l, v) => {
                match l {
                    Len::Def(w) => head(4, *w, v.len() as u64, out),
                    Len::Ind => out.push(0x9f),
                }
                for i in v {
                    i.enc_to(out)
                }
                if *l == Len::Ind {
                    out.push(0xff)
                }
            }
            It::Map(l, v) => {
                match l {
                    Len::Def(w) => head(5, *w, v.len() as u64, out),
                    Len::Ind => out.push(0xbf),
                }
                for (a, b) in v {
                    a.enc_to(out);
                    b.enc_to(out)
                }
                if *l == Len::Ind {
                    out.push(0xff)
                }
            }
            It::Tag(w, t, i) => {
                head(6, *w, *t, out);
                i.enc_to(out)
            }
            It::S1(v) => {
                assert!(*v < 24);
                out.push(0xe0 | v)
            }
            It::S2(v) => {
                out.push(0xf8);
                out.push(*v)
            }
            It::F16(v) => {
                out.push(0xf9);
                out.extend_from_slice(&v.to_be_bytes())
            }
            It::F32(v) => {
                out.push(0xfa);
                out.extend_from_slice(&v.to_be_bytes())
            }
            It::F64(v) => {
                out.push(0xfb);
                out.extend_from_slice(&v.to_be_bytes())
            }
        }
    }

    pub fn enc(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.enc_to(&mut o);
        o
    }

    pub fn kind(&self) -> Kind {
        match self {
            It::Pos(..) => Kind::Pos,
            It::Neg(..) => Kind::Neg,
            It::Bytes(_) => Kind::Bytes,
            It::Text(_) => Kind::Text,
            It::Arr(..) => Kind::Arr,
            It::Map(..) => Kind::Map,
            It::Tag(..) => Kind::Tag,
            It::S1(20) => Kind::False,
            It::S1(21) => Kind::True,
            It::S1(22) => Kind::Null,
            It::S1(23) => Kind::Undef,
            It::S1(_) | It::S2(_) => Kind::Byte,
            It::F16(_) | It::F32(_) | It::F64(_) => Kind::Float,
        }
    }

    /// is the text of this item (not of what it contains) valid
    pub fn utf8_shallow(&self) -> bool {
        match self {
            It::Text(s) => s.utf8(),
            _ => true,
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            It::Arr(_, v) => 1 + v.iter().map(|i| i.depth()).max().unwrap_or(0),
            It::Map(_, v) => {
                1 + v
                    .iter()
                    .map(|(a, b)| a.depth().max(b.depth()))
                    .max()
                    .unwrap_or(0)
            }
            It::Tag(_, _, i) => 1 + i.depth(),
            _ => 0,
        }
    }

    pub fn size(&self) -> usize {
        match self {
            It::Arr(_, v) => 1 + v.iter().map(|i| i.size()).sum::<usize>(),
            It::Map(_, v) => 1 + v.iter().map(|(a, b)| a.size() + b.size()).sum::<usize>(),
            It::Tag(_, _, i) => 1 + i.size(),
            _ => 1,
        }
    }

    /// does it have any encoding choice that is not the preferred one
    pub fn noncanonical(&self) -> bool {
        fn st(s: &Str) -> bool {
            match s {
                Str::Def(w, b) => *w != W::min(b.len() as u64),
                Str::Ind(_) => true,
            }
        }
        fn ln(l: &Len, n: usize) -> bool {
            *l != Len::Def(W::min(n as u64))
        }
        match self {
            It::Pos(w, v) | It::Neg(w, v) => *w != W::min(*v),
            It::Bytes(s) | It::Text(s) => st(s),
            It::Arr(l, v) => ln(l, v.len()) || v.iter().any(|i| i.noncanonical()),
            It::Map(l, v) => {
                ln(l, v.len()) || v.iter().any(|(a, b)| a.noncanonical() || b.noncanonical())
            }
            It::Tag(w, t, i) => *w != W::min(*t) || i.noncanonical(),
            It::S2(v) => *v < 20,
            _ => false,
        }
    }
}

pub fn enc_all(items: &[It]) -> Vec<u8> {
    let mut o = Vec::new();
    for i in items {
        i.enc_to(&mut o)
    }
    o
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Part {
    Header,
    Length,
    Content,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scan {
    /// complete item of that length
    Complete(usize),
    /// so far well formed, but the input stops: part being read, bytes needed and available
    Truncated(Part, u64, u64),
    /// not the start of any well-formed item. at: offset of the offending lead byte
    Malformed(usize),
}

enum Fr {
    Count(u64), // remaining items
    IndArr,
    IndMap(bool),
    Chunks(u8),
}

/// Iterative well-formedness scanner: what starts at `b[0]`?
pub fn scan(b: &[u8]) -> Scan {
    let mut p = 0usize;
    let mut st: Vec<Fr> = Vec::new();
    loop {
        if p >= b.len() {
            return Scan::Truncated(Part::Header, 1, 0);
        }
        let lead = b[p];
        let at = p;
        let major = lead >> 5;
        let low = lead & 31;
        p += 1;
        let chunk = match st.last() {
            Some(Fr::Chunks(m)) => Some(*m),
            _ => None,
        };
        // an item completed?
        let mut done = false;
        if lead == 0xff {
            match st.last() {
                Some(Fr::IndArr) | Some(Fr::IndMap(false)) | Some(Fr::Chunks(_)) => {
                    st.pop();
                    done = true;
                }
                _ => return Scan::Malformed(at),
            }
        } else {
            if let Some(m) = chunk {
                if m != major || low == 31 {
                    return Scan::Malformed(at);
                }
            }
            if (28..=30).contains(&low) {
                return Scan::Malformed(at);
            }
            let mut arg = low as u64;
            if low == 31 {
                match major {
                    2 | 3 => st.push(Fr::Chunks(major)),
                    4 => st.push(Fr::IndArr),
                    5 => st.push(Fr::IndMap(false)),
                    _ => return Scan::Malformed(at),
                }
                continue;
            }
            if low >= 24 {
                let n = 1usize << (low - 24);
                let have = b.len() - p;
                if have < n {
                    return Scan::Truncated(Part::Length, n as u64, have as u64);
                }
                arg = 0;
                for i in 0..n {
                    arg = (arg << 8) | b[p + i] as u64;
                }
                p += n;
            }
            match major {
                0 | 1 | 7 => done = true,
                2 | 3 => {
                    let have = (b.len() - p) as u64;
                    if have < arg {
                        return Scan::Truncated(Part::Content, arg, have);
                    }
                    p += arg as usize;
                    // a chunk does not complete anything
                    if chunk.is_some() {
                        continue;
                    }
                    done = true
                }
                4 => {
                    if arg == 0 {
                        done = true
                    } else {
                        st.push(Fr::Count(arg))
                    }
                }
                5 => {
                    if arg == 0 {
                        done = true
                    } else if arg > u64::MAX / 2 {
                        // more items than can ever be supplied
                        st.push(Fr::Count(u64::MAX))
                    } else {
                        st.push(Fr::Count(arg * 2))
                    }
                }
                _ => st.push(Fr::Count(1)),
            }
        }
        if done {
            loop {
                match st.last_mut() {
                    None => return Scan::Complete(p),
                    Some(Fr::Count(n)) => {
                        *n -= 1;
                        if *n > 0 {
                            break;
                        }
                        st.pop();
                    }
                    Some(Fr::IndArr) => break,
                    Some(Fr::IndMap(v)) => {
                        *v = !*v;
                        break;
                    }
                    Some(Fr::Chunks(_)) => break,
                }
            }
        }
    }
}

/// Parse one complete item (known to be well-formed by `scan`) into the model; recursive
pub fn parse(b: &[u8]) -> Option<(It, usize)> {
    match scan(b) {
        Scan::Complete(_) => {}
        _ => return None,
    }
    let mut p = 0;
    let it = parse_at(b, &mut p);
    Some((it, p))
}

pub fn parse_all(mut b: &[u8]) -> Option<Vec<It>> {
    let mut v = Vec::new();
    while !b.is_empty() {
        let (i, n) = parse(b)?;
        v.push(i);
        b = &b[n..];
    }
    Some(v)
}

fn arg(b: &[u8], p: &mut usize) -> (u8, W, u64) {
    let lead = b[*p];
    *p += 1;
    let low = lead & 31;
    if low < 24 {
        return (lead >> 5, W::I, low as u64);
    }
    let n = 1usize << (low - 24);
    let mut v = 0u64;
    for i in 0..n {
        v = (v << 8) | b[*p + i] as u64;
    }
    *p += n;
    (lead >> 5, WS[(low - 23) as usize], v)
}

fn parse_str(b: &[u8], p: &mut usize) -> Str {
    if b[*p] & 31 == 31 {
        *p += 1;
        let mut c = Vec::new();
        while b[*p] != 0xff {
            let (_, w, n) = arg(b, p);
            c.push((w, b[*p..*p + n as usize].to_vec()));
            *p += n as usize;
        }
        *p += 1;
        Str::Ind(c)
    } else {
        let (_, w, n) = arg(b, p);
        let s = b[*p..*p + n as usize].to_vec();
        *p += n as usize;
        Str::Def(w, s)
    }
}

fn parse_at(b: &[u8], p: &mut usize) -> It {
    let lead = b[*p];
    match lead >> 5 {
        0 => {
            let (_, w, v) = arg(b, p);
            It::Pos(w, v)
        }
        1 => {
            let (_, w, v) = arg(b, p);
            It::Neg(w, v)
        }
        2 => It::Bytes(parse_str(b, p)),
        3 => It::Text(parse_str(b, p)),
        4 => {
            if lead == 0x9f {
                *p += 1;
                let mut v = Vec::new();
                while b[*p] != 0xff {
                    v.push(parse_at(b, p))
                }
                *p += 1;
                It::Arr(Len::Ind, v)
            } else {
                let (_, w, n) = arg(b, p);
                It::Arr(Len::Def(w), (0..n).map(|_| parse_at(b, p)).collect())
            }
        }
        5 => {
            if lead == 0xbf {
                *p += 1;
                let mut v = Vec::new();
                while b[*p] != 0xff {
                    let k = parse_at(b, p);
                    let x = parse_at(b, p);
                    v.push((k, x))
                }
                *p += 1;
                It::Map(Len::Ind, v)
            } else {
                let (_, w, n) = arg(b, p);
                It::Map(
                    Len::Def(w),
                    (0..n)
                        .map(|_| {
                            let k = parse_at(b, p);
                            let x = parse_at(b, p);
                            (k, x)
                        })
                        .collect(),
                )
            }
        }
        6 => {
            let (_, w, t) = arg(b, p);
            It::Tag(w, t, Box::new(parse_at(b, p)))
        }
        _ => match lead & 31 {
            25 => {
                let (_, _, v) = arg(b, p);
                It::F16(v as u16)
            }
            26 => {
                let (_, _, v) = arg(b, p);
                It::F32(v as u32)
            }
            27 => {
                let (_, _, v) = arg(b, p);
                It::F64(v)
            }
            24 => {
                let (_, _, v) = arg(b, p);
                It::S2(v as u8)
            }
            n => {
                *p += 1;
                It::S1(n)
            }
        },
    }
}

/// The kind a lead byte announces; None if no item (nor a break) has this lead byte
pub fn lead_kind(l: u8) -> Option<Kind> {
    let low = l & 31;
    if (28..=30).contains(&low) {
        return None;
    }
    match l >> 5 {
        0 if low != 31 => Some(Kind::Pos),
        1 if low != 31 => Some(Kind::Neg),
        2 => Some(Kind::Bytes),
        3 => Some(Kind::Text),
        4 => Some(Kind::Arr),
        5 => Some(Kind::Map),
        6 if low != 31 => Some(Kind::Tag),
        7 => Some(match low {
            20 => Kind::False,
            21 => Kind::True,
            22 => Kind::Null,
            23 => Kind::Undef,
            0..=19 | 24 => Kind::Byte,
            25..=27 => Kind::Float,
            _ => Kind::Break,
        }),
        _ => None,
    }
}

/// number of argument bytes following a lead byte
pub fn lead_extra(l: u8) -> usize {
    match l & 31 {
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => 0,
    }
}

/// The pieces a reader has to fetch, in order: (part, start, length). Pieces of length 0 are left out
pub fn pieces(it: &It) -> Vec<(Part, usize, usize)> {
    let mut out = Vec::new();
    let b = it.enc();
    let mut p = 0;
    // heads and contents are exactly determined by walking the (well-formed) encoding
    while p < b.len() {
        let l = b[p];
        out.push((Part::Header, p, 1));
        let n = lead_extra(l);
        p += 1;
        if n > 0 {
            out.push((Part::Length, p, n));
        }
        let m = l >> 5;
        if m == 2 || m == 3 {
            if l & 31 != 31 {
                let mut q = p - 1;
                let (_, _, len) = arg(&b, &mut q);
                p += n;
                if len > 0 {
                    out.push((Part::Content, p, len as usize));
                }
                p += len as usize;
                continue;
            }
        }
        p += n;
    }
    out
}

/// value of a half float, by IEEE 754 definition (not through bit tricks)
pub fn half_value(h: u16) -> f64 {
    let s = if h >> 15 == 1 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 1023) as f64;
    if e == 31 {
        if m == 0.0 {
            s * f64::INFINITY
        } else {
            f64::NAN
        }
    } else if e == 0 {
        s * m / (1u64 << 24) as f64
    } else {
        s * (1024.0 + m) * (1u64 << e) as f64 / (1u64 << 25) as f64
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn selfcheck() {
        let it = It::Arr(
            Len::Ind,
            vec![
                It::Text(Str::Ind(vec![(W::W1, b"ab".to_vec()), (W::I, vec![])])),
                It::Map(Len::Def(W::W2), vec![(It::pos(1), It::tag(99, It::null()))]),
                It::S2(3),
                It::F16(0x3c00),
            ],
        );
        let b = it.enc();
        assert_eq!(scan(&b), Scan::Complete(b.len()));
        assert_eq!(parse(&b), Some((it, b.len())));
        assert_eq!(half_value(0x3c00), 1.0);
    }
}
