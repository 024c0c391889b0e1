//! Deterministic random generators of CBOR items, values and hostile bytes.
use crate::refc::*;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// how many of the next lengths, counts and depths may be big
    pub big: u32,
}

static SMALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(cfg!(miri));
/// small inputs only: interpreters are slow
pub fn small() -> bool {
    SMALL.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn set_small() {
    SMALL.store(true, std::sync::atomic::Ordering::Relaxed)
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
    for c in b.chunks(8) {
        let mut v = 0u64;
        for x in c {
            v = (v << 8) | *x as u64
        }
        h = (h ^ v).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    h
}

impl Rng {
    pub fn new(seed: u64, a: u64, b: u64) -> Rng {
        let mut x = seed ^ a.rotate_left(24).wrapping_mul(0xd6e8feb86659fd93) ^ b.wrapping_mul(0xa0761d6478bd642f);
        let mut s = [0; 4];
        for i in s.iter_mut() {
            *i = splitmix(&mut x)
        }
        Rng { s, big: 0 }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// true with probability a/b
    pub fn p(&mut self, a: u32, b: u32) -> bool {
        self.u64() % (b as u64) < a as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// What a generated item may contain
#[derive(Clone, Copy)]
pub struct Opt {
    pub depth: usize,
    /// rough budget of nested items
    pub size: usize,
    /// all text is valid UTF-8
    pub valid_text: bool,
    /// only preferred encodings
    pub canonical: bool,
}

impl Opt {
    pub fn std() -> Opt {
        Opt {
            depth: if small() { 3 } else { 5 },
            size: if small() { 5 } else { 24 },
            valid_text: true,
            canonical: false,
        }
    }
    pub fn any_text() -> Opt {
        Opt {
            valid_text: false,
            ..Opt::std()
        }
    }
}

pub const BOUNDS: [u64; 37] = [
    0,
    1,
    2,
    9,
    10,
    19,
    20,
    22,
    23,
    24,
    25,
    31,
    32,
    63,
    64,
    127,
    128,
    254,
    255,
    256,
    257,
    511,
    0x7fff,
    0x8000,
    0xfffe,
    0xffff,
    0x1_0000,
    0x1_0001,
    0x7fff_ffff,
    0x8000_0000,
    0xffff_fffe,
    0xffff_ffff,
    0x1_0000_0000,
    0x1_0000_0001,
    0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000,
    u64::MAX,
];

pub const TEXTS: [&str; 12] = [
    "", "a", "key", "é", "€", "𝄞", "\u{0}", "\u{7f}", "\u{80}", "\u{7ff}\u{800}", "\u{ffff}\u{10000}", "\u{10ffff}",
];

/// not valid UTF-8: lone continuation, overlong, surrogate, beyond max, truncated sequences
pub const BADTEXTS: [&[u8]; 14] = [
    &[0x80],
    &[0xbf],
    &[0xc0, 0x80],
    &[0xc1, 0xbf],
    &[0xc3],
    &[0xe0, 0x80, 0x80],
    &[0xe2, 0x82],
    &[0xed, 0xa0, 0x80],
    &[0xed, 0xbf, 0xbf],
    &[0xf0, 0x9d, 0x84],
    &[0xf0, 0x80, 0x80, 0x80],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xff],
    &[0xfe, 0xff],
];

impl Rng {
    /// integers, biased towards the boundaries of the header widths
    pub fn uint(&mut self) -> u64 {
        match self.below(8) {
            0 | 1 | 2 => *self.pick(&BOUNDS),
            3 => self.u64() % 24,
            4 => self.u64() % 300,
            5 => self.u64() >> self.below(64),
            6 => self.u64() % 70000,
            _ => {
                // huge, with small low bits: what a truncating conversion would turn into small
                let lo = self.u64() % 40;
                let sh = *self.pick(&[8u32, 16, 32, 40, 48, 63]);
                (1u64 << sh).wrapping_mul(1 + self.u64() % 3) | lo
            }
        }
    }

    /// use up one permission to be big, with probability a/b
    pub fn take_big(&mut self, a: u32, b: u32) -> bool {
        if self.big > 0 && self.p(a, b) {
            self.big -= 1;
            return true;
        }
        false
    }

    /// a size that limits and thresholds are likely around
    pub fn threshold(&mut self, max: usize) -> usize {
        const T: [usize; 34] = [
            24, 32, 48, 50, 64, 100, 128, 200, 250, 256, 300, 500, 512, 768, 1000, 1024, 1500, 2000, 2048, 4000, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 50000, 65535, 65536, 65537, 100000, 131072, 262144,
        ];
        loop {
            let n = if self.p(1, 2) {
                let t = *self.pick(&T);
                t - 2 + self.below(5)
            } else {
                let e = 4 + self.below(14);
                (1 << e) + self.below(1 << e)
            };
            if n <= max {
                return n;
            }
        }
    }

    /// a header width able to hold v
    pub fn width(&mut self, v: u64, canonical: bool) -> W {
        let m = W::min(v);
        if canonical || self.p(1, 2) {
            return m;
        }
        let i = WS.iter().position(|w| *w == m).unwrap();
        WS[i + self.below(WS.len() - i)]
    }

    pub fn slen(&mut self) -> usize {
        if self.take_big(1, 2) {
            return self.threshold(1 << 18);
        }
        // interpreters are slow
        if small() {
            return *self.pick(&[0, 0, 1, 1, 2, 3, 4, 6, 23, 24, 30]);
        }
        match self.below(40) {
            0 => 23,
            1 => 24,
            2 => 25,
            3 => 255,
            4 => 256,
            5 => 257,
            6 if self.p(1, 60) => *self.pick(&[65534, 65535, 65536, 65537, 70000]),
            7..=12 => 0,
            _ => self.below(12),
        }
    }

    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        match self.below(4) {
            0 => v.resize(n, *self.pick(&[0u8, 0xff, 0x5f, 0x40, 0x60])),
            _ => {
                while v.len() < n {
                    v.extend_from_slice(&self.u64().to_le_bytes())
                }
                v.truncate(n)
            }
        }
        v
    }

    pub fn text_n(&mut self, n: usize) -> String {
        let mut s = String::new();
        while s.len() < n {
            let left = n - s.len();
            let c: char = match self.below(6) {
                0 if left >= 2 => *self.pick(&['\u{80}', 'é', '\u{7ff}']),
                1 if left >= 3 => *self.pick(&['\u{800}', '€', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{feff}']),
                2 if left >= 4 => *self.pick(&['\u{10000}', '𝄞', '\u{10ffff}']),
                3 => *self.pick(&['\u{0}', '\u{7f}', ' ', '\n']),
                _ => (b'a' + self.below(26) as u8) as char,
            };
            s.push(c)
        }
        s
    }

    pub fn text_payload(&mut self, valid: bool) -> Vec<u8> {
        if !valid && self.p(1, 3) {
            let mut v = Vec::new();
            let n = self.below(6);
            v.extend_from_slice(self.text_n(n).as_bytes());
            v.extend_from_slice(*self.pick(&BADTEXTS));
            if self.p(1, 2) {
                let n = self.below(6);
                v.extend_from_slice(self.text_n(n).as_bytes());
            }
            return v;
        }
        if self.p(1, 8) {
            return self.pick(&TEXTS).as_bytes().to_vec();
        }
        let n = self.slen();
        self.text_n(n).into_bytes()
    }

    pub fn strdef(&mut self, text: bool, o: &Opt) -> Str {
        let b = if text {
            self.text_payload(o.valid_text)
        } else {
            let n = self.slen();
            self.bytes_n(n)
        };
        Str::Def(self.width(b.len() as u64, o.canonical), b)
    }

    pub fn string(&mut self, text: bool, o: &Opt) -> Str {
        if !o.canonical && self.p(1, 3) {
            let mut c = Vec::new();
            if self.take_big(1, 2) {
                // many chunks
                let n = self.threshold(70000);
                let few: Vec<_> = (0..1 + self.below(5))
                    .map(|_| match self.strdef(text, &Opt { valid_text: true, ..*o }) {
                        Str::Def(w, b) if b.len() < 40 => (w, b),
                        _ => (W::I, vec![]),
                    })
                    .collect();
                for _ in 0..n {
                    c.push(self.pick(&few).clone())
                }
                return Str::Ind(c);
            }
            let n = match self.below(12) {
                0 => 0,
                1 => 24 + self.below(8),
                _ => 1 + self.below(4),
            };
            for _ in 0..n {
                match self.strdef(text, o) {
                    Str::Def(w, b) => c.push((w, b)),
                    _ => unreachable!(),
                }
            }
            Str::Ind(c)
        } else {
            self.strdef(text, o)
        }
    }

    /// split content into random chunks (for text on character boundaries), random widths
    pub fn rechunk(&mut self, b: &[u8], text: bool) -> Str {
        if self.p(1, 2) {
            return Str::Def(self.width(b.len() as u64, false), b.to_vec());
        }
        let mut c = Vec::new();
        let mut i = 0;
        let most = if self.take_big(1, 2) { 1 + self.below(3) } else { 1 + b.len() / 2 };
        if self.p(1, 4) {
            c.push((self.width(0, false), vec![]));
        }
        while i < b.len() {
            let mut n = 1 + self.below((b.len() - i).min(most));
            if text {
                while i + n < b.len() && b[i + n] & 0xc0 == 0x80 {
                    n += 1
                }
            }
            c.push((self.width(n as u64, false), b[i..i + n].to_vec()));
            i += n;
            if self.p(1, 6) {
                c.push((self.width(0, false), vec![]));
            }
        }
        Str::Ind(c)
    }

    pub fn half(&mut self) -> u16 {
        match self.below(3) {
            0 => *self.pick(&[
                0, 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x3c00, 0xbc00, 0x7bff, 0x7c00, 0xfc00, 0x7c01, 0x7dff, 0x7e00,
                0x7fff, 0xfe00, 0xffff, 0xfc01,
            ]),
            _ => self.u64() as u16,
        }
    }
    pub fn single(&mut self) -> u32 {
        match self.below(3) {
            0 => *self.pick(&[
                0, 0x8000_0000, 1, 0x007f_ffff, 0x0080_0000, 0x3f80_0000, 0x7f7f_ffff, 0x7f80_0000, 0xff80_0000, 0x7f80_0001,
                0x7fbf_ffff, 0x7fc0_0000, 0x7fff_ffff, 0xffff_ffff, 0x3380_0000, 0x477f_e000,
            ]),
            _ => self.u64() as u32,
        }
    }
    pub fn double(&mut self) -> u64 {
        match self.below(3) {
            0 => *self.pick(&[
                0,
                1 << 63,
                1,
                0x000f_ffff_ffff_ffff,
                0x0010_0000_0000_0000,
                0x3ff0_0000_0000_0000,
                0x7fef_ffff_ffff_ffff,
                0x7ff0_0000_0000_0000,
                0xfff0_0000_0000_0000,
                0x7ff0_0000_0000_0001,
                0x7ff7_ffff_ffff_ffff,
                0x7ff8_0000_0000_0000,
                0x7fff_ffff_ffff_ffff,
                u64::MAX,
                0x47ef_ffff_e000_0000,
                0x47ef_ffff_f000_0000,
                0x36a0_0000_0000_0000,
                0x3690_0000_0000_0000,
                0x3690_0000_0000_0001,
                0x3810_0000_0000_0000,
                0x380f_ffff_ffff_ffff,
            ]),
            1 => {
                // around what a single can hold
                let e = 1023 - 152 + self.below(282) as u64;
                (self.u64() & 1) << 63 | e << 52 | (self.u64() & 0x000f_ffff_ffff_ffff & !(self.u64() & self.u64()))
            }
            _ => self.u64(),
        }
    }

    pub fn leaf(&mut self, o: &Opt) -> It {
        match self.below(20) {
            0..=4 => {
                let v = self.uint();
                It::Pos(self.width(v, o.canonical), v)
            }
            5 | 6 => {
                let v = self.uint();
                It::Neg(self.width(v, o.canonical), v)
            }
            7..=9 => It::Bytes(self.string(false, o)),
            10..=12 => It::Text(self.string(true, o)),
            13 | 14 => It::S1(20 + self.below(4) as u8),
            15 => It::S1(self.below(20) as u8),
            16 => {
                let v = match self.below(3) {
                    0 => self.below(40) as u8,
                    _ => self.u64() as u8,
                };
                if o.canonical && v < 20 {
                    It::S1(v)
                } else {
                    It::S2(v)
                }
            }
            17 => It::F16(self.half()),
            18 => It::F32(self.single()),
            _ => It::F64(self.double()),
        }
    }

    fn clen(&mut self, o: &Opt) -> usize {
        match self.below(60) {
            0 => 23 + self.below(3),
            1 if o.size > 200 => 255 + self.below(3),
            2..=12 => 0,
            _ => 1 + self.below(5),
        }
    }

    pub fn lenenc(&mut self, n: usize, o: &Opt) -> Len {
        if !o.canonical && self.p(1, 3) {
            Len::Ind
        } else {
            Len::Def(self.width(n as u64, o.canonical))
        }
    }

    pub fn item(&mut self, o: &Opt) -> It {
        if o.depth == 0 || o.size <= 1 || self.p(2, 5) {
            return self.leaf(o);
        }
        self.container(o)
    }

    /// a long chain of containers
    fn chain(&mut self, o: &Opt) -> It {
        let most = if self.p(1, 16) { 1030 } else { 520 };
        let n = self.threshold(most);
        let credit = std::mem::take(&mut self.big);
        let mut it = self.leaf(o);
        self.big = credit;
        let kinds: Vec<usize> = (0..1 + self.below(4)).map(|_| self.below(7)).collect();
        for i in 0..n {
            let l = if i == 0 || self.p(1, 4) { self.lenenc(2, o) } else if o.canonical { Len::Def(W::I) } else { *self.pick(&[Len::Ind, Len::Def(W::I)]) };
            it = match kinds[i % kinds.len()] {
                0 => It::Tag(W::I, 1 + (i % 20) as u64, Box::new(it)),
                1 => It::Arr(l, vec![it]),
                2 => It::Arr(l, vec![it, It::null()]),
                3 => It::Arr(l, vec![It::pos(7), it]),
                4 => It::Map(l, vec![(It::pos(1), it)]),
                5 => It::Map(l, vec![(it, It::pos(2))]),
                _ => It::Map(l, vec![(It::pos(0), It::pos(9)), (It::pos(1), it)]),
            };
        }
        it
    }

    pub fn container(&mut self, o: &Opt) -> It {
        if self.take_big(1, 3) {
            return self.chain(o);
        }
        let k = self.below(5);
        if k == 4 {
            let t = match self.below(3) {
                0 => *self.pick(&[0u64, 1, 2, 3, 4, 5, 24, 30, 32, 55799]),
                _ => self.uint(),
            };
            let sub = Opt {
                depth: o.depth.saturating_sub(1),
                size: o.size.saturating_sub(1),
                ..*o
            };
            return It::Tag(self.width(t, o.canonical), t, Box::new(self.item(&sub)));
        }
        let many = self.take_big(1, 2);
        let n = if many { self.threshold(1 << 17) } else { self.clen(o) };
        let sub = Opt {
            depth: o.depth.saturating_sub(1),
            size: o.size.saturating_sub(1) / (n + 1),
            ..*o
        };
        let l = self.lenenc(n, o);
        if many {
            // a few different ones, and one more of any kind somewhere
            let sub = Opt { depth: o.depth.saturating_sub(1).min(1), size: 2, ..*o };
            let few: Vec<It> = (0..1 + self.below(5))
                .map(|_| self.item(&sub))
                .map(|i| if i.enc().len() > 100 { It::null() } else { i })
                .collect();
            let at = self.below(n);
            let it = self.item(&Opt { size: 8, ..sub });
            let mut v: Vec<It> = (0..n).map(|_| self.pick(&few).clone()).collect();
            v[at] = it;
            return if k < 2 { It::Arr(l, v) } else { It::Map(l, v.into_iter().map(|i| (self.pick(&few).clone(), i)).collect()) };
        }
        if k < 2 {
            It::Arr(l, (0..n).map(|_| self.item(&sub)).collect())
        } else {
            It::Map(l, (0..n).map(|_| (self.item(&sub), self.item(&sub))).collect())
        }
    }

    /// another encoding of the same item: other widths, chunking, definite or not
    pub fn reencode(&mut self, it: &It) -> It {
        match it {
            It::Pos(_, v) => It::Pos(self.width(*v, false), *v),
            It::Neg(_, v) => It::Neg(self.width(*v, false), *v),
            It::Bytes(s) => It::Bytes(self.rechunk(&s.content(), false)),
            It::Text(s) => It::Text(self.rechunk(&s.content(), true)),
            It::Arr(_, v) => {
                let l = self.lenenc(v.len(), &Opt::std());
                It::Arr(l, v.iter().map(|i| self.reencode(i)).collect())
            }
            It::Map(_, v) => {
                let l = self.lenenc(v.len(), &Opt::std());
                It::Map(l, v.iter().map(|(a, b)| (self.reencode(a), self.reencode(b))).collect())
            }
            It::Tag(_, t, i) => It::Tag(self.width(*t, false), *t, Box::new(self.reencode(i))),
            It::S1(v) if *v < 20 && self.p(1, 2) => It::S2(*v),
            i => i.clone(),
        }
    }

    /// mutate bytes somewhere: small local damage
    pub fn mutate(&mut self, b: &mut Vec<u8>) {
        let n = 1 + self.below(3);
        for _ in 0..n {
            let i = self.below(b.len() + 1);
            match self.below(8) {
                0 if i < b.len() => b[i] ^= 1 << self.below(8),
                1 if i < b.len() => b[i] = self.u64() as u8,
                2 if i < b.len() => b[i] = *self.pick(&LEADS),
                3 => b.insert(i, *self.pick(&LEADS)),
                4 if i < b.len() => {
                    b.remove(i);
                }
                5 => b.truncate(i),
                6 if !b.is_empty() => {
                    // duplicate a slice somewhere else
                    let j = self.below(b.len());
                    let l = 1 + self.below((b.len() - j).min(6));
                    let s = b[j..j + l].to_vec();
                    for (k, x) in s.into_iter().enumerate() {
                        b.insert((i + k).min(b.len()), x)
                    }
                }
                7 if i < b.len() => b[i] = b[i] & 0xe0 | *self.pick(&[0u8, 1, 2, 23, 24, 25, 26, 27, 28, 30, 31]),
                _ => b.push(*self.pick(&LEADS)),
            }
        }
    }

    /// hostile bytes of many shapes
    pub fn hostile(&mut self) -> Vec<u8> {
        match self.below(10) {
            0 => {
                let n = self.below(if small() { 12 } else { 40 });
                self.bytes_n(n)
            }
            1 | 2 => {
                let n = 1 + self.below(if small() { 10 } else { 24 });
                (0..n).map(|_| *self.pick(&LEADS)).collect()
            }
            3 => {
                // huge declared length, followed by something
                let m = 2 + self.below(4) as u8;
                let v = self.uint();
                let mut b = Vec::new();
                if self.p(1, 2) {
                    b.push(*self.pick(&[0x9f, 0xbf, 0x5f, 0x7f, 0x81, 0xa1, 0xc1]));
                }
                let w = self.width(v, false);
                head(m, w, v, &mut b);
                let n = self.below(if small() { 8 } else { 24 });
                for _ in 0..n {
                    b.push(*self.pick(&LEADS))
                }
                b
            }
            4 => {
                // nesting
                let n = 1 + self.below(if small() { 8 } else { 60 });
                let mut b = Vec::new();
                for _ in 0..n {
                    b.extend_from_slice(*self.pick(&[
                        &[0x81u8][..],
                        &[0x9f],
                        &[0xa1, 0x00],
                        &[0xbf, 0x00],
                        &[0xc1],
                        &[0xd8, 0x20],
                        &[0x98, 0x01],
                        &[0xa1],
                        &[0x82, 0x00],
                    ]))
                }
                let c = self.below(n + 2);
                b.push(0);
                for _ in 0..c {
                    b.push(if self.p(3, 4) { 0xff } else { 0 })
                }
                b
            }
            _ => {
                let o = Opt {
                    valid_text: self.p(1, 2),
                    ..Opt::std()
                };
                let it = self.item(&o);
                let mut b = it.enc();
                if self.p(4, 5) {
                    self.mutate(&mut b);
                }
                b
            }
        }
    }
}

/// lead bytes that cover every behaviour of the grammar
pub const LEADS: [u8; 49] = [
    0x00, 0x01, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x38, 0x3f, 0x40, 0x41, 0x42, 0x58, 0x59, 0x5b, 0x5f,
    0x60, 0x61, 0x62, 0x78, 0x7f, 0x80, 0x81, 0x82, 0x98, 0x9b, 0x9f, 0xa0, 0xa1, 0xa2, 0xb8, 0xbb, 0xbf, 0xc0, 0xc1,
    0xd8, 0xdf, 0xe0, 0xf3, 0xf4, 0xf5, 0xf6, 0xf8, 0xf9, 0xfb, 0xff,
];

/// small alphabet for exhaustive enumeration of longer strings
pub const ALPHA: [u8; 24] = [
    0x00, 0x18, 0x1c, 0x1f, 0x20, 0x40, 0x41, 0x5f, 0x60, 0x61, 0x7f, 0x80, 0x81, 0x82, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0,
    0xd8, 0xf4, 0xf8, 0xf9, 0xff,
];

/// index -> byte string, over all strings of length 0, 1, 2, 3, ...
pub fn exhaustive_bytes(mut i: u64) -> Vec<u8> {
    let mut len = 0u32;
    let mut n = 1u64;
    while i >= n {
        i -= n;
        len += 1;
        n = 256u64.pow(len);
    }
    let mut v = vec![0; len as usize];
    for k in (0..len as usize).rev() {
        v[k] = (i % 256) as u8;
        i /= 256
    }
    v
}
/// number of byte strings of length up to n
pub fn exhaustive_bytes_count(n: u32) -> u64 {
    (0..=n).map(|k| 256u64.pow(k)).sum()
}

pub fn exhaustive_alpha(mut i: u64) -> Vec<u8> {
    let a = ALPHA.len() as u64;
    let mut len = 0u32;
    let mut n = 1u64;
    while i >= n {
        i -= n;
        len += 1;
        n = a.pow(len);
    }
    let mut v = vec![0; len as usize];
    for k in (0..len as usize).rev() {
        v[k] = ALPHA[(i % a) as usize];
        i /= a
    }
    v
}
pub fn exhaustive_alpha_count(n: u32) -> u64 {
    (0..=n).map(|k| (ALPHA.len() as u64).pow(k)).sum()
}
