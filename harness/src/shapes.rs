//! Scalable inputs: one item of a given shape whose size grows with n.
pub const NAMES: [&str; 42] = [
    "array of integers", "indefinite array of integers", "map of integers", "indefinite map of integers", "nested arrays", "nested indefinite arrays",
    "maps nested by value", "maps nested by key", "indefinite maps nested by value", "indefinite maps nested by key", "nested tags", "bytes chunks", "text chunks", "empty chunks",
    "long bytes", "long text", "array of texts", "array of empty arrays", "array of maps", "right comb", "left comb", "indefinite right comb", "tags and arrays", "nested mix",
    "array of tagged", "array of chunked bytes", "rows of rows", "array of floats and constants", "map of arrays", "wide then deep", "deep then wide", "array of indefinite arrays", "array of byte strings", "multi-byte text chunks",
    "one long text chunk, many short", "many short bytes chunks, one long", "one long element, many short", "many short elements, one long text", "one long key, many short", "one long row, many empty",
    "one deep element, many flat", "rows of growing length",
];

fn head(m: u8, n: usize, b: &mut Vec<u8>) {
    b.push(m << 5 | 26);
    b.extend_from_slice(&(n as u32).to_be_bytes())
}

pub fn shape(k: usize, n: usize) -> Vec<u8> {
    let mut b = vec![];
    fn rep(b: &mut Vec<u8>, p: &[u8], n: usize) {
        for _ in 0..n {
            b.extend_from_slice(p)
        }
    }
    match k {
        0 => {
            head(4, n, &mut b);
            rep(&mut b, &[7], n)
        }
        1 => {
            b.push(0x9f);
            rep(&mut b, &[7], n);
            b.push(0xff)
        }
        2 => {
            head(5, n, &mut b);
            rep(&mut b, &[1, 2], n)
        }
        3 => {
            b.push(0xbf);
            rep(&mut b, &[1, 2], n);
            b.push(0xff)
        }
        4 => {
            rep(&mut b, &[0x81], n);
            b.push(0)
        }
        5 => {
            rep(&mut b, &[0x9f], n);
            rep(&mut b, &[0xff], n)
        }
        6 => {
            rep(&mut b, &[0xa1, 0], n);
            b.push(0)
        }
        7 => {
            rep(&mut b, &[0xa1], n);
            b.push(0);
            rep(&mut b, &[0], n)
        }
        8 => {
            rep(&mut b, &[0xbf, 0], n);
            b.push(0);
            rep(&mut b, &[0xff], n)
        }
        9 => {
            rep(&mut b, &[0xbf], n);
            b.push(0);
            rep(&mut b, &[0, 0xff], n)
        }
        10 => {
            rep(&mut b, &[0xc1], n);
            b.push(0)
        }
        11 => {
            b.push(0x5f);
            rep(&mut b, &[0x41, 9], n);
            b.push(0xff)
        }
        12 => {
            b.push(0x7f);
            rep(&mut b, &[0x61, b'x'], n);
            b.push(0xff)
        }
        13 => {
            b.push(0x5f);
            rep(&mut b, &[0x40], n);
            b.push(0xff)
        }
        14 => {
            head(2, n, &mut b);
            rep(&mut b, &[9], n)
        }
        15 => {
            head(3, n, &mut b);
            rep(&mut b, b"y", n)
        }
        16 => {
            head(4, n, &mut b);
            rep(&mut b, b"\x63abc", n)
        }
        17 => {
            head(4, n, &mut b);
            rep(&mut b, &[0x80], n)
        }
        18 => {
            head(4, n, &mut b);
            rep(&mut b, &[0xa1, 1, 0xa0], n)
        }
        19 => {
            rep(&mut b, &[0x82, 0], n);
            b.push(0)
        }
        20 => {
            rep(&mut b, &[0x82], n);
            b.push(0);
            rep(&mut b, &[0], n)
        }
        21 => {
            rep(&mut b, &[0x9f, 0], n);
            rep(&mut b, &[0xff], n)
        }
        22 => {
            rep(&mut b, &[0xc1, 0x81], n);
            b.push(0)
        }
        23 => {
            rep(&mut b, &[0x81, 0x9f, 0xc1, 0xbf, 0x00, 0xa1, 0x00], n);
            b.push(0);
            rep(&mut b, &[0xff, 0xff], n)
        }
        24 => {
            head(4, n, &mut b);
            rep(&mut b, &[0xc2, 0x41, 1], n)
        }
        25 => {
            head(4, n, &mut b);
            rep(&mut b, &[0x5f, 0x41, 1, 0x40, 0xff], n)
        }
        26 => {
            let r = (n as f64).sqrt() as usize;
            head(4, r, &mut b);
            for _ in 0..r {
                head(4, r, &mut b);
                rep(&mut b, &[7], r)
            }
        }
        27 => {
            head(4, n, &mut b);
            for i in 0..n {
                match i % 4 {
                    0 => b.extend([0xf9, 0x3c, 0]),
                    1 => b.push(0xf5),
                    2 => b.extend([0xf8, 200]),
                    _ => b.extend([0xfa, 0, 0, 0, 1]),
                }
            }
        }
        28 => {
            head(5, n, &mut b);
            rep(&mut b, &[0x61, b'k', 0x82, 1, 2], n)
        }
        29 => {
            head(4, n + 1, &mut b);
            rep(&mut b, &[7], n);
            rep(&mut b, &[0x81], n);
            b.push(0)
        }
        30 => {
            rep(&mut b, &[0x81], n);
            head(4, n, &mut b);
            rep(&mut b, &[7], n)
        }
        31 => {
            head(4, n, &mut b);
            rep(&mut b, &[0x9f, 1, 0xff], n)
        }
        32 => {
            head(4, n, &mut b);
            rep(&mut b, &[0x42, 1, 2], n)
        }
        34 => {
            b.push(0x7f);
            head(3, n, &mut b);
            rep(&mut b, b"y", n);
            rep(&mut b, &[0x61, b'x'], n);
            b.push(0xff)
        }
        35 => {
            b.push(0x5f);
            rep(&mut b, &[0x41, 1], n);
            head(2, n, &mut b);
            rep(&mut b, &[9], n);
            b.push(0xff)
        }
        36 => {
            head(4, n + 1, &mut b);
            head(2, n, &mut b);
            rep(&mut b, &[9], n);
            rep(&mut b, &[0x41, 7], n)
        }
        37 => {
            head(4, n + 1, &mut b);
            rep(&mut b, &[0x61, b'x'], n);
            head(3, n, &mut b);
            rep(&mut b, b"y", n)
        }
        38 => {
            head(5, n + 1, &mut b);
            head(3, n, &mut b);
            rep(&mut b, b"y", n);
            b.push(0);
            rep(&mut b, &[0x61, b'x', 0], n)
        }
        39 => {
            head(4, n + 1, &mut b);
            head(4, n, &mut b);
            rep(&mut b, &[9], n);
            rep(&mut b, &[0x80], n)
        }
        40 => {
            head(4, n + 1, &mut b);
            rep(&mut b, &[0x81], n);
            b.push(0);
            rep(&mut b, &[0x81, 0], n)
        }
        41 => {
            let r = ((2 * n) as f64).sqrt() as usize;
            head(4, r, &mut b);
            for i in 0..r {
                head(4, i, &mut b);
                rep(&mut b, &[7], i)
            }
        }
        _ => {
            b.push(0x7f);
            rep(&mut b, &[0x63, 0xe2, 0x82, 0xac], n);
            b.push(0xff)
        }
    }
    b
}
