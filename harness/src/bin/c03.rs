//! C03: elements the reader hands out are single complete items that tile the input
use cbored::*;
use mon::gen::*;
use mon::obs;
use mon::refc::*;
use mon::rt::*;
use mon::nest::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

/// offsets of the direct elements of the (well-formed) container at the start of b, and its length
fn elements(b: &[u8]) -> (usize, Vec<(usize, usize)>, usize) {
    let lead = b[0];
    let ind = lead & 31 == 31;
    let mut p = 1 + lead_extra(lead);
    let h = p;
    let mut v = vec![];
    let total = match scan(b) {
        Scan::Complete(n) => n,
        _ => unreachable!(),
    };
    let end = if ind { total - 1 } else { total };
    while p < end {
        match scan(&b[p..]) {
            Scan::Complete(n) => {
                v.push((p, n));
                p += n
            }
            x => panic!("model: {:?}", x),
        }
    }
    assert!(p == end);
    (h, v, total)
}

fn place(base: &[u8], s: &[u8]) -> usize {
    (s.as_ptr() as usize).wrapping_sub(base.as_ptr() as usize)
}

/// b: what one reader reads from (an item and maybe more). Checks all the container reads of it.
fn check(cx: &mut Cx, b: &[u8], depth: usize) -> Result<(), String> {
    let sc = scan(b);
    let kind = b.first().and_then(|l| lead_kind(*l));
    let complete = match sc {
        Scan::Complete(n) => Some(n),
        _ => None,
    };
    let is = |k: Kind| complete.is_some() && kind == Some(k);

    // arrays
    let mut r = Reader::new(b);
    match r.array() {
        Ok(a) => {
            ck!(is(Kind::Arr), "array returned from {} ({:?})", hex(b), sc);
            let (_, els, total) = elements(b);
            ckeq!(a.len(), els.len(), "number of elements");
            ckeq!(r.consumed_bytes(), total, "consumed by an array");
            let owned = a.owned();
            for (i, (p, n)) in els.iter().enumerate() {
                let e: &CborSlice = a[i];
                let s: &[u8] = e.as_ref();
                ck!(s == &b[*p..p + n], "element {} is {} instead of {}", i, hex(s), hex(&b[*p..p + n]));
                ckeq!(place(b, s), *p, "place of element {}", i);
                ck!(owned[i].as_ref() == s, "owned element {} differs", i);
                if depth < 6 {
                    check(cx, s, depth + 1)?
                }
            }
            let mut it = a.iter();
            for (p, n) in &els {
                let mut e = it.next().ok_or("iterator stops early")?;
                ckeq!(e.remaining_bytes(), *n, "bytes of the reader of an element");
                let _ = e.data();
                let _ = p;
            }
            ck!(it.next().is_none(), "iterator gives too many elements");
            cx.add("elements compared", els.len() as u64);
        }
        Err(_) => ck!(!is(Kind::Arr), "array refused {}", hex(b)),
    }
    // maps
    let mut r = Reader::new(b);
    match r.map() {
        Ok(a) => {
            ck!(is(Kind::Map), "map returned from {} ({:?})", hex(b), sc);
            let (_, els, total) = elements(b);
            ckeq!(a.len() * 2, els.len(), "number of keys and values");
            ckeq!(r.consumed_bytes(), total, "consumed by a map");
            for i in 0..a.len() {
                let (k, v) = a[i];
                for (s, (p, n)) in [(k, els[2 * i]), (v, els[2 * i + 1])] {
                    let s: &[u8] = s.as_ref();
                    ck!(s == &b[p..p + n], "entry {} has {} instead of {}", i, hex(s), hex(&b[p..p + n]));
                    ckeq!(place(b, s), p, "place of a part of entry {}", i);
                    if depth < 6 {
                        check(cx, s, depth + 1)?
                    }
                }
            }
            let lens: Vec<_> = a.iter().map(|(k, v)| (k.remaining_bytes(), v.remaining_bytes())).collect();
            for (i, (k, v)) in lens.iter().enumerate() {
                ckeq!((*k, *v), (els[2 * i].1, els[2 * i + 1].1), "readers of entry {}", i);
            }
            cx.add("elements compared", els.len() as u64);
        }
        Err(_) => ck!(!is(Kind::Map), "map refused {}", hex(b)),
    }
    // tags
    let mut r = Reader::new(b);
    match r.tag() {
        Ok(t) => {
            ck!(is(Kind::Tag), "tag returned from {} ({:?})", hex(b), sc);
            let (h, els, total) = elements(b);
            ckeq!(r.consumed_bytes(), total, "consumed by a tag");
            let td = t.data();
            let s: &[u8] = td.as_ref();
            ck!(s == &b[h..total] && els.len() == 1, "tag content {} instead of {}", hex(s), hex(&b[h..total]));
            ckeq!(place(b, s), h, "place of a tag content");
            ck!(t.owned().data().as_ref() == s, "owned tag content differs");
            if depth < 6 {
                check(cx, s, depth + 1)?
            }
            cx.count("elements compared");
        }
        Err(_) => ck!(!is(Kind::Tag), "tag refused {}", hex(b)),
    }
    // generic read: never an item out of something malformed, and everything it exposes is in place
    let mut r = Reader::new(b);
    match (r.data(), complete) {
        (Ok(_), None) => return Err(format!("data returned from {} ({:?})", hex(b), sc)),
        (Ok(d), Some(n)) => {
            ckeq!(r.consumed_bytes(), n, "consumed by a generic read");
            let got = match &d {
                Data::Array(a) => (0..a.len()).flat_map(|i| a[i].as_ref().to_vec()).collect::<Vec<u8>>(),
                Data::Map(m) => (0..m.len()).flat_map(|i| [m[i].0.as_ref(), m[i].1.as_ref()].concat()).collect(),
                Data::Tag(t) => t.data().as_ref().to_vec(),
                _ => vec![],
            };
            if !got.is_empty() {
                let (_, els, _) = elements(b);
                let want: Vec<u8> = els.iter().flat_map(|(p, n)| b[*p..p + n].to_vec()).collect();
                ck!(got == want, "generic read has elements {} instead of {}", hex(&got), hex(&want));
            }
        }
        (Err(e), Some(n)) => {
            // only text that is not valid may be refused
            let (it, _) = parse(b).ok_or("model")?;
            ck!(!it.utf8_shallow(), "data refused the well-formed {}: {:?}", hex(&b[..n]), e);
        }
        (Err(_), None) => {}
    }
    if complete.is_none() {
        let mut r = Reader::new(b);
        ck!(r.exact_decodable_slice::<DataOwned>().is_err(), "exact slice returned from {} ({:?})", hex(b), sc);
        let mut r = Reader::new(b);
        ck!(r.exact_decodable_data::<DataOwned>().is_err(), "exact data returned from {} ({:?})", hex(b), sc);
        let mut r = Reader::new(b);
        ck!(r.decode::<DataOwned>().is_err(), "decoded data from {} ({:?})", hex(b), sc);
        cx.count("not well-formed inputs refused");
    }
    Ok(())
}

fn one(cx: &mut Cx, b: Vec<u8>) -> Result<(), String> {
    cx.input(&b);
    check(cx, &b, 0)?;
    let nt = b.first().and_then(|l| lead_kind(*l)).map(|k| matches!(k, Kind::Arr | Kind::Map | Kind::Tag)).unwrap_or(false);
    cx.seen_bytes(&b, nt);
    cx.sample(|| hex(&b));
    Ok(())
}
fn ex_bytes(cx: &mut Cx) -> Result<(), String> {
    one(cx, exhaustive_bytes(cx.idx))
}
fn ex_alpha(cx: &mut Cx) -> Result<(), String> {
    // an array, map or tag around an enumerated string, too
    let mut b = exhaustive_alpha(cx.idx / 6);
    match cx.idx % 6 {
        0 => {}
        1 => b.insert(0, 0x82),
        2 => b.insert(0, 0x9f),
        3 => b.insert(0, 0xa1),
        4 => b.insert(0, 0xbf),
        _ => b.insert(0, 0xc1),
    }
    one(cx, b)
}
fn hostile(cx: &mut Cx) -> Result<(), String> {
    let mut b = cx.g.hostile();
    if cx.g.p(1, 3) {
        b.insert(0, *cx.g.pick(&[0x81, 0x82, 0x83, 0x9f, 0xa1, 0xa2, 0xbf, 0xc3]));
    }
    one(cx, b)
}
fn good(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 5, size: 40, ..Opt::any_text() };
    let it = cx.g.container(&o);
    let mut b = it.enc();
    cx.input(&b);
    // the whole tree, as the crate shows it
    if texts_ok(&it) {
        let mut r = Reader::new(&b);
        let d = r.data().map_err(|e| format!("data refused: {:?}", e))?;
        ckeq!(obs::data(&d)?, it, "tree read");
        cx.count("whole trees compared");
    }
    if cx.g.p(1, 2) {
        let h = cx.g.hostile();
        b.extend(h)
    }
    one(cx, b)
}
fn texts_ok(i: &It) -> bool {
    match i {
        It::Text(s) => s.utf8(),
        It::Arr(_, v) => v.iter().all(texts_ok),
        It::Map(_, v) => v.iter().all(|(a, b)| texts_ok(a) && texts_ok(b)),
        It::Tag(_, _, i) => texts_ok(i),
        _ => true,
    }
}
fn damage(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 4, size: 20, ..Opt::any_text() };
    let it = cx.g.container(&o);
    let mut b = it.enc();
    let ps: Vec<_> = pieces(&it).into_iter().filter(|p| p.0 == Part::Header).collect();
    let at = ps[cx.g.below(ps.len())].1;
    match cx.g.below(8) {
        0 => b.insert(at, 0xff),
        1 => b.insert(at, 0x00),
        2 => b[at] = b[at] & 0xe0 | 31,
        3 => b[at] = b[at] & 0xe0 | (28 + cx.g.below(3) as u8),
        4 => {
            b.remove(at);
        }
        5 => b[at] ^= 0x20,
        6 => b[at] = b[at].wrapping_add(1),
        _ => {
            let x = *cx.g.pick(&[0xc0u8, 0x5f, 0x7f, 0x9f, 0xbf, 0x40, 0x60, 0x80, 0xa0, 0xf6]);
            b.insert(at, x)
        }
    }
    one(cx, b)
}

/// read by a decoder that reads the elements with readers of their own, over and over
fn nested(cx: &mut Cx) -> Result<(), String> {
    let o = Opt { depth: 4, size: 8, ..Opt::std() };
    let it = cx.g.container(&o);
    let b = it.enc();
    cx.input(&b);
    let got = decode_from_bytes::<Any>(&b).map_err(|e| format!("{} read element by element: {:?}", hex(&b), e))?;
    ck!(got.0 == it, "{} read element by element is {:?}", hex(&b), got.0);
    cx.count("trees read element by element");
    cx.seen_bytes(&b, true);
    Ok(())
}

fn main() {
    run(&[
        Phase { name: "exhaustive-bytes", quick: exhaustive_bytes_count(2), thorough: exhaustive_bytes_count(3), f: ex_bytes, seeded: false },
        Phase { name: "exhaustive-alphabet", quick: 6 * exhaustive_alpha_count(3), thorough: 6 * exhaustive_alpha_count(5), f: ex_alpha, seeded: false },
        ph("good", 100_000, 5_000_000, good),
        ph("damage", 150_000, 8_000_000, damage),
        ph("hostile", 200_000, 10_000_000, hostile),
        ph("nested", 40_000, 1_500_000, nested),
        big!("big", 600, 24000, good),
        big!("big damage", 1500, 60000, damage),
    ])
}
