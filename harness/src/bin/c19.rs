//! C19: the structural state machine accepts exactly the CBOR grammar
use cbored::state::{HeaderValue, State};
use mon::gen::*;
use mon::obs::to_hv;
use mon::refc::*;
use mon::rt::*;
use mon::*;

#[global_allocator]
static A: Counting = Counting;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Simple,
    Text(Option<(W, u64)>),
    Bytes(Option<(W, u64)>),
    Array(Option<(W, u64)>),
    Map(Option<(W, u64)>),
    Tag(W, u64),
    Brk,
}
use Ev::*;

fn feed(s: &mut State, e: Ev) -> bool {
    let h = |x: Option<(W, u64)>| -> Option<HeaderValue> { x.map(|(w, v)| to_hv(w, v)) };
    match e {
        Simple => s.simple(),
        Text(x) => s.text(h(x)),
        Bytes(x) => s.bytes(h(x)),
        Array(x) => s.array(h(x)),
        Map(x) => s.map(h(x)),
        Tag(..) => s.tag(),
        Brk => s.brk(),
    }
    .is_ok()
}

/// what is still open: a pushdown automaton of the grammar
#[derive(Clone, Debug)]
enum Open {
    /// so many items more (a map of n entries has 2n)
    Items(u128),
    Ind,
    IndMap { value: bool },
    Chunks { text: bool },
}
#[derive(Clone, Debug, Default)]
struct Model {
    open: Vec<Open>,
}
impl Model {
    fn item(&mut self) {
        loop {
            match self.open.last_mut() {
                Some(Open::Items(n)) => {
                    *n -= 1;
                    if *n > 0 {
                        return;
                    }
                    self.open.pop();
                }
                Some(Open::IndMap { value }) => {
                    *value = !*value;
                    return;
                }
                _ => return,
            }
        }
    }
    fn accepts(&self, e: Ev) -> bool {
        match (self.open.last(), e) {
            (Some(Open::Ind | Open::IndMap { value: false } | Open::Chunks { .. }), Brk) => true,
            (_, Brk) => false,
            (Some(Open::Chunks { text: true }), Text(Some(_))) => true,
            (Some(Open::Chunks { text: false }), Bytes(Some(_))) => true,
            (Some(Open::Chunks { .. }), _) => false,
            _ => true,
        }
    }
    /// an event known to be accepted
    fn feed(&mut self, e: Ev) {
        let chunk = matches!(self.open.last(), Some(Open::Chunks { .. }));
        match e {
            _ if chunk && e != Brk => {}
            Simple | Text(Some(_)) | Bytes(Some(_)) => self.item(),
            Text(None) => self.open.push(Open::Chunks { text: true }),
            Bytes(None) => self.open.push(Open::Chunks { text: false }),
            Array(None) => self.open.push(Open::Ind),
            Map(None) => self.open.push(Open::IndMap { value: false }),
            Array(Some((_, 0))) | Map(Some((_, 0))) => self.item(),
            Array(Some((_, n))) => self.open.push(Open::Items(n as u128)),
            Map(Some((_, n))) => self.open.push(Open::Items(2 * n as u128)),
            Tag(..) => self.open.push(Open::Items(1)),
            Brk => {
                self.open.pop();
                self.item()
            }
        }
    }
}

fn bytes_of(e: Ev, out: &mut Vec<u8>) {
    let mut h = |m: u8, x: Option<(W, u64)>, content: bool| match x {
        None => out.push(m << 5 | 31),
        Some((w, n)) => {
            head(m, w, n, out);
            if content {
                out.extend(std::iter::repeat(b'a').take(n as usize))
            }
        }
    };
    match e {
        Simple => h(0, Some((W::I, 1)), false),
        Bytes(x) => h(2, x, true),
        Text(x) => h(3, x, true),
        Array(x) => h(4, x, false),
        Map(x) => h(5, x, false),
        Tag(w, n) => h(6, Some((w, n)), false),
        Brk => out.push(0xff),
    }
}

/// run a sequence up to its first rejected event; number of events accepted
fn check(evs: &[Ev]) -> Result<usize, String> {
    let mut s = State::new();
    let mut m = Model::default();
    ck!(s.acceptable(), "a new state is not at a finished position");
    for (i, e) in evs.iter().enumerate() {
        let want = m.accepts(*e);
        let got = feed(&mut s, *e);
        let tail = || format!("{:?} (event {} of {}, after {:?})", e, i, evs.len(), &evs[i.saturating_sub(12)..i]);
        ck!(got == want, "{} is {}, and the grammar {} it", tail(), if got { "accepted" } else { "rejected" }, if want { "has" } else { "excludes" });
        if !want {
            return Ok(i);
        }
        m.feed(*e);
        ck!(s.acceptable() == m.open.is_empty(), "after {}: finished position {} reported, {} open", tail(), s.acceptable(), m.open.len());
    }
    Ok(evs.len())
}

const AL: [Ev; 14] = [
    Simple,
    Text(Some((W::I, 1))),
    Text(None),
    Bytes(Some((W::I, 0))),
    Bytes(None),
    Array(Some((W::I, 0))),
    Array(Some((W::I, 1))),
    Array(Some((W::I, 2))),
    Array(None),
    Map(Some((W::I, 0))),
    Map(Some((W::I, 1))),
    Map(None),
    Tag(W::I, 1),
    Brk,
];
const MID: usize = 3;

fn all(cx: &mut Cx, evs: &mut Vec<Ev>, left: usize) -> Result<(), String> {
    let n = check(evs)?;
    cx.seen(evs.iter().fold(7u64, |h, e| h.wrapping_mul(31).wrapping_add(AL.iter().position(|x| x == e).unwrap() as u64 + 1)), true);
    cx.add("events fed", n as u64);
    if n < evs.len() {
        cx.count("sequences ended by a rejected event");
        return Ok(());
    }
    if left == 0 {
        return Ok(());
    }
    for e in AL {
        evs.push(e);
        all(cx, evs, left - 1)?;
        evs.pop();
    }
    Ok(())
}

/// every sequence of events, up to the first rejected one
fn exhaustive(cx: &mut Cx) -> Result<(), String> {
    let mut i = cx.idx as usize;
    let mut evs = vec![];
    for _ in 0..MID {
        evs.push(AL[i % AL.len()]);
        i /= AL.len();
        // the shorter ones as well
        check(&evs)?;
    }
    let left = if cx.thorough { 7 } else { 6 } - MID;
    all(cx, &mut evs, left)
}

fn arg(g: &mut Rng, count: bool) -> (W, u64) {
    let v = match g.below(10) {
        0 => 0,
        1..=5 => 1 + g.below(4) as u64,
        6 => g.below(40) as u64,
        7 if count => g.uint(),
        8 if count => u64::MAX - g.below(3) as u64,
        9 if count => (1 << 63) - 1 + g.below(3) as u64,
        _ => 1,
    };
    (g.width(v, false), v)
}
fn any(g: &mut Rng, count: bool) -> Ev {
    match g.below(16) {
        0..=2 => Simple,
        3 => Text(Some(arg(g, count))),
        4 => Text(None),
        5 => Bytes(Some(arg(g, count))),
        6 => Bytes(None),
        7..=8 => Array(Some(arg(g, count))),
        9 => Array(None),
        10 => Map(Some(arg(g, count))),
        11 => Map(None),
        12 => {
            let v = g.uint();
            Tag(g.width(v, false), v)
        }
        _ => Brk,
    }
}

/// mostly acceptable sequences, ending with one that is not, whose bytes are compared with the scanner
fn random(cx: &mut Cx) -> Result<(), String> {
    let n = 1 + cx.g.below(if cx.idx % 50 == 0 { 600 } else { 40 });
    let huge = cx.g.p(1, 3);
    let mut m = Model::default();
    let mut evs = vec![];
    while evs.len() < n {
        let e = any(&mut cx.g, huge);
        let ok = m.accepts(e);
        if !ok && cx.g.p(19, 20) {
            continue;
        }
        evs.push(e);
        if !ok {
            break;
        }
        m.feed(e);
    }
    // close what is open, sometimes
    if cx.g.p(1, 2) {
        let mut k = 0;
        while !m.open.is_empty() && k < 200 {
            k += 1;
            let e = match m.open.last() {
                Some(Open::Ind | Open::IndMap { value: false } | Open::Chunks { .. }) => Brk,
                _ => Simple,
            };
            evs.push(e);
            if !m.accepts(e) {
                break;
            }
            m.feed(e)
        }
    }
    let done = check(&evs)?;
    cx.add("events fed", done as u64);
    if !huge {
        // the model itself, against the byte scanner
        let mut b = vec![];
        evs.iter().for_each(|e| bytes_of(*e, &mut b));
        cx.input(&b);
        let mut p = 0;
        let v = loop {
            match scan(&b[p..]) {
                Scan::Complete(k) => {
                    p += k;
                    if p == b.len() {
                        break Some(true);
                    }
                }
                Scan::Truncated(..) => break Some(false),
                Scan::Malformed(_) => break None,
            }
        };
        ck!((done == evs.len()) == v.is_some(), "harness: model and scanner disagree on {:?}", evs);
        if let Some(f) = v {
            let mut s = State::new();
            evs.iter().for_each(|e| {
                feed(&mut s, *e);
            });
            ck!(s.acceptable() == f, "finished position {} reported and the bytes {} a whole number of items: {:?}", s.acceptable(), if f { "are" } else { "are not" }, evs);
        }
        cx.count("sequences compared with the byte scanner");
    }
    cx.max("max events in a sequence", evs.len() as u64);
    let mut h = 5u64;
    for e in &evs {
        h = (h ^ hash_bytes(format!("{:?}", e).as_bytes())).wrapping_mul(0x100000001b3)
    }
    cx.seen(h, evs.len() > 1);
    cx.sample(|| format!("{:?}: {} accepted", evs, done));
    Ok(())
}

/// very deep and very wide
fn large(cx: &mut Cx) -> Result<(), String> {
    let n = match cx.g.below(5) {
        0 => 1000 + cx.g.below(300_000),
        1 => 1000 + cx.g.below(20_000),
        _ => cx.g.threshold(5000),
    };
    let mut evs = vec![];
    let k = cx.g.below(8);
    let mix = |g: &mut Rng| match g.below(6) {
        0 => Tag(W::I, 1),
        1 => Array(Some((W::I, 1))),
        2 => Array(None),
        3 => Map(None),
        4 => Map(Some((W::I, 1))),
        _ => Array(Some((W::W1, 2))),
    };
    match k {
        0 => {
            // one array or map, exactly filled, then one item more
            let m = cx.g.p(1, 2);
            let w = W::min(n as u64);
            evs.push(if m { Map(Some((w, n as u64))) } else { Array(Some((w, n as u64))) });
            evs.extend((0..if m { 2 * n } else { n }).map(|_| Simple));
            evs.push(Simple);
            evs.push(Brk);
        }
        1 => {
            evs.push(if cx.g.p(1, 2) { Map(None) } else { Array(None) });
            evs.extend((0..n + cx.g.below(2)).map(|_| Simple));
            evs.push(Brk);
            evs.push(Brk);
        }
        2 => {
            let t = cx.g.p(1, 2);
            evs.push(if t { Text(None) } else { Bytes(None) });
            evs.extend((0..n).map(|_| if t { Text(Some((W::I, 1))) } else { Bytes(Some((W::I, 1))) }));
            evs.push(match cx.g.below(3) {
                0 => Brk,
                1 => Simple,
                _ => Text(Some((W::I, 1))),
            });
            evs.push(Brk);
        }
        _ => {
            // nested, then something else, then closed step by step
            let mut m = Model::default();
            let mono = cx.g.below(6);
            let few = cx.g.below(2) == 0;
            let pair = [mix(&mut cx.g), mix(&mut cx.g)];
            let mut feed = |m: &mut Model, e| {
                m.feed(e);
                evs.push(e)
            };
            for i in 0..n {
                let e = match mono {
                    0 => Tag(W::I, 1),
                    1 => Array(None),
                    2 => pair[0],
                    3 => pair[i % 2],
                    _ => mix(&mut cx.g),
                };
                // a map's key before what is nested in its value
                if few && matches!(m.open.last(), Some(Open::IndMap { value: false })) {
                    feed(&mut m, Simple)
                }
                feed(&mut m, e)
            }
            for _ in 0..cx.g.below(4) {
                let e = *cx.g.pick(&AL);
                if m.accepts(e) {
                    feed(&mut m, e)
                }
            }
            let mut first = true;
            while !m.open.is_empty() {
                let e = if m.accepts(Brk) && !(first && m.accepts(Simple)) { Brk } else { Simple };
                first = false;
                m.feed(e);
                evs.push(e)
            }
            evs.push(Brk);
        }
    }
    let done = check(&evs)?;
    cx.add("events fed", done as u64);
    cx.max("max events in a sequence", evs.len() as u64);
    cx.seen(cx.idx.wrapping_mul(0x9e3779b97f4a7c15), true);
    Ok(())
}

fn main() {
    run(&[
        Phase { name: "exhaustive", quick: (AL.len() as u64).pow(MID as u32), thorough: (AL.len() as u64).pow(MID as u32), f: exhaustive, seeded: false },
        ph("random", 300_000, 10_000_000, random),
        ph("large", 700, 15_000, large),
    ])
}
