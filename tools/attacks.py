"""C06: programs in safe Rust that use what they borrowed after its owner changed or is gone.

Each comes with a control in which the owner changes after the use. The compiler refuses the attacks as long
as the signatures carry the right lifetimes; those it accepts are run in Miri, which decides.
"""
import json, os, re, shutil, subprocess, sys
m = sys.modules.get("__main__")
if not hasattr(m, "plain_stage"):
    import check as m
import sanitize as sz

CARGO = """[workspace]

[package]
name = "attacks"
version = "0.1.0"
edition = "2021"
publish = false

[dependencies]
cbored = { path = "/repo" }
"""

LIB = r'''
#![allow(unused)]
pub use cbored::tagged::*;
pub use cbored::validate::*;
pub use cbored::*;
pub use std::borrow::Borrow;
pub use std::hint::black_box;
pub use std::rc::Rc;

pub fn sum(b: &[u8]) {
    black_box(b.iter().map(|x| *x as u64).sum::<u64>());
}
pub fn show<T: std::fmt::Debug>(t: &T) {
    black_box(format!("{:?}", t).len());
}
pub fn read(mut r: Reader) {
    show(&r.data().map(|d| d.owned()));
}
pub fn enc(f: impl FnOnce(&mut Writer)) -> Vec<u8> {
    let mut w = Writer::new();
    f(&mut w);
    w.finalize()
}
/// an allocation of its own, so that what is freed is known to be
pub fn vec(b: &[u8]) -> Box<Vec<u8>> {
    let mut v = Vec::with_capacity(b.len());
    v.extend_from_slice(b);
    Box::new(v)
}
pub fn leaked(b: &[u8]) -> &'static [u8] {
    Box::leak(vec(b).into_boxed_slice_of())
}
pub trait Boxed {
    fn into_boxed_slice_of(self) -> Box<[u8]>;
}
impl Boxed for Box<Vec<u8>> {
    fn into_boxed_slice_of(self) -> Box<[u8]> {
        (*self).into_boxed_slice()
    }
}
pub const TEXT: &[u8] = b"\x66abcdef";
pub const TEXTS: &[u8] = b"\x7f\x63abc\x63def\xff";
pub const BYTES: &[u8] = b"\x46abcdef";
pub const BYTESS: &[u8] = b"\x5f\x43abc\x43def\xff";
pub const ARRAY: &[u8] = b"\x83\x01\x63abc\x42xy";
pub const ARRAYI: &[u8] = b"\x9f\x01\x63abc\x42xy\xff";
pub const MAP: &[u8] = b"\xa2\x01\x63abc\x02\x42xy";
pub const MAPI: &[u8] = b"\xbf\x01\x63abc\x02\x42xy\xff";
pub const TAG: &[u8] = b"\xc5\x63abc";
pub const RAT: &[u8] = b"\xd8\x1e\x82\xc2\x43abc\xc2\x42xy";
pub const NUM: &[u8] = b"\x1b\x01\x02\x03\x04\x05\x06\x07\x08";
pub fn own<T: Decode>(b: &[u8]) -> Box<T> {
    Box::new(decode_from_bytes(b).unwrap())
}
pub fn data(b: &[u8]) -> DataOwned {
    Reader::new(b).data().unwrap().owned()
}
macro_rules! owned {
    ($f:ident, $v:ident, $t:ty) => {
        pub fn $f(b: &[u8]) -> Box<$t> {
            match data(b) {
                DataOwned::$v(x) => Box::new(x),
                _ => panic!(),
            }
        }
    };
}
owned!(text, Text, TextOwned);
owned!(bytes, Bytes, BytesOwned);
owned!(array, Array, ArrayOwned);
owned!(map, Map, MapOwned);
owned!(tag, Tag, TagOwned);
/// (its type has no public name)
#[macro_export]
macro_rules! cbor {
    ($b:expr) => {{
        let mut w = Writer::new();
        for x in decode_items($b) {
            w.encode(&x);
        }
        Box::new(w.finalize_data())
    }};
}
pub fn decode_items(b: &[u8]) -> Vec<DataOwned> {
    let mut r = Reader::new(b);
    let mut v = vec![];
    while !r.is_finished() {
        v.push(r.data().unwrap().owned());
    }
    v
}
'''


def table():
    """(name, owner, borrowed, use)"""
    t = []

    def row(name, owner, b, use):
        t.append((name, owner, b, use))
    # what a reader or validator gives borrows from the buffer
    bufs = [("text", "TEXT"), ("text", "TEXTS"), ("bytes", "BYTES"), ("bytes", "BYTESS"), ("array", "ARRAY"), ("array", "ARRAYI"), ("map", "MAP"), ("map", "MAPI"), ("tag", "TAG")]
    for op, c in bufs:
        row("read_%s_%s" % (op, c), "vec(%s)" % c, "Reader::new(&x).%s().unwrap()" % op, "show(&b)")
        row("data_%s" % c, "vec(%s)" % c, "Reader::new(&x).data().unwrap()", "show(&b)")
    for c in ["TEXT", "TEXTS"]:
        row("str_chunks_%s" % c, "vec(%s)" % c, "Reader::new(&x).text().unwrap().to_str_chunks()", "show(&b)")
    row("text_data", "vec(TEXT)", "match Reader::new(&x).text().unwrap() { Text::Imm(t) => t, _ => panic!() }", "show(&b)")
    row("text_data_str", "vec(TEXT)", "match Reader::new(&x).text().unwrap() { Text::Imm(t) => t.as_str(), _ => panic!() }", "show(&b)")
    row("text_data_as_ref", "vec(TEXT)", "match Reader::new(&x).text().unwrap() { Text::Imm(t) => *t.as_ref(), _ => panic!() }", "show(&b)")
    row("bytes_data", "vec(BYTES)", "match Reader::new(&x).bytes().unwrap() { Bytes::Imm(t) => t, _ => panic!() }", "show(&b)")
    row("bytes_data_slice", "vec(BYTES)", "match Reader::new(&x).bytes().unwrap() { Bytes::Imm(t) => t.as_slice(), _ => panic!() }", "show(&b)")
    row("bytes_chunk_slice", "vec(BYTESS)", "match Reader::new(&x).bytes().unwrap() { Bytes::Chunks(t) => t[1].as_slice(), _ => panic!() }", "show(&b)")
    row("array_element", "vec(ARRAY)", "Reader::new(&x).array().unwrap()[1]", "sum(b.as_ref())")
    row("array_element_reader", "vec(ARRAY)", "Reader::new(&x).array().unwrap()[1].reader()", "read(b)")
    row("map_entry", "vec(MAP)", "Reader::new(&x).map().unwrap()[1]", "sum(b.0.as_ref()); sum(b.1.as_ref())")
    row("map_value_reader", "vec(MAP)", "Reader::new(&x).map().unwrap()[1].1.reader()", "read(b)")
    row("tag_data", "vec(TAG)", "Reader::new(&x).tag().unwrap().data()", "sum(b.as_ref())")
    row("tag_reader", "vec(TAG)", "Reader::new(&x).tag().unwrap().reader()", "read(b)")
    row("tag_read_data", "vec(TAG)", "Reader::new(&x).tag().unwrap().read_data(|r| r.text()).unwrap()", "show(&b)")
    row("reader", "vec(TEXT)", "Reader::new(&x)", "read(b)")
    row("validator", "vec(TEXT)", "Validator::new(&x)", "{ let mut b = b; show(&b.next().is_ok()) }")
    row("validator_slice", "vec(TEXT)", "Validator::new(&x).next().unwrap().0", "sum(b.as_ref())")
    row("validator_decode", "vec(TEXT)", "Validator::new(&x).next().unwrap().0", "show(&b.decode::<String>())")
    row("exact_slice", "vec(TEXT)", "Reader::new(&x).exact_decodable_slice::<String>().unwrap()", "sum(b.untype().as_ref())")
    row("exact_slice_untyped", "vec(NUM)", "Reader::new(&x).exact_decodable_slice::<u64>().unwrap().untype()", "sum(b.as_ref())")
    row("exact_slice_owned_of", "vec(NUM)", "Reader::new(&x).exact_decodable_slice::<u64>().unwrap()", "show(&b.to_owned().unserialize())")
    row("validate_as", "vec(NUM)", "Validator::new(&x).next().unwrap().0.validate_as::<u64>().unwrap()", "sum(b.untype().as_ref())")
    row("array_to_vec_leak", "vec(ARRAY)", "{ let mut l = vec![]; let c = std::cell::RefCell::new(&mut l); let _ = Reader::new(&x).array().unwrap().to_vec(|r| { let d = r.data()?; c.borrow_mut().push(d); Ok(0u8) }); l }", "show(&b)")
    row("bytes_from_slice", "vec(TEXT)", "Bytes::from_slice(&x)", "show(&b)")
    row("bytes_data_from_slice", "vec(TEXT)", "BytesData::from_slice(&x)", "show(&b)")
    row("text_from_str", "Box::new(String::from(\"abcdef\"))", "Text::from_str(&x)", "show(&b)")
    row("text_data_from_str", "Box::new(String::from(\"abcdef\"))", "TextData::from_str(&x)", "show(&b)")
    # through a borrowed container that lives elsewhere
    for c, op in [("ARRAY", "array"), ("MAP", "map")]:
        row("iter_of_%s" % op, "Box::new(Reader::new(leaked(%s)).%s().unwrap())" % (c, op), "x.iter()", "black_box(b.count())")
        row("iter_item_of_%s" % op, "Box::new(Reader::new(leaked(%s)).%s().unwrap())" % (c, op), "x.iter().last().unwrap()", "{ let r = b; %s }" % ("read(r)" if op == "array" else "read(r.0); read(r.1)"))
        row("index_of_%s" % op, "Box::new(Reader::new(leaked(%s)).%s().unwrap())" % (c, op), "&x[1]", "{ let y = *b; show(&y) }")
    for k in ["keys", "values"]:
        row("map_%s" % k, "Box::new(Reader::new(leaked(MAP)).map().unwrap())", "x.%s()" % k, "black_box(b.count())")
    row("text_data_as_ref_ref", "Box::new(TextData::from_str(\"abcdef\"))", "AsRef::<&str>::as_ref(&*x)", "show(b)")
    # owned values lend what they hold
    for c in ["TEXT", "TEXTS"]:
        row("text_borrow_%s" % c, "text(%s)" % c, "TextOwned::borrow(&x)", "show(&b)")
        row("text_borrow_chunks_%s" % c, "text(%s)" % c, "TextOwned::borrow(&x).to_str_chunks()", "show(&b)")
    for c in ["BYTES", "BYTESS"]:
        row("bytes_borrow_%s" % c, "bytes(%s)" % c, "BytesOwned::borrow(&x)", "show(&b)")
    row("text_owned_str", "Box::new(TextDataOwned::from_string(String::from(\"abcdef\")))", "x.as_str()", "show(&b)")
    row("text_owned_borrow", "Box::new(TextDataOwned::from_string(String::from(\"abcdef\")))", "TextDataOwned::borrow(&x)", "show(&b)")
    row("text_owned_borrow_str", "Box::new(TextDataOwned::from_string(String::from(\"abcdef\")))", "TextDataOwned::borrow(&x).as_str()", "show(&b)")
    row("bytes_owned_slice", "Box::new(BytesDataOwned::from_vec(b\"abcdef\".to_vec()))", "x.as_slice()", "show(&b)")
    row("bytes_owned_borrow", "Box::new(BytesDataOwned::from_vec(b\"abcdef\".to_vec()))", "BytesDataOwned::borrow(&x)", "show(&b)")
    row("bytes_owned_borrow_slice", "Box::new(BytesDataOwned::from_vec(b\"abcdef\".to_vec()))", "BytesDataOwned::borrow(&x).as_slice()", "show(&b)")
    for c in ["ARRAY", "ARRAYI"]:
        row("array_borrow_%s" % c, "array(%s)" % c, "ArrayOwned::borrow(&x)", "show(&b)")
        row("array_iter_%s" % c, "array(%s)" % c, "x.iter()", "for r in b { read(r) }")
        row("array_items_%s" % c, "array(%s)" % c, "x.iter().collect::<Vec<_>>()", "for r in b { read(r) }")
        row("array_index_%s" % c, "array(%s)" % c, "&x[1]", "sum(b.as_ref())")
        row("array_index_read_%s" % c, "array(%s)" % c, "x[1].read()", "read(b)")
        row("array_borrow_index_%s" % c, "array(%s)" % c, "ArrayOwned::borrow(&x)[1]", "sum(b.as_ref())")
    row("array_owned_to_vec_leak", "array(ARRAY)", "{ let mut l = vec![]; let c = std::cell::RefCell::new(&mut l); let _ = x.to_vec(|r| { let d = r.data()?; c.borrow_mut().push(d); Ok(0u8) }); l }", "show(&b)")
    for c in ["MAP", "MAPI"]:
        row("map_borrow_%s" % c, "map(%s)" % c, "MapOwned::borrow(&x)", "show(&b)")
        row("map_iter_%s" % c, "map(%s)" % c, "x.iter()", "for r in b { read(r.0); read(r.1) }")
        row("map_keys_%s" % c, "map(%s)" % c, "x.keys()", "for r in b { read(r) }")
        row("map_values_%s" % c, "map(%s)" % c, "x.values()", "for r in b { read(r) }")
        row("map_items_%s" % c, "map(%s)" % c, "x.values().collect::<Vec<_>>()", "for r in b { read(r) }")
        row("map_borrow_index_%s" % c, "map(%s)" % c, "MapOwned::borrow(&x)[1]", "sum(b.1.as_ref())")
    row("tag_owned_borrow", "tag(TAG)", "TagOwned::borrow(&x)", "show(&b)")
    row("tag_owned_borrow_data", "tag(TAG)", "TagOwned::borrow(&x).data()", "sum(b.as_ref())")
    row("tag_owned_data", "tag(TAG)", "x.data()", "sum(b.as_ref())")
    row("tag_owned_read", "tag(TAG)", "x.read_data()", "read(b)")
    for c in ["TEXT", "BYTESS", "ARRAY", "MAP", "TAG"]:
        row("data_owned_borrow_%s" % c, "Box::new(data(%s))" % c, "DataOwned::borrow(&x)", "show(&b)")
    row("cbor_data_bytes", "cbor!(ARRAY)", "AsRef::<[u8]>::as_ref(&*x)", "sum(b)")
    row("cbor_data_read", "cbor!(ARRAY)", "x.read()", "read(b)")
    row("cbor_data_slice", "cbor!(ARRAY)", "<_ as Borrow<CborSlice>>::borrow(&*x)", "sum(b.as_ref())")
    row("cbor_data_slice_reader", "cbor!(ARRAY)", "<_ as Borrow<CborSlice>>::borrow(&*x).reader()", "read(b)")
    row("cbor_data_slice_as", "cbor!(NUM)", "<_ as Borrow<CborSlice>>::borrow(&*x).validate_as::<u64>().unwrap()", "sum(b.untype().as_ref())")
    of = "Box::new(CborDataOf::<String>::from(&String::from(\"abcdef\")))"
    row("of_bytes", of, "CborDataOf::as_ref(&x)", "sum(b)")
    row("of_slice", of, "<CborDataOf<String> as Borrow<CborSliceOf<String>>>::borrow(&x)", "sum(b.untype().as_ref())")
    row("of_slice_untyped", of, "<CborDataOf<String> as Borrow<CborSliceOf<String>>>::borrow(&x).untype()", "sum(b.as_ref())")
    row("rational_parts", "own::<RationalNumber>(RAT)", "(x.numerator(), x.denominator())", "show(&b)")
    err = "Box::new(decode_from_bytes::<u64>(TEXT).unwrap_err().push_string(String::from(\"abcdef\")))"
    row("error_kind", err, "x.error()", "show(b)")
    row("error_context", err, "x.context()", "show(&b)")
    # a decoder of the user's that keeps what it read
    for ty, get in [("Vec<&'static str>", "r.text().unwrap().to_str_chunks()"), ("Text<'static>", "r.text().unwrap()"), ("&'static str", "match r.text().unwrap() { Text::Imm(t) => t.as_str(), _ => panic!() }"),
                    ("&'static CborSliceOf<String>", "r.exact_decodable_slice::<String>()?"), ("Data<'static>", "r.data().unwrap()")]:
        n = re.sub(r"\W+", "_", ty)
        use = "show(&b.0)" if "SliceOf" not in ty else "sum(b.0.untype().as_ref())"
        for how in ["Reader::new(&x).decode::<Keep>().unwrap()", "decode_from_bytes::<Keep>(&x).unwrap()", "Validator::new(&x).next().unwrap().0.decode::<Keep>().unwrap()"]:
            row("keep_%s_%d" % (n, len(how)), "vec(TEXT)", how, use)
            t[-1] = t[-1] + ("struct Keep(%s);\nimpl Decode for Keep {\n    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {\n        Ok(Keep(%s))\n    }\n}\n" % (ty, get),)
    return t


def whole():
    """programs that are an attack as they are; (name, source)"""
    w = []
    for f, a in [("array_build", "StructureLength::Indefinite, "), ("map_build", "StructureLength::Indefinite, "), ("tag_build", "TagValue::from_u64(1), ")]:
        w.append(("leak_writer_%s" % f, "fn main() {\n    let mut x = Box::new(Writer::new());\n    let mut k: Option<&mut Writer> = None;\n    x.%s(%s|w| { k = Some(w); });\n    drop(x);\n    k.unwrap().text(&Text::from_str(\"abcdefgh\"));\n}\n" % (f, a)))
    # values of types that may not be shared between threads
    rc = "#[derive(Clone)]\nstruct N(Rc<u64>);\nimpl Decode for N {\n    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {\n        Ok(N(Rc::new(r.decode()?)))\n    }\n}\nimpl Encode for N {\n    fn encode(&self, w: &mut Writer) {\n        w.encode(&*self.0)\n    }\n}\nfn spin(n: N) {\n    for _ in 0..20 {\n        let c = n.clone();\n        black_box(&c);\n    }\n}\n"
    w.append(("share_of", rc + "fn main() {\n    let x = CborDataOf::from(&N(Rc::new(5)));\n    std::thread::scope(|s| {\n        for _ in 0..3 {\n            s.spawn(|| spin(x.unserialize()));\n        }\n    });\n}\n"))
    w.append(("send_of", rc + "fn main() {\n    let n = N(Rc::new(5));\n    let x = CborDataOf::from(&n);\n    let h = std::thread::spawn(move || spin(x.unserialize()));\n    spin(n);\n    h.join().unwrap();\n}\n"))
    w.append(("send_of_clone", rc + "fn main() {\n    let x = CborDataOf::from(&N(Rc::new(5)));\n    let y = x.clone();\n    let h = std::thread::spawn(move || spin(y.unserialize()));\n    spin(x.unserialize());\n    h.join().unwrap();\n}\n"))
    w.append(("share_slice_of", rc + "fn main() {\n    let v = encode_to_bytes(&N(Rc::new(5)));\n    let x = Reader::new(&v).exact_decodable_slice::<N>().unwrap();\n    std::thread::scope(|s| {\n        for _ in 0..3 {\n            s.spawn(|| spin(x.to_owned().unserialize()));\n        }\n    });\n}\n"))
    # values made without being decoded
    w.append(("make_slice", "fn main() {\n    let b = [0xffu8, 0xff];\n    let s: &CborSlice = From::from(&b[..]);\n    sum(s.as_ref());\n}\n"))
    w.append(("make_text", "fn main() {\n    let t = TextData(TextDataOwned::from_string(String::new()).value(), \"a\");\n    show(&t);\n}\n"))
    w.append(("change_text", "fn main() {\n    let mut t = TextDataOwned::from_string(String::from(\"abc\"));\n    let b: &mut [u8] = t.as_mut();\n    b[0] = 0xff;\n    for c in t.as_str().chars() { black_box(c); }\n}\n"))
    w.append(("change_slice", "fn main() {\n    let mut v = TEXT.to_vec();\n    let s = Validator::new(&v).next().unwrap().0;\n    v[1] = 0xff;\n    sum(s.as_ref());\n}\n"))
    # (a writer may be exchanged by who is given it: nothing may depend on it staying the same)
    return w


KILLS = [("drop", "drop(x);"), ("set", "*x = { let _y = &mut x; OWNER };"), ("swap", "let y = std::mem::replace(&mut *x, *OWNER); drop(y);")]


def generate(d):
    src = os.path.join(d, "src")
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(os.path.join(src, "bin"))
    for n, s in [("Cargo.toml", CARGO), ("src/lib.rs", LIB)]:
        with open(os.path.join(d, n), "w") as f:
            f.write(s)
    lock = open(os.path.join(m.HARNESS, "Cargo.lock")).read().replace('name = "mon"', 'name = "attacks"')
    # packages stay in the order of their names
    head, *pk = lock.split("[[package]]\n")
    pk = sorted((p.rstrip("\n") + "\n" for p in pk), key=lambda p: re.search(r'name = "([^"]+)"', p).group(1))
    with open(os.path.join(d, "Cargo.lock"), "w") as f:
        f.write(head + "\n".join("[[package]]\n" + p for p in pk))
    progs = {}
    pre = "#![allow(unused)]\nuse attacks::*;\n"
    for r in table():
        name, owner, b, use = r[:4]
        more = r[4] if len(r) > 4 else ""
        for k, kill in KILLS[:1] + KILLS[2:]:
            kill = kill.replace("OWNER", owner)
            progs["a_%s_%s" % (name.lower(), k)] = pre + more + "fn main() {\n    let mut x = %s;\n    let b = %s;\n    %s\n    %s;\n}\n" % (owner, b, kill, use)
        if "leak" in name or name.startswith("keep"):
            continue  # (no lawful use of these)
        progs["c_%s" % name.lower()] = pre + more + "fn main() {\n    let mut x = %s;\n    let b = %s;\n    %s;\n    drop(x);\n}\n" % (owner, b, use)
    for name, s in whole():
        progs["w_%s" % name] = pre + s
    # shows that the interpreter reports what these programs would do
    progs["z_selftest"] = "fn main() {\n    let x = Box::new(5u64);\n    let b: &'static u64 = unsafe { &*(&*x as *const u64) };\n    drop(x);\n    std::hint::black_box(*b);\n}\n"
    for n, s in progs.items():
        with open(os.path.join(src, "bin", n + ".rs"), "w") as f:
            f.write(s)
    return progs


def attack_stage(run):
    d = os.path.join(m.OUT, "attacks")
    os.makedirs(d, exist_ok=True)
    progs = generate(d)
    td = os.path.join(m.TARGET, "attacks")
    p = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json", "--target-dir", td], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lib, ok, bad = False, set(), {}
    for line in p.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        t = j.get("target", {})
        if j.get("reason") == "compiler-artifact" and t.get("name") == "attacks" and "lib" in t.get("kind", []):
            lib = True
        if "bin" not in t.get("kind", []):
            continue
        if j["reason"] == "compiler-artifact":
            ok.add(t["name"])
        elif j["reason"] == "compiler-message" and j["message"]["level"] == "error":
            bad.setdefault(t["name"], (j["message"].get("code") or {}).get("code", "?"))
    if not lib or "z_selftest" not in ok:
        print(p.stderr[-3000:])
        raise m.Inconclusive("the attack programs could not be compiled against this tree")
    controls = [n for n in progs if n[0] == "c"]
    live = [n for n in controls if n in ok]
    dead = [n for n in controls if n not in ok]
    todo = sorted(n for n in ok if n[0] in "aw") + ["z_selftest"]
    if len(live) < len(controls) // 2:
        raise m.Inconclusive("most control programs do not compile: %s" % dead[:5])
    # the controls too, some of them: what they do is allowed
    todo += [n for i, n in enumerate(sorted(live)) if run.tier != "quick" or (i + run.seed) % 8 == 0]
    env = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    m.sh(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", td, "--bin", "z_selftest"], cwd=d, extra={"MIRIFLAGS": env})

    def one(n):
        return m.sh(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", td, "--bin", n], cwd=d, extra={"MIRIFLAGS": env})
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(zip(todo, ex.map(one, todo)))
    harmless = []
    for n, (code, out) in outs:
        hit = sz.BAD.search(out)
        if n == "z_selftest":
            if not hit:
                raise m.Inconclusive("Miri does not report the self-test")
            continue
        if hit:
            run.violation("attack:%s" % n, "a program in safe Rust (%s) compiles and then: %s" % (n, hit.group(0)), {"attack": n, "source": progs[n], "report": out[hit.start():hit.start() + 1500], "seed": run.seed, "tier": run.tier})
            continue
        harmless.append(n)
    if run.violations:
        return
    codes = {}
    for n, c in bad.items():
        if n[0] != "c":
            codes[c] = codes.get(c, 0) + 1
    run.evaluations += len(progs)
    run.details["attack programs"] = {"attacks": len([n for n in progs if n[0] in "aw"]), "refused by the compiler, by error": codes, "accepted, run in Miri and harmless": [n for n in harmless if n[0] != "c"],
                                      "controls that compile": len(live), "controls run in Miri": len([n for n in harmless if n[0] == "c"]), "controls that do not compile": dead}
    run.log("attack programs: %d refused, %d accepted and harmless, %d controls compile" % (sum(codes.values()), len([n for n in harmless if n[0] != "c"]), len(live)))
