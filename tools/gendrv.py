"""Generate crates of derived types, each with its documented layout written down independently of the derive."""
import os, random

# names that are used, or could be, in the generated code
FIELDS = ("reader writer array map tag key v k r e vec value len variant nb_values nb_actual_items tag_reader read_tag cbor_type "
          "x y z a b c i n f w s t out inner content data index idx field items field0 field1 field2 field_a field_field0 field_x "
          "result err ok opt some none array_len map_len tag_value expected got last first count name context error body element elements "
          "r#type r#match r#fn r#let r#struct r#enum r#use r#move r#ref r#as r#in "
          "some_long_field_name_with_many_words m1 m2 cbored other skip start end_ raw_value x_ _x _0 "
          "decode encode finalize array_build map_build ").split()
VARIANTS = ("One Two Three Four A B C D E F None Some Ok Err Array Map Tag Positive Negative Null Bytes Text Self_ Reader Writer Vec Result "
            "Option String Type Variant Decode Encode CborRepr Data X1 X2 X3 X4 X5 X6 X7 X8 X9 Lower Upper Mid Left Right Zero Empty Custom").split()
TYPES = "Point Rec Msg Header Entry Shape Node Code Item Pair Config Packet State Block Leaf Info Header2 Reader2 Data2 Option2".split()
STARTS = [0, 0, 0, 1, 2, 5, 22, 23, 24, 30, 31, 32, 63, 64, 254, 255, 256, 65534, 65536, (1 << 32) - 2, 1 << 32, (1 << 40) + 3, 1 << 63]
TAGS = [0, 1, 2, 5, 23, 24, 30, 99, 255, 256, 1000, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1]

# leaf types: (rust, kinds it is written as)
LEAVES = [
    ("u8", "Pos"), ("::core::primitive::u64", "Pos"), ("std::string::String", "Text"), ("::std::vec::Vec<u8>", "Bytes"), ("u16", "Pos"), ("u32", "Pos"), ("u64", "Pos"), ("bool", ""), ("String", "Text"), ("Vec<u8>", "Bytes"),
    ("[u8; 0]", "Bytes"), ("[u8; 1]", "Bytes"), ("[u8; 4]", "Bytes"), ("[u8; 32]", "Bytes"),
    ("::cbored::Scalar", "Pos Neg"), ("::mon::drv::Neg", "Neg"), ("::cbored::DataOwned", "Pos Neg Bytes Text Arr Map Tag"),
    ("::cbored::CborDataOf<u64>", "Pos"), ("::cbored::CborDataOf<String>", "Text"),
    ("::cbored::tagged::PositiveBignum", "Tag"), ("::cbored::tagged::NegativeBignum", "Tag"), ("::cbored::tagged::RationalNumber", "Tag"),
    ("::cbored::tagged::EncodedCBOR", "Tag"), ("::cbored::tagged::StandardDateTime", "Tag"),
    ("::mon::typ::VecOf<u64>", "Arr"), ("::mon::typ::VecOf<String>", "Arr"), ("::mon::typ::VecOf<::mon::typ::VecOf<u16>>", "Arr"), ("::mon::typ::VecOf<Vec<u8>>", "Arr"),
]


class T:
    """a generated type"""
    def __init__(self, mod, name, record, single, kinds, src, what):
        self.mod, self.name, self.record, self.single, self.kinds, self.src, self.what = mod, name, record, single, kinds, src, what

    @property
    def rust(self):
        return "crate::%s::%s" % (self.mod, self.name)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.types = []

    def num(self, v):
        """a literal of this value, in one of the spellings of Rust"""
        k = self.r.randrange(6)
        if k == 0:
            return hex(v)
        if k == 1 and v > 999:
            s = str(v)
            return s[:-3] + "_" + s[-3:]
        if k == 2:
            return "%du64" % v
        return str(v)

    def attrs(self, l):
        """attributes in one list or in several, in any order"""
        l = list(l)
        if not l:
            return ""
        self.r.shuffle(l)
        if self.r.random() < 0.6:
            return "#[cborrepr(%s)]\n" % ", ".join(l)
        return "".join("#[cborrepr(%s)]\n" % x for x in l)

    def noise(self):
        return self.r.choice(["", "", "", "", "/// some documentation\n", "#[allow(dead_code)]\n", "#[doc(hidden)]\n"])

    def names(self, pool, n):
        p = list(pool)
        self.r.shuffle(p)
        p = p[:n]
        while len(p) < n:
            p.append("%s%d" % ("f" if pool is FIELDS else "V", len(p)))
        return p

    def field_type(self, kind=None):
        """(rust type) of one item; of this kind if given"""
        c = [l[0] for l in LEAVES if kind is None or kind in l[1].split()]
        d = [t for t in self.types if t.single and (kind is None or kind in t.kinds.split())]
        if d and (not c or self.r.random() < 0.3):
            x = self.r.choice(d).rust
            if kind in (None, "Arr") and self.r.random() < 0.15:
                return "::mon::typ::VecOf<%s>" % x
            return x
        return self.r.choice(c)

    def width(self):
        r = self.r.random()
        return self.r.randrange(1, 5) if r < 0.75 else self.r.randrange(1, 12) if r < 0.95 else self.r.randrange(12, 27)

    # ------------------------------------------------------------ records
    def record(self, shape=None, named=None, nf=None, tag=-1, start=None, skips=None, types=None, fields=None, mandatory=None, spell=None):
        r = self.r
        mod = "t%d" % len(self.types)
        name = spell or "%s%d" % (r.choice(TYPES), len(self.types))
        shape = shape or r.choice(["array", "array", "array_lastopt", "flat", "flat", "mapint", "mapint", "mapint"])
        if named is None:
            named = shape in ("array_lastopt", "mapint") or r.random() < 0.6
        n = nf if nf is not None else (self.width() if shape != "mapint" else r.choice([0, 1, 2, 3, 4, 5, 6, 8, 33, 40]))
        if tag == -1:
            tag = r.choice(TAGS) if r.random() < 0.35 else None
            if shape == "flat" and n != 1:
                tag = None
        fs = fields or (self.names(FIELDS, n) if named else ["field%d" % i for i in range(n)])
        types = types or [self.field_type() for _ in range(n)]
        opt = [False] * n
        keys = None
        at = []
        if shape == "array_lastopt":
            opt[-1] = True
        if shape == "mapint":
            if start is None:
                start = r.choice(STARTS) if r.random() < 0.6 else None
            if skips is None:
                skips = []
                if r.random() < 0.5:
                    for _ in range(r.randrange(1, 6)):
                        skips.append((start or 0) + r.randrange(0, n + 4))
                    if r.random() < 0.3:
                        skips.append(r.choice([0, 1, 3]))
            keys, k = [], start or 0
            for _ in range(n):
                while k in skips:
                    k += 1
                keys.append(k)
                k += 1
            opt = [not m for m in (mandatory or [r.random() < 0.5 for _ in range(n)])]
            if start is not None:
                at.append("map_starts_at = " + self.num(start))
            at += ["skipkey = " + self.num(s) for s in skips]
        if shape != "flat" or r.random() < 0.5:
            at.append('structure = "%s"' % shape)
        if tag is not None:
            at.append("tag = " + self.num(tag))
        decl = []
        for i in range(n):
            t = "Option<%s>" % types[i] if opt[i] else types[i]
            a = "#[cborrepr(mandatory)] " if shape == "mapint" and not opt[i] else "#[cborrepr(optional)] " if opt[i] and r.random() < 0.15 else ""
            decl.append(a + self.noise().replace("\n", " " if not named else "\n    ") + ("%s %s: %s" % (r.choice(["pub", "pub", "pub(crate)"]), fs[i], t) if named else "pub %s" % t))
            if "///" in decl[-1] and not named:
                decl[-1] = decl[-1].replace("/// some documentation ", "")
        body = " {\n    %s\n}" % ",\n    ".join(decl) if named else "(%s);" % ", ".join(decl)
        head = self.noise() + self.attrs(at) + "pub struct %s%s\n" % (name, body)
        pat = name + (" { %s }" % ", ".join("%s: x%d" % (f, i) for i, f in enumerate(fs)) if named else "(%s)" % ", ".join("x%d" % i for i in range(n)))
        # schema
        subs = ["<%s as Typ>::sch()" % t for t in types]
        if shape == "flat":
            sch = "Sch::Seq(vec![%s])" % ", ".join(subs)
        elif shape == "mapint":
            sch = "Sch::MapInt(vec![%s])" % ", ".join("(%d, %s, %s)" % (keys[i], str(not opt[i]).lower(), subs[i]) for i in range(n))
        else:
            sch = "Sch::Array(vec![%s], %s)" % (", ".join(subs), str(shape == "array_lastopt").lower())
        if tag is not None:
            sch = "Sch::%s(%d, Box::new(%s))" % ("FlatTagged" if shape == "flat" else "Tagged", tag, sch)
        # layout
        lay = []
        if shape == "flat":
            if tag is not None:
                lay.append("out.push(It::tag(%d, lay1(x0)));" % tag)
            else:
                lay += ["x%d.layout(out);" % i for i in range(n)]
        else:
            lay.append("let mut o = vec![];")
            for i in range(n):
                e = "o.push((It::pos(%d), lay1(x%d)));" % (keys[i], i) if shape == "mapint" else "o.push(lay1(x%d));" % i
                lay.append("if let Some(x%d) = x%d { %s }" % (i, i, e) if opt[i] else e)
            e = "It::map(o)" if shape == "mapint" else "It::arr(o)"
            lay.append("out.push(%s);" % ("It::tag(%d, %s)" % (tag, e) if tag is not None else e))
        arb = []
        if any(opt):
            arb.append("let p = g.below(4) as u32;")
        for i in range(n):
            e = "<%s as Arb>::arb(g, d.saturating_sub(1))" % types[i]
            arb.append("let x%d = %s;" % (i, "if g.p(p, 3) { Some(%s) } else { None }" % e if opt[i] else e))
        tg = "Some(%d)" % tag if tag is not None else "None"
        locs = ["<%s as Arb>::locate" % t for t in types]
        ty = "std::any::type_name::<Self>()"
        if shape == "flat":
            loc = "loc_flat(%s, %s, &[%s], items)" % (ty, tg, ", ".join('("%s", %s)' % x for x in zip(fs, locs)))
        elif shape == "mapint":
            loc = "loc_map(%s, %s, &[%s], items)" % (ty, tg, ", ".join('(%d, %s, "%s", %s)' % (keys[i], str(not opt[i]).lower(), fs[i], locs[i]) for i in range(n)))
        else:
            loc = "loc_array(%s, %s, %s, &[%s], items)" % (ty, tg, str(shape == "array_lastopt").lower(), ", ".join('("%s", %s)' % x for x in zip(fs, locs)))
        kinds = "Tag" if tag is not None else {"array": "Arr", "array_lastopt": "Arr", "mapint": "Map", "flat": ""}[shape]
        single = shape != "flat" or tag is not None
        what = "%s %s%s, %d %s fields" % ("record", shape, " tagged" if tag is not None else "", n, "named" if named else "positional")
        self.emit(mod, name, True, single, kinds, head, sch, ["let %s = self;" % pat] + lay, arb + [pat.replace(": x", ": x")], loc, what)

    # -------------------------------------------------------------- enums
    def enum(self, shape=None, nv=None, start=None, skips=None, variants=None, spell=None):
        """variants: list of (name, named, [(field, type, isvec, attr)]) for tagvariant"""
        r = self.r
        mod = "t%d" % len(self.types)
        name = spell or "%s%d" % (r.choice(TYPES), len(self.types))
        shape = shape or r.choice(["tagvariant", "tagvariant", "tagvariant", "enumint", "enumtype", "enumtype"])
        at = []
        if shape == "enumtype":
            return self.enumtype(mod, name, variants)
        n = nv if nv is not None else (self.width() if shape == "tagvariant" else r.choice([1, 2, 3, 5, 25, 30]))
        if start is None:
            start = r.choice(STARTS) if r.random() < 0.6 else None
        if skips is None:
            skips = []
            if r.random() < 0.5:
                for _ in range(r.randrange(1, 6)):
                    skips.append((start or 0) + r.randrange(0, n + 4))
                if r.random() < 0.3:
                    skips.append(r.choice([0, 1, 3]))
        nums, k = [], start or 0
        for _ in range(n):
            while k in skips:
                k += 1
            nums.append(k)
            k += 1
        if start is not None:
            at.append("variant_starts_at = " + self.num(start))
        at += ["skipkey = " + self.num(s) for s in skips]
        if shape != "tagvariant" or r.random() < 0.6:
            at.append('enumtype = "%s"' % shape)
        if variants is None:
            vn = self.names(VARIANTS, n)
            variants = []
            for v in vn:
                if shape == "enumint" or r.random() < 0.25:
                    variants.append((v, None, []))
                    continue
                named = r.random() < 0.4
                m = self.width() if r.random() < 0.9 else 24
                fs = self.names(FIELDS, m) if named else ["field%d" % i for i in range(m)]
                fl = []
                for f in fs:
                    t = self.field_type()
                    isvec = not named and r.random() < 0.25
                    attr = ""
                    if isvec:
                        if t == "u8" or r.random() < 0.2:
                            attr = '#[cborrepr(variant = "vec")] '
                    elif not named and r.random() < 0.1:
                        attr = '#[cborrepr(variant = "simple")] '
                    fl.append((f, t, isvec, attr))
                variants.append((v, named, fl))
        # discriminants have nothing to do with the numbers written
        disc = r.randrange(1, 200) if n < 250 and r.random() < 0.35 and all(not v[2] for v in variants) else None
        decl = []
        for v, named, fl in variants:
            f = [a + ("%s: " % x if named else "") + ("Vec<%s>" % t if vec else t) for x, t, vec, a in fl]
            decl.append(self.noise().replace("\n", "\n    ") + v + ("" if not fl else " { %s }" % ", ".join(f) if named else "(%s)" % ", ".join(f)))
        if disc is not None:
            order = list(range(n))
            r.shuffle(order)
            decl = [d + (" = %d" % (disc + 2 * o)) for d, o in zip(decl, order)]
        head = self.noise() + self.attrs(at) + "pub enum %s {\n    %s,\n}\n" % (name, ",\n    ".join(decl))

        def pat(v, named, fl, pre):
            x = pre + v
            if not fl:
                return x
            return x + (" { %s }" % ", ".join("%s: x%d" % (f[0], i) for i, f in enumerate(fl)) if named else "(%s)" % ", ".join("x%d" % i for i in range(len(fl))))
        if shape == "enumint":
            sch = "Sch::EnumInt(vec![%s])" % ", ".join(map(str, nums))
            lay = ["match self {"] + ["%s::%s => out.push(It::pos(%d))," % (name, v[0], k) for v, k in zip(variants, nums)] + ["}"]
            arb = ["match g.below(%d) {" % n] + ["%s => %s::%s," % (i if i < n - 1 else "_", name, v[0]) for i, v in enumerate(variants)] + ["}"]
            loc = "loc_enumint(std::any::type_name::<Self>(), &[%s], items)" % ", ".join(map(str, nums))
            kinds = "Pos"
        else:
            def fsch(t, vec):
                s = "Sch::Lazy(<%s as Typ>::sch)" % t if t.endswith("::" + name) else "<%s as Typ>::sch()" % t
                return "Sch::Vec(Box::new(%s))" % s if vec else s
            sch = "Sch::Variants(vec![%s])" % ", ".join("(%d, vec![%s])" % (k, ", ".join(fsch(t, vec) for _, t, vec, _ in v[2])) for v, k in zip(variants, nums))
            lay = ["match self {"]
            for v, k in zip(variants, nums):
                es = ["It::pos(%d)" % k] + [("lay_vec(x%d)" if f[2] else "lay1(x%d)") % i for i, f in enumerate(v[2])]
                lay.append("%s => out.push(It::arr(vec![%s]))," % (pat(v[0], v[1], v[2], name + "::"), ", ".join(es)))
            lay.append("}")
            arb = []
            rec = any(t.endswith("::" + name) for v in variants for _, t, _, _ in v[2])
            fewest = min(range(n), key=lambda i: len(variants[i][2]))
            arb.append("let i = %s;" % ("if d == 0 { %d } else { g.below(%d) }" % (fewest, n) if rec else "g.below(%d)" % n))
            arb.append("match i {")
            for i, v in enumerate(variants):
                l = ["let x%d = %s;" % (j, ("arb_vec::<%s>(g, d)" if f[2] else "<%s as Arb>::arb(g, d.saturating_sub(1))") % f[1]) for j, f in enumerate(v[2])]
                arb.append("%s => { %s %s }" % (i if i < n - 1 else "_", " ".join(l), pat(v[0], v[1], v[2], name + "::")))
            arb.append("}")
            loc = "loc_variants(std::any::type_name::<Self>(), &[%s], items)" % ", ".join(
                '(%d, "%s", &[%s])' % (k, v[0], ", ".join('("%s", Fl::%s(<%s as Arb>::locate))' % (f[0], "Vec" if f[2] else "One", f[1]) for f in v[2])) for v, k in zip(variants, nums))
            kinds = "Arr"
        self.emit(mod, name, False, True, kinds, head, sch, lay, arb, loc, "enum %s, %d variants" % (shape, n))

    def enumtype(self, mod, name, variants=None):
        """variants: (kind, name, named, field, type)"""
        r = self.r
        if variants is None:
            ks = ["Pos", "Neg", "Bytes", "Text", "Arr", "Map", "Tag", "Null"]
            r.shuffle(ks)
            ks = ks[:r.randrange(1, 9)]
            vn = self.names(VARIANTS, len(ks))
            variants = []
            for k, v in zip(ks, vn):
                if k == "Null":
                    variants.append((k, v, None, None, None))
                    continue
                named = r.random() < 0.4
                variants.append((k, v, named, r.choice(FIELDS) if named else "field0", self.field_type(k)))
        cb = {"Pos": "positive", "Neg": "negative", "Bytes": "bytes", "Text": "text", "Arr": "array", "Map": "map", "Tag": "tag", "Null": "null"}
        n = len(variants)
        decl = []
        for k, v, named, f, t in variants:
            decl.append('#[cborrepr(cbortype = "%s")]\n    ' % cb[k] + v + ("" if t is None else " { %s: %s }" % (f, t) if named else "(%s)" % t))
        head = '#[cborrepr(enumtype = "enumtype")]\npub enum %s {\n    %s,\n}\n' % (name, ",\n    ".join(decl))
        pat = lambda x: name + "::" + x[1] + ("" if x[4] is None else " { %s: x0 }" % x[3] if x[2] else "(x0)")
        sch = "Sch::EnumKind(vec![%s])" % ", ".join("(Kind::%s, %s)" % (x[0], "None" if x[4] is None else "Some(<%s as Typ>::sch())" % x[4]) for x in variants)
        lay = ["match self {"] + ["%s => %s," % (pat(x), "out.push(It::null())" if x[4] is None else "x0.layout(out)") for x in variants] + ["}"]
        arb = ["match g.below(%d) {" % n]
        for i, x in enumerate(variants):
            arb.append("%s => { %s %s }" % (i if i < n - 1 else "_", "" if x[4] is None else "let x0 = arb_kind::<%s>(g, d.saturating_sub(1), Kind::%s);" % (x[4], x[0]), pat(x)))
        arb.append("}")
        loc = "loc_enumkind(std::any::type_name::<Self>(), &[%s], items)" % ", ".join(
            '(Kind::%s, "%s", %s)' % (x[0], x[1], "None" if x[4] is None else 'Some(("%s", <%s as Arb>::locate))' % (x[3], x[4])) for x in variants)
        self.emit(mod, name, False, True, " ".join(x[0] for x in variants if x[0] != "Null"), head, sch, lay, arb, loc, "enum enumtype, %d variants" % n)

    def emit(self, mod, name, record, single, kinds, head, sch, lay, arb, loc, what):
        src = """#![allow(warnings)]
mod def {
// names that user code often has
type Result<T> = ::std::result::Result<T, ()>;
mod cbored {}
mod core {}
#[derive(::cbored::CborRepr, Debug, Clone, PartialEq)]
%s}
pub use def::%s;
use ::mon::drv::{arb_kind, arb_vec, lay1, lay_vec, loc_array, loc_enumint, loc_enumkind, loc_flat, loc_map, loc_variants, Arb, Fault, Fl, It, Kind, Rng, Sch, Typ};
impl Typ for %s {
    fn sch() -> Sch {
        %s
    }
    fn layout(&self, out: &mut Vec<It>) {
        %s
    }
}
impl Arb for %s {
    fn arb(g: &mut Rng, d: usize) -> Self {
        %s
    }
    fn locate(items: &[It]) -> Result<usize, Fault> {
        %s
    }
}
""" % (head, name, name, sch, "\n        ".join(lay), name, "\n        ".join(arb), loc)
        self.types.append(T(mod, name, record, single, kinds, src, what))

    # --------------------------------------------------------- fixed ones
    def fixed(self):
        """the types of the documentation, and each form at least once"""
        P = dict(tag=None, start=None)
        self.record("array", True, 2, tag=None, types=["u32", "u32"], fields=["x", "y"], spell="Point")
        point = self.types[-1].rust
        self.record("array_lastopt", True, 2, tag=None, types=["u32", "u32"], fields=["x", "y"], spell="Point2")
        self.record("flat", True, 2, tag=None, types=["u32", "u32"], fields=["x", "y"], spell="FlatPoint")
        flat = self.types[-1].rust
        self.record("mapint", True, 3, tag=None, start=0, skips=[], types=["u32"] * 3, fields=["x", "y", "z"], mandatory=[True, True, False], spell="MapPoint")
        self.enum("tagvariant", 4, start=0, skips=[], spell="Variant", variants=[
            ("One", False, [("field0", "u32", False, "")]), ("Two", False, [("field0", "u64", False, ""), ("field1", "String", False, "")]),
            ("Three", False, [("field0", point, False, "")]), ("Four", None, [])])
        self.enum("tagvariant", 4, start=0, skips=[1], spell="Variant2", variants=[
            ("One", False, [("field0", "u32", False, "")]), ("Two", False, [("field0", "u64", False, ""), ("field1", "String", False, "")]),
            ("Three", False, [("field0", point, False, "")]), ("Four", None, [])])
        self.enum("enumint", 3, start=0, skips=[], variants=[("Code1", None, []), ("Code2", None, []), ("Code3", None, [])], spell="Code")
        self.enum("enumtype", variants=[("Null", "Empty", None, None, None), ("Pos", "One", False, "field0", "u64")], spell="OneOrEmpty")
        # recursion
        m = "crate::t%d::Tree" % len(self.types)
        self.enum("tagvariant", 3, start=0, skips=[], spell="Tree", variants=[
            ("Leaf", False, [("field0", "u64", False, "")]), ("Node", False, [("field0", m, True, "")]), ("Both", False, [("field0", "String", False, ""), ("field1", m, True, '#[cborrepr(variant = "vec")] ')])])
        # every shape, named and positional, tagged and not, few and many fields
        for n in (0, 1, 2, 3, 23, 24, 26):
            self.record("array", True, n, tag=None)
            self.record("array", False, n, tag=None)
        for n in (0, 1, 2, 24):
            self.record("array", True, n, tag=self.r.choice(TAGS))
            self.record("array", False, n, tag=self.r.choice(TAGS))
        for n in (1, 2, 3, 24, 25):
            self.record("array_lastopt", True, n, tag=None)
            self.record("array_lastopt", True, n, tag=self.r.choice(TAGS))
        for n in (1, 2, 5):
            self.record("flat", True, n, tag=None)
            self.record("flat", False, n, tag=None)
        for t in (0, 30, 1 << 40):
            self.record("flat", True, 1, tag=t)
            self.record("flat", False, 1, tag=t)
        self.record("flat", True, 3, tag=None, types=[flat, "bool", flat], fields=["a", "b", "c"])
        self.record("flat", False, 2, tag=None, types=["String", flat])
        for n in (0, 1, 2, 24, 33, 64):
            self.record("mapint", True, n, tag=None, start=None, skips=[])
            self.record("mapint", True, n, tag=None, mandatory=[True] * n)
            self.record("mapint", True, n, mandatory=[False] * n)
            self.record("mapint", True, n, tag=self.r.choice(TAGS))
        self.record("mapint", True, 4, tag=None, start=5, skips=[5, 6, 8])
        self.record("mapint", True, 4, tag=None, start=5, skips=[0, 2, 3])
        self.record("mapint", True, 4, tag=None, start=0, skips=[1, 2, 3])
        self.record("mapint", True, 4, tag=7, start=23, skips=[25, 24])
        self.record("mapint", True, 3, tag=None, start=(1 << 32) - 1, skips=[1 << 32])
        for st in (0, 1, 5, 23, 255, 1 << 32):
            self.enum("tagvariant", 3, start=st, skips=[])
            self.enum("enumint", 3, start=st, skips=[])
            self.enum("tagvariant", 4, start=st, skips=[st, st + 2])
            self.enum("enumint", 4, start=st, skips=[st + 1, st + 2])
        self.enum("enumint", 30, start=0, skips=[])
        self.enum("enumint", 300, start=0, skips=[])
        self.enum("tagvariant", 30, start=0, skips=[])
        few = lambda n: [("u8", "u64", "bool", "String")[i % 4] for i in range(n)]
        self.record("array", True, 256, tag=None, types=few(256))
        self.record("array", False, 300, tag=None, types=few(300))
        self.record("array_lastopt", True, 256, tag=None, types=few(256))
        self.record("array_lastopt", True, 257, tag=3, types=few(257))
        self.record("mapint", True, 64, tag=None, start=200, skips=[220, 255, 256, 257, 300], types=few(64), mandatory=[i % 3 == 0 for i in range(64)])
        self.enum("tagvariant", 300, start=0, skips=[], variants=[("V%d" % i, None, []) if i % 3 else ("V%d" % i, False, [("field0", "u64", False, "")]) for i in range(300)])
        self.enum("tagvariant", 2, start=0, skips=[], variants=[("Short", None, []), ("Long", False, [("field%d" % i, t, False, "") for i, t in enumerate(few(255))])])
        self.enum("tagvariant", 2, start=0, skips=[], variants=[("Short", None, []), ("Long", True, [("f%d" % i, t, False, "") for i, t in enumerate(few(256))])])
        for st in (0, 7):
            self.enum("enumint", 5, start=st, skips=[st + 1])
            self.enum("tagvariant", 5, start=st, skips=[st + 1], variants=[("V%d" % i, None, []) for i in range(5)])
        # up to the highest number there is
        top = (1 << 64) - 1
        self.enum("enumint", 1, start=top, skips=[])
        self.enum("enumint", 3, start=top - 2, skips=[])
        self.enum("tagvariant", 2, start=top - 3, skips=[top - 2, top - 1])
        self.enum("tagvariant", 1, start=top - 1, skips=[top - 1])
        self.record("mapint", True, 1, tag=None, start=top, skips=[])
        self.record("mapint", True, 3, tag=top, start=top - 3, skips=[top - 1])
        self.enum("tagvariant", 1, start=0, skips=[], variants=[("Only", None, [])])
        self.enum("tagvariant", 2, start=0, skips=[], variants=[
            ("A", False, [("field0", "u64", True, "")]), ("B", False, [("field0", "bool", False, ""), ("field1", "String", True, ""), ("field2", "u8", True, '#[cborrepr(variant = "vec")] ')])])
        self.enum("tagvariant", 2, start=0, skips=[], variants=[
            ("A", True, [("array", "u64", False, ""), ("reader", "String", False, "")]), ("B", True, [("variant", "bool", False, ""), ("writer", "u8", False, ""), ("len", "u8", False, "")])])
        for k in ("Pos", "Neg", "Bytes", "Text", "Arr", "Map", "Tag"):
            self.enum("enumtype", variants=[(k, "Only", False, "field0", self.field_type(k)), ("Null", "Nothing", None, None, None)])
            self.enum("enumtype", variants=[(k, "Only", True, "reader", self.field_type(k))])
        for _ in range(3):
            ks = ["Pos", "Neg", "Bytes", "Text", "Arr", "Map", "Tag"]
            self.enum("enumtype", variants=[(k, "V" + k, i % 2 == 0, "x" if i % 2 == 0 else "field0", self.field_type(k)) for i, k in enumerate(ks)] + [("Null", "VNull", None, None, None)])

    def random(self, n, enums=0.5):
        for _ in range(n):
            if self.r.random() < enums:
                self.enum()
            else:
                self.record()


LIB = ["u8", "u64", "String", "Vec<u8>", "mon::drv::VecOf<u8>", "mon::drv::VecOf<u64>", "mon::drv::VecOf<String>", "mon::drv::VecOf<mon::drv::VecOf<u16>>",
       "mon::drv::VecOf<mon::drv::VecOf<mon::drv::VecOf<bool>>>", "mon::drv::VecOf<cbored::tagged::PositiveBignum>", "mon::drv::VecOf<[u8; 4]>", "mon::drv::VecOf<cbored::CborDataOf<u64>>"]

CARGO = """[workspace]

[package]
name = "%(pkg)s"
version = "0.1.0"
edition = "2021"
publish = false

[dependencies]
cbored = { path = "/repo" }
mon = { path = "%(harness)s" }

[profile.dev]
opt-level = 0
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false

[profile.dev.package.mon]
opt-level = 2

[profile.dev.package.cbored]
opt-level = 2

[profile.release]
opt-level = 1
debug-assertions = false
overflow-checks = false
debug = 0
incremental = false

[profile.release.package.mon]
opt-level = 3

[profile.release.package.cbored]
opt-level = 3
"""


def write(path, content):
    if os.path.exists(path) and open(path).read() == content:
        return
    open(path, "w").write(content)


def crate(dir, pkg, harness, prop, seed, nrandom, enums=0.5, fixed=True):
    """write a crate; returns the generated types"""
    g = Gen(seed)
    if fixed:
        g.fixed()
    g.random(nrandom, enums)
    os.makedirs(os.path.join(dir, "src"), exist_ok=True)
    keep = {"%s.rs" % t.mod for t in g.types} | {"main.rs"}
    for f in os.listdir(os.path.join(dir, "src")):
        if f not in keep:
            os.remove(os.path.join(dir, "src", f))
    for t in g.types:
        write(os.path.join(dir, "src", t.mod + ".rs"), t.src)
    m = "#![allow(warnings)]\n" + "".join("mod %s;\n" % t.mod for t in g.types)
    m += "#[global_allocator]\nstatic A: mon::rt::Counting = mon::rt::Counting;\n"
    m += "static TABLE: &[mon::drv::Ent] = &[\n"
    m += "".join('    mon::ent!(%s, "%s", %s, true),\n' % (t.rust, t.name, str(t.record).lower()) for t in g.types)
    d = [t.rust for t in g.types if t.single][:3]
    m += "".join('    mon::ent!(%s, "lib", false, false),\n' % x for x in LIB + ["mon::drv::VecOf<%s>" % x for x in d] + ["mon::drv::VecOf<mon::drv::VecOf<%s>>" % x for x in d])
    m += "];\nfn main() {\n    mon::drv::main(\"%s\", TABLE)\n}\n" % prop
    write(os.path.join(dir, "src", "main.rs"), m)
    write(os.path.join(dir, "Cargo.toml"), CARGO % {"pkg": pkg, "harness": harness})
    return g.types
