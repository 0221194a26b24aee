#!/usr/bin/env python3
"""Generates random derive declarations together with an interpretation of what they declare.

usage: gen_types.py OUT SEED COUNT
The interpretation (impl Zoo / StructRef) is computed here from the declaration and never looks
at what the derive macros produce.
"""
import random
import sys

STYLES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
          "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
FIELDS = ["id", "name", "user_id", "first_name", "is_active", "x", "y1", "max_len_of", "a_b_c",
          "r#type", "r#match", "value", "trail_", "two__us", "line2_col3", "r#fn", "kind", "big_int",
          "self_", "data", "n0", "longer_field_name_here", "r#async", "slot", "key", "out", "sink",
          "state", "index", "field_x", "nested_emitter", "descriptor", "_hidden", "_x1", "__all_of"]
VARIANTS = ["A", "Bb", "HttpServer", "HTTPServer", "Value1", "R2D2", "InProgress", "Done", "XAxis",
            "Other", "Unknown", "NoOp", "ABC", "lower", "Mixed_Case", "Cc", "Dd2", "EeFf", "Gg", "HhIiJj",
            "Kk", "LlMm", "NnOoPpQq", "Z0", "Self_", "T1"]


def words(name):
    return name.split("_")


def cap(w):
    return w[:1].upper() + w[1:]


def field_style(style, name):
    """The documented rename_all styles, for field names written in snake_case."""
    if style in (None, "lowercase", "snake_case"):
        return name
    if style in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return name.upper()
    if style == "PascalCase":
        return "".join(cap(w) for w in words(name))
    if style == "camelCase":
        w = words(name)
        return w[0] + "".join(cap(x) for x in w[1:])
    if style == "kebab-case":
        return "-".join(words(name))
    return "-".join(words(name)).upper()


def variant_style(style, name):
    """The documented rename_all styles, for variants written in PascalCase."""
    if style in (None, "PascalCase"):
        return name
    if style == "lowercase":
        return name.lower()
    if style == "UPPERCASE":
        return name.upper()
    if style == "camelCase":
        return name[0].lower() + name[1:]
    parts = []
    for i, c in enumerate(name):
        if i == 0 or c.isupper():
            parts.append(c)
        else:
            parts[-1] += c
    sep = "_" if "SNAKE" in style.upper() else "-"
    joined = sep.join(parts)
    return joined.upper() if style.startswith("SCREAMING") else joined.lower()


class Ty:
    def __init__(self, text, expr, option=False, key=False, struct=None, opt_like=False, rt=True):
        self.text, self.expr = text, expr      # expr(rng) -> literal of the type
        self.option = option                   # Option<..>: missing means none
        self.key = key                         # Ord + Hash + Clone
        self.struct = struct                   # Struct declaration behind it, if flattenable
        self.opt_like = opt_like               # is_optional may be true
        self.rt = rt


class Struct:
    pass


def rstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class G:
    def __init__(self, seed, count):
        self.r = random.Random(seed)
        self.count = count
        self.structs, self.enums, self.newtypes = [], [], []
        self.out = []
        self.hits = 0

    def new_hit(self):
        self.hits += 1
        return self.hits - 1

    # ---------------------------------------------------------- types
    def prim(self):
        r = self.r
        k = r.randrange(9)
        if k == 0:
            t = r.choice(["u8", "u16", "u32", "u64", "usize"])
            return Ty(t, lambda r: str(r.randrange(250)) + t, key=True)
        if k == 1:
            t = r.choice(["i8", "i16", "i32", "i64", "isize"])
            return Ty(t, lambda r: "(%d%s)" % (r.randrange(-120, 120), t), key=True)
        if k == 2:
            return Ty("bool", lambda r: r.choice(["true", "false"]), key=True)
        if k == 3:
            return Ty("f64", lambda r: "%.2ff64" % (r.random() * 100))
        if k == 4:
            return Ty("char", lambda r: "'%s'" % r.choice("abcxyz"), key=True)
        if k == 5:
            return Ty("()", lambda r: "()", opt_like=True, rt=True)
        return Ty("String", lambda r: "String::from(%s)" % rstr(r.choice(["", "dflt", "x y", "é"])), key=True)

    def ty(self, depth=2):
        r = self.r
        k = r.randrange(15)
        if depth == 0 or k < 4:
            return self.prim()
        if k < 7:
            i = self.ty(depth - 1)
            return Ty("Option<%s>" % i.text,
                      lambda r: "None" if r.random() < .4 else "Some(%s)" % i.expr(r),
                      option=True, key=i.key, opt_like=True, rt=i.rt, struct=("opt", i.struct) if i.struct else None)
        if k == 7:
            i = self.ty(depth - 1)
            return Ty("Vec<%s>" % i.text, lambda r: "vec![%s]" % ", ".join(i.expr(r) for _ in range(r.randrange(3))),
                      key=i.key, rt=i.rt)
        if k == 8:
            i = self.ty(depth - 1)
            return Ty("Box<%s>" % i.text, lambda r: "Box::new(%s)" % i.expr(r), key=i.key, opt_like=i.opt_like,
                      rt=i.rt, struct=("box", i.struct) if i.struct else None)
        if k == 9:
            i = self.ty(depth - 1)
            kt = r.choice(["String", "u8", "char", "bool"])
            return Ty("%s<%s, %s>" % (r.choice(["BTreeMap", "HashMap"]), kt, i.text),
                      lambda r: "Default::default()", rt=i.rt)
        if k == 10:
            n = r.randrange(1, 4)
            ts = [self.ty(depth - 1) for _ in range(n)]
            return Ty("(%s,)" % ", ".join(t.text for t in ts), lambda r: "(%s,)" % ", ".join(t.expr(r) for t in ts),
                      key=all(t.key for t in ts), rt=all(t.rt for t in ts))
        if k == 11:
            i = self.ty(depth - 1)
            n = r.randrange(0, 4)
            return Ty("[%s; %d]" % (i.text, n), lambda r: "[%s]" % ", ".join(i.expr(r) for _ in range(n)),
                      key=i.key, rt=i.rt)
        if k == 12 and self.enums:
            return self.r.choice(self.enums)
        if k == 13 and self.newtypes:
            return self.r.choice(self.newtypes)
        if self.structs:
            return self.struct_ty(self.r.choice(self.structs))
        return self.prim()

    def struct_ty(self, s):
        return Ty(s.name, lambda r: s.literal(r), struct=("s", s), rt=s.rt)

    # ---------------------------------------------------------- enums
    def enum(self, i):
        r = self.r
        name = "E%d" % i
        style = r.choice([None] + STYLES)
        n = r.randrange(1, 7) if r.random() < .85 else r.randrange(8, 22)
        taken, vs = set(), []
        for v in r.sample(VARIANTS, len(VARIANTS)):
            if len(vs) >= n:
                break
            if v == "lower" and style not in (None, "PascalCase", "lowercase", "UPPERCASE"):
                continue
            if ("_" in v) and style not in (None, "PascalCase", "lowercase", "UPPERCASE"):
                continue
            rename = r.choice(["re", "", "with space", "Ünïcode", "q\"uote", v + "2"]) if r.random() < .25 else None
            eff = rename if rename is not None else variant_style(style, v)
            aliases = [v + "_alias%d" % j for j in range(r.choice([0, 0, 0, 1, 2]))]
            if r.random() < .2:
                aliases.append(v)
            names = [eff] + [a for a in aliases if a != eff]
            aliases = names[1:]
            if len(set(names)) != len(names) or taken & set(names):
                continue
            taken |= set(names)
            vs.append((v, rename, names))
        o = self.out
        o.append("#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]")
        o.append("#[allow(non_camel_case_types, clippy::upper_case_acronyms)]")
        if style:
            o.append("#[deser(rename_all = %s)]" % rstr(style))
        o.append("pub enum %s {" % name)
        for v, rename, names in vs:
            at = ([] if rename is None else ["rename = %s" % rstr(rename)]) + ["alias = %s" % rstr(a) for a in names[1:]]
            self.attrs(at, "    ")
            o.append("    %s," % v)
        o.append("}")
        o.append("impl %s {" % name)
        o.append("    pub const NAMES: &'static [(%s, &'static [&'static str])] = &[%s];" % (
            name, ", ".join("(%s::%s, &[%s])" % (name, v, ", ".join(map(rstr, names))) for v, _, names in vs)))
        o.append("}")
        o.append("impl Default for %s { fn default() -> Self { %s::%s } }" % (name, name, r.choice(vs)[0]))
        o.append("impl Zoo for %s {" % name)
        o.append("    fn arb(g: &mut Gen) -> Self { g.r.pick(Self::NAMES).0 }")
        o.append("    fn model(&self) -> M { M::atom(A::Str(Self::NAMES.iter().find(|x| x.0 == *self).unwrap().1[0].into()), D::default()) }")
        o.append("    fn fit(g: &mut Gen) -> Tr { let n = g.r.pick(Self::NAMES).1; Tr::A(A::Str(g.r.pick(n).to_string())) }")
        o.append("    fn de(n: &N) -> Result<Self, Fail> {")
        o.append("        match atom_of(n)? {")
        o.append("            A::Str(s) => match Self::NAMES.iter().find(|x| x.1.contains(&s.as_str())) { Some(x) => Ok(x.0), None => fail(Unexpected, n.start) },")
        o.append("            _ => fail(Unexpected, n.start),")
        o.append("        }")
        o.append("    }")
        o.append("    fn eqv(&self, o: &Self) -> bool { self == o }")
        o.append("}")
        self.enums.append(Ty(name, lambda r: "%s::%s" % (name, r.choice(vs)[0]), key=True))

    def attrs(self, at, ind=""):
        """Attribute lists may be split or joined."""
        at = list(at)
        self.r.shuffle(at)
        while at:
            k = self.r.randrange(1, len(at) + 1)
            self.out.append(ind + "#[deser(%s)]" % ", ".join(at[:k]))
            at = at[k:]

    # ---------------------------------------------------------- newtypes
    def newtype(self, i):
        t = self.ty()
        r0 = self.r
        name = "N%d" % i
        o = self.out
        o.append("#[derive(Debug, Serialize, Deserialize)]")
        if t.key:
            o[-1] = o[-1].replace("Debug", "Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash")
        if self.r.random() < .2:
            o.append("#[deser(rename = \"ignored\")]")
        o.append("pub struct %s(pub %s);" % (name, t.text))
        o.append("impl Default for %s { fn default() -> Self { %s(%s) } }" % (name, name, t.expr(r0)))
        o.append("impl Zoo for %s {" % name)
        o.append("    const RT: bool = <%s as Zoo>::RT;" % t.text)
        o.append("    fn arb(g: &mut Gen) -> Self { %s(Zoo::arb(g)) }" % name)
        o.append("    fn model(&self) -> M { self.0.model() }")
        o.append("    fn fit(g: &mut Gen) -> Tr { <%s as Zoo>::fit(g) }" % t.text)
        o.append("    fn de(n: &N) -> Result<Self, Fail> { <%s as Zoo>::de(n).map(%s) }" % (t.text, name))
        o.append("    fn eqv(&self, o: &Self) -> bool { self.0.eqv(&o.0) }")
        o.append("    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }")
        o.append("    fn is_opt(&self) -> bool { self.0.is_opt() }")
        o.append("    fn de_desc() -> D { <%s as Zoo>::de_desc() }" % t.text)
        o.append("}")
        st = None
        if t.struct:
            st = ("nt", t.struct)
            o.append("impl StructRef for %s {" % name)
            o.append("    type Slots = <%s as StructRef>::Slots;" % t.text)
            o.append("    fn leaves() -> Vec<Leaf> { <%s as StructRef>::leaves() }" % t.text)
            o.append("    fn fields(&self) -> Vec<(String, M, bool)> { self.0.fields() }")
            o.append("    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> { <%s as StructRef>::offer(s, k, v) }" % t.text)
            o.append("    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> { <%s as StructRef>::complete(s, end).map(%s) }" % (t.text, name))
            o.append("}")
        self.newtypes.append(Ty(name, lambda r: "%s(%s)" % (name, t.expr(r)), key=t.key, struct=st,
                                opt_like=t.opt_like, rt=t.rt))

    # ---------------------------------------------------------- structs
    def leaf_names(self, ref):
        kind, x = ref
        if kind in ("opt", "box", "nt"):
            return self.leaf_names(x)
        return x.all_names

    def has_opt(self, ref):
        kind, x = ref
        if kind == "opt":
            return True
        if kind in ("box", "nt"):
            return self.has_opt(x)
        return False

    def base(self, ref):
        return ref[1] if ref[0] == "s" else self.base(ref[1])

    def struct(self, i):
        r = self.r
        s = Struct()
        s.name = "S%d" % i
        style = r.choice([None, None, None] + STYLES)
        s.rename = r.choice(["renamed", "Ren Amed", "", "x::Y"]) if r.random() < .2 else None
        s.skip_opt = r.random() < .3
        s.cdefault = r.choice([None, None, None, "implicit", "explicit"])
        nf = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 8, 14])
        if r.random() < .08:
            nf = r.choice([17, 20, 33])
        # type parameters with what they stand for
        s.params = [("T%d" % j, self.ty(1)) for j in range(r.choice([0, 0, 0, 1, 2]))]
        pool = list(FIELDS)
        r.shuffle(pool)
        fields, taken = [], set()
        while len(fields) < nf and pool:
            f = Struct()
            f.ident = pool.pop()
            f.plain = f.ident.replace("r#", "")
            if f.plain.startswith("_") and style in ("PascalCase", "camelCase", "kebab-case", "SCREAMING-KEBAB-CASE"):
                continue
            f.flatten = False
            cands = [x for x in self.structs if not (x.all_names & taken)] if r.random() < .3 else []
            if cands:
                t = self.struct_ty(r.choice(cands))
                w = r.randrange(6)
                if w == 0:
                    inner = t
                    t = Ty("Box<%s>" % inner.text, lambda r, i=inner: "Box::new(%s)" % i.expr(r), struct=("box", inner.struct), rt=inner.rt)
                elif w == 1:
                    inner = t
                    t = Ty("Option<%s>" % inner.text, lambda r, i=inner: "None" if r.random() < .5 else "Some(%s)" % i.expr(r),
                           struct=("opt", inner.struct), rt=inner.rt, option=True, opt_like=True)
                elif w == 2:
                    nts = [x for x in self.newtypes if x.struct and not self.has_opt(x.struct) and not (self.leaf_names(x.struct) & taken)]
                    if nts:
                        t = r.choice(nts)
                f.flatten = True
                f.ty = t
                f.decl, f.uses = t.text, None
                if r.random() < .2 and not self.has_opt(t.struct):
                    p = "T%d" % len(s.params)
                    s.params.append((p, t))
                    f.decl, f.uses = p, p
                f.rename, f.names, f.default = None, [], None
                f.skip = None
                if self.has_opt(t.struct):
                    f.skip = "Option::is_none"
                elif r.random() < .15:
                    f.skip = "skip_half"
                if r.random() < .1:
                    f.rename = "unused"
                taken |= self.leaf_names(t.struct)
                fields.append(f)
                continue
            f.ty = self.ty()
            f.decl, f.uses = f.ty.text, None
            plain_params = [x for x in s.params if not x[1].struct] or s.params
            if s.params and r.random() < .5:
                p, t = r.choice(plain_params)
                w = r.choice(["%s", "%s", "%s", "Option<%s>", "Vec<%s>", "Box<%s>", "BTreeMap<String, %s>", "(u8, %s)"])
                f.decl, f.uses = w % p, p
                e = {"O": "None", "V": "Vec::new()", "B": "Default::default()", "(": "Default::default()"}
                f.ty = Ty(w % t.text, t.expr if w == "%s" else lambda r, x=e[w[0]]: x, option=w[0] == "O" or (w == "%s" and t.option),
                          opt_like=w[0] == "O" or (w in ("%s", "Box<%s>") and t.opt_like), rt=t.rt)
            f.rename = None
            if r.random() < .2:
                f.rename = r.choice(["", "re name", "$ref", "a.b", "Ünï", "q\"t", "back\\slash", f.plain.upper() + "!", "_"])
            eff = f.rename if f.rename is not None else field_style(style, f.plain)
            names = [eff]
            for j in range(r.choice([0, 0, 0, 0, 1, 1, 2, 3])):
                a = r.choice([f.plain, f.plain + "_alias", "alias %d" % j, f.plain.title(), "@" + f.plain])
                if a not in names:
                    names.append(a)
            if taken & set(names):
                continue
            taken |= set(names)
            f.names = names
            f.default = r.choice([None, None, None, None, "implicit", "implicit" if f.uses else "explicit"])
            f.skip = None
            if r.random() < .2:
                f.skip = "skip_half"
                if f.decl == f.uses:
                    pass
                elif f.ty.text.startswith("Option<"):
                    f.skip = r.choice(["Option::is_none", "skip_half"])
                elif f.ty.text.startswith("Vec<"):
                    f.skip = r.choice(["Vec::is_empty", "skip_half"])
                elif f.ty.text == "String":
                    f.skip = r.choice(["String::is_empty", "skip_half"])
            fields.append(f)
        s.fields = fields
        s.all_names = taken
        s.params = [x for x in s.params if any(f.uses == x[0] for f in fields)]
        bounds = {}
        for p, _ in s.params:
            b = []
            if s.cdefault or any(f.uses == p and f.default for f in fields):
                b.append("Default")
            if any(f.uses == p and f.skip == "skip_half" for f in fields):
                b.append("Zoo")
            if r.random() < .3:
                b.append("Sized")
            bounds[p] = b
        s.decl = s.name + "g" if s.params else s.name
        inline = [p for p, _ in s.params if r.random() < .5]
        gen_decl = ", ".join(p + (": " + " + ".join(bounds[p]) if p in inline and bounds[p] else "") for p, _ in s.params)
        gen_where = ", ".join("%s: %s" % (p, " + ".join(bounds[p])) for p, _ in s.params if p not in inline and bounds[p])
        if s.params:
            gen_decl = "<%s>" % gen_decl
        if gen_where:
            gen_where = " where " + gen_where
        gen_use = "<%s>" % ", ".join(p for p, _ in s.params) if s.params else ""
        gen_lit = lambda: "%s { %s }" % (s.decl, ", ".join(
            "%s: %s" % (f.ident, "Default::default()" if f.uses else f.ty.expr(r)) for f in fields))
        s.literal = lambda r: "%s { %s }" % (s.name, ", ".join("%s: %s" % (f.ident, f.ty.expr(r)) for f in fields))

        # does the declaration have an inverse?
        def field_rt(f, s, outer_skip_opt):
            if f.flatten:
                b = self.base(f.ty.struct)
                if self.has_opt(f.ty.struct) or f.skip:
                    return False
                return b.rt and all(field_rt(g, b, outer_skip_opt or s.skip_opt) for g in b.fields)
            if not f.ty.rt:
                return False
            if f.skip == "skip_half":
                return False
            if f.skip and f.skip != "Option::is_none" and f.default != "implicit":
                return False
            none_left_out = (f.skip == "Option::is_none") or ((s.skip_opt or outer_skip_opt) and f.ty.opt_like)
            if none_left_out:
                if f.default == "explicit" or (f.default is None and s.cdefault):
                    return False
                if f.default is None and not f.ty.option:
                    return False
            return True
        s.rt = all(field_rt(f, s, False) for f in fields)

        o = self.out
        o.append("#[derive(Debug, Serialize, Deserialize)]")
        at = []
        if style:
            at.append("rename_all = %s" % rstr(style))
        if s.rename is not None:
            at.append("rename = %s" % rstr(s.rename))
        if s.skip_opt:
            at.append("skip_serializing_optionals")
        if s.cdefault == "implicit":
            at.append("default")
        elif s.cdefault:
            at.append("default = \"%s%s::make\"" % (s.decl, "::" + gen_use if gen_use else ""))
        self.attrs(at)
        o.append("pub struct %s%s%s {" % (s.decl, gen_decl, gen_where))
        for f in fields:
            at = []
            if f.rename is not None:
                at.append("rename = %s" % rstr(f.rename))
            at += ["alias = %s" % rstr(a) for a in f.names[1:]]
            if f.default == "implicit":
                at.append("default")
            elif f.default:
                at.append("default = \"%s::dflt_%s\"" % (s.name, f.plain))
            if f.skip:
                at.append("skip_serializing_if = \"%s\"" % f.skip)
            if f.flatten:
                at.append("flatten")
            self.attrs(at, "    ")
            o.append("    pub %s: %s," % (f.ident, f.decl))
        o.append("}")
        if s.params:
            o.append("pub type %s = %s<%s>;" % (s.name, s.decl, ", ".join(t.text for _, t in s.params)))
        hit, hit2 = self.new_hit(), self.new_hit()
        if s.cdefault:
            o.append("impl%s Default for %s%s%s {" % (gen_decl, s.decl, gen_use, gen_where))
            o.append("    fn default() -> Self { hit(%d); %s }" % (hit, gen_lit()))
            o.append("}")
            o.append("impl%s %s%s%s {" % (gen_decl, s.decl, gen_use, gen_where))
            o.append("    pub fn make() -> Self { hit(%d); %s }" % (hit2, gen_lit()))
            o.append("}")
        else:
            o.append("impl Default for %s {" % s.name)
            o.append("    fn default() -> Self { hit(%d); %s }" % (hit, s.literal(r)))
            o.append("}")
        o.append("impl %s {" % s.name)
        for f in fields:
            if f.default == "explicit":
                o.append("    fn dflt_%s() -> %s { hit(%d); %s }" % (f.plain, f.ty.text, self.new_hit(), f.ty.expr(r)))
        o.append("}")
        tyname = s.rename if s.rename is not None else s.decl
        o.append("impl Zoo for %s {" % s.name)
        o.append("    const RT: bool = %s;" % ("true" if s.rt else "false"))
        o.append("    fn arb(g: &mut Gen) -> Self { let _ = &g; %s { %s } }" % (s.name, ", ".join("%s: Zoo::arb(g)" % f.ident for f in fields)))
        o.append("    fn model(&self) -> M { struct_model(self, %s) }" % rstr(tyname))
        o.append("    fn fit(g: &mut Gen) -> Tr { struct_fit::<Self>(g) }")
        o.append("    fn de(n: &N) -> Result<Self, Fail> { struct_de(n) }")
        for m in ("eqv", "same"):
            o.append("    fn %s(&self, o: &Self) -> bool { let _ = o; %s }" % (
                m, " && ".join(["true"] + ["self.%s.%s(&o.%s)" % (f.ident, m, f.ident) for f in fields])))
        o.append("    fn de_desc() -> D { D::named(%s) }" % rstr(tyname))
        o.append("}")
        o.append("impl StructRef for %s {" % s.name)
        slots = ["<%s as StructRef>::Slots" % f.ty.text if f.flatten else "Option<%s>" % f.ty.text for f in fields]
        # nested pairs: tuples only implement Default up to 12 members
        nest = "()"
        for t in reversed(slots):
            nest = "(%s, %s)" % (t, nest)
        o.append("    type Slots = %s;" % nest)
        acc = lambda i: "s" + ".1" * i + ".0"
        o.append("    fn leaves() -> Vec<Leaf> {")
        o.append("        #[allow(unused_mut)] let mut v: Vec<Leaf> = vec![];")
        for f in fields:
            if f.flatten:
                o.append("        v.extend(<%s as StructRef>::leaves());" % f.ty.text)
            else:
                o.append("        v.push(Leaf { names: vec![%s], fit: <%s as Zoo>::fit });" % (", ".join(map(rstr, f.names)), f.ty.text))
        o.append("        v")
        o.append("    }")
        o.append("    fn fields(&self) -> Vec<(String, M, bool)> {")
        o.append("        #[allow(unused_mut)] let mut v: Vec<(String, M, bool)> = vec![];")
        for f in fields:
            if f.skip:
                o.append("        if !%s(&self.%s) {" % (f.skip, f.ident))
            if f.flatten:
                o.append("        v.extend(self.%s.fields());" % f.ident)
            else:
                o.append("        v.push((%s.to_string(), self.%s.model(), self.%s.is_opt()));" % (rstr(f.names[0]), f.ident, f.ident))
            if f.skip:
                o.append("        }")
        if s.skip_opt:
            o.append("        v.retain(|x| !x.2);")
        o.append("        v")
        o.append("    }")
        o.append("    fn offer(s: &mut Self::Slots, k: &str, v: &N) -> Result<bool, Fail> {")
        o.append("        let _ = (&s, v);")
        for i, f in enumerate(fields):
            if not f.flatten:
                o.append("        if [%s].contains(&k) { %s = Some(<%s as Zoo>::de(v)?); return Ok(true); }" % (
                    ", ".join(map(rstr, f.names)), acc(i), f.ty.text))
        for i, f in enumerate(fields):
            if f.flatten:
                o.append("        if <%s as StructRef>::offer(&mut %s, k, v)? { return Ok(true); }" % (f.ty.text, acc(i)))
        o.append("        Ok(false)")
        o.append("    }")
        o.append("    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail> {")
        o.append("        let _ = (&s, end);")
        o.append("        #[allow(unused_mut)] let mut s = s;")
        for i, f in enumerate(fields):
            if f.flatten:
                o.append("        let v%d = <%s as StructRef>::complete(std::mem::take(&mut %s), end)?;" % (i, f.ty.text, acc(i)))
        for i, f in enumerate(fields):
            if f.default == "implicit":
                o.append("        if %s.is_none() { %s = Some(Default::default()); }" % (acc(i), acc(i)))
            elif f.default:
                o.append("        if %s.is_none() { %s = Some(%s::dflt_%s()); }" % (acc(i), acc(i), s.name, f.plain))
        rest = [(i, f) for i, f in enumerate(fields) if not f.flatten and f.default is None]
        if s.cdefault and rest:
            o.append("        if %s {" % " || ".join("%s.is_none()" % acc(i) for i, _ in rest))
            o.append("            let d = %s;" % ("<%s as Default>::default()" % s.name if s.cdefault == "implicit" else "%s::make()" % s.name))
            for i, f in rest:
                o.append("            if %s.is_none() { %s = Some(d.%s); }" % (acc(i), acc(i), f.ident))
            o.append("        }")
        for i, f in enumerate(fields):
            if not f.flatten:
                o.append("        let v%d = match %s.take() { Some(x) => x, None => match <%s as Zoo>::missing() { Some(x) => x, None => return fail(MissingField, end) } };" % (
                    i, acc(i), f.ty.text))
        o.append("        Ok(%s { %s })" % (s.name, ", ".join("%s: v%d" % (f.ident, i) for i, f in enumerate(fields))))
        o.append("    }")
        o.append("}")
        self.structs.append(s)

    def run(self):
        self.out.append("// generated by tools/gen_types.py\n")
        self.out.append("#![allow(clippy::all, unused_variables, dead_code)]") if False else None
        self.out.append("use mon::gen::Gen;\nuse mon::model::{T as Tr, *};\nuse mon::skip::{hit, skip_half};\nuse mon::zoo::*;")
        self.out.append("use deser::{Deserialize, Serialize, ErrorKind::{Unexpected, MissingField}};")
        self.out.append("use std::collections::{BTreeMap, HashMap};\n")
        for i in range(self.count):
            k = self.r.randrange(10)
            if i < 2 or k == 0:
                self.enum(i)
            elif k == 1 or k == 2:
                self.newtype(i)
            else:
                self.struct(i)
            self.out.append("")
        self.out.append("pub const HITS: usize = %d;" % max(1, self.hits))
        names = [s.name for s in self.structs] + [e.text for e in self.enums] + [n.text for n in self.newtypes]
        self.out.append("pub fn visit<V: Visitor>(v: &mut V) {")
        for n in names:
            self.out.append("    v.visit::<%s>();" % n)
        self.out.append("}")
        return "\n".join(x for x in self.out if x is not None) + "\n"


if __name__ == "__main__":
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    text = G(seed, count).run()
    try:
        same = open(out).read() == text
    except OSError:
        same = False
    if not same:
        open(out, "w").write(text)
