"""The check of C23: random declarations are given to the derive macros.  A reference that only looks at
the declaration says which are supported; the verdicts of the macros are compared with it, and what is
supported has to compile in hostile surroundings and to do what it declares."""
import json
import os
import random

STYLES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
          "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
FIELDS = ["id", "name", "user_id", "first_name", "x", "y1", "a_b_c", "r#type", "r#match", "value", "trail_",
          "two__us", "r#fn", "self_", "data", "slot", "key", "sink", "state", "index", "field_x", "nested_emitter",
          "nested_emitter_exhausted", "descriptor", "_under", "__index", "__state", "__slot", "__key", "camelCase",
          "UPPER", "größe", "r#async", "take", "finish", "map", "seq", "atom", "expecting", "default", "__default"]
VARIANTS = ["A", "Bb", "HttpServer", "Value1", "R2D2", "InProgress", "Done", "XAxis", "Other", "ABC", "lower",
            "Mixed_Case", "Äther", "É", "r#type", "String", "Option", "Some", "None", "Ok", "Err", "Value", "Übel"]
NAMES = ["User", "String", "Option", "Some", "None", "Ok", "Err", "Box", "Result", "Vec", "Cow", "Error", "Atom", "Chunk",
         "Sink", "Default", "Serialize", "Deserialize", "r#type", "T", "X", "Äpfel", "Descriptor", "StructEmitter",
         "SinkHandle", "OwnedSink", "SlotWrapper", "lower_case"]
SHADOWS = ["struct String;", "struct Option;", "struct Result;", "struct Box;", "struct Vec;", "struct Some;",
           "struct None;", "struct Ok;", "struct Err;", "mod deser {}", "mod std {}", "mod core {}", "mod alloc {}",
           "trait Default {}", "trait Iterator {}", "trait Sink {}", "struct Cow;", "struct Error;", "struct Atom;",
           "struct Chunk;", "struct Descriptor;", "trait Deserialize {}", "trait Serialize {}", "fn take() {}",
           "fn drop() {}", "macro_rules! vec { () => {} }", "struct SinkHandle;", "mod deser_derive {}", "enum ErrorKind {}",
           "struct Option<T>(T);", "struct Result<T, E>(T, E);", "fn Ok() {}", "fn Some() {}", "fn None() {}",
           "struct StructEmitter;", "mod de {}", "mod ser {}", "mod __derive {}"]


def up(s):
    return "".join(c.upper() if c.isascii() else c for c in s)


def low(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def cap(w):
    return up(w[:1]) + w[1:]


def unraw(s):
    return s[2:] if s.startswith("r#") else s


def field_style(style, name):
    if style in (None, "lowercase", "snake_case"):
        return name
    if style in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return up(name)
    w = name.split("_")
    if style == "PascalCase":
        return "".join(cap(x) for x in w)
    if style == "camelCase":
        return w[0] + "".join(cap(x) for x in w[1:])
    if style == "kebab-case":
        return "-".join(w)
    return up("-".join(w))


def variant_style(style, name):
    if style in (None, "PascalCase"):
        return name
    if style == "lowercase":
        return low(name)
    if style == "UPPERCASE":
        return up(name)
    if style == "camelCase":
        return low(name[0]) + name[1:]
    parts = []
    for i, c in enumerate(name):
        if i == 0 or c.isupper():
            parts.append(c)
        else:
            parts[-1] += c
    joined = ("_" if "SNAKE" in style.upper() else "-").join(parts)
    return up(joined) if style.startswith("SCREAMING") else low(joined)


class Item:
    """One entry of an attribute: form is path, str, raw (a raw string), or a form that is never supported."""

    def __init__(self, form, name=None, value=None, ok=True):
        self.form, self.name, self.value = form, name, value
        self.ok = ok        # whether the string can be used for this name

    def text(self):
        n, v = self.name, self.value
        return {
            "path": lambda: n,
            "str": lambda: '%s = "%s"' % (n, v),
            "raw": lambda: '%s = r#"%s"#' % (n, v),
            "bytes": lambda: '%s = b"%s"' % (n, v if str(v).isascii() else "x"),
            "int": lambda: "%s = 1" % n,
            "bool": lambda: "%s = true" % n,
            "float": lambda: "%s = 1.5" % n,
            "char": lambda: "%s = 'x'" % n,
            "neg": lambda: "%s = -1" % n,
            "unquoted": lambda: "%s = foo" % n,
            "list": lambda: '%s("%s")' % (n, v),
            "emptylist": lambda: "%s()" % n,
            "lit": lambda: '"%s"' % n,
            "litint": lambda: "7",
            "seg": lambda: 'a::%s = "%s"' % (n, v),
            "rawident": lambda: 'r#%s = "%s"' % (n, v),
            "noval": lambda: "%s =" % n,
            "colon": lambda: '%s: "%s"' % (n, v),
            "twoeq": lambda: '%s == "%s"' % (n, v),
            "twice": lambda: '%s = "%s" "%s"' % (n, v, v),
        }[self.form]()


NEVER = ["bytes", "int", "bool", "float", "char", "neg", "unquoted", "list", "emptylist", "lit", "litint", "seg",
         "rawident", "noval", "colon", "twoeq", "twice"]


class Attr:
    def __init__(self, style, items=()):
        self.style, self.items = style, list(items)

    def text(self, r):
        inner = ", ".join(i.text() for i in self.items) + ("," if self.items and r.random() < .2 else "")
        return {
            "paren": "#[deser(%s)]" % inner,
            "bracket": "#[deser[%s]]" % inner,
            "brace": "#[deser{%s}]" % inner,
            "bare": "#[deser]",
            "eq": '#[deser = "%s"]' % (self.items[0].name if self.items else "x"),
            "path2": "#[deser::x(%s)]" % inner,
            "cfg_attr": "#[cfg_attr(all(), deser(%s))]" % inner,
            "cfg_off": "#[cfg_attr(any(), deser(%s))]" % inner,
            "semi": "#[deser(%s;)]" % inner,
            "gap": "#[deser(%s,,)]" % inner,
            "nested": "#[deser((%s))]" % inner,
            "doc": "/// %s" % inner.replace("\n", " "),
            "allow": "#[allow(dead_code)]",
        }[self.style]

    def of(self):
        """(refused, items)"""
        if self.style in ("cfg_off", "doc", "allow"):
            return False, []
        if self.style in ("bracket", "brace", "bare", "eq", "semi", "gap", "nested"):
            return True, []
        return False, self.items


ALLOWED = {
    "container": {"rename": ("str",), "rename_all": ("str",), "default": ("str", "path"),
                  "skip_serializing_optionals": ("path",)},
    "field": {"rename": ("str",), "alias": ("str",), "default": ("str", "path"), "flatten": ("path",),
              "skip_serializing_if": ("str",)},
    "variant": {"rename": ("str",), "alias": ("str",)},
    "none": {},
}


def read(attrs, where):
    """What the attributes say, or None when they are to be refused."""
    seen = {}
    for a in attrs:
        refused, items = a.of()
        if refused:
            return None
        for i in items:
            form = "str" if i.form == "raw" else i.form
            if form not in ALLOWED[where].get(i.name, ()) or not i.ok:
                return None
            if i.name == "rename_all" and i.value not in STYLES:
                return None
            if i.name == "alias":
                seen.setdefault("alias", []).append(i.value)
            elif i.name in seen:
                return None
            else:
                seen[i.name] = i.value if form == "str" else True
    if "flatten" in seen and "default" in seen:
        return None
    return seen


class Field:
    pass


class Decl:
    """kind: struct, newtype, enum, unit, tuple, union"""

    def verdict(self, derive):
        """Whether the macro supports the declaration."""
        if self.kind in ("unit", "tuple", "union"):
            return False
        c = read(self.attrs, "container")
        if c is None:
            return False
        names = []
        if self.kind == "enum":
            if self.generics:
                return False
            for v in self.fields:
                a = read(v.attrs, "variant")
                if a is None or v.shape != "":
                    return False
                names += [a.get("rename", variant_style(c.get("rename_all"), unraw(v.ident)))] + a.get("alias", [])
        elif self.kind == "newtype":
            return read(self.fields[0].attrs, "none") is not None
        else:
            for f in self.fields:
                a = read(f.attrs, "field")
                if a is None:
                    return False
                if "flatten" not in a:
                    names += [a.get("rename", field_style(c.get("rename_all"), unraw(f.ident)))] + a.get("alias", [])
        return derive == "Serialize" or len(names) == len(set(names))


# type, value, JSON, whether missing when optionals are skipped, needs nothing when absent
TYPES = [
    ("u32", "7", "7", False),
    ("bool", "true", "true", False),
    ("::std::string::String", '::std::string::String::from("s")', '"s"', False),
    ("::std::option::Option<u8>", "::std::option::Option::Some(3)", "3", False),
    ("::std::option::Option<u8>", "::std::option::Option::None", "null", True),
    ("::std::vec::Vec<u32>", "::std::vec![1, 2]", "[1,2]", False),
    ("()", "()", "null", True),
    ("::std::boxed::Box<u32>", "::std::boxed::Box::new(4)", "4", False),
    ("(u8, char)", "(1, 'c')", '[1,"c"]', False),
    ("::decls::Evil", "::decls::Evil(9)", "9", False),
    ("[u32; 2]", "[5, 6]", "[5,6]", False),
]
GENERIC = [("T", "11", "11", False), ("::std::vec::Vec<T>", "::std::vec![12]", "[12]", False),
           ("::std::option::Option<T>", "::std::option::Option::None", "null", True)]
FLAT = [("::decls::Flat1", "::std::default::Default::default()", '"flat_a":0,"flat_b":""'),
        ("::decls::Flat2", "::std::default::Default::default()", '"flat_c":false')]


def noise(r, attrs):
    """The same attributes written differently."""
    out = []
    for a in attrs:
        if a.style == "paren" and len(a.items) > 1 and r.random() < .4:
            k = r.randrange(1, len(a.items))
            out += [Attr("paren", a.items[:k]), Attr("paren", a.items[k:])]
        elif a.style == "paren" and r.random() < .1:
            out.append(Attr("cfg_attr", a.items))
        else:
            out.append(a)
    if r.random() < .15:
        out.insert(r.randrange(len(out) + 1), Attr(r.choice(["doc", "allow", "paren", "cfg_off"])))
        if out and r.random() < .5:
            for a in out:
                if a.style == "cfg_off":
                    a.items = [Item("path", r.choice(["nonsense", "default", "rename"]))]
    for a in out:
        for i in a.items:
            if i.form == "str" and r.random() < .1:
                i.form = "raw"
    return out


def supported(r, n):
    """A declaration as users write them."""
    d = Decl()
    d.n = n
    d.kind = r.choice(["struct"] * 5 + ["enum"] * 3 + ["newtype"])
    d.name = r.choice(NAMES)
    d.shadows = []
    if r.random() < .7:
        for s in r.sample(SHADOWS, r.choice([1, 2, 5, len(SHADOWS) // 2])):
            d.shadows.append(s)
    d.generics, d.inst = "", ""
    d.macro = r.random() < .15
    items = []
    if r.random() < .4:
        items.append(Item("str", "rename_all", r.choice(STYLES)))
    if r.random() < .3:
        items.append(Item("str", "rename", r.choice(["Renamed", "", "with space", "User", "größe"])))
    d.fields = []
    if d.kind == "enum":
        for i in r.sample(VARIANTS, r.randrange(6)):
            f = Field()
            f.ident, f.shape, f.disc = i, "", ""
            fi = []
            if r.random() < .3:
                fi.append(Item("str", "rename", r.choice(["one", "two", "", "x y", "ä"])))
            while r.random() < .25:
                fi.append(Item("str", "alias", r.choice(["al", "other", "third", "A", "done", "1"])))
            r.shuffle(fi)
            f.attrs = noise(r, [Attr("paren", fi)] if fi else [])
            d.fields.append(f)
        if d.fields and r.random() < .2:
            d.fields[0].disc = " = %d" % r.choice([0, 5])
    elif d.kind == "newtype":
        f = Field()
        t = r.choice(TYPES)
        f.ident = "0"
        f.ty, f.value, f.json, f.optional = t
        f.attrs = noise(r, [])
        d.fields = [f]
        if r.random() < .3:
            d.generics, d.inst = "<T>", "<u32>"
            f.ty, f.value, f.json, f.optional = r.choice(GENERIC)
    else:
        if r.random() < .3:
            items.append(Item("path", "skip_serializing_optionals"))
        if r.random() < .25:
            items.append(Item("path", "default") if r.random() < .5
                         else Item("str", "default", "crate::c%d::mk" % n))
        elif r.random() < .3:
            d.generics, d.inst = r.choice([("<T>", "<u32>"), ("<T: ::std::clone::Clone>", "<u32>"),
                                           ("<T = u8>", "<u32>"), ("<T, const K: usize>", "<u32, 2>"),
                                           ("<const K: usize>", "<2>")])
        flats = list(FLAT)
        idents = r.sample(FIELDS, r.randrange(7))
        for i in idents:
            f = Field()
            f.ident = i
            ts = list(TYPES)
            if "T" in d.generics:
                ts += GENERIC * 2
            f.ty, f.value, f.json, f.optional = r.choice(ts)
            fi = []
            if flats and r.random() < .12:
                f.ty, f.value, f.json = flats.pop(r.randrange(len(flats)))
                f.optional = False
                fi.append(Item("path", "flatten"))
                if r.random() < .2:
                    fi.append(Item("str", "skip_serializing_if", "::decls::never"))
            else:
                if r.random() < .25:
                    fi.append(Item("str", "rename", r.choice(["one", "two", "", "x y", "ä", "three", "4"])))
                while r.random() < .2:
                    fi.append(Item("str", "alias", r.choice(["al", "other", "third", "id", "name", "1"])))
                if r.random() < .25:
                    fi.append(Item("path", "default") if r.random() < .5
                              else Item("str", "default", r.choice(["::decls::make", "::decls::make::<%s>" % f.ty,
                                                                    "<%s as ::std::default::Default>::default" % f.ty])))
                    if f.ty in ("T", "(u8, char)", "[u32; 2]") or "T>" in f.ty:
                        fi.pop()
                    elif f.ty == "::decls::Evil" and fi[-1].form == "str":
                        fi[-1].value = "::decls::make"
                if r.random() < .15:
                    has = any(x.name == "default" for x in fi)
                    ok = has or f.ty.startswith("::std::option")
                    fi.append(Item("str", "skip_serializing_if",
                                   r.choice(["::decls::never", "::decls::always" if ok else "::decls::never::<_>"])))
            r.shuffle(fi)
            f.attrs = noise(r, [Attr("paren", fi)] if fi else [])
            d.fields.append(f)
        # parameters have to be used
        if "T" in d.generics and not any("T" in f.ty.replace("::std", "") and f.ty in [g[0] for g in GENERIC] for f in d.fields):
            f = Field()
            f.ident, f.attrs = "used_t", []
            f.ty, f.value, f.json, f.optional = GENERIC[0]
            d.fields.append(f)
        if "K" in d.generics and r.random() < .7:
            f = Field()
            f.ident, f.attrs = "used_k", []
            f.ty, f.value, f.json, f.optional = "[u32; K]", "[1, 2]", "[1,2]", False
            d.fields.append(f)
    if d.generics and d.name == "T":
        d.name = "Of"
    r.shuffle(items)
    d.attrs = noise(r, [Attr("paren", items)] if items else [])
    return d


def bad_item(r, where):
    """An entry that is not supported, or not like this."""
    known = ["rename", "rename_all", "default", "alias", "flatten", "skip_serializing_if", "skip_serializing_optionals"]
    k = r.randrange(6)
    name = r.choice(sorted(ALLOWED[where]) or known)
    if k == 0:
        return Item(r.choice(NEVER), name, r.choice(["x", "snake_case", "::decls::make"]))
    if k == 1:
        return Item(r.choice(["path", "str"]), r.choice(["renam", "skip", "Rename", "rename_al", "default_", "aliases", "skip_serializing",
                                                         "deny_unknown_fields", "tag", "with", "bound", "crate", "type"]), "x")
    if k == 2:
        other = [x for x in known if x not in ALLOWED[where]]
        n = r.choice(other)
        return Item("str" if n in ("rename_all", "alias", "skip_serializing_if") else "path", n, "snake_case")
    if k == 3 and "rename_all" in ALLOWED[where]:
        return Item("str", "rename_all", r.choice(["camelcase", "Snake_Case", "snake-case", "", " lowercase", "UPPER", "title",
                                                   "SCREAMING_SNAKE-CASE", "PascalCase "]))
    if k == 4 and "default" in ALLOWED[where]:
        n = r.choice(["default", "skip_serializing_if"] if where == "field" else ["default"])
        return Item("str", n, r.choice(["", "a b", "1", "f()", "|x| x", "a.b", "::", "a::", "(", "x,y", "f::<", "'a'", "=", "&f"]), ok=False)
    if k == 5:
        return Item("path", r.choice(["rename", "rename_all", "alias", "skip_serializing_if", "nothing"]))
    return Item("str", r.choice(["flatten", "skip_serializing_optionals", "nothing"]), "true")


def spoil(r, d):
    """Changes the declaration at one place; the reference decides what this makes of it."""
    where = {"struct": "field", "enum": "variant", "newtype": "none"}[d.kind]
    spots = [(d.attrs, "container")] + [(f.attrs, where) for f in d.fields]
    k = r.randrange(10)
    attrs, w = r.choice(spots)
    if k <= 3:
        item = bad_item(r, w)
        if attrs and attrs[-1].style == "paren" and r.random() < .5:
            a = r.choice([a for a in attrs if a.style == "paren"])
            a.items.insert(r.randrange(len(a.items) + 1), item)
        else:
            attrs.insert(r.randrange(len(attrs) + 1), Attr("paren", [item]))
    elif k == 4:
        # the same once more
        have = [i for a in attrs if a.style == "paren" for i in a.items]
        i = r.choice(have) if have else Item("str", "rename", "same")
        attrs.append(Attr("paren", [Item(i.form, i.name, i.value, i.ok)] * (1 if have else 2)))
    elif k == 5:
        attrs.insert(r.randrange(len(attrs) + 1), Attr(r.choice(["bare", "eq", "bracket", "brace", "semi", "gap", "nested"]),
                                                       [Item("str", "rename", "x")]))
    elif k == 6 and d.kind != "newtype" and d.fields:
        # one name for two
        f = r.choice(d.fields)
        names = []
        c = read(d.attrs, "container") or {}
        for g in d.fields:
            a = read(g.attrs, where) or {}
            style = field_style if where == "field" else variant_style
            names += [a.get("rename", style(c.get("rename_all"), unraw(g.ident)))] + a.get("alias", [])
        f.attrs.append(Attr("paren", [Item("str", r.choice(["alias", "alias", "rename"]), r.choice(names))]))
    elif k == 7 and d.kind == "struct" and d.fields:
        f = r.choice(d.fields)
        both = [Item("path", "flatten"), r.choice([Item("path", "default"), Item("str", "default", "::decls::make")])]
        r.shuffle(both)
        f.attrs += [Attr("paren", both)] if r.random() < .5 else [Attr("paren", [x]) for x in both]
    elif k == 8:
        if d.kind == "enum" and d.fields:
            r.choice(d.fields).shape = r.choice(["()", "{}", "(u32)", "{ x: u32 }", "(u8, u8)"])
            for f in d.fields:
                f.disc = ""
        elif d.kind == "enum":
            d.generics = "<T>"
        else:
            d.kind = r.choice(["unit", "tuple", "union"])
            d.shape = {"unit": ";", "tuple": r.choice(["();", "(u32, u32);", "(u32, u32, u8);"]), "union": "{ a: u32, b: f32 }"}[d.kind]
            d.generics = ""
            d.attrs = [a for a in d.attrs if a.style in ("doc", "allow")]
    else:
        attrs.insert(r.randrange(len(attrs) + 1), Attr(r.choice(["paren", "cfg_off", "doc"])))
    return d


def declaration(r, d, derive):
    """The lines of the declaration."""
    out = []
    dollar = d.macro and d.kind in ("struct", "newtype")
    for a in d.attrs:
        out.append(a.text(r))
    out.insert(0, "#[derive(%s)]" % ", ".join("::deser::" + x for x in derive))
    name = "$name" if dollar else d.name
    if d.kind == "struct":
        out.append("pub struct %s%s {" % (name, d.generics))
        for i, f in enumerate(d.fields):
            out += ["    " + a.text(r) for a in f.attrs]
            out.append("    pub %s: %s," % (f.ident, "$ty" if dollar and i == 0 else f.ty))
        out.append("}")
    elif d.kind == "newtype":
        at = " ".join(a.text(r) for a in d.fields[0].attrs if a.style != "doc")
        out.append("pub struct %s%s(%s pub %s);" % (name, d.generics, at, "$ty" if dollar else d.fields[0].ty))
    elif d.kind == "enum":
        out.append("pub enum %s%s {" % (d.name, d.generics))
        for f in d.fields:
            out += ["    " + a.text(r) for a in f.attrs]
            out.append("    %s%s%s," % (f.ident, f.shape, f.disc))
        out.append("}")
    elif d.kind == "union":
        out.append("pub union %s %s" % (d.name, d.shape))
    else:
        out.append("pub struct %s%s" % (d.name, d.shape))
    if dollar:
        ty = d.fields[0].ty if d.fields else "u32"
        out = (["macro_rules! declare { ($name:ident, $ty:ty) => {"] + out + ["} }", "declare!(%s, %s);" % (d.name, ty)])
    return out


def shadows(d):
    """Those that do not collide with the declaration or with each other."""
    taken = {unraw(d.name)}
    out = []
    for s in d.shadows:
        w = s.replace("<", " ").replace("(", " ").replace(";", " ").replace("!", " ").split()
        if w[1] in taken:
            continue
        if w[1] == "Self":
            continue
        taken.add(w[1])
        out.append(s)
    return out


def literal(d):
    path = "m%d::%s" % (d.n, d.name)
    if d.kind == "newtype":
        return "%s(%s)" % (path, d.fields[0].value)
    return "%s { %s }" % (path, ", ".join("%s: %s" % (f.ident, f.value) for f in d.fields))


def fn_mk(d):
    if d.kind != "struct" or d.generics:
        return []
    out = ["    pub fn mk() -> crate::m%d::%s { crate::%s }" % (d.n, d.name, literal(d))]
    c = read(d.attrs, "container") or {}
    if c.get("default") is True:
        out.append("    impl ::std::default::Default for crate::m%d::%s { fn default() -> Self { mk() } }" % (d.n, d.name))
    return out


def module(r, d, derive, check):
    """(lines of the file, index of the first and the last line of the declaration)"""
    lines = ["#[allow(warnings)] pub mod m%d {" % d.n] + ["    " + s for s in shadows(d)]
    first = len(lines)
    lines += declaration(r, d, derive)
    last = len(lines) - 1
    lines.append("}")
    lines.append("#[allow(warnings)] pub mod c%d {" % d.n)
    lines += fn_mk(d)
    if check:
        lines.append("    pub fn check(out: &mut Vec<String>) {")
        ty = "crate::m%d::%s%s" % (d.n, d.name, d.inst)
        for value, text, name in expected(d):
            lines.append("        let v: %s = crate::%s;" % (ty, value))
            lines.append("        crate::judge(out, %d, %s, %s, ::decls::text(&v), ::decls::again::<%s>(%s), ::decls::name(&v));"
                         % (d.n, rust(text), rust(name), ty, rust(text)))
        lines.append("    }")
    lines.append("}")
    return lines, first, last


def rust(s):
    return 'r#"%s"#' % s


INNER = {"u32": "u32", "bool": "bool", "::std::string::String": "String", "::std::option::Option<u8>": "optional",
         "::std::vec::Vec<u32>": "Vec", "()": "null", "::std::boxed::Box<u32>": "u32", "(u8, char)": "tuple",
         "::decls::Evil": "u32", "[u32; 2]": "array", "T": "u32", "::std::vec::Vec<T>": "Vec", "::std::option::Option<T>": "optional"}


def expected(d):
    """[(value, JSON, name of the descriptor)]"""
    c = read(d.attrs, "container")
    if d.kind == "enum":
        out = []
        for f in d.fields:
            a = read(f.attrs, "variant")
            out.append(("m%d::%s::%s" % (d.n, d.name, f.ident),
                        '"%s"' % a.get("rename", variant_style(c.get("rename_all"), unraw(f.ident))), "-"))
        return out
    if d.kind == "newtype":
        return [(literal(d), d.fields[0].json, INNER[d.fields[0].ty])]
    parts = []
    for f in d.fields:
        a = read(f.attrs, "field")
        if a.get("skip_serializing_if") == "::decls::always":
            continue
        if "skip_serializing_optionals" in c and f.optional:
            continue
        if "flatten" in a:
            parts.append(f.json)
        else:
            parts.append('"%s":%s' % (a.get("rename", field_style(c.get("rename_all"), unraw(f.ident))), f.json))
    return [(literal(d), "{%s}" % ",".join(parts), c.get("rename", unraw(d.name)))]


def always_missing(d):
    """() is needed to read the value again even if it is not written."""
    if d.kind != "struct":
        return False
    c = read(d.attrs, "container")
    for f in d.fields:
        a = read(f.attrs, "field")
        if f.ty == "()" and "skip_serializing_optionals" in c and "default" not in a and "default" not in c:
            return True
    return False


JUDGE = """
fn judge(out: &mut Vec<String>, n: usize, text: &str, name: &str, got: String, again: String, got_name: String) {
    println!("@{}", n);
    if got != text {
        out.push(format!("{}: serialized as {}, declared {}", n, got, text));
    }
    if again != text {
        out.push(format!("{}: {} read and serialized again is {}", n, text, again));
    }
    if got_name != name {
        out.push(format!("{}: the descriptor is called {}, declared {}", n, got_name, name));
    }
}
"""


def lines_of(span, file):
    """All lines of the file that a span of a diagnostic touches or stems from."""
    out = []
    while span:
        if span["file_name"].endswith(file):
            out.append(span["line_start"])
        e = span.get("expansion")
        span = e["span"] if e else None
    return out


def compiled(c, crate, bin, file, cmd):
    code, out, err, _ = c.run(["cargo", cmd, "--offline", "--bin", bin, "--message-format", "json", "--target-dir",
                               os.path.join(crate, "target")], env={"RUSTFLAGS": "-Awarnings"}, timeout=600, cwd=crate)
    errors, elsewhere = {}, []
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or not m["message"]["level"].startswith("error"):
            continue
        msg = m["message"]
        if msg["message"].startswith("aborting due to"):
            continue
        text = msg["message"] + "".join("; " + x["message"] for x in msg["children"][:2])
        found = [n for s in msg["spans"] for n in lines_of(s, file)]
        for n in found:
            errors.setdefault(n, []).append(text)
        if not found:
            elsewhere.append(text)
    return code, errors, elsewhere, err


def run(c, found, case):
    crate = os.path.join(c.ROOT, "decls")
    thorough = c.TIER == "thorough"
    only = int(case.split(":")[-1]) if case else None
    rounds, many = (9, 5000) if thorough else (1, 4000)
    for k in range(rounds):
        one(c, found, crate, c.SEED + 7919 * k, many, only)
        if found.violations:
            return


def one(c, found, crate, seed, many, only):
    count = found.counters
    r = random.Random(seed)
    decls = []
    for n in range(many):
        d = supported(r, n)
        d.spoiled = r.random() < .6
        if d.spoiled:
            spoil(r, d)
        decls.append(d)
    # 1. the verdict of each macro
    src = ["#![allow(warnings)]", "fn main() {}"]
    spots = {}
    for d in decls:
        for j, derive in enumerate((["Serialize"], ["Deserialize"])):
            e = d
            e.n = d.n * 2 + j
            for a in e.attrs:
                for i in a.items:
                    if isinstance(i.value, str) and i.value.startswith("crate::c"):
                        i.value = "crate::c%d::mk" % e.n
            lines, first, last = module(random.Random(d.n), e, derive, False)
            spots[(e.n // 2, derive[0])] = (len(src) + 1 + first, len(src) + 1 + last, "\n".join(lines[1:last + 1]))
            src += lines
            e.n //= 2
    open(os.path.join(crate, "src", "judged.rs"), "w").write("\n".join(src) + "\n")
    open(os.path.join(crate, "src", "accepted.rs"), "w").write("fn main() {}\n")
    code, _, elsewhere, err = compiled(c, crate, "accepted", "accepted.rs", "build")
    if code != 0:
        raise c.NoVerdict("the crate the declarations refer to does not build: %s %s" % ("; ".join(elsewhere)[:2000], c.tail(err)))
    code, errors, elsewhere, err = compiled(c, crate, "judged", "judged.rs", "check")
    if code is None:
        raise c.NoVerdict("the compiler did not end")
    if elsewhere:
        raise c.NoVerdict("errors in no declaration: " + "; ".join(elsewhere)[:2000])
    good = []
    for d in decls:
        ok = []
        for derive in ("Serialize", "Deserialize"):
            a, b, text = spots[(d.n, derive)]
            msgs = [m for n in range(a, b + 1) for m in errors.get(n, [])]
            want = d.verdict(derive)
            ok.append(want)
            found.evaluations += 1
            key = "%s %s" % (derive, "supported" if want else "to be refused")
            count[key] = count.get(key, 0) + 1
            if want and msgs:
                found.violations.append({"case": "decl:%d" % d.n, "detail": "a supported declaration is refused by %s:\n%s\n%s"
                                         % (derive, text, "\n".join(msgs[:4]))})
            elif not want and not msgs:
                found.violations.append({"case": "decl:%d" % d.n, "detail": "%s accepts a declaration it does not support:\n%s"
                                         % (derive, text)})
            elif not want and not any(m.split("; ")[0].strip() for m in msgs):
                found.violations.append({"case": "decl:%d" % d.n, "detail": "%s refuses a declaration without a reason:\n%s"
                                         % (derive, text)})
            elif not want:
                for m in set(msgs):
                    k = "refused: " + "".join(ch for ch in m.split(";")[0] if not ch.isdigit())[:60]
                    if len(count) < 80 or k in count:
                        count[k] = count.get(k, 0) + 1
        if all(ok):
            good.append(d)
    found.distinct += len({s[2] for s in spots.values()})
    found.samples += [spots[(d.n, "Deserialize")][2] for d in decls[:4] if d.spoiled]
    if only is not None:
        found.violations = [v for v in found.violations if v["case"] == "decl:%d" % only]
    if found.violations:
        return
    # 2. what is supported does what it declares, whatever surrounds it
    good = good[:max(len(good) // 2, 1)] if len(good) > 2500 else good
    src = ["#![allow(warnings)]", JUDGE.strip("\n").replace("\n", "\n")]
    src = "\n".join(src).split("\n")
    spots = {}
    for d in good:
        for a in d.attrs:
            for i in a.items:
                if isinstance(i.value, str) and i.value.startswith("crate::c"):
                    i.value = "crate::c%d::mk" % d.n
        d.generics_text = d.generics
        lines, first, last = module(random.Random(d.n), d, ["Serialize", "Deserialize"], not always_missing(d))
        spots[d.n] = (len(src) + 1, len(src) + len(lines), "\n".join(lines))
        src += lines
    src += ["fn main() {", "    let mut out = Vec::new();"]
    src += ["    c%d::check(&mut out);" % d.n for d in good if not always_missing(d)]
    src += ['    for x in &out { println!("WRONG {}", x); }', "    println!(\"done\");", "}"]
    open(os.path.join(crate, "src", "accepted.rs"), "w").write("\n".join(src) + "\n")
    code, errors, elsewhere, err = compiled(c, crate, "accepted", "accepted.rs", "build")
    if code is None:
        raise c.NoVerdict("the compiler did not end")
    for d in good:
        a, b, text = spots[d.n]
        msgs = [m for n in range(a, b + 1) for m in errors.get(n, [])]
        found.evaluations += 1
        if msgs:
            found.violations.append({"case": "decl:%d" % d.n, "detail": "a supported declaration does not compile:\n%s\n%s"
                                     % (text, "\n".join(msgs[:4]))})
    count["compiled and run"] = count.get("compiled and run", 0) + len(good)
    count["in hostile surroundings"] = count.get("in hostile surroundings", 0) + len([d for d in good if shadows(d)])
    if not found.violations:
        if code != 0:
            raise c.NoVerdict("the accepted declarations do not build: %s %s" % ("; ".join(elsewhere)[:2000], c.tail(err)))
        code, out, err, _ = c.run([os.path.join(crate, "target", "debug", "accepted")], timeout=120, cwd=crate)
        ran = 0
        for line in out.splitlines():
            if line.startswith("@"):
                ran += 1
            elif line.startswith("WRONG "):
                n = int(line.split()[1].rstrip(":"))
                found.violations.append({"case": "decl:%d" % n, "detail": "%s\n%s" % (line, spots[n][2])})
        count["values compared"] = count.get("values compared", 0) + ran
        found.evaluations += ran
        if "done" not in out:
            n = out[out.rindex("@"):].split()[0][1:] if "@" in out else "?"
            found.violations.append({"case": "decl:%s" % n, "detail": "the program ended with %s after declaration %s: %s"
                                     % (code, n, c.tail(err))})
    if only is not None:
        found.violations = [v for v in found.violations if v["case"] == "decl:%d" % only]
