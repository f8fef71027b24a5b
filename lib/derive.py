"""Generating structs that derive a request; checks C13 and C14."""
import json, os, random, shutil, subprocess
import checks, gen, rt
from checks import rng
from rt import octets

TRICKY = ["serializer", "helper", "value", "tmp", "fmt", "this", "bind", "ser", "_S", "_oauth1_request", "S", "T", "core", "std", "str",
          "u64", "String", "Option", "Some", "None", "Ok", "__x", "_a", "next_param", "Display", "Formatter", "Request",
          "serialize_parameter", "r#type", "r#fn", "r#match", "r#struct", "r#async", "r#dyn", "r#true", "r#move", "r#as", "r#where",
          "a", "b", "z", "A", "Z", "foo", "bar", "a1", "aa", "aB", "o", "oa", "oauth", "oauth_", "p", "x_y", "q", "oauti", "zz",
          "encoded", "skip", "rename", "option", "r#crate_", "key", "val", "default"]
IDENTS = TRICKY + [k for k in gen.NEAR if k.isidentifier() and k not in ("_",) and k not in TRICKY]
KEYWORDS = {"type", "as", "fn", "in"}
IDENTS = [i for i in IDENTS if i not in KEYWORDS and i != "r#true"]
UNICODE = ["größe", "名前", "é"]


def lit(s):
    """A Rust string literal."""
    out = []
    for c in s:
        o = ord(c)
        if c in '"\\':
            out.append("\\" + c)
        elif 32 <= o < 127:
            out.append(c)
        else:
            out.append("\\u{%x}" % o)
    return '"' + "".join(out) + '"'


# A kind of type: how it is written, the path and number of arguments of that, what makes a value of a text, which texts,
# and what it can do.
class Ty:
    def __init__(self, rust, path, args, make, texts=None, opt=None, strlike=False, gen="", shown=True, macro=True):
        self.rust, self.path, self.args, self.make, self.texts = rust, path, args, make, texts
        self.opt = opt          # None, or "real": an Option
        self.strlike, self.gen, self.shown, self.macro = strlike, gen, shown, macro


def some(inner):
    return lambda t: f"Some({inner(t)})"


DIGITS = ["0", "1", "7", "42", "255", "65535", "2147483647"]
BASE = {
    "u64": ("u64", lambda t: t, DIGITS, False), "i32": ("i32", lambda t: t, DIGITS + ["-1", "-42"], False),
    "bool": ("bool", lambda t: t, ["true", "false"], False), "char": ("char", lambda t: f"{lit(t)}.chars().next().unwrap()", ["a", "&", "é", "%"], False),
    "str": ("&'static str", lit, None, True), "String": ("String", lambda t: f"{lit(t)}.to_owned()", None, True),
    "boxed": ("Box<str>", lambda t: f"{lit(t)}.into()", None, True),
    "cow": ("Cow<'static, str>", lambda t: f"Cow::Borrowed({lit(t)})", None, True),
    "pieces": ("Pieces", lambda t: f"Pieces({lit(t)})", None, False),
    "dyn": ("Box<dyn Display>", lambda t: f"Box::new({lit(t)})", None, False),
    "sized": ("Sized2<2>", lambda t: f"Sized2([{lit(t[:1])}, {lit(t[1:])}])", None, False),
    "flag": ("Flag", lambda t: "Flag", ["on"], False),
    "refref": ("&'static &'static str", lambda t: f"&{lit(t)}", None, False),
}
TYPES = {}
for _n, (_r, _m, _t, _s) in BASE.items():
    TYPES[_n] = Ty(_r, [_r], 0, _m, _t, strlike=_s)
    TYPES["opt_" + _n] = Ty(f"Option<{_r}>", ["Option"], 1, some(_m), _t, opt="real", strlike=_s)
for _n in ("u64", "str", "String", "pieces"):
    _r, _m, _t, _s = BASE[_n]
    TYPES["alias_" + _n] = Ty(f"Maybe<{_r}>", ["Maybe"], 1, some(_m), _t, opt="real", strlike=_s)
    TYPES["std_" + _n] = Ty(f"std::option::Option<{_r}>", ["std", "option", "Option"], 1, some(_m), _t, opt="real", strlike=_s)
    TYPES["abs_" + _n] = Ty(f"::core::option::Option<{_r}>", ["", "core", "option", "Option"], 1, some(_m), _t, opt="real", strlike=_s)
    TYPES["shadow_" + _n] = Ty(f"shadow::Option<{_r}>", ["shadow", "Option"], 1, lambda t, m=_m: f"shadow::Option({m(t)})", _t)
    TYPES["other_" + _n] = Ty(f"Option<{_r}>", ["Option"], 1, lambda t, m=_m: f"shadow::Option({m(t)})", _t)
TYPES["opaque"] = Ty("Opaque", ["Opaque"], 0, lambda t: f"Opaque({lit(t)})", shown=False)
TYPES["opt_opaque"] = Ty("Option<Opaque>", ["Option"], 1, lambda t: f"Some(Opaque({lit(t)}))", opt="real", shown=False)
TYPES["unit"] = Ty("()", ["()"], 0, lambda t: "()", [""], shown=False)
# Those that use generic parameters of the struct.
TYPES["life"] = Ty("&'a str", ["&'a str"], 0, lit, strlike=True, gen="'a", macro=False)
TYPES["opt_life"] = Ty("Option<&'a str>", ["Option"], 1, some(lit), strlike=True, opt="real", gen="'a", macro=False)
TYPES["param"] = Ty("T", ["T"], 0, lambda t: f"Pieces({lit(t)})", gen="T", macro=False)
TYPES["ref_param"] = Ty("&'a T", ["&'a T"], 0, lambda t: f"&Pieces({lit(t)})", gen="'aT", macro=False)
TYPES["opt_param"] = Ty("Option<T>", ["Option"], 1, lambda t: f"Some(Pieces({lit(t)}))", opt="real", gen="T", macro=False)
TYPES["const_n"] = Ty("Sized2<N>", ["Sized2"], 1, lambda t: f"Sized2([{lit(t[:1])}, {lit(t[1:2])}, {lit(t[2:])}])", gen="N", macro=False)
TYPES["dyn_a"] = Ty("&'a dyn Display", ["&'a dyn Display"], 0, lambda t: "&" + lit(t), gen="'a", macro=False)

SHADOWED = [n for n in TYPES if n.startswith("other_")]


def fmt_paths(fn, ty, base, treated):
    """The Rust paths that are the function for a type; the harness offers the same ones under names."""
    if fn == "optional":
        return ["fns::optional"]
    if base == "opaque":
        return {"plain": ["Opaque::show"], "bracket": ["Opaque::bracket"], "twice": ["Opaque::twice"], "silent": ["fns::silent"],
                "const": ["fns::constant", "fns::constant::<Opaque>"]}[fn]
    ps = {"plain": ["Display::fmt", "fns::plain", "fmt::Display::fmt"], "bracket": ["fns::bracket", "bracket", "tmp", "fmt_"],
          "twice": ["fns::twice", "self::fns::twice", "value"], "silent": ["fns::silent", "serializer"],
          "pieces": ["fns::pieces", "helper"], "amp": ["fns::amp", "this"], "const": ["fns::constant"],
          "hex": ["fmt::LowerHex::fmt", "std::fmt::LowerHex::fmt"]}[fn]
    if ty.strlike and fn == "bracket":
        ps = ps + ["fns::str_bracket"] * 3
    if base == "u64":
        ps = ps + {"plain": ["<u64 as Display>::fmt", "<u64 as fmt::Display>::fmt"], "bracket": ["fns::bracket::<u64>"]}.get(fn, [])
    return ps


def cond_paths(fn, ty, base, treated):
    if fn == "none":
        return ["Option::is_none", "Option::<_>::is_none", "Maybe::is_none"]
    if base == "opaque":
        return {"always": ["fns::always"], "never": ["fns::never::<Opaque>", "fns::never"], "empty": ["Opaque::is_empty"],
                "long": ["Opaque::long"]}[fn]
    ps = {"always": ["fns::always", "always"], "never": ["fns::never"], "empty": ["fns::empty", "is_empty"], "long": ["fns::long", "tmp2"],
          "zero": ["fns::zero"]}[fn]
    if ty.strlike:
        ps = ps + {"empty": ["str::is_empty"] * 3, "long": ["fns::str_long"] * 3}.get(fn, [])
    return ps


PRELUDE = """    #[allow(unused_imports)]
    use super::*;
    #[allow(unused_imports)]
    use super::fns::{bracket, bracket as tmp, bracket as fmt_, twice as value, silent as serializer, pieces as helper, amp as this, always,
        empty as is_empty, long as tmp2};
"""


class Field:
    """One field: its written form and its description."""


def attr_text(r, lists, paths):
    """The attribute lists as Rust source; paths gives the source of function arguments."""
    out = []
    for ms in lists:
        parts = []
        for m in ms:
            a = m["arg"]
            if not a:
                parts.append(m["name"])
            elif m["name"] == "rename":
                s = bytes(a[0]).decode()
                w = lit(s)
                if r and r.random() < 0.15:
                    w = 'r"' + s + '"'
                elif r and s and r.random() < 0.1:
                    w = '"\\x%02x' % ord(s[0]) + s[1:] + '"'
                parts.append("rename = " + w)
            elif m["name"] == "option":
                parts.append("option = " + ("true" if a[0] else "false"))
            else:
                parts.append(f"{m['name']} = {paths[m['name']]}")
        body = ", ".join(parts) + ("," if parts and r and r.random() < 0.2 else "")
        x = r.random() if r else 1
        if x < 0.08:
            out.append(f"#[cfg_attr(all(), oauth1({body}))]")
        elif x < 0.16:
            out.append(f"#[ oauth1 [{body}] ]")
        elif x < 0.2:
            out.append("#[oauth1{" + body + "}]")
        else:
            out.append(f"#[oauth1({body})]")
        if r and r.random() < 0.1:
            out.append("/// Documentation.")
    return " ".join(o if not o.startswith("///") else "#[doc = \"x\"]" for o in out)


def field(r, names, keys, allowed):
    f = Field()
    for _ in range(100):
        ident = r.choice(UNICODE) if r.random() < 0.04 else r.choice(IDENTS)
        if ident.replace("r#", "") in names:
            continue
        break
    else:
        return None
    names.add(ident.replace("r#", ""))
    tn = r.choice(allowed)
    ty = TYPES[tn]
    base = tn.rsplit("_", 1)[-1]
    f.tn, f.ty, f.ident = tn, ty, ident
    metas, paths = [], {}
    skip = r.random() < 0.1 or tn == "unit" and r.random() < 0.5
    written = ty.path == ["Option"] and ty.args == 1
    treated = written
    if ty.opt and (not written and r.random() < 0.8 or written and r.random() < 0.1):
        metas.append({"name": "option", "arg": [True]})
        treated = True
    elif tn in SHADOWED or (not treated and r.random() < 0.08) or (treated and r.random() < 0.12):
        metas.append({"name": "option", "arg": [False]})
        treated = False
    whole = ty.opt and not treated          # an Option as a whole
    k = ident.replace("r#", "")
    if r.random() < 0.3 or ident in UNICODE or k in gen.RESERVED_KEYS:
        for _ in range(100):
            k = gen.key(r, sorted(keys))
            if k and k not in keys and len(k) < 80:
                break
        metas.append({"name": "rename", "arg": [octets(k)]})
    if k in keys or k in gen.RESERVED_KEYS:
        return None
    keys.add(k)
    if skip:
        metas.append({"name": "skip", "arg": []})
    if r.random() < 0.25:
        metas.append({"name": "encoded", "arg": []})
    if base == "opaque" and not whole:
        fn = r.choice(["plain", "bracket", "twice", "silent", "const"])
    elif tn == "unit":
        fn = r.choice(["silent", "const"])
    elif whole:
        fn = "optional" if base != "opaque" else "silent"
    elif r.random() < 0.3:
        fn = r.choice(["plain", "bracket", "twice", "silent", "pieces", "amp", "const"] + (["hex"] * 3 if base == "u64" and not tn.startswith(("other", "shadow")) else []))
    else:
        fn = None
    if fn and not (skip and r.random() < 0.5):
        metas.append({"name": "fmt", "arg": [fn]})
        fb = base if tn not in SHADOWED and not tn.startswith("shadow") else "other"
        paths["fmt"] = r.choice(fmt_paths(fn, ty if fb != "other" else TYPES["pieces"], "opaque" if base == "opaque" and not whole else fb, treated))
        if tn == "unit":
            paths["fmt"] = {"silent": "fns::silent", "const": "fns::constant"}[fn]
        if whole:
            paths["fmt"] = {"optional": "fns::optional", "silent": "fns::silent"}[fn]
    if r.random() < 0.3:
        if whole:
            fn = r.choice(["none", "always", "never"])
        elif base == "opaque":
            fn = r.choice(["always", "never", "empty", "long", "empty", "long"])
        elif tn == "unit":
            fn = r.choice(["always", "never"])
        else:
            fn = r.choice(["always", "never", "empty", "long", "empty", "long", "zero"])
        metas.append({"name": "skip_if", "arg": [fn]})
        fb = base if tn not in SHADOWED and not tn.startswith("shadow") else "other"
        paths["skip_if"] = r.choice(cond_paths(fn, ty if fb != "other" and not whole else TYPES["pieces"],
                                               "opaque" if base == "opaque" and not whole else fb, treated))
        if fn in ("always", "never"):
            paths["skip_if"] = "fns::" + fn
    r.shuffle(metas)
    lists = []
    while metas:
        n = r.randrange(1, len(metas) + 1)
        lists.append(metas[:n])
        metas = metas[n:]
    if r.random() < 0.05:
        lists.insert(r.randrange(len(lists) + 1), [])
    f.lists, f.paths = lists, paths
    f.vis = r.choice(["", "pub ", "pub(crate) "])
    return f


def describe(f, none, text):
    return {"ident": octets(f.ident), "attrs": f.lists, "ty": {"path": f.ty.path, "args": f.ty.args},
            "val": {"none": none, "text": octets(text)}}


def decl(f, r):
    a = attr_text(r, f.lists, f.paths)
    return f"        {a} {f.vis}{f.ident}: {f.ty.rust},"


NAMES = ["S1", "Foo", "Request", "Serializer", "Helper", "DeriveRequestAssertion", "Fmt", "Tmp", "r#Struct", "Strukt", "_Under", "Größe"]


class Struct:
    pass


def struct(r, i):
    """A random struct and the source of the module that declares it."""
    s = Struct()
    s.name = r.choice(NAMES)
    style = r.random()
    macro = style < 0.15
    shadowed = not macro and style < 0.3
    allowed = [n for n, t in TYPES.items()
               if (not macro or t.macro) and (n in SHADOWED) <= shadowed and not (shadowed and t.path == ["Option"] and n not in SHADOWED)]
    if shadowed:
        # (The name Option is not the usual one there.)
        allowed = [n for n in allowed if not n.startswith("alias_")] + SHADOWED * 4
    names, keys, s.fields = set(), set(), []
    for _ in range(gen.wchoice(r, 1, 0, 2, 1, 3, 2, 4, 3, 4, lambda: r.randrange(4, 9), 0.5, lambda: r.randrange(10, 20))):
        f = field(r, names, keys, allowed)
        if f:
            s.fields.append(f)
    if shadowed:
        for f in s.fields:
            for k, p in f.paths.items():
                f.paths[k] = {"Option::is_none": "Maybe::is_none", "Option::<_>::is_none": "Maybe::is_none"}.get(p, p)
    used = "".join(f.ty.gen for f in s.fields)
    gens, where = [], ""
    if "'a" in used:
        gens.append(r.choice(["'a"]))
    if "T" in used:
        gens.append(r.choice(["T", "T: Display", "T: 'static"]))
        where = r.choice(["", "", " where T: Sized"])
    if "N" in used:
        gens.append("const N: usize")
    if gens and "N" not in used and "T" in used and r.random() < 0.3:
        gens[-1] = r.choice(["T = Pieces", "T: Display = Pieces"])
    g = f"<{', '.join(gens)}>" if gens else ""
    cont = r.choice([""] * 8 + ["#[oauth1(crate = ::oauth)]", "#[oauth1(crate = oauth)]", "#[oauth1(crate = crate::reexported)]",
                                "#[oauth1(crate = super::reexported::deep::lib)]", "#[oauth1()]", "#[allow(dead_code)]"])
    derive = r.choice(["#[derive(oauth::Request)]", "#[derive(::oauth::Request)]", "#[allow(non_camel_case_types)] #[derive(oauth::Request)]"])
    src = [f"mod m{i} {{", PRELUDE]
    if shadowed:
        src.append("    #[allow(unused_imports)]\n    use super::shadow::{self, Option};")
    if r.random() < 0.1:
        src.append("    #[allow(dead_code)] mod core {}\n    #[allow(dead_code)] mod std_ {}")
    if macro:
        for f in s.fields:
            f.vis = ""
        src.append("    macro_rules! mk { ($(#[$c:meta])* $n:ident { $($(#[$m:meta])* $f:ident : $t:ty,)* }) =>"
                   " { $(#[$c])* struct $n { $($(#[$m])* $f: $t,)* } } }")
        src.append(f"    mk! {{ {derive} {cont} {s.name} {{")
        src += [decl(f, r) for f in s.fields]
        src.append("    } }")
    else:
        src.append(f"    {derive} {cont}\n    {r.choice(['', 'pub '])}struct {s.name}{g}{where} {{")
        src += [decl(f, r) for f in s.fields]
        src.append("    }")
    s.src = src
    s.shadowed = shadowed
    return s


WRAP = {"ref": "&{}", "mut": "&mut {}", "some": "Some({})", "none": "absent({})"}


def value(r, f):
    none = f.ty.opt is not None and r.random() < 0.35
    if none:
        return True, "", "None::<Pieces>" if f.tn == "opt_param" else "None"
    t = r.choice(f.ty.texts) if f.ty.texts else r.choice(["", "a", "abcd", gen.text(r, 0), gen.text(r, 0), "&=%"])
    return False, t, f.ty.make(t)


def instance(r, s, i):
    """An expression for the wrapped instance and its description."""
    vals = [value(r, f) for f in s.fields]
    if s.shadowed:
        vals = [(n, t, e.replace("Some(", "::std::option::Option::Some(") if not e.startswith("None") else "::std::option::Option::" + e)
                for n, t, e in vals]
    e = f"{s.name} {{ " + ", ".join(f"{f.ident}: {v[2]}" for f, v in zip(s.fields, vals)) + " }"
    wrap = [r.choice(["ref", "mut", "some", "none"] if r.random() < 0.2 else ["ref", "mut", "some"])
            for _ in range(r.choice([0, 0, 1, 2]))]
    for w in wrap:
        e = WRAP[w].format(e)
    return e, {"fields": [describe(f, v[0], v[1]) for f, v in zip(s.fields, vals)], "wrap": wrap}


def program(mods, name="oauth"):
    """The modules with their instances as one source file."""
    out = ['#![allow(warnings)]', "" if name == "oauth" else f"pub extern crate {name} as oauth;", '#[path = "/verif/harness/derive/support.rs"] mod support;', "use support::*;"]
    for i, (src, inst) in enumerate(mods):
        out += src
        out.append("    pub fn run() {")
        out += [f"        emit({k}, &{e});" for k, e in inst]
        out += ["    }", "}"]
    out.append("fn main() {\n" + "\n".join(f"    m{i}::run();" for i in range(len(mods))) + "\n}\n")
    return "\n".join(out)


class Rustc:
    """Compiles single files against the library as the harness builds it."""

    def __init__(self, prop, rename="oauth"):
        h = rt.build()
        self.deps = os.path.dirname(h) + "/deps"
        self.dir = f"{rt.VERIF}/out/{prop}-derive-{os.getpid()}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.env = rt.cargo_env(self.dir)
        self.env["CARGO_MANIFEST_DIR"] = self.dir
        self.env["CARGO_PKG_NAME"] = "generated"
        self.manifest("oauth")

    def manifest(self, name):
        """The name under which the package depends on the library."""
        with open(self.dir + "/Cargo.toml", "w") as f:
            f.write('[package]\nname = "generated"\nversion = "0.0.0"\n[dependencies]\n')
            f.write('oauth1-request = "0.6"\n' if name == "oauth1_request" else f'{name} = {{ package = "oauth1-request", version = "0.6" }}\n')
        self.name = name

    def rlib(self, crate):
        fs = [f for f in os.listdir(self.deps) if f.startswith(f"lib{crate}-") and f.endswith(".rlib")]
        fs.sort(key=lambda f: os.path.getmtime(self.deps + "/" + f))
        return f"{self.deps}/{fs[-1]}"

    def run(self, src, name, extra=(), timeout=600):
        path = f"{self.dir}/{name}.rs"
        with open(path, "w") as f:
            f.write(src)
        cmd = ["rustc", "--edition", "2021", "-L", "dependency=" + self.deps, "--extern", f"{self.name}=" + self.rlib("oauth1_request"),
               "--extern", "serde_json=" + self.rlib("serde_json"), "--crate-name", name, "--out-dir", self.dir,
               "--error-format=json", *extra, path]
        p = subprocess.run(cmd, env=self.env, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        diags = []
        for line in p.stderr.split("\n"):
            if line.startswith("{"):
                diags.append(json.loads(line))
        return p.returncode, diags, p.stderr

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def errors(diags):
    return [d for d in diags if d.get("level") == "error" and d["spans"]]


def module_of(src, line):
    """The module a line belongs to."""
    last = None
    for n, l in enumerate(src.split("\n"), 1):
        if n > line:
            break
        if l.startswith("mod m"):
            last = l.split()[1]
    return last


def outputs(c, rc, mods, name):
    """Compiles and runs; the observations by id, and a violation for each struct that does not compile."""
    for _ in range(4):
        src = program(mods, rc.name)
        code, diags, err = rc.run(src, name, ["--emit=link", "-Cdebuginfo=0", "-Ccodegen-units=8", "-Zthreads=1"][:3])
        if code == 0:
            break
        bad = {}
        for d in errors(diags):
            m = module_of(src, d["spans"][0]["line_start"])
            if m and d["spans"][0]["file_name"].endswith(f"/{name}.rs"):
                bad.setdefault(int(m[1:]), d["rendered"])
        for i in list(bad):
            # (An error where the instances are made is the generator's.)
            if any(l in bad[i] for l in ("        emit(",)):
                raise rt.ToolError("an instance does not compile:\n" + bad[i])
        if not bad:
            raise rt.ToolError("the generated program does not compile:\n" + err[:3000])
        for i in sorted(bad)[:2]:
            c.violation("a struct that derives a request does not compile", {"source": "\n".join(mods[i][0]), "error": bad[i]})
        mods = [(["mod m%d {" % j] + list(x[0][1:]), x[1]) for j, x in enumerate(m for i, m in enumerate(mods) if i not in bad)]
    else:
        raise rt.ToolError("the generated program does not compile")
    p = subprocess.run([f"{rc.dir}/{name}"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    obs = {}
    for line in p.stdout.split("\n"):
        if line:
            o = json.loads(line)
            obs[o["id"]] = o
    if p.returncode != 0:
        c.violation("serializing a derived request panics or crashes", {"stderr": p.stderr[-3000:], "after": len(obs)})
    os.remove(f"{rc.dir}/{name}")
    return obs


def calls(o, k):
    import sess
    return [sess.call_trace(x) for x in o[k]]


def combos(c, rc):
    """Every combination of attributes on one field, from the model."""
    import sess
    res = c.model("MC_Derive")
    scen = sess.printed(res.out)
    shapes = {}
    for s in scen:
        shapes.setdefault(json.dumps([s["type"], s["field"]["attrs"]]), []).append(s)
    mods, runs = [], {}
    tys = {"plain": TYPES["String"], "option": TYPES["opt_String"], "alias": TYPES["alias_String"],
           "full": Ty("::std::option::Option<String>", ["", "std", "option", "Option"], 1, TYPES["opt_String"].make, opt="real"),
           "other": TYPES["other_String"]}
    keep = []
    for key, ss in shapes.items():
        t, attrs = json.loads(key)
        ty = tys[t]
        paths = {}
        for ms in attrs:
            for m in ms:
                if m["name"] == "fmt":
                    paths["fmt"] = {"bracket": "fns::bracket", "optional": "fns::optional"}[m["arg"][0]]
                elif m["name"] == "skip_if":
                    paths["skip_if"] = {"none": "Option::is_none"}.get(m["arg"][0], "fns::" + m["arg"][0])
        i = len(mods)
        src = [f"mod m{i} {{", "    use super::*;"]
        if t == "other":
            src.append("    use super::shadow::Option;")
        src.append("    #[derive(oauth::Request)] struct S { zz: u8, " + attr_text(None, attrs, paths) + f" m: {ty.rust}, a: u8 }}")
        inst = []
        for s in ss:
            v = s["field"]["val"]
            text = bytes(v["text"]).decode()
            e = "None" if v["none"] else ty.make(text)
            inst.append((len(keep), f"S {{ zz: 2, m: {e}, a: 1 }}"))
            keep.append((s, src[-1]))
        mods.append((src, inst))
    obs = outputs(c, rc, mods, "combos")
    bad = 0
    for k, (s, src) in enumerate(keep):
        if k not in obs or bad >= 2:
            continue
        want = [["parameter_encoded" if p["enc"] else "parameter", p["k"], p["v"]] for p in s["result"]]
        for o in ("calls", "again"):
            got = [x for x in calls(obs[k], o) if x[0].startswith("parameter")]
            if got != [["parameter", octets("a"), octets("1")]] + want + [["parameter", octets("zz"), octets("2")]]:
                bad += 1
                c.violation("MC_Derive: the struct does not feed what the specification says",
                            {"source": src, "specification": s, "observed": obs[k]})
                break
    c.traces += len(keep)
    c.cov.setdefault("replayed", []).append({"model": "MC_Derive", "structs": len(mods), "behaviours": len(keep)})


def c13(c):
    rc = Rustc("C13")
    try:
        combos(c, rc)
        r = rng(c)
        per, rounds = 150, c.n(1, 12)
        for k in range(rounds + 2):
            rc.manifest(["oauth1_request", "other_name"][k - rounds] if k >= rounds else "oauth")
            mods, runs = [], []
            for i in range(per if k < rounds else 8):
                s = struct(r, i)
                inst = []
                for _ in range(r.randrange(1, 5)):
                    e, d = instance(r, s, i)
                    inst.append((len(runs), e))
                    runs.append((d, s.src))
                mods.append((s.src, inst))
            obs = outputs(c, rc, mods, "structs")
            traces, cases = [], []
            for i, (d, src) in enumerate(runs):
                if i in obs:
                    traces.append(dict(d, calls=calls(obs[i], "calls"), again=calls(obs[i], "again")))
                    cases.append({"source": "\n".join(src), "observed": obs[i]})
            c.validate("Trace_Feed", traces, cases=cases, name=f"structs{k}")
            if k == 0:
                c.samples += cases[:3]
                checks.spoil(c, traces, spoil_field, "Trace_Feed")
    finally:
        rc.close()


def spoil_field(x):
    for k in x["calls"]:
        if len(k) > 1 and k[2]:
            k[2][0] ^= 1
            return True
    return False


# ---------------------------------------------------------------- C14 ----
class Writer:
    """Source under construction; knows its line."""

    def __init__(self, head):
        self.lines = list(head)

    def put(self, text):
        self.lines.append(text)
        return len(self.lines)


GOOD = {"skip": ["skip"], "encoded": ["encoded"], "rename": None, "option": ["option = true", "option = false"],
        "fmt": ["fmt = fns::plain", "fmt = Display::fmt", "fmt = <u8 as Display>::fmt", "fmt = fns::silent::<u8>", "fmt = ::std::fmt::Display::fmt"],
        "skip_if": ["skip_if = str::is_empty", "skip_if = fns::never", "skip_if = <[u8]>::is_empty", "skip_if = a::<{1}>::b"]}
# name, form, literal, source
BAD = [("skip", "value", "bool", "skip = true"), ("skip", "value", "str", 'skip = ""'), ("skip", "list", "", "skip(true)"), ("skip", "list", "", "skip()"),
       ("encoded", "value", "bool", "encoded = false"), ("encoded", "list", "", 'encoded("x")'), ("encoded", "value", "path", "encoded = x"),
       ("rename", "word", "", "rename"), ("rename", "list", "", 'rename("a")'), ("rename", "value", "int", "rename = 1"),
       ("rename", "value", "path", "rename = abc"), ("rename", "value", "char", "rename = 'c'"), ("rename", "value", "bytes", 'rename = b"abc"'),
       ("rename", "value", "bool", "rename = true"), ("rename", "value", "expr", 'rename = "a".b'),
       ("option", "word", "", "option"), ("option", "list", "", "option(true)"), ("option", "value", "str", 'option = "true"'),
       ("option", "value", "int", "option = 1"), ("option", "value", "path", "option = TRUE"), ("option", "value", "expr", "option = !true"),
       ("fmt", "word", "", "fmt"), ("fmt", "list", "", "fmt(a)"), ("fmt", "value", "str", 'fmt = "fns::plain"'), ("fmt", "value", "expr", "fmt = |x, f| x.fmt(f)"),
       ("fmt", "value", "expr", "fmt = f()"), ("fmt", "value", "bool", "fmt = true"), ("fmt", "value", "expr", "fmt = (a)"),
       ("skip_if", "word", "", "skip_if"), ("skip_if", "list", "", "skip_if(str::is_empty)"), ("skip_if", "value", "str", 'skip_if = "str::is_empty"'),
       ("skip_if", "value", "expr", "skip_if = |x| true"), ("skip_if", "value", "expr", "skip_if = a.b"), ("skip_if", "value", "int", "skip_if = 0"),
       ("unknown", "word", "", "unknown"), ("default", "word", "", "default"), ("Skip", "word", "", "Skip"), ("skip-if", None, None, None),
       ("rename_all", "value", "str", 'rename_all = "x"'), ("a::skip", "word", "", "a::skip"), ("::skip", "word", "", "::skip"),
       ("skip::skip", "value", "bool", "skip::skip = true"), ("serialize", "list", "", "serialize(x, y)"), ("crate", "value", "path", "crate = oauth"),
       ("r#skip", "word", "", "r#skip"), ("format", "value", "path", "format = fns::plain"), ("encode", "word", "", "encode"),
       ("skip_if_none", "word", "", "skip_if_none")]
BAD = [b for b in BAD if b[1]]
UNSAFE = ["a b", "a&b", "a=b", "a%20", "é", "名", "?", "a+b", "/", "a\n", "\0", "a\x7f", "[0]", "a,b", '"', "\\", " ", "a:b", "a!", "*", "(", "'"]
SAFE = ["x-1", "1", "a.b", "~", "-", "_", "X_Y", "fn", "oauth_x", "oauth-y", "ZZ", "a~b", "0.5", "self", "new"]
MALFORMED = ["#[oauth1]", '#[oauth1 = "x"]', '#[oauth1("x")]', "#[oauth1(skip skip)]", "#[oauth1(, skip)]", "#[oauth1(skip,,encoded)]", "#[oauth1(option = )]",
             "#[oauth1(= 3)]", "#[oauth1(skip = a b)]", "#[oauth1(1)]", "#[oauth1(skip; encoded)]", "#[oauth1(fn)]", "#[oauth1(skip = {)]",
             "#[oauth1(skip = +)]", "#[oauth1(type = 1)]"]
MALFORMED.remove("#[oauth1(skip = {)]")
BADITEM = [("unknown", "word", "", "unknown"), ("crate", "word", "", "crate"), ("crate", "value", "str", 'crate = "oauth"'), ("crate", "list", "", "crate(oauth)"),
           ("rename", "value", "str", 'rename = "x"'), ("skip", "word", "", "skip"), ("crate", "value", "int", "crate = 1"),
           ("a::b", "value", "path", "a::b = c"), ("encoded", "word", "", "encoded"), ("rename_all", "value", "str", 'rename_all = "camelCase"')]


def lists_of(r, w, metas, indent):
    """Writes metas (name, form, lit, text, source) as attribute lists, each meta on its own line."""
    out = []
    while metas or (r.random() < 0.05):
        if r.random() < 0.12 and metas is not None:
            bad = r.choice(MALFORMED)
            if r.random() < 0.3:
                out.append({"bad": True, "line": w.put(indent + bad), "metas": []})
                continue
        n = r.randrange(1, len(metas) + 1) if metas else 0
        line = w.put(indent + "#[oauth1(")
        ms = []
        for i, (name, form, l, text, src) in enumerate(metas[:n]):
            k = w.put(f"{indent}    {src}{',' if i + 1 < n or r.random() < 0.5 else ''}")
            ms.append({"name": name, "form": form, "lit": l, "text": octets(text), "line": k})
        w.put(indent + ")]")
        metas = metas[n:]
        out.append({"bad": False, "line": line, "metas": ms})
    return out


def good_meta(r, name, fresh):
    if name == "rename":
        t = fresh()
        return ("rename", "value", "str", t, "rename = " + lit(t))
    src = r.choice(GOOD[name])
    if name in ("skip", "encoded"):
        return (name, "word", "", "", src)
    if name == "option":
        return (name, "value", "bool", src.split()[-1], src)
    return (name, "value", "path", "", src)


def bad_item(r, w, i):
    """An item with any number of problems of form."""
    used = set()

    def fresh():
        t = r.choice(SAFE) + (str(r.randrange(1000)) if r.random() < 0.6 else "")
        while t in used:
            t += r.choice("abcxyz-~")
        used.add(t)
        return t

    p = r.choice([0, 0, 0.1, 0.3])
    kind = r.random()
    it = {"named": True, "attrs": [], "fields": []}
    w.put(f"mod b{i} {{ use super::*;")
    w.put("    #[derive(oauth::Request)]")
    it["from"] = len(w.lines) + 1
    ms = []
    if r.random() < 0.2:
        ms.append(("crate", "value", "path", "", "crate = oauth"))
    while r.random() < p:
        b = r.choice(BADITEM)
        ms.append((b[0], b[1], b[2], "", b[3]))
    if ms and r.random() < p:
        ms.append(("crate", "value", "path", "", "crate = oauth"))
    r.shuffle(ms)
    if kind < 0.12:
        it["named"] = False
        src = r.choice(["struct T;", "struct T();", "struct T(u8, u8);", "struct T(#[oauth1(skip)] u8);", "enum T { A }", "enum T { A { a: u8 }, B(u8) }",
                        "enum T {}", "union T { a: u8 }", "struct T<X>(X);", "pub enum T { A = 1 }"])
        w.put("    " + src)
        it["to"] = len(w.lines)
        w.put("}")
        return it
    it["attrs"] = lists_of(r, w, ms, "    ") if ms else []
    w.put(f"    struct {r.choice(['S', 'Request', 'T'])} {{")
    idents = r.sample([x for x in IDENTS if x not in SAFE], r.randrange(0, 7))
    if r.random() < p:
        idents.insert(r.randrange(len(idents) + 1), r.choice(UNICODE))
    have = []
    for ident in idents:
        ms = [good_meta(r, n, fresh) for n in GOOD if r.random() < 0.2]
        if r.random() < p:
            t = r.choice(have) if have and r.random() < 0.7 else r.choice(UNSAFE)
            ms = [m for m in ms if m[0] != "rename"] + [("rename", "value", "str", t, "rename = " + lit(t))]
        while r.random() < p:
            b = r.choice(BAD)
            ms.append((b[0], b[1], b[2], "", b[3]))
        if ms and r.random() < p:
            m = r.choice(ms)
            ms.append(m if m[0] != "rename" else good_meta(r, "rename", fresh))
        r.shuffle(ms)
        ls = lists_of(r, w, ms, "        ") if ms or r.random() < p / 3 else []
        line = w.put(f"        {r.choice(['', 'pub '])}{ident}:")
        w.put(f"            {r.choice(['u8', 'Option<u8>', 'String'])},")
        it["fields"].append({"ident": octets(ident), "line": line, "attrs": ls})
        have.append(ident.replace("r#", ""))
        have += [m[3] for m in ms if m[0] == "rename" and m[3]]
    w.put("    }")
    it["to"] = len(w.lines)
    w.put("}")
    return it


FMTS = {"any": ["fns::silent", "fns::constant"], "shown": ["fns::plain", "fns::bracket", "Display::fmt"], "u64": ["fns::bracket::<u64>", "<u64 as Display>::fmt"],
        "str": ["fns::str_bracket"], "opaque": ["Opaque::show", "Opaque::twice"], "option": ["fns::optional"],
        "bad": ["fns::never", "no_args", "one_arg", "wrong_ret", "str::len", "String::new", "owned_fmt", "A_CONST"]}
CONDS = {"any": ["fns::always", "fns::never"], "shown": ["fns::empty", "fns::long"], "str": ["fns::str_long", "str::is_empty"], "opaque": ["Opaque::is_empty"],
         "option": ["Option::is_none"], "bad": ["fns::plain::<u64>", "no_args", "str::len", "String::new", "owned_bool", "A_CONST"]}
TYPED_HEAD = ['#![allow(warnings)]', '#[path = "/verif/harness/derive/support.rs"] mod support;', "use support::*;",
              "fn no_args() {}", "fn one_arg(_: &u64) -> fmt::Result { Ok(()) }", "fn wrong_ret<T>(_: &T, _: &mut Formatter<'_>) -> bool { true }",
              "fn owned_fmt(_: u64, _: &mut Formatter<'_>) -> fmt::Result { Ok(()) }", "fn owned_bool(_: u64) -> bool { true }", "const A_CONST: u8 = 0;"]


def typed_item(r, w, i):
    """An item without problems of form whose types may be wrong."""
    it = {"named": True, "attrs": [], "fields": []}
    w.put(f"mod b{i} {{ use super::*;")
    w.put("    #[derive(oauth::Request)]")
    it["from"] = len(w.lines) + 1
    w.put("    struct S {")
    p = r.choice([0, 0.15, 0.4])
    for ident in r.sample([x for x in IDENTS if "oauth" not in x], r.randrange(1, 6)):
        base = r.choice(["u64", "str", "String", "opaque", "unit"] if r.random() < p else ["u64", "str", "String"])
        rust = {"u64": "u64", "str": "&'static str", "String": "String", "opaque": "Opaque", "unit": "()"}[base]
        opt = r.random() < 0.35
        path, args = [rust], 0
        ms = []
        if opt:
            name = r.choice(["Option", "Option", "Maybe", "std::option::Option"])
            path, args, rust = name.split("::"), 1, f"{name}<{rust}>"
            if name != "Option" and r.random() > p or name == "Option" and r.random() < 0.2:
                ms.append(("option", "value", "bool", "true", "option = true"))
            elif r.random() < p:
                ms.append(("option", "value", "bool", "false", "option = false"))
        elif r.random() < p / 2:
            ms.append(("option", "value", "bool", "true", "option = true"))
        treated = (ms[0][3] == "true") if ms else path == ["Option"]
        whole = opt and not treated
        f = {"ident": octets(ident), "opt": opt, "base": base, "fmt": [], "skip_if": [], "ty": {"path": path, "args": args}}
        for key, table in (("fmt", FMTS), ("skip_if", CONDS)):
            fit = [k for k in table if k == "any" or k == base or k == "str" and base == "String" or k == "shown" and base in ("u64", "str", "String")]
            if whole:
                fit = ["any", "option"]
            if r.random() < 0.3 or key == "fmt" and r.random() > p and (whole or base in ("opaque", "unit")):
                k = r.choice(list(table)) if r.random() < p else r.choice([x for x in fit if x in table])
                src = r.choice(table[k])
                f[key] = [k]
                ms.append((key, "value", "path", "", f"{key} = {src}"))
        if r.random() < 0.08:
            ms.append(("skip", "word", "", "", "skip"))
        if r.random() < 0.15:
            ms.append(("encoded", "word", "", "", "encoded"))
        r.shuffle(ms)
        f["from"] = len(w.lines) + 1
        # (No malformed lists here.)
        f["attrs"] = []
        for m in ms:
            a = w.put("        #[oauth1(")
            k = w.put("            " + m[4])
            w.put("        )]")
            f["attrs"].append({"bad": False, "line": a, "metas": [{"name": m[0], "form": m[1], "lit": m[2], "text": octets(m[3]), "line": k}]})
        f["line"] = w.put(f"        {ident}:")
        f["to"] = w.put(f"            {rust},")
        it["fields"].append(f)
    w.put("    }")
    it["to"] = len(w.lines)
    w.put("}")
    return it


VALID = """
mod v1 { #[derive(oauth::Request)] pub struct Unsized { pub a: u64, b: str } }
mod v2 { #[derive(oauth::Request)] struct Generic<'a, 'b: 'a, T: ?Sized, U: Clone + 'a, const N: usize>
         where T: 'b, U: Copy { t: &'a T, u: U, #[oauth1(skip)] n: [u8; N], #[oauth1(skip)] l: &'b str } }
mod v3 { #[derive(oauth::Request)] struct Skipped { #[oauth1(skip)] f: fn(u8) -> u8, #[oauth1(skip)] p: *const u8, #[oauth1(skip)] v: Vec<u8>,
         #[oauth1(skip)] ph: std::marker::PhantomData<()>, #[oauth1(skip)] c: std::cell::Cell<u8> } }
mod v4 { #[derive(oauth::Request, Clone, Debug, Default)] #[repr(C)] #[must_use] pub(crate) struct Others { /** doc */ #[allow(unused)] pub(super) a: u8, #[cfg(any())] b: () } }
mod v5 { #[derive(oauth::Request)] struct Empty {} #[derive(oauth::Request)] struct EmptyWhere<T> where T: std::fmt::Debug { t: T } }
mod v6 { #[derive(oauth::Request)] struct Names { r#fn: u8, _x: u8, __: u8, A: u8, a: u8, self_: u8, oauth_token2: u8 } }
mod v7 { pub trait Tr { type X: std::fmt::Display; } #[derive(oauth::Request)] struct Assoc<T: Tr> where T::X: Sized { x: T::X, #[oauth1(skip)] t: T } }
mod v8 { #[derive(oauth::Request)] struct Dyn<'a> { d: &'a dyn std::fmt::Display, b: Box<dyn std::fmt::Display + Send + 'a>, r: &'a mut u8 } }
mod v9 { macro_rules! m { ($n:ident, $f:ident, $t:ty, $l:lifetime, $s:literal) => { #[derive(oauth::Request)] struct $n<$l> { $f: $t, #[oauth1(rename = $s)] b: &$l str } } }
         m!(X, foo, Option<u8>, 'x, "bar"); }
mod v10 { #[derive(oauth::Request)] struct Same { #[oauth1(skip)] a: u8, #[oauth1(rename = "a")] b: u8, #[oauth1(skip, rename = "a")] c: () } }
mod v11 { #[derive(oauth::Request)] struct EmptyName { #[oauth1(rename = "")] a: u8, b: u8 } }
mod v12 { #[derive(oauth::Request)] struct Coerced { #[oauth1(fmt = f, skip_if = str::is_empty)] a: String, #[oauth1(fmt = f)] b: Box<str>,
          #[oauth1(skip_if = <[u8]>::is_empty, fmt = g)] c: Vec<u8>, #[oauth1(fmt = f)] d: Option<std::borrow::Cow<'static, str>> }
          fn f(s: &str, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
          fn g<T>(s: &[T], _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
mod v13 { type Fmt = u8; type Display = u8; type Formatter = u8; type Result = u8; trait Request {} trait Serializer {} struct DeriveRequestAssertion; mod oauth1_request {}
          #[derive(::oauth::Request)] struct Shadowing { a: Display, b: Formatter, c: Result, #[oauth1(fmt = std::fmt::LowerHex::fmt)] d: Fmt, #[oauth1(skip_if = n)] e: Option<u8> }
          fn n(_: &u8) -> bool { true } }
mod v14 { fn _f() { #[derive(oauth::Request)] struct Local<'a, S> { s: &'a S, serializer: S } } const _: () = { #[derive(oauth::Request)] struct InConst { a: u8 } }; }
mod v15 { pub mod inner { pub fn show<T>(_: &T, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } pub fn no<T>(_: &T) -> bool { false } }
          #[derive(oauth::Request)] struct Paths<T> { #[oauth1(fmt = inner::show, skip_if = self::inner::no)] a: (), #[oauth1(fmt = super::v15::inner::show::<T>)] t: T } }
mod v17 { macro_rules! m { ($n:ident $($f:ident: $t:ty, $s:literal, $o:literal, $p:path, $q:path, $e:expr;)*) => {
              #[derive(oauth::Request)] struct $n { $(#[oauth1(rename = $s, option = $o, fmt = $p, skip_if = $q)] $f: $t, #[oauth1(skip)] #[oauth1(skip_if = $e)] _s: ())* } } }
          m!(X a: Option<u8>, "b", true, std::fmt::LowerHex::fmt, n, n;);
          fn n<T>(_: &T) -> bool { true } }
mod v18 { macro_rules! m { ($k:ident; $($s:tt)*) => { #[derive(oauth::Request)] #[oauth1(crate = $k)] struct T { $($s)* } } }
          m!(oauth; #[oauth1(rename = "x")] a: u8, b: Option<u8>,); }
mod v19 { macro_rules! m { ($k:path) => { #[derive(oauth::Request)] #[oauth1(crate = $k)] struct T { a: u8 } } }
          m!(::oauth); }
mod v16 { use std::fmt::Display; #[derive(oauth::Request)] struct Bounds<T: Display, U = u8> where U: Display { t: T, u: U, o: Option<U>, #[oauth1(option = false, skip)] p: Option<T> } }
fn main() {}
"""


def report(d):
    """Primary lines of an error."""
    return sorted({s["line_start"] for s in d["spans"] if s["is_primary"]})


def batch(c, rc, name, make, n, r, head, typed):
    w = Writer(head)
    items, spans = [], []
    for i in range(n):
        a = len(w.lines) + 1
        items.append(make(r, w, i))
        spans.append((a, len(w.lines)))
    w.put("fn main() {}")
    src = "\n".join(w.lines) + "\n"
    code, diags, err = rc.run(src, name, ["--emit=metadata"])
    at = [[] for _ in items]
    for d in errors(diags):
        if d["code"] and not typed:
            continue        # an error of types in an item without errors of form
        for line in report(d)[:1]:
            for i, (a, b) in enumerate(spans):
                if a <= line <= b:
                    at[i].append(line)
    if code != 0 and not any(at) or "panicked" in err and not any(at):
        raise rt.ToolError("the generated items do not compile:\n" + err[:3000])
    runs = [{"item": it, "typed": typed, "errors": sorted(e)} for it, e in zip(items, at)]
    cases = [{"source": "\n".join(w.lines[a - 1:b]), "first_line": a, "errors": [d["rendered"] for d in errors(diags) if any(a <= x <= b for x in report(d))]}
             for a, b in spans]
    c.validate("Trace_Macro", runs, cases=cases, name=name)
    c.samples += [x for x in cases if x["errors"]][:2]
    return runs


def spoil_report(x):
    if not x["errors"]:
        return False
    x["errors"] = x["errors"][1:] if x["errors"][0] not in x["errors"][1:] else []
    return True


def spoil_extra(x):
    if x["errors"]:
        return False
    x["errors"] = [x["item"]["from"]]
    return True


def pairs_of_metas(c, rc):
    """Every short sequence of metas, from the model."""
    import sess
    res = c.model("MC_Macro", cfg="MC_Macro.deep.cfg" if c.thorough else "MC_Macro.cfg")
    scen = sess.printed(res.out)
    src_of = {("skip", "word", ""): "skip", ("skip", "value", "bool"): "skip = true", ("encoded", "word", ""): "encoded", ("encoded", "list", ""): "encoded()",
              ("rename", "value", "path"): "rename = x", ("rename", "word", ""): "rename", ("option", "value", "bool"): "option = false",
              ("option", "word", ""): "option", ("option", "value", "str"): 'option = "x"', ("fmt", "value", "path"): "fmt = fns::silent", ("fmt", "value", "str"): 'fmt = "x"',
              ("fmt", "list", ""): "fmt(x)", ("skip_if", "value", "path"): "skip_if = fns::never", ("skip_if", "value", "bool"): "skip_if = true",
              ("skip_if", "word", ""): "skip_if", ("unknown", "word", ""): "unknown", ("a::b", "value", "path"): "a::b = c"}

    def make(k, r, w, i):
        it = {"named": True, "attrs": [], "fields": [], "from": len(w.lines) + 1}
        w.put(f"mod b{i} {{ use super::*;")
        w.put("    #[derive(oauth::Request)] struct S {")
        ms = []
        for m in scen[k + i]["metas"]:
            t = bytes(m["text"]).decode()
            ms.append((m["name"], m["form"], m["lit"], t, src_of.get((m["name"], m["form"], m["lit"])) or "rename = " + lit(t)))
        ls = []
        split = (k + i) % 2 == 0
        while ms:
            n = 1 if split else len(ms)
            a = w.put("        #[oauth1(")
            out = [{"name": m[0], "form": m[1], "lit": m[2], "text": octets(m[3]), "line": w.put(f"            {m[4]},")} for m in ms[:n]]
            w.put("        )]")
            ls.append({"bad": False, "line": a, "metas": out})
            ms = ms[n:]
        it["fields"].append({"ident": octets("g"), "line": w.put("        g: u8,"), "attrs": ls})
        it["fields"].append({"ident": octets("other"), "line": w.put("        other: u8,"), "attrs": []})
        w.put("    } }")
        it["to"] = len(w.lines)
        return it

    step = 2500
    for k in range(0, len(scen), step):
        n = min(step, len(scen) - k)
        batch(c, rc, f"pairs{k}", lambda r, w, i: make(k, r, w, i), n, None, TYPED_HEAD, False)
    c.cov.setdefault("replayed", []).append({"model": "MC_Macro", "behaviours": len(scen)})


def c14(c):
    rc = Rustc("C14")
    try:
        r = rng(c)
        for name in ("oauth",) + (("oauth1_request", "some_name") if c.thorough else ()):
            rc.manifest(name)
            head = "#![allow(warnings)]\n" + ("" if name == "oauth" else f"pub extern crate {name} as oauth;\n")
            code, diags, err = rc.run(head + VALID, "valid", ["--emit=metadata"])
            if code != 0:
                c.violation("a valid struct does not compile", {"errors": [d["rendered"] for d in errors(diags)][:5], "stderr": err[:2000]})
        rc.manifest("oauth")
        pairs_of_metas(c, rc)
        for k in range(c.n(1, 10)):
            runs = batch(c, rc, f"forms{k}", bad_item, 250, r, TYPED_HEAD, False)
            if k == 0:
                checks.spoil(c, runs, spoil_report, "Trace_Macro")
                checks.spoil(c, runs, spoil_extra, "Trace_Macro")
            runs = batch(c, rc, f"types{k}", typed_item, 150, r, TYPED_HEAD, True)
            if k == 0:
                checks.spoil(c, runs, spoil_report, "Trace_Macro")
    finally:
        rc.close()


TABLE = {"C13": c13, "C14": c14}
