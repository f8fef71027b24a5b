"""One function per property."""
import copy, json, random
import gen, rt, sess
from rt import octets

KEYS = json.load(open(rt.VERIF + "/harness/keys.json"))
AUTH = ("header", "form", "query")


def rng(c, salt=""):
    return random.Random(f"{c.seed}/{c.prop}/{c.tier}/{salt}")


def model_replay(c, h, names, judge, keep=lambda s: True):
    """Explore MC_Session with the given sets; replay the behaviours it prints."""
    for n in names:
        res = c.model("MC_Session" + n, env={"DEPTH": c.tier})
        sess.replay(c, h, sess.printed(res.out), judge, "MC_Session" + n, keep)


def spoil(c, runs, how, module="Trace_Session"):
    """The binding is real: a run whose observation was altered must be rejected."""
    if c.violations:
        return
    for r in runs:
        x = copy.deepcopy(r)
        if how(x):
            if not c.validate(module, [x], name="spoiled", expect_reject=True):
                raise rt.ToolError("an altered observation was accepted")
            c.cov["altered_observation_rejected"] = True
            return
    raise rt.ToolError("no run to alter")


def spoil_out(x):
    """Alter one octet of the output, outside the signature."""
    e = x["ev"][-1]
    if e["op"] != "end" or len(e["out"]) < 3:
        return False
    e["out"][max(bytes(e["out"]).rfind(b"oauth_consumer_key"), -1)] ^= 1
    return True


def spoil_base(x):
    e = x["ev"][-1]
    if e["op"] != "end":
        return False
    for k in e["calls"]:
        if k[0] == "parameter" and k[2]:
            k[2][-1] ^= 1
            return True
    return False


def sessions(c, h, n, mk, chk, how=spoil_out, family="session", env=sess.DEFAULT_ENV, label="", module="Trace_Session"):
    r = rng(c, family + label)
    cases = [mk(r, i) for i in range(n)]
    runs, kept = sess.run(c, h, cases, chk, env, family, label)
    c.validate(module, runs, cases=kept, name=label or family)
    if how:
        spoil(c, runs, how, module)
    c.samples += kept[:2]
    return runs


def recorded(r, i, modes=AUTH, **kw):
    cfg = gen.cfg(r, modes=modes, **kw)
    cfg["sm"] = gen.record(r)
    return made(r, cfg, gen.params(r), i)


def made(r, cfg, ps, i):
    """A case; one in twelve has a long text."""
    if i % 12 == 5:
        gen.lengthen(r, cfg, ps)
    return sess.case(r, cfg, ps, i)


# ---------------------------------------------------------------- C01 ----
def c01(c):
    h = rt.build()
    model_replay(c, h, ["Opts", "Vals"] + (["Keys", "Texts", "Same"] if c.thorough else []), ["base"],
                 lambda s: s["cfg"]["mode"] in AUTH)
    sessions(c, h, c.n(2000, 24000), recorded, ["base"], spoil_base)
    entries(c, h, c.n(480, 4800), HEADERS + FORMS, "r", ["base"])
    # The digests' own way of taking the text in: the signature is that of the base string.
    sessions(c, h, c.n(400, 4000), signed, ["sig"], spoil_sig, label="signed")


def signed(r, i):
    """Signed with a built-in method, and a key that nothing has to be done to."""
    cfg = gen.cfg(r, modes=AUTH)
    cfg["sm"] = gen.hmac(r)
    ps = gen.params(r, n=None if i % 4 else 1)
    if i % 4 == 0:
        gen.lengthen(r, cfg, ps, "uri" if i % 8 else "v")
    c = sess.case(r, cfg, ps, i)
    cfg["csec"] = "k"
    cfg["token"] = cfg["token"] and [cfg["token"][0], "s"]
    return c


# ---------------------------------------------------------------- C02 ----
def any_method(r, kinds="rrrhp"):
    k = r.choice(kinds)
    return {"r": lambda: gen.record(r), "h": lambda: gen.hmac(r), "p": lambda: gen.plaintext(r)}[k]()


def header(r, i):
    cfg = gen.cfg(r, modes=("header",))
    cfg["sm"] = any_method(r)
    return made(r, cfg, gen.params(r), i)


def c02(c):
    h = rt.build()
    model_replay(c, h, ["Opts", "Texts"] + (["Keys", "Vals"] if c.thorough else []), ["out"],
                 lambda s: s["cfg"]["mode"] == "header")
    sessions(c, h, c.n(1600, 20000), header, ["out"])
    entries(c, h, c.n(400, 4000), HEADERS, "rrhp", ["out"])


# ---------------------------------------------------------------- C03 ----
def formquery(r, i):
    cfg = gen.cfg(r, modes=("form", "query"))
    cfg["sm"] = any_method(r)
    return made(r, cfg, gen.params(r), i)


def c03(c):
    h = rt.build()
    model_replay(c, h, ["Opts", "Keys"] + (["Texts", "Vals", "Same"] if c.thorough else []), ["out"],
                 lambda s: s["cfg"]["mode"] in ("form", "query"))
    sessions(c, h, c.n(1600, 20000), formquery, ["out"])
    entries(c, h, c.n(400, 4000), FORMS, "rrhp", ["out"])


# ---------------------------------------------------------------- C04 ----
def plain(r, i):
    cfg = gen.cfg(r, modes=("pform", "pquery"))
    cfg["sm"] = gen.record(r)
    ps = gen.params(r)
    c = made(r, cfg, ps, i)
    x = r.random()
    if x < 0.2:
        # Nothing but parameters, not even in order.
        r.shuffle(ps)
        c["ev"] = ps
    elif x < 0.4:
        c["ev"] = ps
    if r.random() < 0.1:
        cfg["uri"] += "?x"
        cfg["uri_pieces"] = [cfg["uri"]]
    return c


def c04(c):
    h = rt.build()
    model_replay(c, h, ["Vals", "Keys"] + (["Same"] if c.thorough else []), ["out"],
                 lambda s: s["cfg"]["mode"] in ("pform", "pquery"))
    sessions(c, h, c.n(2000, 24000), plain, ["out"], lambda x: x["ev"][0]["op"] == "param" and spoil_out(x))
    entries(c, h, c.n(600, 6000), PLAIN, "r", ["out"])


# ------------------------------------------------------- C05, C06, C07 ----
def length_text(r, n):
    return "".join(r.choice("abcdefghij0123456789") for _ in range(n))


def hmac_case(r, i):
    cfg = gen.cfg(r, modes=AUTH)
    cfg["sm"] = gen.hmac(r, either=0.15)
    if i < 70:
        # Keys whose encoded length walks over the block size.
        n = 30 + i
        a = r.randrange(0, n)
        cfg["csec"], cfg["token"] = length_text(r, a), ["t", length_text(r, n - a)]
    elif i < 150:
        # Base strings whose length walks over every residue of the block size.
        cfg.update(callback=length_text(r, i - 70), method="GET", uri="http://h/", uri_pieces=["http://h/"], nonce="n", timestamp="1")
        return sess.case(r, cfg, [], i)
    elif i < 160:
        cfg["token"] = None if i % 2 else ["t", ""]
    elif i < 164:
        cfg["csec"], cfg["token"] = "é&%" * (20 * (i - 159)), ["", "日本" * 10]
    return made(r, cfg, gen.params(r, n=None if i % 3 else 1), i)


def c05(c):
    h = rt.build()
    c.model("MC_Sha1")
    c.model("MC_Rfc")
    sessions(c, h, c.n(1920, 16000), hmac_case, ["sig"], spoil_sig)
    entries(c, h, c.n(400, 4000), HEADERS + FORMS, "h", ["sig"])


def spoil_sig(x):
    """Exchange two characters in the signature."""
    e = x["ev"][-1]
    if e["op"] != "end":
        return False
    o = bytes(e["out"])
    a = o.rfind(b"oauth_signature=") + len(b"oauth_signature=") + 3
    if a < 10 or a + 4 >= len(o):
        return False
    for j in range(a, min(a + 12, len(o) - 5)):
        if bytes([o[j]]).isalnum() and o[j] != o[j - 1] and b"%" not in o[j - 4:j + 3]:
            e["out"][j] = 65 if o[j] != 65 else 66
            return True
    return False


def plaintext_case(r, i):
    cfg = gen.cfg(r, modes=AUTH)
    cfg["sm"] = gen.plaintext(r, either=0.2)
    if i % 10 == 0:
        cfg["token"] = r.choice([None, ["t", ""], ["", gen.text(r)]])
    return made(r, cfg, gen.params(r, n=r.randrange(0, 3)), i)


def c06(c):
    h = rt.build()
    sessions(c, h, c.n(2800, 32000), plaintext_case, ["sig", "out"])
    entries(c, h, c.n(600, 4000), HEADERS + FORMS, "p", ["sig", "out"])


def rsa_case(r, i):
    cfg = gen.cfg(r, modes=AUTH)
    idx = list(range(len(KEYS))) if r.random() < 0.3 else [0, 1, 2, 4]
    cfg["sm"] = gen.rsa(r, KEYS, either=0.15, idx=idx)
    return made(r, cfg, gen.params(r, n=r.randrange(0, 4)), i)


def c07(c):
    h = rt.build()
    sessions(c, h, c.n(1200, 12000), rsa_case, ["sig"], spoil_sig)


# ---------------------------------------------------------------- C09 ----
ENTRIES = (["get", "put", "post", "delete", "options", "head", "connect", "patch", "trace", "put_form", "post_form",
            "options_form", "patch_form", "get_query", "put_query", "post_query", "delete_query", "options_query",
            "head_query", "connect_query", "patch_query", "trace_query", "authorize", "to_form", "to_query",
            "authorize_with_buf", "to_form_with_buf", "into_authorization", "into_form", "into_query",
            "into_authorization_with_buf", "into_form_with_buf"]
           + ["free." + x for x in ("get", "put", "post", "delete", "options", "head", "connect", "patch", "trace",
                                    "authorize", "to_form", "to_query")]
           + ["ser.authorization", "ser.authorization_with_buf", "ser.form", "ser.form_with_buf", "ser.query",
              "urlencoder.form", "urlencoder.form_with_buf", "urlencoder.query"])


def request(r, kinds=("unit", "empty", "vec", "map", "plist", "plistbox", "optlist", "optnone"), n=None):
    kind = r.choice(kinds)
    if kind in ("unit", "empty", "optnone"):
        return {"kind": kind, "wrap": [], "params": []}
    ps = gen.params(r, n=n, encoded=0)
    if kind == "map":
        ps = list({p["k"]: p for p in ps}.values())
    if kind in ("plist", "plistbox", "optlist"):
        r.shuffle(ps)
    for p in ps:
        if p.get("ty") not in ("", "char", "fmt", "args", "pad"):
            p["ty"] = ""
    return {"kind": kind, "wrap": [], "params": ps}


def entry_case(r, i, kinds="rrhp", es=ENTRIES):
    cfg = gen.cfg(r, pin=0.85)
    cfg["sm"] = any_method(r, kinds)
    if cfg["sm"]["kind"] == "record":
        cfg["sm"].update(hookset="none", hooks=[])
    cfg["sm"]["own"] = "const"
    cfg["spare"] = r.choice([0, 7, 4096])
    e = es[i % len(es)]
    if e.startswith("free.") and cfg["token"] is None:
        cfg["token"] = [gen.text(r), gen.text(r)]
    return {"id": i, "cfg": cfg, "entry": e, "how": r.choice(["", "with_token"]), "req": request(r),
            "uritype": r.choice(["str", "string", "val", "refval"])}


PLAIN = [e for e in ENTRIES if e.startswith("urlencoder") or e in ("free.to_form", "free.to_query")]
HEADERS = [e for e in ENTRIES if "form" not in e and "query" not in e]
FORMS = [e for e in ENTRIES if e not in PLAIN and e not in HEADERS]


def entries(c, h, n, es, kinds, chk):
    """The property as seen through the entry points."""
    sessions(c, h, n, lambda r, i: entry_case(r, i, kinds, es), chk, None, "entry", label="entry")


def c09(c):
    h = rt.build()
    runs = sessions(c, h, c.n(24, 480) * len(ENTRIES), entry_case,
                    lambda x: ["out", "base"] if x["cfg"]["sm"]["kind"] == "record" and "urlencoder" not in x["entry"]
                    and x["entry"] not in ("free.to_form", "free.to_query") else ["out", "sig"], family="entry")
    c.cov["entry_points"] = len({x["entry"] for x in runs})


# ---------------------------------------------------------------- C17 ----
def misuse_case(r, i):
    """Correct uses, and uses that are wrong in one place."""
    cfg = gen.cfg(r, modes=AUTH + AUTH + ("pform", "pquery"))
    cfg["sm"] = any_method(r)
    ps = gen.params(r)
    evs = gen.merge(ps)
    x = r.random()
    if x < 0.25 and len(ps) > 1:
        # Equal adjacent names in any order of values.
        j = r.randrange(len(ps))
        ps.insert(j, dict(ps[j], v=gen.text(r), enc=False, ty="str"))
        evs = gen.merge(ps)
    elif x < 0.5:
        j, k = r.randrange(len(evs)), r.randrange(len(evs))
        evs[j], evs[k] = evs[k], evs[j]
    elif x < 0.6:
        r.shuffle(evs)
        evs = evs[:r.randrange(len(evs) + 1)]
    elif x < 0.75:
        # Neighbouring names that differ in the last place.
        a = gen.safe(r, r.randrange(0, 40))
        ks = [a + r.choice(["", "a", "b", "A", "~", "-", "0"]) for _ in range(3)]
        evs = [{"op": "param", "k": k, "v": "x", "enc": False, "ty": "str"} for k in ks if k not in gen.RESERVED_KEYS]
    elif x < 0.9:
        u = cfg["uri"]
        j = r.randrange(len(u) + 1)
        cfg["uri"] = u[:j] + r.choice(["?", "??", "?a=b"]) + u[j:]
        cfg["uri_pieces"] = gen.pieces(r, cfg["uri"])
    return {"id": i, "cfg": cfg, "ev": gen.squash(r, evs), "sink": r.choice(["string", "chunks"])}


def misuse_entry(r, i):
    x = entry_case(r, i, "rhp")
    if r.random() < 0.6:
        u = x["cfg"]["uri"]
        j = r.randrange(len(u) + 1)
        x["cfg"]["uri"] = u[:j] + "?" + u[j:]
        x["cfg"]["uri_pieces"] = gen.pieces(r, x["cfg"]["uri"])
    if x["req"]["kind"] == "vec" and r.random() < 0.4:
        r.shuffle(x["req"]["params"])
    return x


def replay_order(c, h, scen, debug, label):
    cases = []
    for i, s in enumerate(x for x in scen if x["cfg"]["debug"] == debug):
        evs = [{"op": "proto", "slot": e["slot"]} if e["op"] == "proto" else
               {"op": "param", "k": sess.text(e["k"]), "v": sess.text(e["v"]), "enc": e["enc"], "ty": "str"} for e in s["ev"]]
        cases.append(({"id": i, "cfg": sess.cfg_case(s["cfg"]), "ev": evs, "sink": "string"}, s))
    obs = rt.execute(h, "session", [x for x, _ in cases])
    bad = 0
    for case, s in cases:
        o = obs.get(case["id"])
        if o is None:
            continue
        panicked = "panic" in o
        ok = "crash" not in o and panicked == (s["phase"] == "panicked") and \
            (not panicked or o["panic"] == len(s["ev"])) and (not panicked or o["panic"] > 0 or o["calls"] == [])
        if not ok and bad < 2:
            bad += 1
            c.violation(f"{label}: {'panics' if panicked else 'does not panic'} where the specification "
                        f"{'does not' if panicked else 'does'}", {"case": case, "observed": o, "specification": s["phase"]})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": label, "behaviours": len(cases)})


def c17(c):
    res = c.model("MC_Order", cfg="MC_Order.deep.cfg" if c.thorough else "MC_Order.cfg")
    scen = sess.printed(res.out)
    for profile in ("dev", "nodebug"):
        h = rt.build(profile=profile)
        env = sess.ENVS[profile]
        # Opening panics are printed by no step: a URI with a question mark.
        replay_order(c, h, scen, env["debug"], "MC_Order/" + profile)
        sessions(c, h, c.n(2000, 24000), misuse_case, [], how=spoil_panic if profile == "dev" else None, env=env, label=profile)
        sessions(c, h, c.n(416, 4160), misuse_entry, [], how=None, family="entry", env=env, label="entry-" + profile)


def spoil_panic(x):
    """A panic turned into a normal end."""
    e = x["ev"][-1]
    if e["op"] != "panic" or e["in"]["op"] != "param":
        return False
    x["ev"][-1] = e["in"]
    return True


# ---------------------------------------------------------------- C18 ----
def custom(r, i):
    cfg = gen.cfg(r, modes=AUTH)
    if i % 4 == 3:
        cfg["sm"] = r.choice([gen.hmac, gen.plaintext])(r, either=1.0)
        if cfg["sm"].get("own") == "arr":
            cfg["sm"]["own"] = "new"
    else:
        cfg["sm"] = gen.record(r, optout=0.4, either=0.5)
    return made(r, cfg, gen.params(r), i)


def spoil_call(x):
    e = x["ev"][-1]
    if e["op"] != "end" or len(e["calls"]) < 6:
        return False
    e["calls"][4], e["calls"][5] = e["calls"][5], e["calls"][4]
    return True


def c18(c):
    h = rt.build()
    model_replay(c, h, ["Opts"] + (["Texts", "Keys"] if c.thorough else []), ["calls", "out"], lambda s: s["cfg"]["mode"] in AUTH)
    sessions(c, h, c.n(2000, 24000), custom, lambda x: ["calls", "out"] if x["cfg"]["sm"]["kind"] == "record" else ["out", "sig"],
             spoil_call)


TABLE = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C09": c09, "C17": c17,
         "C18": c18}
