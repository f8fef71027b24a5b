"""C20, C22."""
import json, urllib.parse
import checks, gen, rt, sess
from more import judge
from rt import octets

ID, SEC = "oauth_token", "oauth_token_secret"
OTHERS = ["oauth_callback_confirmed", "oauth_token_", "oauth_toke", "oauth_token_secre", "oauth_token_secrets", "", "OAUTH_TOKEN", "user_id",
          "identifier", "secret", "token", "oauth_verifier", "é", "oauth_token\0", " oauth_token", "a&b=c", "oauth_consumer_key"]
NOTEXT = [1, None, True, [], [1, {"a": "b"}], {}, {ID: "x"}, -1.5, {"oauth_token": "a", "oauth_token_secret": "b"}]
PAIRS_ONLY = {"form", "formbytes", "map", "borrowed", "owned", "bytes", "borrowedbytes", "flatform"}
FORMATS = {"own": ["json", "slice", "vec", "form", "formbytes", "map", "borrowed", "owned", "bytes", "borrowedbytes", "reader", "value",
                   "refvalue", "flat", "flatform"],
           "cow": ["json", "slice", "vec", "form", "formbytes", "map", "borrowed", "owned", "bytes", "borrowedbytes"],
           "ref": ["json", "slice", "vec", "form", "formbytes", "map", "borrowed", "bytes", "borrowedbytes"]}
FORMATS["box"] = FORMATS["own"]


def field_trace(f):
    return {"k": octets(f["k"]), "v": [] if f["v"] is None else [octets(f["v"])]}


def finish(r, fields, i, fmt=None, repr=None):
    repr = repr or r.choice(["own", "own", "box", "cow", "ref"])
    fmt = fmt or r.choice(FORMATS[repr])
    if fmt in PAIRS_ONLY:
        fields = [f for f in fields if f["v"] is not None]
    if fmt in ("value", "refvalue") and len({f["k"] for f in fields}) < len(fields):
        fmt = "json"
    if repr == "ref":
        # Borrowing takes texts that are written as they are.
        for f in fields:
            if f["v"] is not None:
                f["v"] = "".join(ch for ch in f["v"] if ch in gen.UNRESERVED)
                if fmt in ("form", "formbytes"):
                    f["v"] = f["v"].replace("~", "")
    how = r.choice(["", "", "spaced", "escaped"]) if repr != "ref" else r.choice(["", "spaced"])
    return {"id": i, "fields": fields, "repr": repr, "format": fmt, "how": how}


def value(r):
    return r.choice(["", "a", "token", "secret", ID, SEC]) if r.random() < 0.4 else gen.text(r)


def de_case(r, i):
    fields = []
    x = r.random()
    names = [ID, SEC]
    if x < 0.15:
        names.remove(r.choice(names))
    elif x < 0.35:
        names += [r.choice([ID, SEC])] * r.choice([1, 1, 2])
    elif x < 0.38:
        names = []
    for n in names:
        fields.append({"k": n, "v": value(r)})
    for _ in range(r.choice([0, 0, 1, 2, 3, 6])):
        fields.append({"k": r.choice(OTHERS) if r.random() < 0.8 else gen.text(r, 0), "v": value(r) if r.random() < 0.5 else None})
    r.shuffle(fields)
    if fields and r.random() < 0.1:
        r.choice(fields)["v"] = None
    for f in fields:
        if f["k"] == "extra":
            f["k"] = "extra_"
        if f["v"] is None:
            f["x"] = r.choice(NOTEXT)
    return finish(r, fields, i)


def de_trace(x, o):
    return {"fields": [field_trace(f) for f in x["fields"]],
            "got": [{"id": octets(o["got"][0]), "sec": octets(o["got"][1])}] if "got" in o else []}


def ser_case(r, i):
    repr = r.choice(["own", "box", "cow", "ref"])
    return {"id": i, "cred": [value(r), value(r)], "repr": repr}


def pairs_of(t):
    return [{"k": octets(k), "v": [octets(v)] if isinstance(v, str) else []} for k, v in t]


def ser_trace(x, o):
    """What was written in each format, and what came back of it."""
    cred = {"id": octets(x["cred"][0]), "sec": octets(x["cred"][1])}
    wrote = [json.loads(o["json"], object_pairs_hook=pairs_of),
             pairs_of([tuple(urllib.parse.unquote_plus(q) for q in p.partition("=")[::2]) for p in o["form"].split("&")]),
             json.loads(o["flat"], object_pairs_hook=pairs_of)[:-1],
             pairs_of(o["struct"]["fields"]) if o["struct"]["len"] == len(o["struct"]["fields"]) else []]
    backs = [[{"id": octets(b["got"][0]), "sec": octets(b["got"][1])}] if "got" in b else [] for b in o["back"]]
    return [{"cred": cred, "wrote": wrote[j % len(wrote)], "back": b} for j, b in enumerate(backs)]


def spoil_de(x):
    if not x.get("got"):
        return False
    g = x["got"][0]
    if g["id"] == g["sec"]:
        return False
    g["id"], g["sec"] = g["sec"], g["id"]
    return True


def replay(c, h, label, cases, wants, ok):
    obs = rt.execute(h, "creds", cases)
    bad = 0
    for x, w in zip(cases, wants):
        o = obs.get(x["id"])
        if o is None or bad >= 2:
            continue
        if "crash" in o or "panic" in o or not ok(x, o, w):
            bad += 1
            c.violation(f"{label}: the library does not do what the specification says", {"case": x, "observed": o, "specification": w})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": label, "behaviours": len(cases)})


def c20(c):
    h = rt.build()
    r = checks.rng(c)
    res = c.model("MC_Serde", cfg="MC_Serde.deep.cfg" if c.thorough else "MC_Serde.cfg")
    cases, wants = [], []
    kinds = [(repr, f) for repr in FORMATS for f in FORMATS[repr]]
    for i, s in enumerate(sess.printed(res.out)):
        fields = [{"k": sess.text(f["k"]), "v": sess.one(f["v"]), "x": NOTEXT[(i + j) % len(NOTEXT)]} for j, f in enumerate(s["fields"])]
        only = any(f["v"] is None for f in fields)
        for n in range(3 if not only else 1):
            repr, fmt = kinds[(3 * i + n) % len(kinds)]
            if only and fmt in PAIRS_ONLY:
                fmt = "flat" if repr in ("own", "box") else "json"
            x = finish(r, [dict(f) for f in fields], len(cases), fmt, repr)
            cases.append(x)
            wants.append(s["cred"])
    replay(c, h, "MC_Serde", cases, wants, lambda x, o, w: de_trace(x, o)["got"] == w)
    judge(c, "Trace_Cred", h, "creds", [de_case(r, i) for i in range(c.n(3000, 30000))], de_trace, how=spoil_de)
    sers = [ser_case(r, i) for i in range(c.n(300, 4000))]
    obs = rt.execute(h, "creds", sers)
    runs, kept = [], []
    for x in sers:
        o = obs.get(x["id"])
        if o is None or c.violations:
            continue
        if "crash" in o or "panic" in o:
            c.violation("serializing credentials panics", {"case": x, "observed": o})
            continue
        for t in ser_trace(x, o):
            runs.append(t)
            kept.append({"case": x, "observed": o})
    if runs:
        c.validate("Trace_Cred", runs, cases=kept, name="serialized")
        c.samples += kept[:1]


# ---------------------------------------------------------------- C22 ----
HOWS = {"new": ["", "lit", "ref"], "parts": ["", "lit", "ref"], "join": ["", "lit", "from_ref"],
        "copyc": ["as_ref", "from", "copy", "new", "methods", "clone"],
        "copyt": ["as_ref", "from", "copy", "new", "methods", "from_ref", "clone"],
        "client": ["", "field"], "token": ["", "field"], "map": ["", "ref"], "map_client": ["", "ref"], "map_token": ["", "ref"]}


def how(r, e):
    return r.choice(HOWS["copy" + e["from"][0] if e["op"] == "copy" else e["op"]])


def conv_case(r, i):
    def t():
        return r.choice(["a", "", "b"]) if r.random() < 0.2 else gen.text(r, 0.01)
    live, ev = set(), []
    for _ in range(r.randrange(2, 14)):
        ops = ["new", "parts", "parts"]
        cs, ts = [x for x in sorted(live) if x[0] == "c"], [x for x in sorted(live) if x[0] == "t"]
        if cs:
            ops += ["join", "join", "copyc", "mapc"]
        if ts:
            ops += ["copyt", "client", "token", "mapt", "map_client", "map_token"]
        op = r.choice(ops)
        e = {"op": op.rstrip("ct") if op[:3] in ("map", "cop") and "_" not in op else op}
        if op == "new":
            e.update(to=r.choice(["c1", "c2"]), id=t(), sec=t())
        elif op == "parts":
            e.update(to=r.choice(["t1", "t2"]), cid=t(), csec=t(), tid=t(), tsec=t())
        elif op == "join":
            e.update(to=r.choice(["t1", "t2"]), c=r.choice(cs), t=r.choice(cs))
        elif op in ("copyc", "mapc"):
            e.update({"from": r.choice(cs), "to": r.choice(["c1", "c2"])})
        elif op in ("client", "token"):
            e.update({"from": r.choice(ts), "to": r.choice(["c1", "c2"])})
        else:
            e.update({"from": r.choice(ts), "to": r.choice(["t1", "t2"])})
        if e["op"].startswith("map"):
            e["tag"] = r.choice(["!", "é", "", "xyz"])
        e["how"] = how(r, e)
        live.add(e["to"])
        ev.append(e)
    return {"id": i, "ev": ev, "repr": r.choice(["", "box", "mixed", "cow"])}


def value_trace(v):
    return dict(zip(["id", "sec"] if len(v) == 2 else ["cid", "csec", "tid", "tsec"], map(octets, v)))


def conv_trace(x, o):
    ev = []
    for e, q in zip(x["ev"], o["res"]):
        t = {k: e[k] for k in ("op", "from", "to")if k in e}
        for k in ("id", "sec", "cid", "csec", "tid", "tsec", "tag"):
            if k in e:
                t[k] = octets(e[k])
        if e["op"] == "join":
            t.update(c=e["c"], t=e["t"])
        t.update(views=[value_trace(v) for v in q["views"]], args=[octets(a) for a in q["args"]])
        ev.append(t)
    return {"ev": ev}


def spoil_conv(x):
    for e in x["ev"]:
        v = e["views"][-1]
        ks = list(v)
        if v[ks[0]] != v[ks[1]]:
            v[ks[0]], v[ks[1]] = v[ks[1]], v[ks[0]]
            return True
    return False


def c22(c):
    h = rt.build()
    r = checks.rng(c)
    res = c.model("MC_Conv", cfg="MC_Conv.deep.cfg" if c.thorough else "MC_Conv.cfg")
    cases, wants = [], []
    for i, s in enumerate(sess.printed(res.out)):
        ev = [{"op": "new", "to": "c1", "id": "i", "sec": "s"}, {"op": "parts", "to": "t1", "cid": "ci", "csec": "cs", "tid": "ti", "tsec": "ts"}]
        for e in s["ev"]:
            e = {k: e[k] for k in e if k not in ("value", "args")}
            if "tag" in e:
                e["tag"] = sess.text(e["tag"])
            e["how"] = how(r, e)
            ev.append(e)
        cases.append({"id": i, "ev": ev, "repr": ["", "box", "mixed", "cow"][i % 4]})
        wants.append(s["ev"])

    def ok(x, o, w):
        for q, e in zip(o["res"][2:], w):
            if any(value_trace(v) != e["value"] for v in q["views"]) or sorted(map(octets, q["args"])) != sorted(e["args"]):
                return False
        return len(o["res"]) == len(w) + 2
    replay(c, h, "MC_Conv", cases, wants, ok)
    judge(c, "Trace_Cred", h, "creds", [conv_case(r, i) for i in range(c.n(1200, 15000))], conv_trace, how=spoil_conv)


TABLE = {"C20": c20, "C22": c22}
