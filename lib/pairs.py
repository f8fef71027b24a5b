"""C23."""
import copy
import checks, gen, rt, sess
from rt import octets

AUTH = ["header", "form", "query"]
BASIS = ["", "a", "b", "1", "&", "=", "%", ",", '"', "+", " ", "a=b", "a&b=c", "%26", "%3D", "%2526", "a%26b%3Dc", "é", "%C3%A9", "1.0", "oob",
         "POST", "x&", "=y", "~", "%7E", "a%3Db", "&a=", "\"", ",b=\"", "0", "7"]


def val(r):
    return r.choice(BASIS) + r.choice(["", "", r.choice(BASIS)]) if r.random() < 0.85 else gen.text(r, 0)


def one(r):
    cfg = gen.cfg(r, modes=AUTH, pin=0.9)
    cfg["sm"] = gen.hmac(r) if r.random() < 0.2 else gen.record(r, optout=0.1)
    cfg["cid"] = val(r)
    cfg["token"] = gen.optional(r, lambda: [val(r), val(r)])
    cfg["callback"], cfg["verifier"] = gen.optional(r, lambda: val(r)), gen.optional(r, lambda: val(r))
    cfg["nonce"] = val(r) if r.random() < 0.9 else None
    cfg["uri"] = r.choice(["h/p", "http://h/p&a=b", "h/%26", "", gen.uri(r)])
    cfg["buf"] = r.choice(["", "x=y&"])
    ps = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        k = r.choice(["a", "b", "z", "a-", "ab", "oauth", "oauth_", "oauth_token_", "~", gen.key(r, [])])
        e = r.random() < 0.3
        v = val(r)
        ps.append({"k": k, "v": gen.enc(v) if e else v, "enc": e, "t": v})
    return {"cfg": cfg, "ps": ps}


PLACES = ["method", "uri", "cid", "callback", "verifier", "nonce", "token"]


def get(q, p):
    w, i = p
    if w in ("k", "t"):
        return q["ps"][i][w]
    return q["cfg"]["token"][0] if i == "token" else q["cfg"][i]


def put(q, p, t):
    w, i = p
    if w in ("k", "t"):
        q["ps"][i][w] = t
    elif i == "token":
        q["cfg"]["token"][0] = t
    else:
        q["cfg"][i] = t


def places(q):
    return [("c", x) for x in PLACES if q["cfg"][x] is not None] + [(w, i) for i in range(len(q["ps"])) for w in "kt"]


def dec(t):
    import urllib.parse
    try:
        return urllib.parse.unquote(t, errors="strict")
    except UnicodeDecodeError:
        return t


def tamper(r, q):
    """One alteration; q["ps"] are given by their texts t."""
    q = copy.deepcopy(q)
    pl = places(q)
    cfg, ps = q["cfg"], q["ps"]
    x = r.randrange(16)
    p, s = r.choice(pl), r.choice(pl)
    a, b = get(q, p), get(q, s)
    if x < 4 and p != s and a:
        n = r.choice([1, 1, 2, len(a)])
        if r.random() < 0.5:
            put(q, p, a[:-n])
            put(q, s, a[-n:] + b)
        else:
            put(q, p, a[n:])
            put(q, s, b + a[:n])
    elif x == 4 and p != s:
        put(q, p, b)
        put(q, s, a)
    elif x == 5 and ps:
        z = ps.pop(r.randrange(len(ps)))
        p = r.choice(places(q))
        sep, eq = r.choice([("&", "="), ("%26", "%3D"), ("&", "%3D"), ("%2526", "%253D")])
        put(q, p, get(q, p) + sep + z["k"] + eq + r.choice([gen.enc(z["t"]), z["t"]]))
    elif x == 6:
        for sep, eq in (("&", "="), ("%26", "%3D")):
            if sep in a:
                h, t = a.split(sep, 1)
                put(q, p, h)
                ps.append({"k": t.split(eq)[0], "t": eq.join(t.split(eq)[1:]), "enc": False})
                break
    elif x == 7:
        put(q, p, gen.enc(a))
    elif x == 8:
        put(q, p, gen.close(r, a))
    elif x == 9:
        put(q, p, dec(a))
    elif x == 10:
        put(q, p, a.replace(*r.choice([(" ", "+"), ("+", " "), ("%20", "+"), ("~", "%7E"), ("a", "A"), ("%2", "%25")])))
    elif x == 11 and ps:
        y = r.randrange(4)
        if y == 0:
            ps.pop(r.randrange(len(ps)))
        elif y == 1:
            ps.append(dict(r.choice(ps)))
        elif y == 2:
            ps.append({"k": "", "t": "", "enc": False})
        else:
            for z in ps:
                z["enc"] = not z["enc"]
    elif x == 12:
        cfg["callback"], cfg["verifier"] = cfg["verifier"], cfg["callback"]
    elif x == 13:
        cfg["version"] = not cfg["version"]
        if r.random() < 0.3:
            cfg["token"] = None if cfg["token"] else ["", ""]
    elif x == 14:
        for k in ("callback", "verifier"):
            if cfg[k] is not None and r.random() < 0.5:
                ps.append({"k": "oauth_" + k + "_", "t": cfg[k], "enc": False})
                cfg[k] = None
        if r.random() < 0.3:
            cfg["nonce"], cfg["timestamp"] = cfg["timestamp"], "1"
    else:
        cfg["mode"], cfg["buf"] = r.choice(AUTH), r.choice(["", "a=b&"])
        if r.random() < 0.3 and cfg["sm"]["kind"] == "record":
            cfg["csec"] += "x"
    return q


def askable(q):
    cfg = q["cfg"]
    return ("?" not in cfg["uri"] and all(z["k"] not in gen.RESERVED_KEYS and all(ch in gen.UNRESERVED for ch in z["k"]) for z in q["ps"])
            and not any(ch.islower() for ch in cfg["method"]))


def pair(r):
    q = one(r)
    while True:
        t = q
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            t = tamper(r, t)
        if askable(t) and askable(q):
            return q, t


def case(r, q, i):
    ps = []
    for z in q["ps"]:
        v = gen.enc(z["t"]) if z["enc"] else z["t"]
        ps.append({"op": "param", "k": z["k"], "v": v, "enc": z["enc"], "ty": r.choice(["", "str", "string", "char"]), "pieces": gen.pieces(r, v)})
    ps.sort(key=gen.encpair)
    q["cfg"]["uri_pieces"] = gen.pieces(r, q["cfg"]["uri"])
    return sess.case(r, q["cfg"], ps, i)


def side(x, o):
    return {"cfg": sess.cfg_trace(x["cfg"], sess.DEFAULT_ENV), "params": [sess.param_trace(e) for e in x["ev"] if e["op"] == "param"],
            "out": octets(o["out"]), "calls": [sess.call_trace(k) for k in o["calls"]]}


def alter(r, bs, start):
    """Something else on the wire, in place of the octets from start on."""
    t = list(bs)
    span = [i for i in range(start, len(t))]
    if not span:
        return t
    i, j = r.choice(span), r.choice(span)
    x = r.randrange(7)
    if x == 0:
        t[i] = r.choice(b"&=%,\"+ ab20")
    elif x == 1:
        del t[i]
    elif x == 2:
        t.insert(i, r.choice(b"&=%,\"+ ab20"))
    elif x == 3:
        t[i], t[j] = t[j], t[i]
    elif x == 4:
        t[i:i + 1] = list(gen.enc(chr(t[i])).encode()) if t[i] < 128 else []
    elif x == 5:
        t[i:i + 1] = list(("%%%02X" % t[i]).encode())
    else:
        i, j = sorted((i, j))
        t = t[:i] + t[j:] if r.random() < 0.5 else t[:i] + t[j:] + t[i:j]
    return t


def run(c, h, qs, label, r, how=None):
    cases = []
    for a, b in qs:
        cases += [case(r, a, len(cases)), case(r, b, len(cases) + 1)]
    obs = rt.execute(h, "session", cases)
    runs, kept = [], []
    for i in range(0, len(cases), 2):
        two = []
        for x in cases[i:i + 2]:
            o = obs.get(x["id"])
            if o is not None and "out" in o:
                two.append((x, o))
            elif o is not None and not c.violations:
                c.violation(f"{label}: a request is not authorized", {"case": x, "observed": o})
        if len(two) == 2:
            (x, o), _ = two
            start = len(x["cfg"]["buf"].encode()) if x["cfg"]["mode"] != "query" else len(x["cfg"]["uri"].encode())
            out = o["out"].encode()
            runs.append(dict(zip(("one", "two"), (side(*q) for q in two)), wire=[alter(r, out, start) for _ in range(6)]))
            kept.append([{"case": x, "observed": o} for x, o in two])
    c.validate("Trace_Pairs", runs, cases=kept, name=label)
    c.samples += kept[:1]
    if how:
        checks.spoil(c, runs, how, "Trace_Pairs")


def spoil(x):
    """The second request is transmitted and signed like the first although it differs."""
    a, b = x["one"], x["two"]
    if a["cfg"]["sm"]["kind"] != "record" or a["cfg"]["uri"] == b["cfg"]["uri"] or a["cfg"]["mode"] != b["cfg"]["mode"]:
        return False
    b["calls"] = copy.deepcopy(a["calls"])
    b["cfg"]["buf"], b["out"] = a["cfg"]["buf"], copy.deepcopy(a["out"])
    return True


def c23(c):
    h = rt.build()
    r = checks.rng(c)
    res = c.model("MC_Pairs", cfg="MC_Pairs.deep.cfg" if c.thorough else "MC_Pairs.cfg")
    scen = sess.printed(res.out)
    cases, at = [], {}

    def index(q):
        """Requests occur in many pairs but are carried out once."""
        key = repr(q)
        if key not in at:
            at[key] = len(cases)
            ps = sorted(({"op": "param", "k": sess.text(p["k"]), "v": sess.text(p["v"]), "enc": p["enc"], "ty": ["", "str"][len(cases) % 2]}
                         for p in q["params"]), key=gen.encpair)
            cases.append({"id": len(cases), "cfg": sess.cfg_case(q["cfg"]), "ev": gen.merge(ps), "sink": "string"})
        return at[key]

    pairs = [(index(s["orig"]), index(s["now"]), s["same"]) for s in scen]
    obs = rt.execute(h, "session", cases)
    bad = 0
    for i, j, same in pairs:
        a, b = obs.get(i), obs.get(j)
        if a is None or b is None or bad >= 2:
            continue
        ok = "out" in a and "out" in b
        if not ok or (sess.calls_base("RECORD", a["calls"]) == sess.calls_base("RECORD", b["calls"])) != same:
            bad += 1
            c.violation("MC_Pairs: requests that say different things have the same signed text, or the other way round" if ok
                        else "MC_Pairs: a request is not authorized",
                        {"cases": [cases[i], cases[j]], "observed": [a, b], "specification": {"same": same}})
    c.traces += len(pairs)
    c.cov.setdefault("replayed", []).append({"model": "MC_Pairs", "behaviours": len(pairs)})
    run(c, h, [pair(r) for _ in range(c.n(1500, 15000))], "pairs", r, spoil)


TABLE = {"C23": c23}
