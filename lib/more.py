"""Checks of everything besides single sessions."""
import copy, json, os, random
import checks, gen, rt, sess
from checks import rng
from rt import octets


def judge(c, module, binary, family, cases, conv, label="", how=None, env=None, timeout=300, sample=2):
    """Execute cases, convert what was observed with conv(case, obs), validate against the trace specification."""
    obs = rt.execute(binary, family, cases, env=env, timeout=timeout)
    runs, kept = [], []
    for x in cases:
        o = obs.get(x["id"])
        if o is None:
            continue
        if "crash" in o:
            c.violation(f"the library ends the process or hangs {label}: {o['crash']}", {"case": x, "observed": o})
            continue
        if "panic" in o:
            c.violation(f"the library panics {label}: {o.get('msg', o['panic'])}", {"case": x, "observed": o})
            continue
        t = conv(x, o)
        if t is None:
            c.violation(f"the library panics {label}", {"case": x, "observed": o})
            continue
        runs.append(t)
        kept.append({"case": x, "observed": o})
    if runs:
        c.validate(module, runs, cases=kept, name=module + label.replace("/", "-"))
        c.samples += kept[:sample]
        if how:
            checks.spoil(c, runs, how, module)
    return runs


# ---------------------------------------------------------------- C08 ----
BENTRIES = ["get", "put", "post", "delete", "authorize", "to_form", "post_form", "get_query", "to_query", "authorize_with_buf",
            "to_form_with_buf", "into_authorization", "into_form", "into_query", "into_authorization_with_buf",
            "into_form_with_buf"]


def simple_sm(r, kinds="rph"):
    k = r.choice(kinds)
    sm = {"r": lambda: gen.record(r, hooks="none"), "p": lambda: gen.plaintext(r), "h": lambda: gen.hmac(r)}[k]()
    sm["own"] = "const"
    return sm


def history(r, i, n=None, sm=None, pin=0.6):
    sm = sm or simple_sm(r, "rrpph")
    live, ev = set(), []
    tok = lambda: [gen.text(r), gen.text(r)]
    val = {"token": tok, "callback": lambda: r.choice(["oob", "", gen.text(r)]), "verifier": lambda: r.choice(["", gen.text(r)]),
           "nonce": lambda: r.choice(["", gen.text(r)]), "timestamp": lambda: r.choice(gen.TIMESTAMPS),
           "version": lambda: True}

    def new(reg):
        e = {"op": r.choice(["new", "with_token"]), "r": reg, "cid": gen.text(r), "csec": gen.text(r)}
        if e["op"] == "with_token":
            e["v"] = tok()
        ev.append(e)
        live.add(reg)

    def setting(reg):
        f = r.choice(list(val))
        v = val[f]() if r.random() < 0.65 else (False if f == "version" else None)
        ev.append({"op": "set", "r": reg, "field": f, "v": v, "how": r.choice(["", "opt"])})

    def sign(reg):
        e = {"op": "sign", "r": reg, "entry": r.choice(BENTRIES), "method": gen.method(r), "uri": gen.uri(r),
             "buf": r.choice(gen.BUFS), "req": checks.request(r, n=r.randrange(0, 3))}
        if e["entry"] in gen_consuming:
            live.discard(reg)
        ev.append(e)

    new(1)
    for _ in range(n or r.randrange(3, 16)):
        if not live or r.random() < 0.08:
            new(r.randrange(1, 5))
            continue
        reg = r.choice(sorted(live))
        x = r.random()
        if x < 0.45:
            setting(reg)
        elif x < 0.6:
            to = r.choice([k for k in range(1, 5) if k != reg])
            ev.append({"op": "clone", "r": reg, "to": to})
            live.add(to)
        elif x < 0.65:
            ev.append({"op": "drop", "r": reg})
            live.discard(reg)
        else:
            sign(reg)
    for reg in sorted(live):
        sign(reg)
    return {"id": i, "sm": sm, "own": r.choice(["", "box", "mixed"]), "ev": ev}


gen_consuming = {"into_authorization", "into_form", "into_query", "into_authorization_with_buf", "into_form_with_buf"}


def opt_trace(f, v):
    if f == "token":
        return [] if v is None else [octets(v[0]), octets(v[1])]
    if f == "version":
        return v
    return sess.opt(v)


def builder_trace(x, o, clock=False):
    ev = []
    if len(o["res"]) < len(x["ev"]) or any(q and "panic" in q for q in o["res"]):
        return None
    for e, res in zip(x["ev"], o["res"]):
        t = {"op": e["op"], "r": e["r"]}
        if e["op"] in ("new", "with_token"):
            t.update(cid=octets(e["cid"]), csec=octets(e["csec"]))
            if e["op"] == "with_token":
                t["v"] = opt_trace("token", e["v"])
        elif e["op"] == "set":
            t.update(field=e["field"], v=opt_trace(e["field"], e["v"]))
        elif e["op"] == "clone":
            t["to"] = e["to"]
        elif e["op"] == "sign":
            t.update(entry=e["entry"], method=octets(e["method"]), uri=octets(e["uri"]), buf=octets(e["buf"]),
                     req=sess.req_trace(e["req"]))
            t.update(out=octets(res["out"]), calls=[sess.call_trace(k) for k in res["calls"]],
                     clock=[octets(k) for k in res["clock"]] if clock else [])
        ev.append(t)
    return {"sm": sess.sm_trace(x["sm"]), "ev": ev}


def spoil_sign(x):
    for e in reversed(x["ev"]):
        if e["op"] == "sign" and len(e["out"]) > 8:
            e["out"][len(e["buf"]) + 1 if e["entry"].endswith("with_buf") else 1] ^= 1
            return True
    return False


def replay_builders(c, h, scen, label):
    def val(f, v):
        if f == "token":
            return [sess.text(k) for k in v] or None
        return v if f == "version" else sess.one(v)
    cases = []
    for i, s in enumerate(scen):
        ev = [{"op": "new", "r": 1, "cid": "ck", "csec": "cs"},
              {"op": "set", "r": 1, "field": "nonce", "v": "n0"}, {"op": "set", "r": 1, "field": "timestamp", "v": "1"}]
        call = {"method": "GET", "uri": "u", "buf": "", "req": {"kind": "unit"}}
        for e in s["ev"]:
            e = dict(e)
            if e["op"] == "set":
                e["v"] = val(e["field"], e["v"])
            elif e["op"] == "sign":
                e.update(call)
            ev.append(e)
        last = []
        for r in (1, 2):
            if s["out"][r - 1]:
                last.append(r)
                ev.append(dict(call, op="sign", r=r, entry="authorize"))
        cases.append({"id": i, "sm": {"kind": "plaintext"}, "own": "", "ev": ev, "last": last})
    obs = rt.execute(h, "builder", cases)
    bad = 0
    for x, s in zip(cases, scen):
        o = obs.get(x["id"])
        if o is None or bad >= 2:
            continue
        want = [sess.text(k[0]) for k in s["out"] if k]
        got = [q.get("out") for q in o["res"][len(o["res"]) - len(want):]] if "res" in o and want else []
        if "crash" in o or got != want or len(o["res"]) != len(x["ev"]):
            bad += 1
            c.violation(f"{label}: the builders do not produce the specification's requests",
                        {"case": x, "observed": o, "specification": want})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": label, "behaviours": len(cases)})


def c08(c):
    h = rt.build()
    res = c.model("MC_Builder", cfg="MC_Builder.deeper.cfg" if c.thorough else "MC_Builder.deep.cfg")
    replay_builders(c, h, sess.printed(res.out), "MC_Builder")
    r = rng(c)
    judge(c, "Trace_Builder", h, "builder", [history(r, i) for i in range(c.n(250, 4000))], builder_trace, how=spoil_sign)


# ---------------------------------------------------------------- C10 ----
STILL = [1318622958, 123456789]
NPLANS = ["get", "to_form", "to_query", "into", "clone", "new", "buf", "free", "serializer", "authorizers"]


def c10(c):
    h = rt.build()
    r = rng(c)
    base = {"cid": "ck", "csec": "cs", "tid": "t", "tsec": "ts", "param": "p", "sm": "hmac", "timestamp": 1318622958}
    one = [dict(base, plan="seq", n=c.n(300, 3000), entry=e) for e in NPLANS]
    one += [dict(base, plan="seq", n=100, entry="get", sm="plaintext"), dict(base, plan="seq", n=100, entry="get", timestamp=None),
            dict(base, plan="seq", n=100, entry="get", cid=gen.text(r), param=gen.text(r)),
            # The clock stands still.
            dict(base, plan="seq", n=110, entry="get", clock=STILL), dict(base, plan="fork", n=110, entry="new", clock=STILL),
            dict(base, plan="threads", threads=110, n=3, entry="get"), dict(base, plan="threads", threads=8, n=200, entry="new"),
            dict(base, plan="fork", n=110, entry="get"), dict(base, plan="fork", n=5, entry="clone"),
            dict(base, plan="fork", n=1, entry="free")]
    for i, x in enumerate(one):
        x.setdefault("clock", None)
        x["id"] = i
    ev, groups, kept = [], [], []

    def take(obs, case):
        if "crash" in obs or "panic" in obs:
            c.violation("generating nonces panics or crashes", {"case": case, "observed": obs})
            return []
        return obs["groups"]

    obs = rt.execute(h, "nonce", one)
    for x in one:
        gs = take(obs[x["id"]], x)
        firsts = []
        for g in gs:
            firsts.append(len(ev) + 1)
            groups.append(list(range(len(ev) + 1, len(ev) + 1 + len(g))))
            ev += [n for n, _ in g]
        if x["plan"] == "threads":
            groups.append(firsts)
        kept.append({"case": x, "nonces": sum(gs, [])[:3]})
    # Many processes: the first nonces of each.
    firsts, seconds = [], []
    for i in range(c.n(110, 600)):
        o = rt.execute(h, "nonce", [dict(base, plan="seq", n=2, entry="get", id=0, clock=STILL if i % 2 else None)])[0]
        for g in take(o, base):
            firsts.append(len(ev) + 1)
            seconds.append(len(ev) + 2)
            ev += [n for n, _ in g]
    groups += [firsts, seconds]
    run = {"ev": ev, "groups": groups}
    if not c.violations:
        c.validate("Trace_Nonce", [run], cases=[kept])
        c.cov.update(nonces=len(ev), groups=len(groups), processes=len(firsts))
        for how in (lambda x: x["ev"].append(x["ev"][0]), lambda x: x["ev"].append("ab/c"), lambda x: x["ev"].append(""),
                    lambda x: [x["ev"].__setitem__(i - 1, "A" + x["ev"][i - 1][1:]) for i in x["groups"][0]]):
            x = {"ev": ev[:400], "groups": groups[:1]}
            x = copy.deepcopy(x)
            how(x)
            if not c.validate("Trace_Nonce", [x], name="spoiled", expect_reject=True):
                raise rt.ToolError("an altered observation was accepted")
        c.cov["altered_observations_rejected"] = 4
    # A configured nonce is used verbatim.
    checks.sessions(c, h, c.n(1000, 12000), lambda r, i: checks.recorded(r, i, pin=0.8), ["nonce"], how=spoil_param("oauth_nonce"))
    # Every entry point.
    checks.sessions(c, h, c.n(6, 160) * len(checks.ENTRIES), checks.entry_case, ["nonce"], how=None, family="entry")


def spoil_param(name):
    def how(x):
        e = x["ev"][-1]
        if e["op"] != "end":
            return False
        o = bytes(e["out"])
        i = o.find(name.encode() + b"=")
        if i < 0:
            return False
        i += len(name) + 1
        if o[i:i + 1] == b'"':
            i += 1
        if i + 1 >= len(o) or not o[i:i + 1].isalnum():
            return False
        e["out"][i] = 95 if name.endswith("nonce") else e["out"][i] ^ 1
        return o[i] != 95
    return how


# ---------------------------------------------------------------- C11 ----
SECONDS = [1, 59, 946684799, 1318622958, 2147483647, 2147483648, 4294967295, 4294967296, 253402300799, 2**40]
NANOS = [0, 1, 499999999, 500000000, 999999999]


def fake(r):
    return [r.choice(SECONDS) if r.random() < 0.7 else r.randrange(1, 2**36), r.choice(NANOS)]


def timed(r, i):
    x = checks.recorded(r, i, pin=0.4)
    x["fake"] = fake(r) if r.random() < 0.8 else None
    return x


def timed_entry(r, i):
    x = checks.entry_case(r, i)
    if r.random() < 0.7:
        x["cfg"]["timestamp"] = None
    x["fake"] = fake(r)
    return x


def timed_history(r, i):
    x = history(r, i, n=r.randrange(4, 14))
    t = fake(r)
    for e in x["ev"]:
        if e["op"] == "sign":
            e["fake"] = t
            t = [max(1, t[0] + r.choice([-1, 0, 1, 1, 60, -3600])), r.choice(NANOS)]
    if i < 3:
        # The real clock, over the end of a second, with and without a new builder.
        for e in x["ev"]:
            e.pop("fake", None)
        s = [e for e in x["ev"] if e["op"] == "sign"]
        for e in s[1:4]:
            e["sleep"] = [300, 700, 1050][i]
    return x


def c11(c):
    h = rt.build()
    r = rng(c, "h")
    checks.sessions(c, h, c.n(1400, 20000), timed, ["ts"], how=spoil_param("oauth_timestamp"))
    checks.sessions(c, h, c.n(10, 200) * len(checks.ENTRIES), timed_entry, ["ts"], how=None, family="entry")
    judge(c, "Trace_Builder", h, "builder", [timed_history(r, i) for i in range(c.n(150, 2000))],
          lambda x, o: builder_trace(x, o, clock=True), how=spoil_sign)


# ---------------------------------------------------------------- C12 ----
def feed_trace(x, o):
    return {"req": sess.req_trace(x["req"]), "calls": [sess.call_trace(k) for k in o["calls"]],
            "again": [sess.call_trace(k) for k in o["again"]]}


FKINDS = ["unit", "empty", "vec", "vecown", "map", "plist", "plistbox", "optlist", "optnone", "slice"]


def feed_case(r, i):
    kind = r.choice(FKINDS + ["vec", "plist", "vecown", "slice"])
    req = checks.request(r, kinds=(kind,)) if kind not in ("vecown", "slice") else checks.request(r, kinds=("vec",))
    req["kind"] = kind
    if kind in ("slice", "vec", "vecown", "map"):
        req["params"].sort(key=gen.encpair)
    req["wrap"] = [r.choice(["ref", "mut", "some", "some", "none"] if r.random() < 0.3 else ["ref", "mut", "some"])
                   for _ in range(r.randrange(0, 4))]
    return {"id": i, "req": req}


def spoil_feed(x):
    if len(x["calls"]) < 9:
        return False
    x["calls"][3], x["calls"][4] = x["calls"][4], x["calls"][3]
    return True


def c12(c):
    h = rt.build()
    res = c.model("MC_Feed", cfg="MC_Feed.deep.cfg" if c.thorough else "MC_Feed.cfg")
    scen = sess.printed(res.out)
    cases, wants = [], []
    for i, s in enumerate(scen):
        ps = [{"k": sess.text(p["k"]), "v": sess.text(p["v"]), "enc": False, "ty": "str"} for p in s["params"]]
        for kind in (["vec", "plist"], ["map", "optlist"], ["vecown", "slice"])[i % 3]:
            if kind == "map" and len({p["k"] for p in ps}) < len(ps):
                kind = "plistbox"
            cases.append({"id": len(cases), "req": {"kind": kind, "wrap": [["ref"], ["mut"], ["some"], [], ["some", "ref"]][i % 5],
                                                    "params": ps}})
            wants.append(s["calls"])
    obs = rt.execute(h, "feed", cases)
    bad = 0
    for x, w in zip(cases, wants):
        o = obs.get(x["id"])
        if o is None or bad >= 2:
            continue
        if "calls" not in o or [sess.call_trace(k) for k in o["calls"]] != w or o["again"] != o["calls"]:
            bad += 1
            c.violation("MC_Feed: the request does not feed what the specification says", {"case": x, "observed": o})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": "MC_Feed", "behaviours": len(cases)})
    r = rng(c)
    judge(c, "Trace_Feed", h, "feed", [feed_case(r, i) for i in range(c.n(700, 8000))], feed_trace, how=spoil_feed)


# ---------------------------------------------------------------- C15 ----
POPS = ["new", "from", "collect", "default", "from_sorted", "extend", "extend", "extend", "renew", "resorted", "look"]
TIES = ["", "a", "A", "%", "~", "{", "é", "&", "%7E", "a%", "a~", "ab", "-", "0", " ", "\x7f", "日", "aa", "aé"]


def plist_pairs(r, n=None):
    n = gen.wchoice(r, 1, 0, 3, 1, 3, 2, 4, lambda: r.randrange(3, 7), 0.3, lambda: r.randrange(20, 40), 0.1, lambda: r.randrange(40, 200)) if n is None else n
    ks = [gen.key(r, []) for _ in range(r.choice([1, 1, 2, 3]))]
    out = []
    prefix = r.choice(["", "", "x", "é%", "a" * 40])
    for _ in range(n):
        t = r.choice(TIES) if r.random() < 0.7 else gen.text(r, 0.02)
        t = prefix + t
        ps = gen.pieces(r, t)
        if r.random() < 0.3:
            ps = [x for p in ps for x in ([p[:1], "", p[1:]])]
        out.append({"k": r.choice(ks) if r.random() < 0.8 else gen.key(r, ks), "v": t, "enc": False, "ty": r.choice(["", "char", "fmt"]),
                    "pieces": ps if t or r.random() < 0.5 else []})
    return out


def plist_case(r, i):
    kind = r.choice(["own", "own", "own", "box", "rc", "ref", "array", "boxslice", "slicemut", "dyn"])
    ev, now = [], []
    for _ in range(r.randrange(1, 7)):
        op = r.choice(POPS if kind in ("own", "box", "rc", "ref") else ["new", "from", "from_sorted", "from_sorted"])
        ps = plist_pairs(r) if op not in ("default", "look") else []
        if op == "from_sorted" and r.random() < 0.7 or op == "resorted" and r.random() < 0.4:
            ps.sort(key=gen.encpair)
            if len(ps) > 1 and r.random() < 0.4:
                j = r.randrange(len(ps) - 1)
                ps[j], ps[j + 1] = ps[j + 1], ps[j]
        ev.append({"op": op, "params": ps, "how": r.choice(["", "nothing", "upper", "lower", "loose", "filter", "chain", "each"])})
    return {"id": i, "kind": kind, "ev": ev}


def pair_seq(ps):
    return [{"k": octets(p[0]), "v": octets(p[1])} for p in ps]


def plist_trace(x, o):
    ev = []
    for e, res in zip(x["ev"], o["res"]):
        vs = [pair_seq(v) for v in res.get("views") or []]
        ev.append({"op": e["op"], "arg": [{"k": octets(p["k"]), "v": octets(p["v"])} for p in e["params"]],
                   "res": vs[:1], "views": vs[1:]})
    return {"ev": ev}


def spoil_plist(x):
    for e in x["ev"]:
        if e["res"] and len(e["res"][0]) > 1 and e["res"][0][0] != e["res"][0][1]:
            e["views"][1] = e["views"][1][::-1] if e["views"][1] != e["views"][1][::-1] else e["views"][1][1:]
            return True
    return False


def c15(c):
    h = rt.build()
    res = c.model("MC_ParamList", cfg="MC_ParamList.deep.cfg")
    scen = sess.printed(res.out)
    cases = []
    for i, s in enumerate(scen):
        ev = []
        for j, part in enumerate(s["parts"]):
            op = ["new", "from", "collect", "new"][i % 4] if j == 0 else ["extend", "renew"][(i // 4) % 2]
            ps = []
            for p in part:
                t = sess.text(p["v"])
                ps.append({"k": sess.text(p["k"]), "v": t, "pieces": [t[:k] for k in (1,)] + [t[1:]] if (i // 8) % 2 else [t], "ty": ""})
            ev.append({"op": op, "params": ps})
        cases.append({"id": i, "kind": ["own", "box", "ref"][i % 3], "ev": ev})
    obs = rt.execute(h, "plist", cases)
    bad = 0
    for x, s in zip(cases, scen):
        o = obs.get(x["id"])
        if o is None or bad >= 2:
            continue
        if "res" not in o or not o["res"][-1].get("views") or any(pair_seq(v) != s["list"] for v in o["res"][-1]["views"]):
            bad += 1
            c.violation("MC_ParamList: the list is not what the specification says", {"case": x, "observed": o, "specification": s["list"]})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": "MC_ParamList", "behaviours": len(cases)})
    r = rng(c)
    judge(c, "Trace_ParamList", h, "plist", [plist_case(r, i) for i in range(c.n(1200, 12000))], plist_trace, how=spoil_plist)


TABLE = {"C15": c15, "C08": c08, "C10": c10, "C11": c11, "C12": c12}
