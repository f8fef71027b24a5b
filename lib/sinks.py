"""C26."""
import copy, json
import checks, gen, rt, sess
from more import judge
from rt import octets


def size(s):
    return len(s.encode())


def key(cfg):
    """The length of the signature in a PLAINTEXT buffer."""
    t = cfg["token"]
    return size(gen.enc(gen.enc(cfg["csec"]) + "&" + ("" if t is None else gen.enc(t[1]))))


def plain_case(r, i):
    """A session with nothing left to chance, without limits."""
    cfg = gen.cfg(r, pin=1.0, modes=("header", "form", "query", "header", "form", "query", "pform", "pquery"))
    kind = r.choice("rrrrhhpps")
    if kind == "s":
        cfg["sm"] = gen.rsa(r, checks.KEYS, idx=[0, 1])
    else:
        cfg["sm"] = checks.any_method(r, kind)
    if kind == "p":
        cfg["sm"]["own"] = "bounded"
    if cfg["uri_how"] == "pad":
        cfg["uri_how"] = "fmt"
    ps = gen.params(r, long=0.02)
    for p in ps:
        # Runs of characters that are written as they are, between others.
        if r.random() < 0.3:
            runs = "".join(r.choice("/ %&\u00e9") * r.randrange(2) + r.choice("aZ9-") * r.choice([1, 3, 9, 30]) for _ in range(r.randrange(1, 4)))
            runs += r.choice(["", "", "/", "/b"])
            p.update(v=gen.enc(runs) if p["enc"] else runs, ty=r.choice(["", "str", "string"]))
            p.pop("pieces", None)
    x = sess.case(r, cfg, ps, i, sink="bounded")
    x["ev"].append({"op": "end"})
    x["limits"] = {}
    return x


def limit(r, x, out):
    """The session under limits that its whole output is near."""
    x = copy.deepcopy(x)
    cfg, l = x["cfg"], x["limits"]
    n = size(out)
    least = size(cfg["uri"] if cfg["mode"] in ("query", "pquery") else cfg["buf"])
    authorized = cfg["mode"] in ("header", "form", "query")
    kind = cfg["sm"]["kind"] if authorized else ""
    what = r.choice(["cap", "cap", "cap", "blip", "fail", "key" if kind == "plaintext" else "values" if kind == "record" else "cap", "values" if kind == "record" else "cap"])
    l["partial"] = r.random() < 0.4
    if what == "cap":
        l["cap"] = max(least, r.choice([n, n - 1, n - 2, n - r.randrange(1, 40), n + 1, r.randrange(least, n + 1), r.randrange(least, n + 1)]))
    elif what == "blip":
        l["nth"] = r.choice([0, 1, 2, r.randrange(12), r.randrange(60), r.randrange(200)])
    elif what == "key":
        l["keycap"] = max(0, key(cfg) + r.choice([-1, 0, 1, -2, -3, -r.randrange(1, 30)]))
    elif what == "values":
        l["vcap"] = r.choice([0, 1, 2, 3, 5, 8, 12, 20, 29, 40])
    else:
        ps = [e for e in x["ev"] if e["op"] == "param"]
        if (r.random() < 0.3 or not ps) and cfg["mode"] in ("header", "form"):
            cfg["uri_how"] = "fails"
            l["failuri"] = True
        elif ps:
            e = r.choice(ps)
            if e["enc"]:
                e["v"] = gen.enc(e["v"]) if r.random() < 0.5 else "a"
            e.update(ty="fails", fail=True, pieces=r.choice([[e["v"]], [], [e["v"][:len(e["v"]) // 2], e["v"][len(e["v"]) // 2:]]]))
            if not e["pieces"]:
                e["v"] = ""
            # What was noted is told from the others by its name.
            for f in ps:
                if f is not e and f["k"] == e["k"]:
                    f.update(ty="fails", fail=True, pieces=[f["v"]])
    return x


def one(n):
    return [] if n is None else [n]


def trace(x, o, env):
    l = x["limits"]
    evs = [e for e in x["ev"] if e["op"] != "end"]
    t = {"cfg": sess.cfg_trace(x["cfg"], env), "blip": "nth" in l, "refused": o["refused"],
         "limits": {"cap": one(l.get("cap")), "keycap": one(l.get("keycap")), "vcap": one(l.get("vcap")), "failuri": l.get("failuri", False)},
         "ev": [dict(sess.ev_trace(e), fail=bool(e.get("fail"))) for e in evs],
         "calls": [sess.call_trace(c) for c in o["calls"]]}
    if "panic" in o:
        t["panic"] = o["panic"]
    else:
        t["out"] = octets(o["out"])
    return t


def spoil(x):
    """A result with its last octet missing, or one of a sink that has refused."""
    if "out" not in x:
        return False
    if len(x["out"]) % 2:
        x["out"] = x["out"][:-1]
    else:
        x["refused"] = True
    return True


def replay_model(c, h):
    res = c.model("MC_Sinks", cfg="MC_Sinks.deep.cfg" if c.thorough else "MC_Sinks.cfg")
    scen = sess.printed(res.out)
    r = checks.rng(c)
    most = 300000 if c.thorough else 40000
    if len(scen) > most:
        scen = r.sample(scen, most)
    cases = []
    for i, s in enumerate(scen):
        ev = []
        for e in s["ev"]:
            t = {"op": e["op"]}
            if e["op"] == "param":
                t.update(k=sess.text(e["k"]), v=sess.text(e["v"]), enc=e["enc"], ty="fails" if e["fail"] else ["", "str", "string"][i % 3])
            ev.append(t)
        l = {k: s["limits"][k][0] for k in ("cap", "keycap") if s["limits"][k]}
        cases.append({"id": i, "cfg": MODEL_CFGS[s["limits"]["cfg"] - 1], "ev": ev, "sink": "bounded", "limits": dict(l, partial=i % 2 == 1)})
    obs = rt.execute(h, "session", cases)
    bad = 0
    for x, s in zip(cases, scen):
        o = obs.get(x["id"])
        if o is None or bad >= 2:
            continue
        ok = "crash" not in o and (o["panic"] >= s["may"] >= 0 if "panic" in o else s["first"] == -1 and octets(o["out"]) == s["out"])
        if not ok:
            bad += 1
            c.violation("MC_Sinks: what is not written entirely is not given as a result, and all else is",
                        {"case": x, "observed": o, "specification": s})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": "MC_Sinks", "behaviours": len(cases)})


def c26(c):
    h = rt.build()
    replay_model(c, h)
    r = checks.rng(c)
    plain = [plain_case(r, i) for i in range(c.n(3200, 40000))]
    obs = rt.execute(h, "session", plain)
    cases, tally = [], {}
    for x in plain:
        o = obs.get(x["id"])
        if o is not None and "out" in o:
            cases.append(limit(r, x, o["out"]))
    if len(cases) < len(plain):
        c.violation("the library fails though nothing is refused", {"case": next(x for x in plain if "out" not in obs.get(x["id"], {})),
                                                                      "observed": str([o for o in obs.values() if "out" not in o][:1])})
        return
    runs, kept = [], []
    # (Debug builds display the URI once more, to check it.)
    n = len(cases) * 2 // 3
    for profile, some in (("dev", cases[:n]), ("nodebug", cases[n:])):
        obs = rt.execute(h if profile == "dev" else rt.build(profile=profile), "session", some)
        for x in some:
            o = obs.get(x["id"])
            if o is None:
                continue
            if "crash" in o:
                c.violation(f"the library ends the process or hangs: {o['crash']}", {"case": x, "observed": o})
                continue
            runs.append(trace(x, o, sess.ENVS[profile]))
            kept.append({"case": x, "observed": o})
            k = ",".join(sorted(k for k in x["limits"] if k != "partial")) + (" panics" if "panic" in o else " returns")
            tally[k] = tally.get(k, 0) + 1
    c.validate("Trace_Sinks", runs, cases=kept)
    c.samples += kept[:2]
    c.cov["limits"] = tally
    checks.spoil(c, runs, spoil, "Trace_Sinks")


def model_cfg(mode, sm=None, token=None, nonce=None, ts=None):
    return {"mode": mode, "buf": "b", "method": "GET", "uri": "u", "cid": "c", "csec": "&", "token": token, "callback": None,
            "verifier": None, "nonce": nonce, "timestamp": ts, "version": False,
            "sm": sm or {"kind": "record", "name": "R", "sig": "%3D", "use_nonce": False, "use_ts": False, "hooks": [], "hookset": "none"}}


# The configurations of MC_Sinks.
PLAIN = {"kind": "plaintext", "name": "PLAINTEXT", "sig": "", "own": "bounded", "use_nonce": True, "use_ts": True, "hooks": []}
MODEL_CFGS = [model_cfg(m) for m in ("header", "form", "query", "pform", "pquery")] + [
    model_cfg("header", PLAIN, ["t", "/"], "n", "7"), model_cfg("form", PLAIN, None, "n", "7")]

TABLE = {"C26": c26}
