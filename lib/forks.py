"""C25."""
import copy
import checks, gen, rt, sess
from more import judge
from rt import octets

METHODS = ["record", "record", "either", "hmac", "plaintext", "rsa06", "rsa09"]


def method(r, kind):
    if kind == "either":
        kind = r.choice(["record", "hmac"])
    if kind == "record":
        return gen.record(r, hooks="none")
    if kind == "hmac":
        return gen.hmac(r)
    if kind == "plaintext":
        return gen.plaintext(r)
    return dict(gen.rsa(r, checks.KEYS, idx=[0, 1, 2, 4]), own=kind[3:] + ("ref" if kind == "rsa06" else "val"))


def config(r, kind, modes=("header", "form", "query", "pform", "pquery")):
    cfg = gen.cfg(r, modes=modes, pin=1.0)
    cfg["sm"] = method(r, kind)
    return cfg


def script(r, n=None):
    return gen.squash(r, gen.merge(gen.params(r, n=n, long=0.01)))


def vary(r, evs):
    """A clone may go on differently: other values, fewer or more parameters."""
    out = []
    for e in evs:
        if e["op"] == "param" and r.random() < 0.4:
            if r.random() < 0.3:
                continue
            v = gen.text(r, 0)
            e = {"op": "param", "k": e["k"], "v": gen.enc(v) if e["enc"] else v, "enc": e["enc"], "ty": "str"}
        out.append(e)
    return out


def inner(r):
    """A whole session for the inside of a value."""
    cfg = gen.cfg(r, pin=1.0, modes=("header", "form", "query", "pform", "pquery"))
    cfg["sm"] = checks.any_method(r, "rhp")
    return sess.case(r, cfg, gen.params(r, n=r.randrange(3), long=0), 0)


def case(r, i):
    kind = r.choice(METHODS)
    cfgs = [config(r, kind) for _ in range(r.randrange(1, 4))]
    threads = r.random() < 0.3
    left, ev = {}, []
    opens = r.randrange(2, 7)
    while left or opens:
        free = [k for k in (1, 2, 3, 4) if k not in left]
        if opens and free and (not left or r.random() < 0.25):
            opens -= 1
            k = r.choice(free)
            left[k] = script(r)
            ev.append({"op": "open", "r": k, "cfg": r.randrange(len(cfgs)) + 1})
            continue
        k = r.choice(sorted(left))
        x = r.random()
        if not threads and x < 0.12 and free:
            to = r.choice(free)
            left[to] = vary(r, copy.deepcopy(left[k]))
            if r.random() < 0.3:
                left[k], left[to] = left[to], left[k]
            ev.append({"op": "fork", "r": k, "to": to})
        elif x < 0.15:
            ev.append({"op": "drop", "r": k})
            del left[k]
        elif not left[k]:
            ev.append({"op": "end", "r": k})
            del left[k]
        else:
            for _ in range(r.choice([1, 1, 2, 4])):
                if left[k]:
                    e = dict(left[k].pop(0), r=k)
                    if e["op"] == "param" and r.random() < 0.06 and not threads:
                        e["nested"] = inner(r)
                    ev.append(e)
    return {"id": i, "method": kind, "cfgs": cfgs, "ev": ev, "how": "threads" if threads else "", "sink": r.choice(["string", "chunks"])}


def calls_trace(calls):
    return [sess.call_trace(k) for k in calls]


def nested(x, o):
    """The sessions carried out inside of others."""
    for e, q in zip(x["ev"], o["seen"]):
        for y in q.get("nested") or []:
            yield e["nested"], y


def trace(x, o):
    ev = []
    for e, q in zip(x["ev"], o["seen"]):
        t = dict(sess.ev_trace(e), r=e["r"])
        for k in ("to", "cfg"):
            if k in e:
                t[k] = e[k]
        if e["op"] == "end":
            t.update(out=octets(q["out"]), calls=calls_trace(q["calls"]))
        ev.append(t)
    return {"cfgs": [sess.cfg_trace(c, sess.DEFAULT_ENV) for c in x["cfgs"]], "ev": ev}


def spoil(x):
    """Two serializers give each other's output."""
    ends = [e for e in x["ev"] if e["op"] == "end"]
    for a in ends:
        for b in ends:
            if a["out"] != b["out"]:
                a["out"], b["out"] = b["out"], a["out"]
                return True
    return False


def crowd_case(r, i):
    """Unrelated requests for a crowd of threads."""
    x = checks.entry_case(r, i) if r.random() < 0.5 else checks.recorded(r, i) if r.random() < 0.5 else checks.hmac_case(r, i)
    return dict(x, id=i)


def c25(c):
    h = rt.build()
    res = c.model("MC_Forks", cfg="MC_Forks.deep.cfg" if c.thorough else "MC_Forks.cfg")
    scen = sess.printed(res.out)
    r = checks.rng(c)
    if len(scen) > 40000:
        scen = r.sample(scen, 40000)
    cfgs = None
    cases = []
    for i, s in enumerate(scen):
        ev = []
        for e in s["ev"]:
            t = {k: e[k] for k in ("op", "r", "to", "cfg", "enc") if k in e}
            if e["op"] == "param":
                t.update(k=sess.text(e["k"]), v=sess.text(e["v"]), ty=["", "str"][i % 2])
            ev.append(t)
        cases.append({"id": i, "method": "record", "cfgs": MODEL_CFGS, "ev": ev, "sink": ["string", "chunks"][i % 2]})
    obs = rt.execute(h, "forks", cases)
    bad = 0
    for x, s in zip(cases, scen):
        o = obs.get(x["id"])
        if o is None or bad >= 2:
            continue
        want = [e["seen"] for e in s["ev"] if e["op"] == "end"]
        got = None if "seen" not in o else [{"out": octets(q["out"]), "calls": calls_trace(q["calls"])} for q in o["seen"] if "out" in q]
        if got != want:
            bad += 1
            c.violation("MC_Forks: serializers in progress at the same time do not give what the specification says",
                        {"case": x, "observed": o, "specification": s["ev"]})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": "MC_Forks", "behaviours": len(cases)})
    inner_runs, inner_cases = [], []

    def conv(x, o):
        for y, q in nested(x, o):
            t = sess.run_trace(y, q, ["out", "calls"] if y["cfg"]["sm"]["kind"] == "record" else ["out", "sig"])
            inner_runs.append(t)
            inner_cases.append({"case": y, "observed": q, "within": x})
        return trace(x, o)
    judge(c, "Trace_Forks", h, "forks", [case(r, i) for i in range(c.n(800, 12000))], conv, how=spoil)
    c.validate("Trace_Session", inner_runs, cases=inner_cases, name="nested")
    c.cov["nested_sessions"] = len(inner_runs)
    # Everything at once, on many threads.
    xs = [crowd_case(r, i) for i in range(c.n(800, 12000))]
    for x in xs:
        x["cfg"]["sm"].setdefault("own", "const")
    obs = rt.execute(h, "crowd", [{"id": 0, "cases": xs}])
    if any("crash" in o for o in obs.values()):
        c.violation("the library ends the process or hangs when used by many threads", {"observed": str(obs)[:2000]})
        return
    got = {}
    for o in obs.values():
        got.update({q["id"]: q for q in o["seen"]})
    runs, kept = [], []
    for x in xs:
        o = got[x["id"]]
        runs.append(sess.run_trace(x, o, ["out", "base"] if x["cfg"]["sm"]["kind"] == "record" and "urlencoder" not in x.get("entry", "")
                                   and x.get("entry") not in ("free.to_form", "free.to_query") else ["out", "sig"]))
        kept.append({"case": x, "observed": o})
    c.validate("Trace_Session", runs, cases=kept, name="crowd")
    c.cov["crowd"] = len(runs)


def model_cfg(**kw):
    return dict({"mode": "header", "buf": "", "method": "GET", "uri": "u", "cid": "c", "csec": "x", "token": None, "callback": None,
                 "verifier": None, "nonce": "n", "timestamp": "7", "version": False,
                 "sm": {"kind": "record", "name": "R", "sig": "s", "use_nonce": True, "use_ts": True, "hooks": [], "hookset": "none"}}, **kw)


# The configurations of MC_Forks.
MODEL_CFGS = [model_cfg(), model_cfg(mode="query", token=["t", ""], csec="y"), model_cfg(mode="pform", buf="b=&")]

TABLE = {"C25": c25}
