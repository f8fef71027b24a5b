"""C19."""
import checks, gen, rt, sess
from more import judge
from rt import octets

SLOTCALLS = ["callback", "consumer_key", "nonce", "signature_method", "timestamp", "token", "verifier", "version"]
TEXTS = ["", "a", "%", "%25", "é", "1", "12", "&", "a%", "ab"]


def texts(r):
    return r.choice(TEXTS) if r.random() < 0.6 else gen.text(r)


def call(r):
    """A call, and how its value is displayed."""
    if r.random() < 0.3:
        return {"call": [r.choice(SLOTCALLS)]}
    k = r.choice(["", "a", "b", "oauth_nonce", "é &", "%"]) if r.random() < 0.5 else gen.text(r)
    v = gen.value(r) if r.random() < 0.5 else {"v": texts(r), "ty": ""}
    if v["ty"] in ("", "char", "fmt", "args", "pad"):
        v["pieces"] = gen.pieces(r, v["v"]) if v["v"] or r.random() < 0.5 else []
    return {"call": [r.choice(["parameter", "parameter", "parameter_encoded"]), k, v["v"]], **v}


def history(r, i):
    ev, live = [{"op": "new", "r": 1, "how": r.choice(["", "default"])}], {1}
    for _ in range(r.randrange(2, 25)):
        if not live:
            break
        reg = r.choice(sorted(live))
        x = r.random()
        if x < 0.6:
            ev.append({"op": "call", "r": reg, **call(r)})
        elif x < 0.68:
            ev.append({"op": "all", "r": reg})
        elif x < 0.8:
            to = r.choice([k for k in (1, 2, 3) if k != reg])
            ev.append({"op": "clone", "r": reg, "to": to})
            live.add(to)
        elif x < 0.92:
            ev.append({"op": "same", "r": reg, "to": r.choice(sorted(live))})
        elif x < 0.95:
            to = r.choice([1, 2, 3])
            ev.append({"op": "new", "r": to})
            live.add(to)
        else:
            ev.append({"op": "end", "r": reg})
            live.discard(reg)
    for reg in sorted(live):
        ev.append({"op": "end", "r": reg})
    return {"id": i, "ev": ev}


def records(r, i):
    """Records close to each other, in all representations."""
    out = []
    base = [call(r)["call"] for _ in range(2)]
    ks, vs = ["", "a", gen.text(r)], [r.choice(["7", "42", "0"]), texts(r), texts(r), r.choice(["", "x"])]
    for _ in range(14):
        x = r.random()
        c = (r.choice(base) if x < 0.25 else [r.choice(SLOTCALLS)] if x < 0.4 else
             [r.choice(["parameter", "parameter_encoded"]), r.choice(ks), r.choice(vs)])
        if len(c) == 3 and r.random() < 0.3:
            j = r.choice([1, 2])
            c = list(c)
            c[j] = gen.close(r, c[j])
        if len(c) == 3 and r.random() < 0.15:
            # The same characters, divided otherwise.
            t = c[1] + c[2]
            j = r.randrange(len(t) + 1)
            c = [c[0], t[:j], t[j:]]
        kinds = ["strstr", "own", "boxval", "cowdyn", "ownval", "refref"]
        if len(c) == 3:
            if c[2].isascii() and c[2].isdigit() and (c[2] == "0" or c[2][0] != "0") and len(c[2]) < 18:
                kinds += ["stru64"] * 2
            if len(c[2]) == 1:
                kinds += ["strchar"] * 2
        t = c[2] if len(c) == 3 else ""
        ps = gen.pieces(r, t)
        if r.random() < 0.4:
            ps = [x for p in ps for x in ("", p[:1], p[1:], "")]
        if not t and r.random() < 0.5:
            ps = []
        out.append({"call": c, "as": r.choice(kinds), "pieces": ps, "how": r.choice(["", "char", "fmt", "pad"])})
    return {"id": i, "records": out}


def seen_trace(q):
    return {k: v if k == "same" else [sess.call_trace(x) for x in v] for k, v in q.items()}


def trace(x, o):
    if "ev" in x:
        ev = []
        for e, q in zip(x["ev"], o["seen"]):
            t = {k: e[k] for k in ("op", "r", "to") if k in e}
            if e["op"] == "call":
                t["call"] = sess.call_trace(e["call"])
            t["seen"] = seen_trace(q)
            ev.append(t)
        return {"ev": ev}
    # Which records there are is the case's to say, not the library's.
    return {"records": [sess.call_trace(e["call"]) for e in x["records"]], "equal": o["equal"]}


def spoil_hist(x):
    for e in x.get("ev", []):
        if len(e["seen"].get("hist", [])) > 1 and e["seen"]["hist"][0] != e["seen"]["hist"][1]:
            e["seen"]["hist"].reverse()
            return e["seen"]["hist"] != e["seen"]["hist"][::-1]
    return False


def spoil_equal(x):
    x["equal"][3][5] = not x["equal"][3][5]
    return True


def c19(c):
    h = rt.build()
    res = c.model("MC_Recorder", cfg="MC_Recorder.deep.cfg" if c.thorough else "MC_Recorder.cfg")
    scen = sess.printed(res.out)
    cases = []
    for i, s in enumerate(scen):
        ev = [{"op": "new", "r": 1}, {"op": "new", "r": 2}]
        for e in s["ev"]:
            e = {k: e[k] for k in ("op", "r", "to", "call") if k in e}
            if "call" in e:
                e["call"] = [e["call"][0]] + [sess.text(t) for t in e["call"][1:]]
                if len(e["call"]) == 3:
                    e.update(v=e["call"][2], ty=["", "str"][i % 2])
            ev.append(e)
        cases.append({"id": i, "ev": ev})
    obs = rt.execute(h, "recorder", cases)
    bad = 0
    for x, s in zip(cases, scen):
        o = obs.get(x["id"])
        if o is None or bad >= 2:
            continue
        if "seen" not in o or [seen_trace(q) for q in o["seen"][2:]] != [e["seen"] for e in s["ev"]]:
            bad += 1
            c.violation("MC_Recorder: the recorders do not show the specification's history",
                        {"case": x, "observed": o, "specification": s["ev"]})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": "MC_Recorder", "behaviours": len(cases)})
    r = checks.rng(c)
    judge(c, "Trace_Recorder", h, "recorder", [history(r, i) for i in range(c.n(600, 8000))], trace, how=spoil_hist)
    judge(c, "Trace_Recorder", h, "recorder", [records(r, i) for i in range(c.n(600, 8000))], trace, label="/equality", how=spoil_equal)
    o = rt.execute(h, "recorder", [{"id": 0}])[0]
    if "constants" not in o or not o["same"]:
        c.violation("the constant of the protocol parameters is not what an empty request records", {"observed": o})
    else:
        c.validate("Trace_Recorder", [{"constant": [sess.call_trace(k) for k in q]} for q in o["constants"]], name="constants",
                   cases=o["constants"])


TABLE = {"C19": c19}
