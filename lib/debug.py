"""C21."""
import checks, gen, more, rt, sess

METHODS = ["hmac", "hmacnew", "plaintext", "plaintextbuf", "left", "right", "nested"]


def secret(r):
    return gen.wchoice(r, 2, "", 4, lambda: gen.safe(r, r.randrange(1, 20)), 5, lambda: gen.text(r), 1, lambda: gen.safe(r, r.choice([63, 64, 65, 200])))


def secrets(r):
    """Two pairs of secrets, different, often in one respect only."""
    a = [secret(r), secret(r)]
    while True:
        b = gen.wchoice(r, 4, lambda: [secret(r), secret(r)], 2, lambda: [a[0], secret(r)], 2, lambda: [secret(r), a[1]], 1, lambda: a[::-1],
                        2, lambda: [s[:-1] + chr(ord(s[-1]) ^ 1) if s else "x" for s in a], 1, lambda: ["", ""],
                        1, lambda: [s[:-1] for s in a])
        if all(not 0xD800 <= ord(ch) <= 0xDFFF for s in b for ch in s) and a != b:
            return [a, b]


def case(r, i):
    cfg = dict(gen.cfg(r), sm=gen.hmac(r))
    cfg["cid"], tid = "client" + gen.safe(r, 6), "token" + gen.safe(r, 6)
    if cfg["token"] is not None:
        cfg["token"] = [tid, ""]
    cfg["method_type"] = r.choice(METHODS)
    cfg["nonce"] = cfg["nonce"] or "n0nce"
    cfg["timestamp"] = cfg["timestamp"] or "1"
    cfg["sink"] = r.choice(["string", "string", "chunks"])
    return {"id": i, "cfg": cfg, "secrets": secrets(r), "ev": gen.squash(r, gen.merge(gen.params(r)))}


def names(cfg, stage):
    """The identifiers a value has to show at a stage."""
    kind = stage.split("/")[0]
    both = [cfg["cid"]] + ([cfg["token"][0]] if cfg["token"] else [])
    if kind == "credentials":
        return [cfg["cid"]]
    if kind == "token":
        return both
    if kind == "builder":
        return both if stage != "builder/new" else [cfg["cid"]]
    return []


def trace(x, o):
    a, b = o["runs"]
    stages = []
    for p, q in zip(a, b):
        # A precision cuts what is shown.
        ns = names(x["cfg"], p[0]) if p[1] != "short" else []
        stages.append({"a": p[2], "b": q[2], "names": ns})
    if len(a) != len(b):
        stages.append({"a": str(len(a)), "b": str(len(b)), "names": []})
    return {"stages": stages}


def spoil(x):
    s = x["stages"][-1]
    s["b"] = s["b"][:-1]
    return True


def event(e):
    if e["op"] != "param":
        return e
    return {"op": "param", "k": sess.text(e["k"]), "v": sess.text(e["v"]), "enc": e["enc"], "ty": ""}


def c21(c):
    h = rt.build()
    r = checks.rng(c)
    res = c.model("MC_Debug", cfg="MC_Debug.deep.cfg" if c.thorough else "MC_Debug.cfg")
    scen = sess.printed(res.out)
    cases = []
    for i, s in enumerate(scen):
        cfg = sess.cfg_case(s["cfg"])
        cfg["method_type"] = [m for m in METHODS if ("hmac" in m or m == "left") == (cfg["sm"]["kind"] == "hmac")][i % 3]
        cfg["sink"] = ["string", "chunks"][i // 3 % 2]
        cases.append({"id": i, "cfg": cfg, "ev": [event(e) for e in s["ev"]],
                      "secrets": [[sess.text(a), sess.text(t[1]) if t else ""] for a, t in s["secrets"]]})
    more.judge(c, "Trace_Debug", h, "debug", cases, trace, label="/model", how=spoil)
    c.cov.setdefault("replayed", []).append({"model": "MC_Debug", "behaviours": len(cases)})
    more.judge(c, "Trace_Debug", h, "debug", [case(r, i) for i in range(c.n(300, 4000))], trace)


TABLE = {"C21": c21}
