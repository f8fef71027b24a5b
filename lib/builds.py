"""C24: the library in different configurations."""
import concurrent.futures, json, os, shutil, subprocess
import checks, gen, rt, sess
from rt import octets

ALL = "std,derive,hmac,either,serde,rsa06,rsa09,test"
QUICK = [("", "dev"), ("", "nodebug"), ("hmac", "opt"), ("hmac,either", "dev"), ("alloc", "dev"), ("alloc,hmac,serde", "nodebug"),
         ("alloc,either,test", "nodebug"), ("std", "dev"), ("std,hmac,derive", "dev"), ("std,hmac", "opt"), ("std,either", "nodebug")]
MORE = [("hmac", "dev"), ("hmac", "nodebug"), ("either", "opt"), ("derive,serde,test", "dev"), ("rsa09", "nodebug"), ("rsa06", "dev"),
        ("alloc", "nodebug"), ("alloc", "opt"), ("alloc,hmac", "dev"), ("alloc,rsa06,rsa09", "dev"), ("std", "nodebug"), ("std,hmac,derive", "opt"),
        ("std,hmac", "dev"), ("alloc,hmac,either,test", "opt"), (ALL, "dev"), (ALL, "nodebug"), (ALL, "opt"), ("hmac,either,serde,derive,test", "opt"), ("serde", "dev"),
        ("alloc,derive,test", "nodebug")]
HEAPLESS = ["get_query", "put_query", "post_query", "delete_query", "options_query", "head_query", "connect_query", "patch_query", "trace_query",
            "to_query", "authorize_with_buf", "into_query", "into_authorization_with_buf", "into_form_with_buf", "ser.authorization_with_buf",
            "ser.form_with_buf", "ser.query", "urlencoder.form_with_buf", "urlencoder.query"]


class Build:
    def __init__(self, features, profile, path):
        self.features, self.profile, self.path = features, profile, path
        fs = features.split(",")
        self.env = {"std": "std" in fs, "alloc": "alloc" in fs or "std" in fs, "debug": profile == "dev"}

    @property
    def name(self):
        return f"[{self.features}] {self.profile}"


def build(features, profile):
    base = rt.target_dir()
    t = f"{base}/bare-{profile}"
    cmd = ["cargo", "build", "--offline", "--quiet", "--locked", "--profile", profile, "--manifest-path", f"{rt.VERIF}/bare/Cargo.toml",
           "--features", features]
    p = subprocess.run(cmd, env=rt.cargo_env(t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode:
        raise rt.BuildError(p.stdout[-6000:])
    os.makedirs(base + "/bare-bin", exist_ok=True)
    path = f"{base}/bare-bin/{features.replace(',', '-')}.{profile}"
    shutil.copy2(f"{t}/{'debug' if profile == 'dev' else profile}/b", path)
    return Build(features, profile, path)


def builds(c, which):
    """The profiles are built at the same time, each in a folder of its own."""
    def several(profile):
        out = []
        for f, p in which:
            if p == profile:
                try:
                    out.append(build(f, p))
                except rt.BuildError as e:
                    return out, (f, p, str(e))
        return out, None
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        done = list(ex.map(several, ("dev", "nodebug", "opt")))
    for _, failed in done:
        # The harness with every feature builds: it is this configuration that does not.
        if failed and not c.violations:
            c.violation(f"the library does not build with the features [{failed[0]}] in profile {failed[1]}",
                        {"features": failed[0], "profile": failed[1], "output": failed[2]})
    return [b for bs, _ in done for b in bs]


def small(x):
    return len(json.dumps(x)) < 2500


def shrink(r, x):
    if not small(x):
        if x.get("sink") == "arr":
            x["sink"] = "string"
        if x["cfg"]["sm"].get("own") == "arr":
            x["cfg"]["sm"]["own"] = "chunks"
    return x


def session_case(r, i):
    cfg = gen.cfg(r, modes=tuple(checks.AUTH) * 2 + ("pform", "pquery"), pin=0.92)
    cfg["sm"] = checks.any_method(r, "rrhpp")
    if cfg["sm"]["kind"] != "record":
        cfg["nonce"], cfg["timestamp"] = cfg["nonce"] or "n", cfg["timestamp"] or "1318622958"
    if r.random() < 0.3:
        cfg["sm"]["either"] = r.choice(["left", "right", "nested"])
    return shrink(r, sess.case(r, cfg, gen.params(r), i, r.choice(["string", "chunks", "arr"])))


def entry_case(r, i):
    cfg = gen.cfg(r, pin=0.95)
    cfg["sm"] = checks.any_method(r, "rhp")
    if cfg["sm"]["kind"] != "record":
        cfg["nonce"], cfg["timestamp"] = cfg["nonce"] or "n", cfg["timestamp"] or "1318622958"
    if cfg["sm"]["kind"] == "record":
        cfg["sm"].update(hookset="none", hooks=[])
    es = HEAPLESS if i % 3 else checks.ENTRIES
    e = es[(i // 3) % len(es)]
    if e.startswith("free."):
        if cfg["token"] is None:
            cfg["token"] = [gen.text(r), gen.text(r)]
        # The free functions take no options.
        cfg["sm"] = dict(gen.record(r, hooks="none"), use_nonce=r.random() < 0.5, use_ts=r.random() < 0.5)
    req = checks.request(r, kinds=("unit", "plist", "plist", "plist", "optnone"))
    for p in req["params"]:
        p.setdefault("pieces", [p["v"]])
    return shrink(r, {"id": i, "cfg": cfg, "entry": e, "how": r.choice(["", "with_token"]), "req": req, "sink": r.choice(["string", "arr"])})


def quiet_case(r, i):
    cfg = gen.cfg(r, modes=("header", "form", "query"), pin=1)
    if i % 6 == 5:
        cfg["mode"] = r.choice(["pform", "pquery"])
    cfg["sm"] = checks.any_method(r, "rhp")
    if cfg["sm"]["kind"] == "record":
        cfg["sm"].update(name="RECORD", use_nonce=True, use_ts=True, hookset="none", hooks=[])
    cfg["churn"] = False
    ps = gen.params(r, encoded=0.3 if i % 2 else 0)
    for p in ps:
        p.pop("pieces", None)
    if i % 2 or cfg["mode"] in ("pform", "pquery"):
        x = {"id": i, "cfg": cfg, "ev": gen.squash(r, gen.merge(ps))}
    else:
        r.shuffle(ps)
        x = {"id": i, "cfg": cfg, "ev": [], "list": [[p["k"], p["v"]] for p in ps]}
    return x if small(x) else quiet_case(r, i)


def events(x):
    if "req" in x:
        return [{"op": "request", "req": sess.req_trace(x["req"])}]
    if "list" in x:
        return [{"op": "request", "req": {"kind": "plist", "wrap": [],
                                          "params": [{"k": octets(k), "v": octets(v), "enc": False} for k, v in x["list"]]}}]
    return [sess.ev_trace(e) for e in x["ev"]]


def run(c, bs, family, cases, label, how=None):
    """Every case in every build; what was seen is validated, the same observations in the same kind of build once."""
    seen = {x["id"]: {} for x in cases}
    for b in bs:
        fam = family
        obs = rt.execute(b.path, fam, cases)
        for x in cases:
            o = obs.get(x["id"])
            if o is None or "none" in o:
                continue
            if "crash" in o:
                c.violation(f"{label}: the library ends the process or hangs in build {b.name}: {o['crash']}", {"case": x, "build": b.name, "observed": o})
                return
            panic = "panic" in o
            w = {"build": b.env, "panic": panic, "out": "" if panic else o["out"], "calls": [] if panic else o.get("calls", []),
                 "heap": [o["heap"]] if "heap" in o else []}
            seen[x["id"]].setdefault(json.dumps(w, sort_keys=True), []).append(b.name + (": " + o.get("msg", "") if panic else ""))
    runs, kept = [], []
    for x in cases:
        ws = []
        for w in seen[x["id"]]:
            w = json.loads(w)
            ws.append(dict(w, out=octets(w["out"]), calls=[sess.call_trace(k) for k in w["calls"]]))
        if ws:
            runs.append({"cfg": sess.cfg_trace(x["cfg"], sess.DEFAULT_ENV), "ev": events(x), "entry": x.get("entry", ""), "clock": [], "seen": ws})
            kept.append({"case": x, "observed": [{"builds": b, **json.loads(w)} for w, b in seen[x["id"]].items()]})
    c.validate("Trace_Builds", runs, cases=kept, name=label)
    c.samples += kept[:1]
    c.cov.setdefault("executions", {})[label] = sum(len(b) for s in seen.values() for b in s.values())
    if how:
        checks.spoil(c, runs, how, "Trace_Builds")


def spoil_out(x):
    s = x["seen"][-1]
    if s["panic"] or len(s["out"]) < 30 or x["cfg"]["mode"][0] == "p":
        return False
    s["out"][bytes(s["out"]).rfind(b"oauth_consumer_key")] ^= 1
    return True


def spoil_heap(x):
    for s in x["seen"]:
        if s["heap"] and not s["build"]["debug"]:
            s["heap"] = [1]
            return True
    return False


def replay(c, bs, scen):
    cases = []
    for i, s in enumerate(scen):
        evs = [{"op": "proto", "slot": e["slot"]} if e["op"] == "proto" else
               {"op": "param", "k": sess.text(e["k"]), "v": sess.text(e["v"]), "enc": e["enc"], "ty": ["", "str"][i % 2]} for e in s["ev"]]
        cfg = sess.cfg_case(s["cfg"])
        if cfg["sm"]["kind"] == "plaintext":
            cfg["sm"]["own"] = ["chunks", "arr", "new"][i % 3]
        cases.append({"id": i, "cfg": cfg, "ev": evs, "sink": ["string", "chunks", "arr"][i // 2 % 3]})
    bad = n = 0
    for b in bs:
        obs = rt.execute(b.path, "session", cases)
        for x, s in zip(cases, scen):
            o = obs.get(x["id"])
            if o is None or bad >= 2:
                continue
            w = next(w for w in s["seen"] if all(w[k] == b.env[k] for k in b.env))
            unpinned = x["cfg"]["timestamp"] is None and any(e.get("slot") == 5 for e in x["ev"])
            n += 1
            if w["phase"] == "panicked":
                ok = "panic" in o
            elif unpinned and x["cfg"]["mode"][0] != "p" and x["cfg"]["sm"]["use_ts"]:
                ok = "out" in o
            else:
                ok = "out" in o and octets(o["out"]) == w["out"] and \
                    (x["cfg"]["sm"]["kind"] != "record" or [sess.call_trace(k) for k in o["calls"]] == w["calls"])
            if not ok:
                bad += 1
                c.violation(f"MC_Builds: the build {b.name} does not do what the specification says",
                            {"case": x, "build": b.name, "observed": o, "specification": w})
    c.traces += n
    c.cov.setdefault("replayed", []).append({"model": "MC_Builds", "behaviours": len(cases), "executions": n})


def nonces(c, bs):
    case = {"id": 0, "n": 120, "cfg": {"cid": "c", "csec": "s", "token": None, "timestamp": "5", "sm": {"name": "R", "sig": "s"}}}
    ev, groups = [], []
    for b in bs:
        o = rt.execute(b.path, "nonces", [case])[0]
        if "nonces" not in o:
            c.violation(f"no nonces are generated in build {b.name}", {"case": case, "build": b.name, "observed": o})
            return
        groups.append(list(range(len(ev) + 1, len(ev) + 1 + len(o["nonces"]))))
        ev += o["nonces"]
    c.validate("Trace_Nonce", [{"ev": ev, "groups": groups}], cases=[{"builds": [b.name for b in bs], "nonces": ev[::60]}], name="nonces")
    c.cov["nonces"] = len(ev)


def c24(c):
    rt.build()  # If this fails, it is not for what a configuration lacks.
    bs = builds(c, QUICK + (MORE if c.thorough else []))
    if c.violations:
        return
    r = checks.rng(c)
    res = c.model("MC_Builds", cfg="MC_Builds.deep.cfg" if c.thorough else "MC_Builds.cfg")
    replay(c, bs, sess.printed(res.out))
    run(c, bs, "session", [session_case(r, i) for i in range(c.n(400, 5000))], "session", spoil_out)
    run(c, bs, "entry", [entry_case(r, i) for i in range(c.n(250, 3000))], "entry", spoil_out)
    run(c, bs, "quiet", [quiet_case(r, i) for i in range(c.n(300, 4000))], "quiet", spoil_heap)
    nonces(c, bs)
    c.cov["builds"] = [b.name for b in bs]


TABLE = {"C24": c24}
