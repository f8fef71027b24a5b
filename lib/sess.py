"""Sessions: cases, their execution, and their traces."""
import gen, rt
from rt import octets

DEFAULT_ENV = {"debug": True, "order": True, "clock": True}
ENVS = {"dev": DEFAULT_ENV, "nodebug": {"debug": False, "order": False, "clock": True}}


def opt(x):
    return [] if x is None else [octets(x)]


def sm_trace(sm):
    return {"kind": sm["kind"], "name": octets(sm["name"]), "sig": octets(sm["sig"]), "use_nonce": sm["use_nonce"],
            "use_ts": sm["use_ts"], "hooks": sm["hooks"], "n": sm.get("n", []), "e": sm.get("e", 0)}


def cfg_trace(cfg, env):
    t = cfg["token"]
    return dict({"mode": cfg["mode"], "buf": octets(cfg["buf"]), "method": octets(cfg["method"]), "uri": octets(cfg["uri"]),
                 "cid": octets(cfg["cid"]), "csec": octets(cfg["csec"]),
                 "token": [] if t is None else [octets(t[0]), octets(t[1])],
                 "callback": opt(cfg["callback"]), "verifier": opt(cfg["verifier"]), "nonce": opt(cfg["nonce"]),
                 "timestamp": opt(cfg["timestamp"]), "version": cfg["version"], "sm": sm_trace(cfg["sm"])}, **env)


def param_trace(p):
    return {"k": octets(p["k"]), "v": octets(p["v"]), "enc": p["enc"]}


def req_trace(req):
    return {"kind": req["kind"], "wrap": req.get("wrap", []), "params": [param_trace(p) for p in req.get("params", [])]}


def ev_trace(e):
    if e["op"] == "param":
        return dict(param_trace(e), op="param")
    if e["op"] == "request":
        return {"op": "request", "req": req_trace(e["req"])}
    if e["op"] == "proto":
        return {"op": "proto", "slot": e["slot"]}
    return {"op": e["op"]}


HOOKS = {"callback", "consumer_key", "nonce", "signature_method", "timestamp", "token", "verifier", "version"}


def call_trace(c):
    n = c[0]
    if n == "sign_with":
        return [n, octets(c[1]), [octets(x) for x in c[2]]]
    return [n] + [octets(x) for x in c[1:]]


def run_trace(case, obs, chk, env=DEFAULT_ENV):
    """The recorded run, or None when there is nothing to judge (crash)."""
    if "crash" in obs:
        return None
    entry = case.get("entry", "")
    evs = [{"op": "request", "req": case["req"]}] if entry else case["ev"]
    ev = [ev_trace(e) for e in evs]
    calls = [call_trace(c) for c in obs.get("calls", [])]
    if "panic" in obs:
        i = obs["panic"]
        if entry:
            # An entry point opens and feeds in one go.
            i = 1
        if i == 0:
            ev = [{"op": "panic", "in": {"op": "open"}, "calls": calls}]
        else:
            at = ev[i - 1] if i <= len(ev) else {"op": "end", "sig": []}
            ev = ev[:i - 1] + [{"op": "panic", "in": at, "calls": calls}]
    else:
        ev.append({"op": "end", "out": octets(obs["out"]), "calls": calls})
    return {"cfg": cfg_trace(case["cfg"], env), "ev": ev, "chk": chk, "entry": entry,
            "clock": [octets(x) for x in obs.get("clock", [])]}


def case(r, cfg, ps, i, sink=None):
    return {"id": i, "cfg": cfg, "ev": gen.squash(r, gen.merge(ps)), "sink": sink or r.choice(["string", "string", "chunks"])}


def run(check, binary, cases, chk, env=DEFAULT_ENV, family="session", label=""):
    """Execute cases, return (traces, cases) without the crashed ones, which are reported."""
    obs = rt.execute(binary, family, cases)
    runs, kept = [], []
    for c in cases:
        o = obs.get(c["id"])
        if o is None:
            continue
        t = run_trace(c, o, chk(c) if callable(chk) else chk, env)
        if t is None:
            check.violation(f"the library ends the process or hangs{label}: {o['crash']}", {"case": c, "observed": o})
            continue
        runs.append(t)
        kept.append({"case": c, "observed": o})
    return runs, kept


# ------------------------------------------------ replaying behaviours ----
def text(bs):
    return bytes(bs).decode("utf-8")


def one(x):
    return text(x[0]) if x else None


def cfg_case(t):
    """A configuration printed by TLC, as a case."""
    sm = t["sm"]
    hooks = list(sm["hooks"])
    hookset = {0: "none", 8: "all"}[len(hooks)]
    return {"mode": t["mode"], "buf": text(t["buf"]), "method": text(t["method"]), "uri": text(t["uri"]),
            "cid": text(t["cid"]), "csec": text(t["csec"]), "token": [text(x) for x in t["token"]] or None,
            "callback": one(t["callback"]), "verifier": one(t["verifier"]), "nonce": one(t["nonce"]),
            "timestamp": one(t["timestamp"]), "version": t["version"],
            "sm": {"kind": sm["kind"], "name": text(sm["name"]), "sig": text(sm["sig"]), "use_nonce": sm["use_nonce"],
                   "use_ts": sm["use_ts"], "hooks": hooks, "hookset": hookset}}


def printed(out):
    """The JSON records a model printed."""
    import json
    return [json.loads(json.loads(line)) for line in out.split("\n") if line.startswith('"{')]


def calls_base(name, calls):
    """The base string a custom method puts together from its calls."""
    s = ""
    for c in calls:
        if c[0] == "sign_with" or c[0] == "end":
            pass
        elif c[0] == "request_method":
            s += gen.enc(c[1]) + "&"
        elif c[0] == "uri":
            s += c[1] + "&"
        elif c[0] == "delimiter":
            s += "%26"
        elif c[0] == "parameter":
            s += c[1] + "%3D" + c[2]
        elif c[0] == "signature_method":
            s += "oauth_signature_method%3D" + name
        elif c[0] == "version":
            s += "oauth_version%3D1.0"
        else:
            s += "oauth_" + c[0] + "%3D" + c[1]
    return s


def replay(check, binary, scenarios, judge, label, keep=lambda s: True):
    """Takes the steps of the printed behaviours in the real library and compares
    what it does with what the specification says (judge: out, base, calls)."""
    cases = []
    scen = [s for s in scenarios if keep(s)]
    for i, s in enumerate(scen):
        ps = [{"op": "param", "k": text(p["k"]), "v": text(p["v"]), "enc": p["enc"], "ty": ["", "str"][i % 2]}
              for p in s["req"]["params"]]
        cases.append({"id": i, "cfg": cfg_case(s["cfg"]), "ev": gen.merge(ps), "sink": ["string", "chunks"][i % 3 == 2]})
    obs = rt.execute(binary, "session", cases)
    bad = 0
    for s, c in zip(scen, cases):
        o = obs.get(c["id"])
        if o is None or bad >= 2:
            continue
        what = None
        if "crash" in o or "panic" in o:
            what = "the library panics or crashes where the specification goes on"
        elif "out" in judge and octets(o["out"]) != s["out"]:
            what = "the output is not the specification's"
        elif "calls" in judge and [call_trace(x) for x in o["calls"]] != s["calls"]:
            what = "the calls made to the signature method are not the specification's"
        elif "base" in judge and octets(calls_base(c["cfg"]["sm"]["name"], o["calls"])) != s["base"]:
            what = "the signed text is not the specification's"
        if what:
            bad += 1
            check.violation(f"{label}: {what}", {"case": c, "observed": o, "specification":
                            {k: (text(s[k]) if k != "calls" else s[k]) for k in ("out", "base", "calls")}})
    check.traces += len(scen)
    check.cov.setdefault("replayed", []).append({"model": label, "behaviours": len(scen)})
