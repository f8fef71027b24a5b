"""C27."""
import json, urllib.parse
import checks, gen, rt, sess
from rt import octets

HOWS = ["hform", "hquery", "form", "query"]
NEXT = {"hform": ["authorize", "authorize_with_buf", "into_authorization", "into_authorization_with_buf"],
        "form": ["to_form", "to_form_with_buf", "into_form", "into_form_with_buf"], "query": ["to_query", "into_query"]}
SHORT = {"hform": ["put", "post", "delete"], "hquery": ["get", "delete"], "form": ["post_form"], "query": ["get_query"]}
FREE = {"hform": ["free.put", "free.post", "free.delete", "free.authorize"], "hquery": ["free.get", "free.authorize"]}
CONSUMING = {"into_authorization", "into_form", "into_query", "into_authorization_with_buf", "into_form_with_buf"}


def name(r):
    """A text for a credential: not empty."""
    while True:
        t = gen.text(r, 0.01)
        if t:
            return t


def response(r, tid, sec, first):
    """The body of a response, and how it is read."""
    ps = [("oauth_token", tid), ("oauth_token_secret", sec)]
    if first:
        ps.append(("oauth_callback_confirmed", "true"))
    for _ in range(r.choice([0, 0, 1, 2])):
        ps.append((r.choice(["user_id", "screen_name", "oauth_token_", "x", "oauth_expires_in"]), gen.text(r, 0)))
    r.shuffle(ps)
    ps = list(dict(ps).items())
    fmt = r.choice(["form", "form", "form", "bytes", "json"])
    if fmt == "json":
        # What else a server says may be of any type.
        odd = [True, False, 0, -1, 1.5, None, [], ["a", 1], {}, {"oauth_token": "x", "oauth_token_secret": "y"}]
        ps = [(k, v if k in ("oauth_token", "oauth_token_secret") or r.random() < 0.4 else r.choice(odd)) for k, v in ps]
        return fmt, json.dumps(dict(ps), ensure_ascii=r.random() < 0.5)
    q = r.choice([urllib.parse.quote, urllib.parse.quote_plus, gen.enc])
    return fmt, "&".join(k + "=" + (q(v) if q is gen.enc else q(v, safe="")) for k, v in ps)


def params(r, n):
    ps = []
    for p in gen.params(r, n, encoded=0, long=0.01):
        p = dict(p, ty=r.choice(["", "char", "fmt", "args"]))
        p["pieces"] = gen.pieces(r, p["v"])
        ps.append(p)
    return ps


def request(r, n):
    kind = r.choice(["vec", "plist", "plistbox", "optlist"]) if n else r.choice(["unit", "empty", "optnone", "vec"])
    return {"kind": kind, "params": params(r, n)}


class Party:
    """One client going through one flow: a builder, two places for credentials."""

    def __init__(self, r, i, client, w, ev, granted):
        self.r, self.reg, self.temp, self.tok, self.client, self.w, self.ev = r, i, 2 * i - 1, 2 * i, client, w, ev
        self.stage, self.live, self.odd = 0, False, r.random() < 0.25
        self.left = r.randrange(1, 4)
        self.have, self.granted = set(), granted
        self.set_now = {}

    def unused(self, what):
        """An identifier that has not been granted."""
        while True:
            t = name(self.r)
            if (what, t) not in self.granted:
                self.granted.add((what, t))
                return t

    def op(self, op, **kw):
        self.ev.append(dict(kw, op=op, r=self.reg))

    def put(self, f, v):
        """Sets f unless it has that value."""
        if self.set_now.get(f, False if f == "version" else None) != v:
            self.op("set", field=f, v=v, how=self.r.choice(["", "opt"]))
            self.set_now[f] = v

    def builder(self, k):
        """A builder with the credentials at k (0: none)."""
        r = self.r
        x = r.random()
        if self.live and x < 0.6:
            self.op("token", k=k)
        elif k and x < 0.9:
            self.op("with_token", k=k, cid=self.client["cid"], csec=self.client["csec"])
            self.set_now, self.live = {}, True
        else:
            self.op("new", cid=self.client["cid"], csec=self.client["csec"])
            self.set_now, self.live = {}, True
            if k:
                self.op("token", k=k)

    def ask(self, uri, req, short=True):
        r = self.r
        how = r.choice(HOWS)
        entry = r.choice(SHORT[how] if short and r.random() < 0.5 else NEXT["hform" if how == "hquery" else how])
        method = gen.method(r, 0.1)
        if r.random() < 0.3:
            self.put("version", not self.set_now.get("version", False))
        if r.random() < 0.1:
            self.put("nonce", r.choice(["n1", "n2", ""]))
            self.put("timestamp", r.choice(["1", "1318622958"]))
        elif r.random() < 0.8:
            self.put("nonce", None)
            self.put("timestamp", None)
        self.op("ask", how=how, entry=entry, method=method, uri=uri, buf="", req=req)
        if entry in CONSUMING:
            self.live = False

    def step(self):
        r = self.r
        few = request(r, r.choice([0, 0, 1, 2]))
        odd = lambda p=0.3: self.odd and r.random() < p
        if self.stage == 0:
            self.builder(0 if not odd() else self.temp if self.temp in self.have else 0)
            self.put("callback", None if odd(0.2) else r.choice(["oob", "http://client/cb?x=1&y", gen.text(r, 0)]))
            self.put("verifier", None)
            self.ask(self.w["initiate"], few)
            self.temp_id = self.unused("temp")
            self.grant(self.temp, self.temp_id, r.choice(["", name(r), name(r), name(r)]), True)
            self.stage = 1
        elif self.stage == 1:
            self.verifier = r.choice(["", gen.text(r, 0), gen.text(r, 0), "hfdp7dh39dks9884"])
            if not odd():
                self.ev.append({"op": "approve", "r": 0, "id": self.temp_id, "verifier": self.verifier})
            self.stage = 2
        elif self.stage == 2:
            self.builder(self.temp if not odd(0.1) else 0)
            self.put("callback", None if r.random() < 0.8 else "oob")
            self.put("verifier", self.verifier if not odd() else gen.close(r, self.verifier))
            self.ask(self.w["token"], few)
            # (Servers do grant tokens of the same name as the temporary ones.)
            tid = self.temp_id if r.random() < 0.3 and ("token", self.temp_id) not in self.granted else self.unused("token")
            self.granted.add(("token", tid))
            self.grant(self.tok, tid, r.choice(["", name(r), name(r), name(r)]), False)
            self.stage = 2 if odd(0.15) else 3
        else:
            k = self.tok if not odd() else self.temp
            uri = gen.uri(r)
            if uri in (self.w["initiate"], self.w["token"]):
                return
            req = request(r, r.choice([0, 1, 1, 2, 3, 5]))
            if r.random() < 0.3:
                how = r.choice(list(FREE))
                self.ev.append({"op": "free", "r": 0, "k": k, "how": how, "entry": r.choice(FREE[how]), "by": r.choice(["", "ref", "parts"]),
                                "method": gen.method(r, 0.1), "uri": uri, "buf": "", "req": req,
                                "cid": self.client["cid"], "csec": self.client["csec"]})
            else:
                self.builder(k if r.random() < 0.9 else 0)
                self.put("callback", None if r.random() < 0.8 else "")
                self.put("verifier", None if r.random() < 0.8 else "v")
                self.ask(uri, req)
            self.left -= 1

    def grant(self, k, tid, sec, first):
        fmt, text = response(self.r, tid, sec, first)
        self.have.add(k)
        self.ev.append({"op": "grant", "r": 0, "k": k, "fmt": fmt, "text": text, "id": tid, "sec": sec, "keep": self.r.choice(["", "", "json", "form"])})

    def done(self):
        return self.stage == 3 and self.left <= 0


def case(r, i, kind):
    sm = {"h": lambda: gen.hmac(r), "p": lambda: gen.plaintext(r), "r": lambda: gen.rsa(r, checks.KEYS, idx=[0, 1])}[kind]()
    sm["either"] = r.choice(["", "", "left", "right", "nested"]) if sm["own"] not in ("06from", "09from", "arr") else ""
    clients = [{"cid": name(r), "csec": gen.text(r)} for _ in range(r.choice([1, 2]))]
    if len(clients) == 2 and clients[0]["cid"] == clients[1]["cid"]:
        clients.pop()
    w = {"initiate": "http://h/initiate", "token": "http://h/token"}
    ev = []
    granted = set()
    ps = [Party(r, j + 1, r.choice(clients), w, ev, granted) for j in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.1:
        # Somebody the server does not know.
        ps[0].client = {"cid": ps[0].client["cid"], "csec": ps[0].client["csec"] + "x"}
    for _ in range(40):
        live = [p for p in ps if not p.done()]
        if not live:
            break
        r.choice(live).step()
    return {"id": i, "sm": sm, "own": r.choice(["", "box", "mixed"]), "w": w, "clients": clients, "ev": ev}


def msg(e, m):
    method = e["method"]
    s = e["entry"].split(".")[-1].split("_")[0].upper()
    if s in ("GET", "PUT", "POST", "DELETE"):
        method = s
    return {"method": octets(method), "uri": octets(m["uri"]), "auth": [octets(x) for x in m["auth"]], "body": octets(m["body"])}


def alter(r, m):
    """A message somebody made of m."""
    import copy
    m = copy.deepcopy(m)
    where = r.choice([k for k in ("auth", "uri", "body", "method") if m[k]])
    t = m["auth"][0] if where == "auth" else m[where]
    i = r.randrange(len(t))
    x = r.randrange(4)
    if x == 0:
        t[i] = r.choice(b"&=%,\"+ ab20")
    elif x == 1:
        del t[i]
    elif x == 2:
        t.insert(i, r.choice(b"&=%,\"+ ab20"))
    else:
        j = r.randrange(len(t))
        t[i], t[j] = t[j], t[i]
    return m


def trace(r, x, o):
    if len(o["res"]) < len(x["ev"]) or any(q and "err" in q for q in o["res"]):
        return None
    sm = sess.sm_trace(x["sm"])
    w = {k: octets(v) for k, v in x["w"].items()}
    w["clients"] = [{"cid": octets(k["cid"]), "csec": octets(k["csec"]), "sm": sm} for k in x["clients"]]
    ev, asks = [], 0
    for e, q in zip(x["ev"], o["res"]):
        t = {"op": e["op"], "r": e["r"]}
        if e["op"] in ("new", "with_token", "free"):
            t.update(cid=octets(e["cid"]), csec=octets(e["csec"]))
        if e["op"] in ("with_token", "token", "grant", "free"):
            t["k"] = e["k"]
        if e["op"] == "set":
            t.update(field=e["field"], v=e["v"] if e["field"] == "version" else sess.opt(e["v"]))
        elif e["op"] == "approve":
            t.update(id=octets(e["id"]), verifier=octets(e["verifier"]))
        elif e["op"] == "grant":
            t.update(fmt="form" if e["fmt"] in ("form", "bytes") else "json", text=octets(e["text"]), id=octets(e["id"]), sec=octets(e["sec"]),
                     got=[octets(k) for k in q["got"]])
        elif e["op"] in ("ask", "free"):
            t.update(entry=e["entry"], method=octets(e["method"]), uri=octets(e["uri"]), buf=octets(e["buf"]), req=sess.req_trace(e["req"]),
                     m=msg(e, q["m"]), clock=[octets(k) for k in q["clock"]])
            asks += 1
        ev.append(t)
        if e["op"] in ("ask", "free") and r.random() < 0.4:
            ev.append({"op": "again", "of": r.randrange(1, asks + 1)})
        if e["op"] in ("ask", "free") and r.random() < 0.3 and x["sm"]["kind"] != "plaintext":
            ev.append({"op": "altered", "m": alter(r, t["m"])})
    return {"w": w, "sm": sm, "ev": ev}


def spoil(x):
    for e in reversed(x["ev"]):
        if e["op"] == "ask" and e["m"]["auth"]:
            a = e["m"]["auth"][0]
            a[bytes(a).rfind(b"oauth_consumer_key") + 6] ^= 1
            return True
    return False


def replay(c, h, scen, label):
    cases = []
    t = sess.text
    for i, s in enumerate(scen):
        kind = s["kind"]
        ev, want = [], []
        for n, q in enumerate(s["hist"]):
            for e in q["ops"]:
                f, v = e.get("field"), e.get("v")
                if e["op"] == "new":
                    ev.append({"op": "new", "r": 1, "cid": t(e["cid"]), "csec": t(e["csec"])})
                elif e["op"] == "with_token":
                    ev.append({"op": "with_token", "r": 1, "cid": t(e["cid"]), "csec": t(e["csec"]), "k": n})
                elif f == "token":
                    ev.append({"op": "token", "r": 1, "k": n})
                else:
                    ev.append({"op": "set", "r": 1, "field": f, "v": v if f == "version" else sess.one(v)})
            m = t(q["method"])
            entries = {"hform": "authorize", "hquery": "authorize", "form": "to_form", "query": "to_query"}
            req = {"kind": q["req"]["kind"], "params": [{"k": t(p["k"]), "v": t(p["v"]), "enc": p["enc"]} for p in q["req"]["params"]]}
            ev.append({"op": "ask", "r": 1, "how": q["how"], "entry": entries[q["how"]], "method": m, "uri": t(q["uri"]), "buf": "", "req": req})
            want.append((len(ev) - 1, {"uri": t(q["m"]["uri"]), "auth": [t(a) for a in q["m"]["auth"]], "body": t(q["m"]["body"])}))
            if n + 1 < len(s["hist"]):
                tid, sec = [t(a) for a in s["hist"][n + 1]["after"]]
                ev.append({"op": "grant", "r": 0, "k": n + 1, "fmt": "form", "text": f"oauth_token={gen.enc(tid)}&oauth_token_secret={gen.enc(sec)}"})
        cases.append({"id": i, "sm": {"kind": kind, "own": "const"}, "own": ["", "box", "mixed"][i % 3], "ev": ev, "want": want})
    obs = rt.execute(h, "flow", cases)
    bad = 0
    for x in cases:
        o = obs.get(x["id"])
        if o is None or bad >= 2:
            continue
        got = o.get("res", [])
        if not all(j < len(got) and got[j].get("m") == m for j, m in x["want"]):
            bad += 1
            c.violation(f"{label}: the messages are not the specification's", {"case": x, "observed": o, "specification": [m for _, m in x["want"]]})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": label, "behaviours": len(cases)})


def c27(c):
    h = rt.build()
    res = c.model("MC_Flow")
    replay(c, h, sess.printed(res.out), "MC_Flow")
    for cfg in ["deep", "wide"] if c.thorough else ["attack"]:
        c.model("MC_Flow", cfg=f"MC_Flow.{cfg}.cfg", name=f"MC_Flow with attacks ({cfg})", timeout=7000)
    r = checks.rng(c)
    cases = [case(r, i, r.choice("hhhhppr")) for i in range(c.n(200, 2500))]
    obs = rt.execute(h, "flow", cases)
    runs, kept = [], []
    for x in cases:
        o = obs.get(x["id"])
        if o is None:
            continue
        t = trace(r, x, o) if "res" in o else None
        if t is None:
            if not c.violations:
                c.violation("a flow breaks off: the library panics or cannot read a response", {"case": x, "observed": o})
            continue
        runs.append(t)
        kept.append({"case": x, "observed": o})
    c.validate("Trace_Flow", runs, cases=kept, name="flows")
    c.samples += kept[:1]
    c.cov["requests"] = sum(e["op"] in ("ask", "free") for x in runs for e in x["ev"])
    checks.spoil(c, runs, spoil, "Trace_Flow")


TABLE = {"C27": c27}
