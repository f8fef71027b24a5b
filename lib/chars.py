"""C16."""
import checks, rt, sess
from more import judge

VALUES = ["plainform.value", "plainquery.value", "form.value", "query.value", "sign.value", "sign.encoded", "sign.uri"]
TEXTS = [f"{m}.{w}" for m in ("header", "sign") for w in ("cid", "token", "callback", "verifier", "nonce")] + \
        [f"form.{w}" for w in ("cid", "token", "callback", "verifier", "nonce")] + ["query.cid", "query.callback", "query.token",
         "sign.uriquery", "header.csec", "header.tsec", "form.csec", "query.tsec"]


def trace(x, o):
    whole, each = o["whole"], o["each"]
    cut = []
    for e in each:
        cut.append(whole[:len(e)])
        whole = whole[len(e):]
    return {"where": x["where"], "from": x["from"], "to": x["to"], "each": each, "whole": cut + ([whole] if whole else [])}


def blocks(a, b, n):
    return [(i, min(i + n - 1, b)) for i in range(a, b + 1, n)]


def spoil(x):
    if not x["each"]:
        return False
    x["whole"][-1] = x["whole"][-1].lower() if x["whole"][-1] != x["whole"][-1].lower() else "x"
    return True


def c16(c):
    h = rt.build()
    # Every way of writing every short text.
    res = c.model("MC_Chars", cfg="MC_Chars.deep.cfg" if c.thorough else "MC_Chars.cfg")
    scen = sess.printed(res.out)
    cases, wants = [], []
    for i, s in enumerate(scen):
        ps = [bytes(p).decode() for p in s["pieces"]]
        for k, w in enumerate([VALUES[i % 4], "sign.value", VALUES[5 + i % 2]]):
            cases.append({"id": len(cases), "where": w, "pieces": ps, "how": ["", "fmt", "pad"][(i // 4) % 3]})
            wants.append(s["twice"] if w == "sign.value" else s["once"])
    obs = rt.execute(h, "chars", cases)
    bad = 0
    for x, w in zip(cases, wants):
        o = obs.get(x["id"])
        if o is None or bad >= 2:
            continue
        if rt.octets(o.get("got", "panic")) != w:
            bad += 1
            c.violation(f"MC_Chars: {x['where']}: the text is not encoded as specified",
                        {"case": x, "observed": o, "specification": sess.text(w)})
    c.traces += len(cases)
    c.cov.setdefault("replayed", []).append({"model": "MC_Chars", "behaviours": len(cases)})
    # Every scalar value.
    r = checks.rng(c)
    cases = []

    def add(w, bs):
        for a, b in bs:
            cases.append({"id": len(cases), "where": w, "from": a, "to": b})

    everywhere = VALUES + TEXTS if c.thorough else ["plainform.value", "sign.value"]
    low, bmp, rest = blocks(0, 0x7FF, 64), blocks(0x800, 0xFFFF, 256), blocks(0x10000, 0x10FFFF, 256)
    for w in VALUES + TEXTS:
        if w in everywhere:
            add(w, low + bmp + rest)
        else:
            add(w, low + r.sample(bmp, 6) + r.sample(rest, 6))
    part = 60000
    for i in range(0, len(cases), part):
        if c.violations:
            break
        judge(c, "Trace_Chars", h, "chars", cases[i:i + part], trace, how=spoil if i == 0 else None, label=f"/{i // part}" if i else "",
              sample=1 if i == 0 else 0)
    c.cov["scalar_values"] = 0x110000 - 2048
    c.cov["places"] = {"all_scalars": len(everywhere), "sampled": len(VALUES + TEXTS) - len(everywhere)}


TABLE = {"C16": c16}
