"""Random inputs.  Everything is drawn from one seeded random.Random."""
import random

UNRESERVED = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"
SLOTS = ["oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method",
         "oauth_timestamp", "oauth_token", "oauth_verifier", "oauth_version"]
RESERVED_KEYS = set(SLOTS) | {"oauth_signature"}
SYNTAX = ["&", "=", "%", ",", '"', "?", "+", " ", "/", ":", "#", ";", "%26", "%3D", "%25", "%2526", "%3d",
          "\\", "'", "<", ">", "{", "}", "|", "^", "`", "[", "]", "@", "!", "$", "*", "(", ")"]
WIDE = ["\u0080", "é", "\u07ff", "\u0800", "日", "本", "€", "\uffff", "\ufffd", "😀", "\U0010ffff", "a\u0301",
        "\u00a0", "ß", "\u200d", "\ud7ff", "\ue000"]
CTRL = ["\0", "\t", "\n", "\r", "\x1b", "\x7f"]


def enc(s):
    return "".join(chr(b) if chr(b) in UNRESERVED else "%%%02X" % b for b in s.encode())


def wchoice(r, *pairs):
    """wchoice(r, weight, fn, weight, fn, ...)"""
    ws, fs = pairs[0::2], pairs[1::2]
    f = r.choices(fs, ws)[0]
    return f() if callable(f) else f


def safe(r, n):
    return "".join(r.choice(UNRESERVED) for _ in range(n))


def mixed(r, n):
    out = []
    for _ in range(n):
        out.append(wchoice(r, 5, lambda: r.choice(UNRESERVED), 4, lambda: r.choice(SYNTAX),
                           2, lambda: r.choice(WIDE), 1, lambda: r.choice(CTRL),
                           1, lambda: chr(r.randrange(128))))
    return "".join(out)


def text(r, long=0.03):
    if r.random() < long:
        n = r.choice([60, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1000])
        return wchoice(r, 2, lambda: safe(r, n), 1, lambda: mixed(r, n // 3), 1, lambda: r.choice(WIDE) * (n // 4))
    return wchoice(r, 2, "", 3, lambda: safe(r, r.randrange(1, 9)), 5, lambda: mixed(r, r.randrange(1, 7)),
                   2, lambda: r.choice(SYNTAX), 1, lambda: r.choice(WIDE), 1, "1.0", 1, "true")


def close(r, t):
    """A text that is nearly t."""
    x = r.randrange(12)
    if x == 0:
        return t.swapcase()
    if x == 1 and t:
        j = r.randrange(len(t))
        return t[:j] + t[j].swapcase() + t[j + 1:]
    if x == 2:
        return r.choice([" " + t, t + " ", t + "\0", "\ufeff" + t, t + "\u200b"])
    if x == 3:
        return t.strip()
    if x == 4:
        return enc(t)
    if x == 5:
        import urllib.parse
        return urllib.parse.unquote(t)
    if x == 6:
        import unicodedata
        return unicodedata.normalize(r.choice(["NFC", "NFD", "NFKC"]), t)
    if x == 7 and t:
        return r.choice([t[:-1], t[1:], t[::-1]])
    if x == 8:
        return t + t
    if x == 9:
        return t.replace(" ", "+") if " " in t else t.replace("+", " ")
    if x == 10 and t:
        return t[:-1] + chr((ord(t[-1]) + r.choice([1, 32, 128, 256])) % 0xD800)
    return t + safe(r, 1)


def sized(r):
    """A length next to a power of two, or to a sum of two of them."""
    n = 2 ** r.randrange(4, 13) + (2 ** r.randrange(4, 12) if r.random() < 0.2 else 0)
    if r.random() < 0.06:
        n = 2 ** r.randrange(13, 16)
    return n + r.choice([-1, 0, 1, 2])


def lengthen(r, cfg, ps, at=None):
    """Makes one text long; how long is measured before or after encoding."""
    n = sized(r)
    t = wchoice(r, 3, lambda: safe(r, n), 1, lambda: r.choice(WIDE + [" ", "&", "%"]) * (n // r.choice([1, 2, 3, 9]) + 1),
                1, lambda: mixed(r, n // 3 + 1))
    at = at or r.choice(["v", "v", "e", "e", "e", "k", "cid", "csec", "token", "tsec", "nonce", "uri", "callback", "verifier"])
    if at in ("v", "e", "k") or cfg["mode"][0] == "p":
        prev = [p["k"] for p in ps]
        p = {"op": "param", "k": key(r, prev), "v": enc(t) if at == "e" else t, "enc": at == "e",
             "ty": r.choice(["str", "string", "refref", "boxed", "fmt", "char", "args"])}
        if at == "k":
            p.update(k=safe(r, n), v=text(r, 0))
        if p["ty"] in ("fmt", "char", "args"):
            p["pieces"] = pieces(r, p["v"])
        ps.append(p)
        ps.sort(key=encpair)
    elif at in ("token", "tsec"):
        cfg["token"] = [t, text(r, 0)] if at == "token" else [text(r, 0), t]
    elif at == "uri":
        cfg["uri"] = ("http://h/" + t).replace("?", "")
        cfg["uri_pieces"] = pieces(r, cfg["uri"])
    else:
        cfg[at] = t


def near_keys():
    ks = ["a", "b", "z", "~", "-", "0", "Z", "_", "o", "oa", "oauth", "oauth_", "oauth-", "oauth~", "oauth.x",
          "oauth_a", "oauth_zzz", "oauti", "p", "OAUTH_TOKEN", "oauth_signatur", "oauth_signature0",
          "oauth_signature_", "oauth_c", "oauth_n", "oauth_s", "oauth_t", "oauth_v", "n", "type", "x-y", "a.b",
          "oauth_token_secret", "oauth_body_hash", "oauthx", "aa", "ab", "a-", "a0"]
    for n in SLOTS:
        ks += [n[:-1], n[:-1] + chr(ord(n[-1]) - 1), n[:-1] + chr(ord(n[-1]) + 1), n + "0", n + "-", n + "~", n + ".",
               n + "_", n + "2", n.upper(), n[:-1] + n[-1].upper()]
    return sorted({k for k in ks if k and all(c in UNRESERVED for c in k) and k not in RESERVED_KEYS})


NEAR = near_keys()


def key(r, prev):
    while True:
        k = wchoice(r, 6, lambda: r.choice(NEAR), 3, lambda: safe(r, r.randrange(1, 6)),
                    1 if prev else 0, lambda: r.choice(prev),
                    1 if prev else 0, lambda: r.choice(prev) + r.choice(UNRESERVED),
                    0.3, "", 0.2, lambda: safe(r, r.choice([30, 64, 300])))
        if k not in RESERVED_KEYS:
            return k


def pieces(r, t):
    cuts = sorted(r.randrange(len(t) + 1) for _ in range(r.randrange(0, 5)))
    if len(t) > 100 and r.random() < 0.5:
        # Little ones around a large one.
        cuts = sorted(r.randrange(12) for _ in range(r.randrange(1, 4))) + [len(t) - r.randrange(12)]
    ps, a = [], 0
    for c in cuts + [len(t)]:
        ps.append(t[a:c])
        a = c
    return ps


def value(r, encoded=False, long=0.03):
    """A displayable value: text plus how it is displayed."""
    v = {}
    if not encoded and r.random() < 0.12:
        ty = r.choice(["u64", "i64", "bool", "chr", "f64"])
        v["ty"] = ty
        v["v"] = {"u64": lambda: str(r.choice([0, 1, 42, 2**32, 2**64 - 1])),
                  "i64": lambda: str(r.choice([0, -1, -(2**63), 77])),
                  "bool": lambda: r.choice(["true", "false"]),
                  "chr": lambda: r.choice(SYNTAX[:12] + WIDE[:10])[0],
                  "f64": lambda: r.choice(["1.5", "-0.25", "3"])}[ty]()
        return v
    t = text(r, long)
    if encoded:
        t = enc(t)
    v["v"] = t
    v["ty"] = r.choice(["", "", "str", "string", "refref", "boxed", "char", "fmt", "args", "pad"])
    if v["ty"] not in ("str", "string", "refref", "boxed"):
        v["pieces"] = pieces(r, t)
    return v


def param(r, prev, encoded=0.25, long=0.03):
    e = r.random() < encoded
    p = {"op": "param", "k": key(r, prev), "enc": e}
    p.update(value(r, e, long))
    return p


def encpair(p):
    return (p["k"].encode(), (p["v"] if p["enc"] else enc(p["v"])).encode())


def params(r, n=None, encoded=0.25, long=0.03):
    if n is None:
        n = wchoice(r, 2, 0, 3, 1, 3, 2, 4, lambda: r.randrange(3, 7), 0.3, lambda: r.randrange(8, 25),
                    0.04, lambda: r.randrange(25, 140))
    ps, ks = [], []
    for _ in range(n):
        p = param(r, ks, encoded, long)
        ks.append(p["k"])
        ps.append(p)
    # Now and then the same name with values whose raw and encoded order differ.
    if ps and r.random() < 0.2:
        for v in r.sample(["{", "a", "~", "%", "é", "A", "", "-", "/"], 2):
            ps.append({"op": "param", "k": ps[0]["k"], "v": v, "enc": False, "ty": "str"})
    ps.sort(key=encpair)
    return ps


def merge(ps):
    """Parameters and slots in ascending order of names (a slot after equal names)."""
    evs, i = [], 0
    for p in ps:
        while i < 8 and SLOTS[i].encode() < p["k"].encode():
            i += 1
            evs.append({"op": "proto", "slot": i})
        evs.append(p)
    while i < 8:
        i += 1
        evs.append({"op": "proto", "slot": i})
    return evs


def squash(r, evs):
    """Write eight slots in a row as one step, most of the time."""
    at = [i for i, e in enumerate(evs) if e["op"] == "proto"]
    if len(at) == 8 and at[-1] - at[0] == 7 and r.random() < 0.7:
        return evs[:at[0]] + [{"op": "all"}] + evs[at[-1] + 1:]
    return evs


METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT", "TRACE", "PURGE", "M-SEARCH", "PROPFIND"]
ODD_METHODS = ["", "A&B", "A=B", "A%26", "X Y", "BAN!", "*", "É", "A/B", "M~._-"]


def method(r, odd=0.25):
    return r.choice(ODD_METHODS) if r.random() < odd else r.choice(METHODS)


URIS = ["http://example.com/request", "https://api.example.com/1.1/statuses/update.json", "http://a/", "a", "",
        "http://example.com/r%20v/X", "http://EXAMPLE.COM:80/r", "http://example.com/a&b=c", "http://例え.jp/パス",
        "http://example.com/~user/_-.", "http://[::1]:8080/x", "http://e/#frag", "http://e/ 'x'", "http://e/%26%3D%25",
        "http://u:p@h/p;q"]


def uri(r):
    u = wchoice(r, 8, lambda: r.choice(URIS), 2, lambda: "http://h/" + mixed(r, r.randrange(1, 8)).replace("?", "!"),
                0.3, lambda: "http://h/" + "x/" * 300)
    return u.replace("?", "")


BUFS = ["", "", "a=b", "x", "Authorization: ", "pre&fix", "日本", "OAuth ", "q=1&", "?", " " * 20, "b" * 600]


def optional(r, f, p=0.5):
    return f() if r.random() < p else None


TIMESTAMPS = ["1", "9", "10", "1318622958", "4294967295", "4294967296", "18446744073709551615", "9223372036854775808"]


def cfg(r, modes=("header", "form", "query"), pin=0.7, odd_method=0.25):
    u = uri(r)
    c = {
        "mode": r.choice(modes), "buf": r.choice(BUFS), "method": method(r, odd_method), "uri": u,
        "uri_pieces": pieces(r, u), "uri_how": r.choice(["", "char", "fmt", "args"]),
        "cid": text(r), "csec": text(r),
        "token": optional(r, lambda: [text(r), text(r)], 0.6),
        "callback": optional(r, lambda: r.choice(["oob", "", text(r), "http://c.example/cb?x=y&z"]), 0.4),
        "verifier": optional(r, lambda: r.choice(["", text(r), "hfdp7dh39dks9884"]), 0.4),
        "nonce": optional(r, lambda: r.choice(["", "kYjzVBB8Y0ZF", text(r)]), pin),
        "timestamp": optional(r, lambda: r.choice(TIMESTAMPS), pin),
        "version": r.random() < 0.5, "churn": r.random() < 0.2,
    }
    return c


HOOKSETS = {
    "none": [], "all": ["callback", "consumer_key", "nonce", "signature_method", "timestamp", "token", "verifier", "version"],
    "a": ["callback", "nonce", "timestamp", "verifier"], "b": ["consumer_key", "signature_method", "token", "version"],
}


def record(r, hooks=None, optout=0.3, either=0.0):
    h = hooks or r.choice(list(HOOKSETS))
    return {"kind": "record", "name": r.choice(["RECORD", "HMAC-SHA256", "X", "A-b._~9"]),
            "sig": r.choice(["", "abc", "a%2Bb%3D", "%2500", enc(text(r, 0))]),
            "use_nonce": r.random() >= optout, "use_ts": r.random() >= optout, "hookset": h, "hooks": HOOKSETS[h],
            "either": r.choice(["left", "right", "nested"]) if r.random() < either else ""}


def builtin(kind, name, r, owns, either=0.0, **kw):
    return dict({"kind": kind, "name": name, "sig": "", "use_nonce": True, "use_ts": True, "hookset": "none", "hooks": [],
                 "own": r.choice(owns), "either": r.choice(["left", "right", "nested"]) if r.random() < either else ""}, **kw)


def hmac(r, either=0.0):
    return builtin("hmac", "HMAC-SHA1", r, ["const", "new", "default"], either)


def plaintext(r, either=0.0):
    return builtin("plaintext", "PLAINTEXT", r, ["const", "new", "chunks", "arr"], either)


def rsa(r, keys, either=0.0, idx=None):
    i = r.choice(idx or range(len(keys)))
    k = keys[i]
    return builtin("rsa", "RSA-SHA1", r, ["06val", "06ref", "06from", "09val", "09ref", "09from"], either,
                   key=i, n=list(bytes.fromhex(k["n"])), e=k["e"])
