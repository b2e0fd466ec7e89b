"""C13: a quoted word reads back as itself.  Every value a token of a short text has, and values of longer ones."""
from . import gen, c01

QUOTES = ["\\", '"', "'", "$", "{", "}", " "]


def is_plain(w):
    return w != "" and not any(ch.isspace() or ch in "{};\"'\\$#\r" or ch in "\u0085\u00a0" for ch in w)


def word(t):
    return t["e"] == "" and (t["q"] or not (t["v"] in ("{", "}", ";") or t["v"].startswith("#")))


def values(toks):
    """of the words that are complete: something follows them"""
    return [t["v"] for t, n in zip(toks, toks[1:]) if word(t) and n["e"] == ""]


def quote_ok(w, r):
    """the same judgement as QuoteOK"""
    def tok(t, v):
        return t["v"] == v and t["e"] == "" and not t["q"]

    def read(t):
        return t["v"] == w and t["e"] == "" and (t["q"] or not (w in ("{", "}", ";") or w.startswith("#")))
    at, nt = r["at"], r["nt"]
    return (len(at) == 4 and tok(at[0], "x") and read(at[1]) and tok(at[2], "y") and tok(at[3], ";")
            and len(nt) == 3 and read(nt[0]) and tok(nt[1], "y") and tok(nt[2], ";")
            and r["a"] == "x " + r["e"] + " y;"
            and (not is_plain(w) or r["a"] == "x " + w + " y;" and r["n"] == w + " y;")
            and (w != "" or at[1]["q"] and nt[0]["q"]))


def replay(c, ws, name):
    B = 2000
    obs = c.run_cases([dict(op="quoten", ws=ws[i:i + B]) for i in range(0, len(ws), B)], limit=60)
    bad = []
    for b, o in enumerate(obs):
        for k, w in enumerate(ws[b * B:(b + 1) * B]):
            if o.get("k") != "done" or not quote_ok(w, o["outs"][k]):
                bad.append(w)
    c.traces += len(ws)
    c.stage(name + ":replay", words=len(ws), mismatches=len(bad), plain=sum(map(is_plain, ws)))
    bad.sort(key=len)
    if bad:
        c.conform([dict(op="quoten", ws=[w]) for w in bad[:100]], name="suspects", sample=0)
    elif ws:
        w = ws[len(ws) // 3]
        c.sample({"word": w, "written": obs[(len(ws) // 3) // B]["outs"][(len(ws) // 3) % B]["a"]})


def run(c):
    for name, alphabet, n in (("all-texts", c01.BASE, c.pick(5, 6)), ("quoting", QUOTES, c.pick(6, 7)), ("wide", c01.WIDE, c.pick(4, 5))):
        ws = set()
        for v in c01.vectors(c, alphabet, n, False, name):
            ws.update(values(v["t"]))
        replay(c, sorted(ws), name)
    g = gen.Gen(c.rng, weird=0.8)
    pieces = gen.Gen.SPECIAL + ["a", "$x", "${y}", "${a b}", "\\\"", "\\'", "\\\\", "\\;", "\\{", "\u0085", "\u00e9", "\u2028", "'", '"', "#x", "\\\r"]
    texts = []
    for _ in range(c.pick(4000, 80000)):
        x = c.rng.random()
        if x < 0.4:
            w = g.word()
        elif x < 0.7:
            q = c.rng.choice("\"'")
            w = q + g.soup(c.rng.choice([1, 2, 3, 5, 9, 30]), pieces) + q
        else:
            w = g.soup(c.rng.choice([1, 2, 3, 5, 9]), pieces)
        texts.append("x %s z;" % w if c.rng.random() < 0.8 else "%s z;" % w)
    B = 500
    ws = set()
    for o in c.run_cases([dict(op="lexn", xs=texts[i:i + B], lua=False) for i in range(0, len(texts), B)]):
        for ts in o.get("toksn", []):
            ws.update(values(ts))
    ws = sorted(ws)
    replay(c, ws, "longer-words")
    c.conform([dict(op="quoten", ws=ws[i:i + 40]) for i in range(0, len(ws), 40)], name="longer-words", sample=1)
