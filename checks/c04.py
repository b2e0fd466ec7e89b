"""C04: acceptance. Every combination of declared uses, places, arguments, ends and options
of the model, replayed; texts with several directives, validated with their reports."""
import json
from . import gen, c01, parsing

SHAPES = [["0"], ["1"], ["2"], ["3"], ["7"], ["1", "2"], ["1", "3"], ["0", "1"], ["flag"], ["any"], ["1+"], ["2+"], ["flag", "2"], ["4", "5", "6"]]
MORE = [["http.srv", "1"], ["http.srv", "block", "0"], ["http", "any"], ["http.srv", "flag"], ["http.srv", "expr", "any"], ["http.srv", "block", "expr", "1+"],
        ["main", "2+"], ["http.srv", "2+"], ["http.srv", "7"], ["http.loc", "http.sif", "3"], ["block", "1"], ["http.srv", "block", "any"]]
PATHS = [[], ["http"], ["http", "server"], ["http", "server", "if"], ["http", "location"], ["http", "location", "if"], ["http", "location", "limit_except"], ["http", "upstream"],
         ["events"], ["mail"], ["mail", "server"], ["stream"], ["stream", "server"], ["stream", "upstream"], ["mgmt"], ["http", "oidc_provider"],
         ["http", "server", "location"], ["http", "server", "location", "location"], ["http", "server", "location", "if"], ["http", "foo"], ["foo"], ["server"], ["http", "http"],
         ["http", "server", "if", "location"], ["stream", "location"], ["http", "location", "server"], ["mail", "http"], [""], ["http>server"], ["http", "server>if"], ["main"], ["http", ""], ["stream", "if"],
         ["http", "foo", "location", "if"], ["mgmt", "mgmt"]]
ARGS = [[], ["x"], ["on"], ["oFF"], ["x", "y"], ["x", "y", "z"], ["1", "2", "3", "4", "5", "6", "7"], ["1", "2", "3", "4", "5", "6", "7", "8"], ["(x)"], ["()"], ["(", ")"], ["(x", "y)"],
        ["(", "x", ")"], ["on", "off"], ["onn"], ["x", "(y)"], ["(x)", "y"], ["(a", ")"], [""], ["1", "2", "3", "4", "5"], ["("], ["((", "))"],
        ["x"] * 9, ["x"] * 17, ["x"] * 33, ["x"] * 65, ["x"] * 257, ["Off"], ["ON"], ["yes"], ["0"], ["on", ""]]


def opts():
    return [gen.opt(skipctx=a, skipargs=b, strict=s) for a in (False, True) for b in (False, True) for s in (False, True)]


def word(a):
    return '"%s"' % a if a == "" or any(ch in a for ch in " ;{}") else a


def text(path, args, term):
    s = "".join(word(b) + "{" for b in path)
    s += "d" + "".join(" " + word(a) for a in args)
    s += {";": ";", "{": "{}", "}": ""}[term]
    return s + "}" * len(path)


def wrapper_table(paths):
    """blocks are known and take part in no decision"""
    return [dict(n=n, m=[["main", "events", "mail", "mail.srv", "stream", "stream.srv", "stream.ups", "http", "http.srv", "http.loc", "http.ups", "http.sif", "http.lif", "http.lmt", "mgmt", "http.oidc", "block", "any"]])
            for n in sorted({b for p in paths for b in p})]


def exhaustive(c, name, uses, more, paths, args, terms, maxuses):
    f = c._tmp("setup.json")
    os_ = opts()
    with open(f, "w") as fh:
        json.dump(dict(uses=uses, more=more, ctxs=paths, args=args, terms=terms, opts=os_), fh)
    vec = c.model("MC_Accept", dict(MaxUses=maxuses, Export=True),
                  ["AcceptIffDeclared", "OptionsMonotone", "StrictOnlyUnknown", "SourcesAreAlternatives", "ReasonKnown", "ExportVec"],
                  ["MoreUsesAcceptMore"], env={"SETUP": f}, name=name)
    vecs = [c.vec(l) for l in vec]
    wrap = wrapper_table(paths)
    tabs, tidx = [wrap], {}

    def tab(us):
        k = json.dumps(us)
        if k not in tidx:
            tidx[k] = len(tabs)
            tabs.append([dict(n="d", m=us)] if us else [])
        return tidx[k]
    texts, xidx = [], {}
    items = []
    for v in vecs:
        ci, ai, ti = v["q"]
        if terms[ti - 1] == "}" and not paths[ci - 1]:
            continue
        x = text(paths[ci - 1], args[ai - 1], terms[ti - 1])
        if x not in xidx:
            xidx[x] = len(texts)
            texts.append(x)
        items.append((dict(s=[tab(v["us"]), 0], x=xidx[x]), v["w"]))
        if len(v["us"]) > 1:
            items.append((dict(s=[0] + [tab([u]) for u in v["us"]], x=xidx[x]), v["w"]))
            items.append((dict(s=[tab([u]) for u in reversed(v["us"])] + [0], x=xidx[x]), v["r"]))
    B = max(1, len(items) // 32)
    cases = [dict(op="acceptn", tables=tabs, texts=texts, opts=os_, items=[i for i, _ in items[k:k + B]]) for k in range(0, len(items), B)]
    obs = c.run_cases(cases, limit=300)
    n, bad = 0, []
    for b, o in enumerate(obs):
        rows = o["outs"] if o.get("k") == "done" else [None] * len(cases[b]["items"])
        for (it, want), got in zip(items[b * B:(b + 1) * B], rows):
            for k in range(len(os_)):
                n += 1
                if got is None or got[k] != want[k]:
                    if len(bad) < 200 or len(texts[it["x"]]) < 12:
                        bad.append((len(texts[it["x"]]), len(bad), gen.parse_case(texts[it["x"]], name="m.conf", src=None, **os_[k]), [tabs[s] for s in it["s"]]))
    c.traces += n
    c.stage(name + ":replay", replayed=n, mismatches=len(bad))
    if vecs:
        c.sample({"declared": vecs[-1]["us"], "text": texts[-1], "reasons_per_option_set": vecs[-1]["w"]})
    cs = []
    for _, _, case, src in sorted(bad, key=lambda t: t[:2])[:150]:
        cs.append(dict(case, src=src))
    if cs:
        c.conform(cs, name=name + ":suspects", sample=0)


def source(rng, names, uses=None):
    s = []
    for n in names:
        k = rng.choice([1, 1, 2, 3])
        us = []
        for _ in range(k):
            ctxs = rng.sample(gen.ALLCTX, rng.choice([1, 2, 4, 8, 16]))
            us.append(ctxs + rng.choice(SHAPES) + (["block"] if rng.random() < 0.4 else []) + (["expr"] if rng.random() < 0.15 else []))
        s.append(dict(n=n, m=us))
    return s


def random_case(rng):
    names = rng.sample(["a", "b", "http", "server", "location", "if", "upstream", "stream", "mail", "events", "include", "map", "#", "limit_except", "d e", "set"], rng.choice([3, 5, 8]))
    names = [n for n in names if n != "#"]
    srcs = [source(rng, rng.sample(names, max(1, len(names) // rng.choice([1, 2])))) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.5:
        srcs.insert(rng.randint(0, len(srcs)), gen.std_source())
    g = gen.Gen(rng, noise=0.05, weird=0.03, names=[('"%s"' % n if " " in n else n) for n in names])
    x = g.text(depth=rng.choice([1, 2, 3, 4]))
    if rng.random() < 0.5:
        x = rng.choice(["http{server{%s}}", "http{server{location /{%s}}}", "stream{upstream u{%s}}", "http{%s}", "mail{server{%s}}", "events{%s}", "http{location /{if ($a){%s}}}"]) % x
    return dict(gen.parse_case(x, strict=rng.random() < 0.3, skipctx=rng.random() < 0.25, skipargs=rng.random() < 0.25,
                          stop=rng.random() < 0.2, comments=rng.random() < 0.3, files=[dict(n="nginx.conf", k="ok", x=x, e=""), dict(n="x", k="ok", x="a;", e="")]), src=srcs)


def run(c):
    uses = [s + ["http.srv"] + b + e for s in SHAPES for b in ([], ["block"]) for e in ([], ["expr"])]
    uses += [["http"] + s for s in SHAPES[:4]]
    exhaustive(c, "declared-uses", uses, MORE, [["http", "server"]], ARGS, [";", "{", "}"], 1)
    exhaustive(c, "declared-uses-2", uses if c.thorough else uses[::2], MORE if c.thorough else MORE[::2], [["http", "server"]],
               ARGS if c.thorough else [ARGS[i] for i in (0, 1, 2, 4, 6, 8, 11)], [";", "{"], 2)
    each = [[x, "1"] for x in gen.ALLCTX] + [gen.ALLCTX + ["1"], ["1"], ["direct", "1"], ["direct", "main", "1"], ["http", "http.srv", "http.loc", "block", "any"]]
    exhaustive(c, "places", each, [["http", "1"], ["main", "2"], ["events", "stream", "mail", "1"]] if c.thorough else [["main", "2"]], PATHS, [["x"], ["x", "y"]], [";", "{"], 2)
    c.conform([random_case(c.rng) for _ in range(c.pick(700, 15000))], name="structured")
    c.conform([dict(p, src=p["src"] + [source(c.rng, ["a0", "a1", "include", "blk", "any"])]) for p in parsing.projects(c, c.pick(100, 2000))], name="projects", sample=0)
