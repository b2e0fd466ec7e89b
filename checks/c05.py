"""C05: the shipped catalogues. What each declared use admits is worked out on the model for
every place, number of arguments and end, and asked of every directive of every catalogue."""
import json, os
from . import gen, core, c04

PLACES = [([], "@"), (["events"], "events{@}"), (["mail"], "mail{@}"), (["mail", "server"], "mail{server{@}}"), (["stream"], "stream{@}"), (["stream", "server"], "stream{server{@}}"),
          (["stream", "upstream"], "stream{upstream u{@}}"), (["http"], "http{@}"), (["http", "server"], "http{server{@}}"), (["http", "location"], "http{server{location /{@}}}"),
          (["http", "upstream"], "http{upstream u{@}}"), (["http", "server", "if"], "http{server{if ($a){@}}}"), (["http", "location", "if"], "http{server{location /{if ($a){@}}}}"),
          (["http", "location", "limit_except"], "http{server{location /{limit_except GET{@}}}}"), (["mgmt"], "mgmt{@}"), (["http", "oidc_provider"], "http{oidc_provider p{@}}"), (["zz"], "zz{@}")]
ARGS = [["x"] * n for n in range(9)] + [["on"], ["(x)"], ["(x", "y)"]] + [["x"] * n for n in (9, 16, 33, 65)]
DEFAULT = ["plus", "njs", "otel"]
MAPS = set(gen.MAPS)


def run(c):
    cat = json.load(open(os.path.join(core.SPEC, "data", "catalog.json")))
    lists = sorted({json.dumps(m) for s in cat.values() for m in s.values()})
    uses = [json.loads(l) for l in lists]
    # the model: one state per list of uses and question; `uses` are declared at once
    args, terms = ARGS, [";", "{"]
    paths = [p for p, _ in PLACES]
    plain = gen.opt()
    f = c._tmp("setup.json")
    with open(f, "w") as fh:
        json.dump(dict(lists=uses, ctxs=paths, args=args, terms=terms, opt=plain, catalog=[dict(n=k, t=[dict(n=d, m=m) for d, m in sorted(v.items())]) for k, v in sorted(cat.items())],
                       union=DEFAULT), fh)
    vec = c.model("MC_Catalogue", dict(Export=True), ["RowIsVerdict", "DefaultIsUnion", "SomeUse", "ExportVec"], env={"SETUP": f}, name="declared-uses")
    want = {}
    for l in vec:
        v = c.vec(l)
        want[lists[v["i"] - 1]] = "".join(v["row"])
    # the same questions asked of the code
    texts = []
    for path, tpl in PLACES:
        for a in args:
            for t in terms:
                texts.append(tpl.replace("@", "@" + "".join(" " + c04.word(x) for x in a) + (";" if t == ";" else "{}")))
    noarg = ["@;" in x or "@{}" in x for x in texts]
    cases, meta = [], []
    order = sorted(cat)

    def ask(srcs, names, opt, txts, kind):
        for i in range(0, len(names), 100):
            part = names[i:i + 100]
            cases.append(dict(op="catalogue", srcs=srcs, names=part, texts=txts, opt=opt))
            meta.append((kind, srcs, part, txts, opt))
    for s in order:
        ask([s], sorted(cat[s]), plain, texts, "use")
    ask([], sorted(cat["default"]), plain, texts, "use")
    # names: declared ones are known to the source, all others are not
    allnames = sorted({d for s in cat.values() for d in s})
    near = set()
    for d in allnames:
        near |= {d + "s", d[:-1], d.upper(), d.capitalize(), "_" + d, d.replace("_", "-"), d + "_block", d + " ", d[1:]}
    near = sorted(n for n in near if n and not any(n in s for s in cat.values()) and " " not in n)
    near = near if c.thorough else c.rng.sample(near, 900)
    strict = gen.opt(strict=True, skipctx=True, skipargs=True)
    for s in order + [None]:
        ask([s] if s else [], allnames + near, strict, ["@ x;"], "known")
    # several sources at once, then each alone again: they do not influence each other
    combos = [["plus", "oss"], ["oss", "lua", "njs"], ["wafv4", "wafv5", "plusR30"], ["default", "geoip2", "headers"], ["otel", "plus", "njs", "lua"]]
    if c.thorough:
        combos += [c.rng.sample(order, c.rng.randint(2, 5)) for _ in range(20)]
    some = texts[:]
    c.rng.shuffle(some)
    some = some[:c.pick(40, 200)]
    for co in combos:
        ask(co, c.rng.sample(allnames, c.pick(250, len(allnames))), plain, some, "combo")
    obs = c.run_cases(cases, limit=300)
    suspects, n = [], 0
    index = {x: i for i, x in enumerate(texts)}
    pathof = {}
    combo_rows = []
    for (kind, srcs, names, txts, opt), o in zip(meta, obs):
        if o.get("k") != "done":
            raise core.ToolError("the catalogue questions were not answered: %s" % o)
        for d, row, kn in zip(names, o["outs"], o["known"]):
            srclist = srcs or ["default"]
            n += len(row)
            if kind == "use":
                w = want[json.dumps(cat[srclist[0]][d])]
                if d == "include":  # wherever it stands, it needs something to include
                    w = "".join("0" if noarg[k] else x for k, x in enumerate(w))
                if kn.strip("1") or row != w:
                    ks = [k for k in range(len(w)) if row[k] != w[k]] or [0]
                    for k in ks[:3]:
                        suspects.append((srcs, d, txts[k], opt))
            elif kind == "known":
                is_ = d in cat[srclist[0]]
                if row != ("1" if is_ else "0") or (srcs and kn != ("1" if is_ else "0")):
                    suspects.append((srcs, d, txts[0], opt))
            else:
                combo_rows.append((srcs, d, txts, row))
    c.traces += n
    c.stage("catalogues:replay", asked=n, catalogues=len(order) + 1, names=len(allnames), undeclared=len(near), mismatches=len(suspects))
    # combinations: accepted iff some source's declared use admits it
    bad = 0
    for srcs, d, txts, row in combo_rows:
        ms = [cat[s][d] for s in srcs if d in cat[s]]
        for k, x in enumerate(txts):
            i = index[x]
            if not ms:
                w = "1"
            else:
                w = "1" if any(want[json.dumps(m)][i] == "1" for m in ms) else "0"
            if row[k] != w:
                bad += 1
                suspects.append((srcs, d, x, gen.opt()))
    c.stage("catalogues:together", asked=sum(len(r[3]) for r in combo_rows), mismatches=bad)
    c.sample({"source": "default", "name": "listen", "declared": cat["default"]["listen"], "accepted_texts": [x for x, y in zip(texts, want[json.dumps(cat["default"]["listen"])]) if y == "1"][:12]})
    cs = []
    c.notes["suspects"] = [(s, d, x) for s, d, x, _ in suspects[:20]]
    for srcs, d, x, opt in suspects[:120]:
        k = gen.parse_case(x.replace("@", d), name="m.conf")
        k["opt"] = opt
        k["src"] = [[dict(n=a, m=m) for a, m in sorted(cat[s].items()) if a in x or a == d] for s in (srcs or ["default"])]
        k["files"] = [dict(n="m.conf", k="ok", x=x.replace("@", d), e="")] + [dict(n=y, k="ok", x="", e="") for y in ("x", "on", "(x)", "(x")]
        k["srcn"], k["deflt"], k["name"], k["asked"] = srcs, not srcs, d, srcs or ["default"]
        cs.append(k)
    if cs:
        c.conform(cs, name="suspects", sample=0)
