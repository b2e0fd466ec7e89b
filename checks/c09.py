"""C09: includes. Every small file system of the model, replayed; projects, validated."""
import json
from . import gen, core, parsing

# text, targets, is an include, reports an error, makes the file fail
ITEMS = [
    ("include a;", ["a"], 1, 0), ("include b;", ["b"], 1, 0), ("include m;", ["m"], 1, 0), ("include ./a;", ["a"], 1, 0), ("include zz;", [], 1, 1),
    ("include g*;", ["a", "b"], 1, 0), ("include none?;", [], 1, 0), ("http{include b;}", ["b"], 1, 0), ("blk{include [ab];x;}", ["a", "b"], 1, 0), ("a0;", [], 0, 0),
    ("a0 x;", [], 0, 1), ("map a b{include a;}", [], 0, 0), ("include /r;", ["/r"], 1, 0), ("include;", [], 0, 1), ("include c*;", [], 0, 1), ("http{server{include a;}}", ["a"], 1, 0), ("server{}", [], 0, 0), ("unk{include b;}", ["b"], 1, 0)]
# the file fails, or what is accepted depends on where it is included
ODD = {"include;", "include c*;", "http{include b;}", "http{server{include a;}}", "server{}", "listen 1;"}
GLOBS = [dict(p="g*", e="", n=["b", "a"]), dict(p="[ab]", e="", n=["b", "a"]), dict(p="c*", e="syntax error in pattern", n=[])]


def systems(c, name, files, main="m", liveness=False):
    """files: (name, most statements, item numbers)"""
    base = gen.parse_case("", name=main, comments=True)
    base["files"], base["globs"] = [], GLOBS
    f = c._tmp("setup.json")
    items = [dict(x=x, t=t, inc=bool(i), bad=bool(b), odd=x in ODD) for x, t, i, b in ITEMS]
    with open(f, "w") as fh:
        json.dump(dict(items=items, files=[dict(n=n, max=k, items=[j + 1 for j in its]) for n, k, its in files], base=base), fh)
    vec = c.model("MC_Include", dict(Export=True), ["InOrder", "Once", "ListsTargets", "FirstContext", "MissingReported", "CycleIff", "CombineWorks", "ExportVec"],
                  ["Terminates"] if liveness else [], env={"SETUP": f}, name=name)
    return base, [n for n, _, _ in files], [c.vec(l) for l in vec]


def replay(c, name, base, names, vecs, judge, variants=((), )):
    """judge(want, got) -> same? under the options of each variant"""
    B = max(1, len(vecs) // 24)
    bad = []
    cases = [dict(base, op="fsn", names=names, fs=[v["fs"] for v in vecs[i:i + B]]) for i in range(0, len(vecs), B)]
    obs = c.run_cases(cases, limit=300)
    n = 0
    for b, o in enumerate(obs):
        outs = o["outs"] if o.get("k") == "done" else None
        for k, v in enumerate(vecs[b * B:(b + 1) * B]):
            n += 1
            if outs is None or not judge(v, outs[k]):
                bad.append(v)
    c.traces += n
    c.stage(name + ":replay", replayed=n, mismatches=len(bad))
    if vecs:
        v = vecs[len(vecs) // 2]
        c.sample({"files": dict(zip(names, v["fs"])), "outcome": {"ret": v["ret"], "p": v["p"]}})
    bad.sort(key=lambda v: sum(map(len, v["fs"])))
    out = []
    for v in bad[:150]:
        k = dict(base, op="parse", cap=2048, chunk=0)
        k["files"] = [dict(n=n, k="ok", x=x, e="") for n, x in zip(names, v["fs"])]
        out.append(k)
    return out


def payload_same(v, got):
    if [e["w"] for e in v["ret"]] != [e["w"] for e in got["ret"]]:
        return False
    a, b = v["p"], got["p"]
    return a["st"] == b["st"] and [(g["file"], g["st"], g["parsed"]) for g in a["config"]] == [(g["file"], g["st"], g["parsed"]) for g in b["config"]]


def run(c):
    al = list(range(len(ITEMS)))
    sm = [0, 1, 2, 5, 7, 4, 16]
    base, names, vecs = systems(c, "file-systems", [("m", 2, al), ("a", 1, sm + [8, 12]), ("b", 1, sm + [3]), ("/r", 0, [])] if not c.thorough else
                                [("m", 2, al), ("a", 2, sm), ("b", 1, al), ("/r", 1, [0])])
    cs = replay(c, "file-systems", base, names, vecs, payload_same)
    if cs:
        c.conform(cs, name="suspects", sample=0)
    base, names, vecs = systems(c, "longer-main", [("m", 3, [0, 1, 5, 7, 17, 4, 12]), ("a", 1, [1, 9, 16]), ("b", 1, [9, 12, 16]), ("/r", 1, [0, 9])])
    cs = replay(c, "longer-main", base, names, vecs, payload_same)
    if cs:
        c.conform(cs, name="suspects", sample=0)
    ps = [parsing.project(c.rng, lua=c.rng.random() < 0.1, broken=0.15, options=dict(combine=False, stop=c.rng.random() < 0.1)) for _ in range(c.pick(500, 10000))]
    for p in ps:
        if c.rng.random() < 0.1:
            p["opt"] = dict(p["opt"], single=True)
    for p in [several(c.rng) for _ in range(c.pick(120, 2000))]:
        ps.append(p)
    c.conform(ps, name="projects")
    c.conform([spellings(c.rng) for _ in range(c.pick(150, 2500))], name="spellings", sample=1)
    c.conform([real(c.rng) for _ in range(c.pick(120, 2500))], name="on-disk", sample=1)
    c.conform([wide(c.rng) for _ in range(c.pick(25, 300))], name="wide", sample=0)


def several(rng):
    """includes with no argument, one or more"""
    files = [dict(n=n, k="ok", x=rng.choice(["a0;", "include c;", "", "a1 x; a1 y;"]), e="") for n in "abc"]
    for _ in range(rng.choice([1, 1, 2])):
        x = "".join(rng.choice(["include %s;", "include %s;", "http{include %s;}", "map $a $b{include %s;}", "blk{blk{include %s;}}", "#include %s;\n"])
                    % rng.choice(["a b", "a", "b ./a", "a a a", "c zz", "zz c", "'a' b", "'a b'", "a\nb", "", "''", "g* b", "b g*"]) + rng.choice(["", "\n"]) for _ in range(rng.choice([1, 2])))
        files.append(dict(n="m" if len(files) == 3 else "d", k="ok", x=x, e=""))
    k = gen.parse_case("", name="m", comments=rng.random() < 0.5, single=rng.random() < 0.5, skipargs=rng.random() < 0.6, skipctx=rng.random() < 0.5, stop=rng.random() < 0.2, combine=rng.random() < 0.2)
    k["files"], k["globs"] = files, [dict(p="g*", e="", n=["b", "a"])]
    return k


def spellings(rng):
    """a glob gives names as it pleases: a file goes by the name it was given, whatever other names it has"""
    alias = {"a": ["a", "./a", ".//a", "d/../a", "a/"], "b": ["b", "./b", "b//", "././b"], "d//c": ["d//c", "d/c", "d/./c"]}
    names = [x for v in alias.values() for x in v]
    text = {k: rng.choice(["a0;", "", "a1 x; a1 y;", "include a;", "include k*;", "include d//c;", "a0 x;"]) for k in alias}
    files = [dict(n=n, k="ok", x=text[k], e="") for k, v in alias.items() for n in v]
    globs = [dict(p=p, e="", n=[rng.choice(names) for _ in range(rng.choice([0, 1, 2, 3]))]) for p in ("g*", "h?", "k*")]
    x = "".join(rng.choice(["include %s;", "include %s;", "http{include %s;}", "blk{include %s;}"]) % rng.choice(["g*", "g*", "h?", "k*", "a", "./a", "d/c", "d//c", "b", "b//"]) + rng.choice(["", "\n", "a0;"])
                for _ in range(rng.choice([1, 2, 3, 4])))
    files.append(dict(n="m", k="ok", x=x, e=""))
    k = gen.parse_case("", name="m", comments=rng.random() < 0.5, skipctx=rng.random() < 0.5, stop=rng.random() < 0.1, combine=rng.random() < 0.2)
    k["files"], k["globs"] = files, globs
    return k


def wide(rng):
    """many files, long chains, many references to one file"""
    n = rng.choice([20, 40, 80])
    names = ["f%03d" % i for i in range(n)]
    files, globs = [], [dict(p="all*", e="", n=rng.sample(names, n))]
    kind = rng.choice(["chain", "fan", "tree", "all", "rand"])
    for i, nm in enumerate(["m"] + names):
        if kind == "chain":
            ts = names[i:i + 1]
        elif kind == "fan":
            ts = rng.sample(names, n) if i == 0 else []
        elif kind == "tree":
            ts = [names[j] for j in (2 * i, 2 * i + 1) if j < n]
        elif kind == "all":
            ts = ["all*"] if i == 0 else []
        else:
            ts = rng.sample(names[i:], min(len(names[i:]), rng.choice([0, 1, 2, 4])))
        x = "".join(("include %s;" if rng.random() < 0.7 else "blk {include %s;}") % t + rng.choice(["", "\n", "\na0;"]) for t in ts) + "a1 %s;" % nm
        files.append(dict(n=nm, k="ok", x=x, e=""))
    k = gen.parse_case("", name="m")
    k["files"], k["globs"] = files, globs
    return k


def real(rng):
    """files on disk, found by the package itself"""
    import fnmatch
    main = rng.choice(["/R/nginx.conf", "/R/etc/nginx/nginx.conf", "nginx.conf", "etc/nginx.conf", "./etc/nginx.conf"])
    d = parsing.pdir(main)
    names = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        nm = parsing.join(d, rng.choice(["", "", "conf.d/", "sites/", ".hid/"]) + rng.choice(["a", "b", "c", "ab", ".x", "A", "z-1"]) + rng.choice([".conf", ".conf", ".inc", ""]))
        if rng.random() < 0.1 and d != ".":  # from /R itself, patterns would match it under another name
            nm = "/R/opt/" + rng.choice("ab") + ".conf"
        if nm not in names and nm != parsing.clean(main) and not any(x.startswith(nm + "/") or nm.startswith(x + "/") for x in names):
            names.append(nm)
    files = [dict(n=main, k="ok", x="", e="")]
    for nm in names:
        k = rng.choices(["ok", "read", "open"], [88, 7, 5])[0]
        e = "read %s: is a directory" % nm if k == "read" else "open %s: no such file or directory" % nm if k == "open" else ""
        files.append(dict(n=nm, k=k, x="", e=e))
    # everything on the disk, directories included
    disk = set()
    for f in files:
        p = parsing.clean(f["n"])
        disk.add(p)
        while "/" in p.strip("/"):
            p = p[:p.rfind("/")]
            if p in ("", "/R"):
                break
            disk.add(p)

    def expand(pat):
        ps = pat.split("/")
        return sorted(x for x in disk if len(x.split("/")) == len(ps) and all(fnmatch.fnmatchcase(a, b) if any(ch in b for ch in "*?[") else a == b for a, b in zip(x.split("/"), ps)))
    globs = {}
    pats = ["*.conf", "conf.d/*.conf", "sites/*", "[ab]*.conf", "?.conf", "*/a.conf", "conf.d/?.*", "none/*", "/R/opt/*.conf", "*/*.inc", "./*.conf", "conf.d/[a-b].conf"]
    for f in files:
        if f["k"] != "ok":
            continue
        s = ""
        for _ in range(rng.choice([0, 1, 1, 2]) if f["n"] != main else rng.choice([1, 2, 3])):
            if rng.random() < 0.5 or not names:
                arg = rng.choice(pats)
                key = parsing.pattern(main, arg)
                globs[key] = dict(p=key, e="", n=expand(key))
            else:
                nm = rng.choice(names + ["/R/missing", main])
                arg = nm if nm.startswith("/") else nm[len(d) + 1:] if d != "." and nm.startswith(d + "/") else nm if d == "." else "zz"
            s += rng.choice(["include %s;\n", "http { include %s; }\n", "blk{include %s;}"]) % arg
        f["x"] = s + rng.choice(["", "a1 x;\n", "a0 x;", "server { }"])
    if parsing.clean(main) != main:  # another name of the same file
        files.append(dict(files[0], n=parsing.clean(main)))
    dirs = [dict(n=p, k="read", x="", e="read %s: is a directory" % p) for p in disk if p not in {parsing.clean(f["n"]) for f in files}]
    k = gen.parse_case("", name=main, cb=rng.random() < 0.2, comments=True, stop=rng.random() < 0.1)
    k.update(op="realfs", globs=list(globs.values()), files=files + dirs)
    return k
