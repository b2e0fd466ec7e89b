"""C19: the generator.  Sources the model enumerates, and random source trees; what was generated is compiled and asked."""
import json, os, re, subprocess
from . import core

CONSTS = """NGX_MAIL_MAIN_CONF NGX_STREAM_MAIN_CONF NGX_CONF_TAKE1 NGX_STREAM_UPS_CONF NGX_HTTP_LIF_CONF NGX_CONF_TAKE2 NGX_HTTP_UPS_CONF NGX_CONF_TAKE23
NGX_CONF_TAKE12 NGX_HTTP_MAIN_CONF NGX_HTTP_LMT_CONF NGX_CONF_TAKE1234 NGX_MAIL_SRV_CONF NGX_CONF_FLAG NGX_HTTP_SRV_CONF NGX_CONF_1MORE NGX_ANY_CONF NGX_CONF_TAKE123
NGX_MAIN_CONF NGX_CONF_NOARGS NGX_CONF_2MORE NGX_CONF_TAKE3 NGX_HTTP_SIF_CONF NGX_EVENT_CONF NGX_CONF_BLOCK NGX_HTTP_LOC_CONF NGX_STREAM_SRV_CONF NGX_DIRECT_CONF
NGX_CONF_TAKE13 NGX_CONF_ANY NGX_CONF_TAKE4 NGX_CONF_TAKE5 NGX_CONF_TAKE6 NGX_CONF_TAKE7""".split()
UNKNOWN = ["NGX_RTMP_APP_CONF", "NGX_CONF_TAKE8", "NGX_HTTP_MAIN_CONFX", "0", "ngx_main_conf", "NGX_CONF_TAKE"]
GO = """ngxMailMainConf ngxStreamMainConf ngxConfTake1 ngxStreamUpsConf ngxHTTPLifConf ngxConfTake2 ngxHTTPUpsConf ngxConfTake23 ngxConfTake12 ngxHTTPMainConf ngxHTTPLmtConf
ngxConfTake1234 ngxMailSrvConf ngxConfFlag ngxHTTPSrvConf ngxConf1More ngxAnyConf ngxConfTake123 ngxMainConf ngxConfNoArgs ngxConf2More ngxConfTake3 ngxHTTPSifConf
ngxEventConf ngxConfBlock ngxHTTPLocConf ngxStreamSrvConf ngxDirectConf ngxConfTake13 ngxConfAny ngxConfTake4 ngxConfTake5 ngxConfTake6 ngxConfTake7""".split()
BITS = GO + ["ngxMgmtMainConf", "bitA", "bitB", "bitC"]
FOREIGN = ["", " ", "zz_none", "A", "alph", "alphaa", "include", "ngx_null_command"]


class Go:
    """Compiles generated files and asks their functions."""

    def __init__(self, c):
        self.c = c

    def env(self):
        e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", HOME=os.environ.get("HOME", "/root"))
        e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e["PATH"]
        return e

    def build_cli(self):
        out = os.path.join(self.c.work, "generate")
        e = self.env()
        e["GOFLAGS"] = "-mod=readonly"
        r = subprocess.run(["go", "build", "-o", out, "./cmd/generate"], cwd="/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise core.ToolError("building cmd/generate failed:\n" + r.stdout[-2000:])
        return out

    def ask(self, items):
        """items: [(text, function name, names)]; returns for each None (not valid Go) or {name: masks as lists of bits}."""
        d = self.c._tmp("gomod")
        p = os.path.join(d, "crossplane")
        os.makedirs(p)
        open(os.path.join(d, "go.mod"), "w").write("module gen\n\ngo 1.23\n")
        with open(os.path.join(p, "consts.go"), "w") as f:
            f.write("package crossplane\n\nconst (\n" + "".join("\t%s uint = 1 << %d\n" % (n, i) for i, n in enumerate(BITS)) + ")\n")
        with open(os.path.join(d, "main.go"), "w") as f:
            f.write("package main\n\nimport \"gen/crossplane\"\n\nfunc main() { crossplane.Dump() }\n")
        live = dict(enumerate(items))
        for i, (text, fn, names) in live.items():
            open(os.path.join(p, "g%d.go" % i), "w", encoding="utf-8", newline="").write(text)
        bad = set()
        fmt = subprocess.run(["gofmt", "-e", "-l", "."], cwd=p, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for i in {int(x) for x in re.findall(r"\bg(\d+)\.go:\d", fmt.stdout)}:
            bad.add(i)
            live.pop(i)
            os.remove(os.path.join(p, "g%d.go" % i))
        for _ in range(12):
            with open(os.path.join(p, "dump.go"), "w") as f:
                f.write("package crossplane\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n)\n\n"
                        "func ask(f func(string) ([]uint, bool), names []string) map[string][]uint {\n\tr := map[string][]uint{}\n\tfor _, n := range names {\n"
                        "\t\tif m, ok := f(n); ok {\n\t\t\tr[n] = m\n\t\t} else if m != nil {\n\t\t\tr[\"\\x00\"+n] = m\n\t\t}\n\t}\n\treturn r\n}\n\nfunc Dump() {\n\tr := map[int]map[string][]uint{}\n")
                for i, (_, fn, names) in sorted(live.items()):
                    f.write("\tr[%d] = ask(%s, []string{%s})\n" % (i, fn, ", ".join(goquote(n) for n in names)))
                f.write("\tif err := json.NewEncoder(os.Stdout).Encode(r); err != nil {\n\t\tpanic(err)\n\t}\n}\n")
            r = subprocess.run(["go", "build", "-gcflags=-e", "-o", os.path.join(d, "x"), "."], cwd=d, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
            hit = {int(x) for x in re.findall(r"\bg(\d+)\.go:\d", r.stdout)}
            und = set(re.findall(r"dump\.go:\d+:\d+: (?:undefined: |cannot use )(\w+)", r.stdout))
            hit |= {i for i, it in live.items() if it[1] in und}
            if not hit:
                raise core.ToolError("compiling the generated code failed:\n" + r.stdout[-3000:])
            for i in hit:
                bad.add(i)
                live.pop(i, None)
                os.remove(os.path.join(p, "g%d.go" % i))
        else:  # nothing of it compiles
            subprocess.run(["find", d, "-delete"])
            return [None] * len(items)
        out = subprocess.run([os.path.join(d, "x")], stdout=subprocess.PIPE, text=True)
        if out.returncode:
            raise core.ToolError("asking the generated functions failed")
        res = json.loads(out.stdout)
        subprocess.run(["find", d, "-delete"])
        return [None if i in bad else {n: [sorted(b for k, b in enumerate(BITS) if m >> k & 1) for m in ms or []] for n, ms in res[str(i)].items()} for i in range(len(items))]

    def in_package(self, text):
        """Does the file compile as part of the package it says it belongs to?"""
        d = self.c._tmp("pkg")
        os.makedirs(d)
        f = os.path.join(d, "g.go")
        open(f, "w").write(text)
        ov = os.path.join(d, "ov.json")
        json.dump({"Replace": {"/repo/zz_generated_check.go": f}}, open(ov, "w"))
        e = self.env()
        e["GOFLAGS"] = "-mod=readonly"
        r = subprocess.run(["go", "build", "-overlay", ov, "."], cwd="/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode == 0, r.stdout[-1500:]


def goquote(s):
    return '"' + "".join(x if x.isalnum() and x.isascii() or x in "_-./ $" else "\\u%04x" % ord(x) for x in s) + '"'


def written(text):
    return re.findall(r'"((?:[^"\\\n]|\\.)*)"', text)


def observe(c, go, cases):
    """Runs the generator and asks what it wrote."""
    obs = c.run_cases(cases, limit=60, env={"VGEN": go.cli})
    items, at = [], {}
    for i, (k, o) in enumerate(zip(cases, obs)):
        if o.get("k") == "done" and not o["err"]:
            names = sorted(set(k["names"]) | set(written(o["out"])) | set(FOREIGN))
            at[i] = len(items)
            items.append((o["out"], k["fn"] if k["via"] != "cli" else k["flags"]["fn"] or k["conf"]["fn"], names))
    ans = go.ask(items) if items else []
    for i, o in enumerate(obs):
        if o.get("k") != "done":
            continue
        a = ans[at[i]] if i in at else {}
        o["valid"] = a is not None
        a = a or {}
        o["others"] = not any(n.startswith("\0") for n in a)
        o["table"] = [dict(d=n, m=a[n]) for n in sorted(a)]
        seq = [n for n in written(o["out"]) if n in a]
        o["sorted"] = seq == sorted(seq) and len(seq) == len(set(seq))
        k = cases[i]
        com = k["comment"] if k["via"] != "cli" else k["flags"]["comment"] or k["conf"]["comment"]
        fn = k["fn"] if k["via"] != "cli" else k["flags"]["fn"] or k["conf"]["fn"]
        lines = o["out"].split("\n")
        j = [x for x in range(len(lines)) if re.match(r"func %s\b" % re.escape(fn), lines[x])]
        above = lines[j[0] - 1].strip() if j and j[0] else ""
        o["comment"] = above == ("// " + com).strip() if com else not above.startswith("//")
    return obs


def judge(c, go, cases, name):
    obs = observe(c, go, cases)
    good, bad = [], []
    for i, o in enumerate(obs):
        if o.get("k") == "done":
            good.append(i)
        elif o.get("k") != "skipped":
            bad.append((i, o["k"]))
    bad += [(good[i], why) for i, why in c.validate("Trace", c.pid, [(cases[i], obs[i]) for i in good], name=name)]
    for i, why in bad[:20]:
        if len(c.violations) >= 3:
            break
        o = observe(c, go, [cases[i]])[0]
        if o.get("k") == "done":
            r = c.validate("Trace", c.pid, [(cases[i], o)], name="confirm")
            if not r:
                c.notes["not_reproduced"] = c.notes.get("not_reproduced", 0) + 1
                continue
            exp, why = c.expected("Trace", c.pid, cases[i], o), r[0][1]
        else:
            exp = "a normal return"
        c.violation(cases[i], o, exp, why)
    return obs


NOCONF = dict(filter=[], over=[], map="", fn="", comment="")
COUNT = [0]


def case(files, at="", filt=(), over=(), comment="", names=()):
    COUNT[0] += 1
    return dict(op="gen", via="api", files=files, at=at, filter=list(filt), over=list(over), map="tab%d" % COUNT[0], fn="Match%d" % COUNT[0], comment=comment,
                conf=NOCONF, flags=NOCONF, nosrc=False, badconf=False, badkind="", failw=False, useconf=False, names=sorted(set(names)))


def src(n, x, k="", t=""):
    return dict(n=n, x=x, k=k, t=t)


# ---- random sources ----------------------------------------------------------
NAMES = ["alpha", "beta", "gamma", "server", "location", "if", "a", "b", "zz", "proxy_pass", "$var", "x-y", "x.y", "//", "/*", "*/", "'", "a,b", "a|b", "{", "}", "(x)", "#x", "0", "ngx", "Alpha", "a;b", "ngx_null", "[]", "=", "%s", "{{.}}", "<a>&"]
SP = ["", "", " ", "  ", "\t", "\n", "\r\n", "\n    ", "/* c */", " /* \" */ ", "/* } ; { */\n", " // don't\n", "// \" } ; \r\n", "/**/", "/***/", "/*/ */", "// a \\\n b */\n", "\f"]
BETWEEN = SP + ["\n#if (NGX_SSL)\n", "\n#endif\n", "\n#else /* x */\n", "\n  # define x \"\n", "\n#if defined(A) && \\\n  !B\n"]
FILLER = ["static int x = 0;\n", "int f(void) { if (a) { return '}'; } return '\"'; }\n", 'char *s = "/* not a comment";\n', 'char *s = "a\\"b // c";\n', "/* ngx_command_t c[] = { { ngx_string(\"no\"), NGX_CONF_FLAG, 0 }, }; */\n",
          "// ngx_command_t d[] = {\n", "extern ngx_command_t  other[];\n", "ngx_command_t *cmd;\n", "static ngx_str_t s = ngx_string(\"no\");\n", "#include <ngx_config.h>\n", "#define X(y) { y, \\\n  0 }\n",
          "struct { int a; } b = { 1, 2 };\n", "my_ngx_command_t c[] = { { ngx_string(\"no\"), NGX_CONF_FLAG, 0 }, };\n", "ngx_conf_enum_t e[] = { { ngx_string(\"no\"), 1 }, { ngx_null_string, 0 } };\n", "a = b / c;\n", "'\\'';\n", "\n"]
TAILS = [" ngx_f, 0, 0, NULL", "NULL", "ngx_conf_set_str_slot,\n NGX_HTTP_LOC_CONF_OFFSET,\n offsetof(ngx_x_t, y),\n &z[1]", "f, 'a', ','", "f(1, (2)), 0 /* , */", "0,", "f,\n#if X\n 1,\n#else\n 2,\n#endif\n NULL", "a | b, '\"', x"]


def sp(r, some=SP):
    return r.choice(some) if r.random() < 0.5 else " "


def entry(r, names, bad):
    n = r.choice(NAMES)
    names.add(n)
    s = lambda: sp(r)
    ms = [r.choice(CONSTS) for _ in range(r.choice([1, 1, 2, 2, 3, 5]))]
    if bad and r.random() < 0.3:
        ms.insert(r.randrange(len(ms) + 1), r.choice(UNKNOWN))
    mask = "|".join(s() + m + s() for m in ms)
    return "{" + s() + "ngx_string" + s() + "(" + s() + '"' + n + '"' + s() + ")" + s() + "," + mask + "," + s() + r.choice(TAILS) + s() + "}"


def array(r, names, bad):
    s = lambda: sp(r)
    es = [entry(r, names, bad) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
    if r.random() < 0.3:
        es.insert(r.randrange(len(es) + 1), "{ ngx_null_string, 0, NULL, 0, 0, NULL }")
    body = "".join(sp(r, BETWEEN) + e + "," for e in es)
    end = r.choice(["ngx_null_command", "ngx_null_command", "", "ngx_null_command,"])
    return r.choice(["static ", "", "extern \"C\" ", "const "]) + "ngx_command_t" + (s().strip(" ") or " ") + " " + s() + r.choice(["cmds", "ngx_http_x_commands", "c_1"]) + s() + "[" + s() + "]" + s() + "=" + s() + "{" \
        + body + sp(r, BETWEEN) + end + s() + "}" + s() + ";"


def source(r, names, bad):
    out = ""
    for _ in range(r.choice([0, 1, 2, 2, 3])):
        out += "".join(r.choice(FILLER) for _ in range(r.choice([0, 0, 1, 2])))
        out += array(r, names, bad) + r.choice(["\n", "", "\r\n"])
    out += "".join(r.choice(FILLER) for _ in range(r.choice([0, 0, 1])))
    return out if r.random() < 0.9 else out.replace("\n", "\r\n")


def overs(r, names):
    ds = r.sample(sorted(names) + ["zz_none"], min(len(names) + 1, r.choice([0, 0, 1, 2])))
    return [dict(d=d, m=[[r.choice(BITS) for _ in range(r.choice([1, 2, 3]))] for _ in range(r.choice([1, 1, 2]))]) for d in ds]


def tree(r):
    names = set()
    bad = r.random() < 0.12
    paths = r.sample(["a.c", "b.cpp", "a/b.c", "a/a.c", "a-b/x.c", "a.d/y.c", "sub/deep/er/z.c", "x.c/inner.c", "B.c", "0.cpp", "a/b/c.cpp", ".hidden/h.c", ".c", "e\u0301.c" if False else "e.c"], r.choice([1, 1, 2, 3, 5, 7]))
    files = [src(p, source(r, names, bad)) for p in paths]
    for p in r.sample(["a.h", "README", "x.cc", "y.C", "z.cxx", "c", "a/n.hpp", "o.c.in", "b.c~", "p.cp", "xcpp", "xc", "dir.c/notes", "x.cpp.orig"], r.choice([0, 1, 2])):
        files.append(src(p, source(r, names, True)))
    if r.random() < 0.2:
        f = r.choice(files[:len(paths)])
        files.append(src("ln_%d.c" % r.randrange(9), f["x"], "link", f["n"]))
    if r.random() < 0.06:
        files.append(src(r.choice(["g.c", "a/g.cpp", "zz/g.c", "g.h", "sub/g.c"]), "", "gone"))
    if r.random() < 0.06:
        files.append(src(r.choice(["hollow", "a/hollow", "zz/deep"]), "", "deep"))
    at = "" if r.random() < 0.7 else r.choice(["a", "sub", "sub/deep", files[0]["n"], files[0]["n"], "a-b"])
    return files, at, names


def usable(k):
    """names the Go side can hold, one-line comments"""
    return all('"' not in n and "\\" not in n for n in k["names"])


def run(c):
    go = Go(c)
    go.cli = go.build_cli()
    r = c.rng
    # the model: every source of these pieces, and one declaration with every choice of gaps
    invs = ["TypeOK", "Incremental", "GapsIrrelevant", "NoiseAdds", "Once", "ExportVec"]
    words = ["ngx_command_t", "c", "[", "]", "=", "{", "{", "ngx_string", "(", '"be//t"', ")", ",", "NGX_ANY_CONF", "|", "NGX_CONF_FLAG", ",", "0", "}", ",", "ngx_null_command", "}", ";"]
    plain = [""] * (len(words) + 1)
    plain[1] = " "
    gaps = ["/*c*/ ", " // } x \"\n", "\r\n", "\n"] + c.pick([], ["/* } ; */ ", "\t", " // \\\n } \n"])
    pieces = ['{ ngx_string("a"), NGX_CONF_FLAG, 0 },', '{ ngx_string("b"),\n NGX_HTTP_MAIN_CONF|NGX_CONF_TAKE2 , f,{0} }\n,', "{ngx_string(\"a\") ,NGX_BOGUS, 0}\n,", "ngx_null_command\n};\n",
              "static ngx_command_t  x_y [ ]=\n{", "/* c } ; */", '// { ngx_string("z"), NGX_CONF_FLAG, } \\\n', "\n#if (X)\n", '"s/*"', 'char *p = "{};//";\n', "'\"'"]
    pieces += c.pick([], ["\\\n", "{ ngx_null_string, 0 },", '#define y "\n', "int f() { return 0; }\n"])
    vec = []
    for nm, setup, k in (("gaps", dict(mode="gaps", words=words, plain=plain, gaps=gaps, want=[dict(n="be//t", m=["NGX_ANY_CONF", "NGX_CONF_FLAG"])]), 2),
                         ("pieces", dict(mode="pieces", pre="ngx_command_t c[] = {\n", pieces=pieces, post='{ ngx_string("e"), NGX_MAIN_CONF|NGX_CONF_BLOCK, 0, }, };'), c.pick(3, 4))):
        f = c._tmp("setup.json")
        json.dump(setup, open(f, "w"))
        vec += [c.vec(l) for l in c.model("MC_Gen", dict(MaxLen=k, Export=True), invs, env={"SETUP": f}, name="sources:" + nm, timeout=3000)]
    suspects = replay(c, go, vec)
    cases = []
    for x in suspects[:60]:
        cases.append(case([src("a.c", x)], names=["a", "b", "e", "z", "be//t", "no"]))
    if cases:
        judge(c, go, cases, "suspects")
    # every mask there is, by itself, in one table that has to fit the package
    big = "ngx_command_t c[] = {\n" + "".join('{ ngx_string("d%d"), %s, 0 },\n' % (i, m) for i, m in enumerate(CONSTS)) + "};"
    cases = [case([src("a.c", big)], names=["d%d" % i for i in range(len(CONSTS))])]
    # many directives, in one array or in many files
    for n in (90, 300):
        nm = ["ngx_%s_%d" % ("long" * (i % 9), i) for i in range(n)]
        es = ['{ ngx_string("%s"), %s, 0 },\n' % (x, r.choice(CONSTS)) for x in nm]
        r.shuffle(es)
        cases.append(case([src("a.c", "ngx_command_t c[] = {\n" + "".join(es) + "};")], names=nm))
        one = case([src("d%d/%s%d.c" % (i % 11, "x/" * (i % 5), i), "ngx_command_t c[] = {\n" + e + (es[i // 2] if i % 3 == 0 else "") + "};") for i, e in enumerate(es[:90])], names=nm)
        cases.append(one)
        cases.append(dict(one, over=[dict(d=x, m=[[r.choice(BITS)]]) for x in nm[::3]], filter=nm[1::3]))
        cases[-1]["map"], cases[-1]["fn"] = "tabx%d" % n, "Matchx%d" % n
    # one directive in many files, and many times in an array
    one = '{ ngx_string("x"), %s, 0 },'
    cases.append(case([src("d%d/%d.c" % (i % 7, i), "ngx_command_t c[] = {\n" + one % r.choice(CONSTS) + "};") for i in range(40)], names=["x"]))
    cases.append(case([src("a.cpp", "ngx_command_t c[] = {\n" + "\n".join(one % r.choice(CONSTS) for i in range(70)) + "};\n" + "ngx_command_t d[] = {" + one % CONSTS[0] + "};")], names=["x"]))
    cases.append(case([src("a.c", "".join("ngx_command_t c%d[] = {\n" % i + one % r.choice(CONSTS) + "};\n" for i in range(50)))], names=["x"]))
    # random trees
    for _ in range(c.pick(700, 8000)):
        files, at, names = tree(r)
        filt = r.sample(sorted(names) + ["zz_none"], min(len(names) + 1, r.choice([0, 0, 0, 1, 2, 9])))
        k = case(files, at, filt, overs(r, names), r.choice(["", "", "a comment", "Match: {{.}} \"x\" <&> 'y' // */", "// x"]), names)
        if r.random() < 0.4:
            cli(r, k)
        k["failw"] = r.random() < 0.05
        cases.append(k)
    cases = [k for k in cases if usable(k)]
    obs = judge(c, go, cases, "trees")
    c.notes["refused"] = sum(1 for o in obs if o.get("err"))
    c.notes["generated"] = sum(1 for o in obs if o.get("k") == "done" and not o["err"])
    for i in (0, 5):
        c.sample({"case": cases[i], "observed": obs[i]})
    # the table of every mask belongs into the package itself
    if obs[0].get("k") == "done" and not obs[0]["err"]:
        ok, text = go.in_package(obs[0]["out"])
        c.stage("in-package", compiled=ok)
        if not ok:
            c.violation(cases[0], obs[0], "a file of the package", "the output does not compile in its package: " + text)


def cli(r, k):
    """The same through the command, its options in a file, in flags, or both."""
    k["via"] = "cli"
    opts = dict(filter=k["filter"], over=k["over"], map=k["map"], fn=k["fn"], comment=k["comment"])
    conf, flags = dict(NOCONF), dict(NOCONF)
    k["useconf"] = r.random() < 0.7
    for o in opts:
        if not k["useconf"] or r.random() < 0.5:
            flags[o] = opts[o]
            if k["useconf"] and r.random() < 0.4:
                conf[o] = {"filter": ["alpha", "zz"], "over": [dict(d="beta", m=[["bitA"]])], "map": "other", "fn": "Other", "comment": "other"}[o]
        else:
            conf[o] = opts[o]
    s = lambda: r.choice(["", "", " ", "  "])
    item = lambda o: s() + o["d"] + s() + ":" + s() + ",".join("|".join(s() + b + s() for b in m) for m in o["m"]) + s()
    flags["over"] = [item(o) for o in flags["over"]]
    if r.random() < 0.06:
        flags["over"] = flags["over"] + [r.choice(["alpha", ":bitA", "alpha:", "alpha:bitA||bitB", "alpha:bitA,", " : ", "alpha:bitA|", "alpha: ,bitA", ""])]
    if r.random() < 0.04:
        flags["map"] = conf["map"] = ""
    if r.random() < 0.04:
        flags["fn"] = conf["fn"] = ""
    k["nosrc"] = r.random() < 0.03
    k["badconf"] = k["useconf"] and r.random() < 0.15
    k["badkind"] = r.choice(["half", "last", "array", "empty", "missing", "filter", "filters", "override", "comment"]) if k["badconf"] else ""
    if k["badconf"] and r.random() < 0.7:  # everything else is all right
        flags.update(map=k["map"], fn=k["fn"])
    k["conf"], k["flags"] = conf, flags
    k["filter"], k["over"], k["comment"] = [], [], ""


def replay(c, go, vec):
    """The generator on the exported sources; distinct outputs are compiled once."""
    xs = [v["x"] for v in vec]
    parts = [xs[i:i + 400] for i in range(0, len(xs), 400)]
    obs = c.run_cases([dict(op="genn", xs=p, map="zzTableName", fn="ZzFuncName", comment="") for p in parts], limit=120, env={"VGEN": go.cli})
    outs = []
    for p, o in zip(parts, obs):
        outs += o["outs"] if o.get("k") == "done" else [{"out": "", "err": None}] * len(p)
    distinct = sorted({o["out"] for o in outs if o["err"] is False})
    items = [(t.replace("zzTableName", "tab_v%d" % i).replace("ZzFuncName", "Match_v%d" % i), "Match_v%d" % i, sorted(set(written(t)) | set(FOREIGN) | {"a", "b", "e", "z", "be//t"})) for i, t in enumerate(distinct[:400])]
    ans = dict(zip(distinct, go.ask(items))) if items else {}
    suspects = []
    for v, o in zip(vec, outs):
        if v["r"]["k"] == "error":
            same = o["err"] is True and o["out"] == ""
        elif o["err"] is False:
            a = ans.get(o["out"])
            same = a is not None and a == {t["d"]: [sorted(m) for m in t["m"]] for t in v["r"]["t"]}
        else:
            same = False
        if not same:
            suspects.append(v["x"])
    c.traces += len(vec)
    c.stage("sources:replay", sources=len(vec), tables=len(distinct), mismatches=len(suspects))
    suspects.sort(key=len)
    return suspects
