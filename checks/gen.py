"""Random and systematic inputs: texts, file systems, directive tables, options."""

ALLCTX = ["main", "events", "mail", "mail.srv", "stream", "stream.srv", "stream.ups", "http", "http.srv",
          "http.loc", "http.ups", "http.sif", "http.lif", "http.lmt", "mgmt", "http.oidc"]
LUA = ["init_by_lua_block", "init_worker_by_lua_block", "exit_worker_by_lua_block", "set_by_lua_block",
       "content_by_lua_block", "server_rewrite_by_lua_block", "rewrite_by_lua_block", "access_by_lua_block",
       "header_filter_by_lua_block", "body_filter_by_lua_block", "log_by_lua_block", "balancer_by_lua_block",
       "ssl_client_hello_by_lua_block", "ssl_certificate_by_lua_block", "ssl_session_fetch_by_lua_block",
       "ssl_session_store_by_lua_block"]
MAPS = ["map", "geo", "geoip2", "types", "charset_map", "match", "split_clients", "otel_exporter"]
SPECIALS = {"geo": ["ranges", "proxy_recursive"], "map": ["volatile", "hostnames"], "geoip2": ["auto_reload"]}
UNISPACE = [" ", "\t", "\u00a0", "\u2003", "\u3000", "\u0085", "\u2028", "\x0b", "\x0c"]


def use(*flags):
    return list(flags)


def std_source():
    """A small catalogue with every argument shape, in every known context."""
    any_ = ALLCTX
    s = []

    def e(n, *uses):
        s.append({"n": n, "m": [list(u) for u in uses]})
    for b in ("http", "events", "stream", "mail", "mgmt"):
        e(b, ["main", "block", "0"])
    e("server", ["http", "block", "0"], ["stream", "block", "0"], ["mail", "block", "0"],
      ["http.ups", "1+"], ["stream.ups", "1+"])
    e("location", ["http.srv", "http.loc", "block", "1", "2"])
    e("upstream", ["http", "stream", "block", "1"])
    e("if", ["http.srv", "http.loc", "block", "expr", "1+"])
    e("limit_except", ["http.loc", "block", "1+"])
    e("oidc_provider", ["http", "block", "1"])
    for m in MAPS:
        e(m, any_ + ["block", "any"])
    e("include", any_ + ["1"])
    for n in range(8):
        e("a%d" % n, any_ + [str(n)])
    e("a13", any_ + ["1", "3"])
    e("fl", any_ + ["flag"])
    e("any", any_ + ["any"])
    e("one", any_ + ["1+"])
    e("two", any_ + ["2+"])
    e("blk", any_ + ["block", "any"])
    e("xp", any_ + ["expr", "any"])
    e("mix", ["main", "1"], ["http", "2"], ["http.srv", "http.loc", "block", "any"], ["events", "flag"])
    for n in LUA:
        e(n, any_ + (["2"] if n == "set_by_lua_block" else ["1"]))
    return s


DEFOPT = dict(ignore=[], stop=False, combine=False, single=False, comments=True, strict=False,
              skipctx=False, skipargs=False, lua=False, cb=False)


def opt(**kw):
    o = dict(DEFOPT)
    o.update(kw)
    return o


def parse_case(text, name="nginx.conf", src=None, op="parse", files=None, globs=None, **options):
    c = dict(op=op, main=name, files=files or [dict(n=name, k="ok", x=text, e="")], globs=globs or [],
             opt=opt(**options), src=[std_source() if src is None else src], cap=2048, chunk=0)
    return c


def nested(rng, s, most=33):
    """inside of many blocks"""
    for _ in range(min(most, rng.choice([4, 5, 6, 8, 9, 17, 33]))):
        s = rng.choice(["blk {", "blk{", "location /x {", "unk y {", "blk {\n"]) + s + "}" + rng.choice(["", "", "\n", "a0;"])
    return "http{server{" + s + "}}" if rng.random() < 0.3 else s


class Gen:
    def __init__(self, rng, lua=False, noise=0.25, weird=0.15, names=None, maxblock=4):
        self.r, self.lua, self.noise, self.weird = rng, lua, noise, weird
        self.maxblock = maxblock
        self.names = names

    # ---- characters and words
    def soup(self, n, alphabet):
        return "".join(self.r.choice(alphabet) for _ in range(n))

    WORDCH = ["a", "b", "c", "x", "Z", "0", "9", "-", "_", ".", "/", ":", "=", "~", "^", "*", "(", ")", "[", "]", "|", ",", "@", "%", "&", "!", "?", "<", ">", "+"]

    def plain(self):
        r = self.r
        n = r.choice([1, 1, 2, 3, 3, 4, 5, 6, 8, 12])
        w = "".join(r.choice(self.WORDCH) for _ in range(n))
        if r.random() < self.weird:
            w += r.choice(["$", "$a", "${a}", "${a b}", "#", "a#b", "\\;", "\\{", "\\}", "\\ ", "\\\"", "\\'", "\\\\", "\\n", "\"", "'",
                           "${}", "\u00e9", "\u4e2d\u6587", "$$", "${a${b}", "\\#", "a\"b", "it's", "\\\r\nx", "\\\nx", "\r", "${a\"b}", "${a;b}", "${a\nb}"])
            if r.random() < 0.5:
                w += "".join(r.choice(self.WORDCH) for _ in range(r.randint(1, 3)))
        return w

    def quoted(self):
        r = self.r
        q = r.choice(['"', "'"])
        o = "'" if q == '"' else '"'
        parts = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])):
            parts.append(r.choice(["a", "bc", "d e", " ", "\n", "\t", ";", "{", "}", "#", "# x", "$", "${a}", "\\" + q, "\\" + o, o,
                                   "\\\\", "\\n", "\\;", "\r\n", "\u00e9", "\u3000", "/x/y", "^~", "\\\r", "\\d+", "http", "}", "\n\n", "\u2028"]))
        return q + "".join(parts) + q

    def word(self):
        return self.quoted() if self.r.random() < 0.2 else self.plain()

    def comment(self):
        r = self.r
        return "#" + r.choice(["", " ", " note", "x", "# y", " a ; b", " {", " }", ' "', " '", " \\", " tail\\\\ ", " \u00e9", " ${", "\t", " end \r", " \\\"q"]) + "\n"

    def sep(self):
        r = self.r
        if r.random() > self.noise:
            return " "
        s = ""
        for _ in range(r.choice([1, 1, 2, 3])):
            s += r.choice([" ", "  ", "\t", "\n", "\r\n", "\n\n", " \n  ", " " + self.comment(), "\n" + self.comment(), r.choice(UNISPACE)])
        return s

    def gap(self):
        """between statements, may be empty"""
        r = self.r
        x = r.random()
        if x < 0.55:
            return "\n"
        if x < 0.7:
            return ""
        return "".join(r.choice([" ", "\n", "\r\n", "\t", "\n\n", self.comment(), "\n" + self.comment(), r.choice(UNISPACE)]) for _ in range(r.choice([1, 1, 2, 3])))

    # ---- Lua
    def luacode(self):
        r = self.r
        s = ""
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            s += r.choice([" ", "\n", "x = 1", "ngx.say('a')", 'ngx.say("}")', "{", "{}", "{ a = {1} }", "'{'", '"\'"', "-- c", "\\n", "\\", "if a then b end",
                           "#t", ";", "$x", "\r\n", "\u00e9", "'}' ", "\t", "[[ ]]", "'a\"b'", '""', "#"])
        # balance braces outside quotes
        d, q, out = 0, "", ""
        for ch in s:
            if q == "" and ch == "}" and d == 0:
                continue
            out += ch
            if ch in "'\"":
                q = ch if q == "" else ("" if q == ch else q)
            elif q == "":
                d += 1 if ch == "{" else -1 if ch == "}" else 0
        if q:
            out += q
        return out + "}" * d

    def luastmt(self):
        r = self.r
        n = r.choice(LUA)
        ws = r.choice([" ", "", "  ", "\n", "\r\n", "\t"])
        if n == "set_by_lua_block":
            return n + r.choice([" ", "\n", "  "]) + "$" + r.choice(["a", "b_c", "x1"]) + (ws or " ") + "{" + self.luacode() + "}"
        return n + ws + "{" + self.luacode() + "}"

    # ---- statements
    def args(self, n):
        return "".join(self.sep() + self.word() for _ in range(n))

    def simple(self):
        r = self.r
        x = r.random()
        if self.names and x < 0.5:
            n = r.choice(self.names)
            return n + self.args(r.choice([0, 1, 1, 2, 3]))
        if x < 0.55:
            k = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7])
            return "a%d" % k + self.args(k)
        if x < 0.62:
            return "fl" + self.sep() + r.choice(["on", "off", "On", "OFF", '"on"', "oN"])
        if x < 0.72:
            return "any" + self.args(r.choice([0, 1, 3, 8, 11]))
        if x < 0.8:
            return "one" + self.args(r.choice([1, 2, 4, 9]))
        if x < 0.85:
            return "two" + self.args(r.choice([2, 3, 9]))
        if x < 0.9:
            return "a13" + self.args(r.choice([1, 3]))
        if x < 0.95:
            return self.unknown() + self.args(r.choice([0, 1, 2]))
        return "xp" + self.sep() + r.choice(["(a)", "( a )", "(a b)", "(a b c)", "(a =b)"])

    def unknown(self):
        w = self.word()
        while w and (w[0] in "#" or w in LUA):
            w = self.word()
        return w

    def block(self, depth):
        r = self.r
        x = r.random()
        if x < 0.15:
            m = r.choice(MAPS)
            body = self.gap()
            for _ in range(r.choice([0, 1, 2, 3])):
                n = r.choice(SPECIALS.get(m, []) + [self.word(), "if", "include", "default", "a0", "blk"])
                k = 0 if n in SPECIALS.get(m, []) and m != "geoip2" else 1
                body += n + self.args(k) + self.end() + self.gap()
            return m + self.args(r.choice([0, 1, 2])) + self.sp() + "{" + body + "}"
        if x < 0.3:
            run = lambda: "\\" * r.choice([1, 1, 2, 2, 3, 4, 5, 6])
            head = "if" + self.sep() + r.choice(["(a" + run() + ")", "(a " + run() + " )", "( a" + run() + " b)"]) if r.random() < 0.1 else "if" + self.sep() + r.choice(["($a)", "($a = b)", "( $a )", "( $a = b )", "(!-f \"x y\")", "($a ~ \"(x)\")", "(a", "a)", "a b", "()", "( )",
                                                 "( \"\" )", "(\"\")", "( a", "\"(a\" b)", "($a\n= b)", "(a)(b)", "((a))", "( (a) )"])
            return head + self.sp() + "{" + self.body(depth - 1) + "}"
        n = r.choice(["blk", "blk", "http", "server", "location", "events", "stream", "upstream", "mail", "limit_except", "mix", "any", "unk", "oidc_provider"])
        k = {"location": 1, "upstream": 1, "limit_except": 1, "oidc_provider": 1}.get(n, r.choice([0, 0, 0, 1, 2]) if n in ("blk", "unk", "mix") else 0)
        return n + self.args(k) + self.sp() + "{" + self.body(depth - 1) + "}"

    def sp(self):
        return self.r.choice(["", " ", " ", " ", "\n", "\r\n", "  "]) if self.r.random() > self.noise / 2 else self.sep()

    def end(self):
        r = self.r
        if r.random() < self.noise / 2:
            return self.sep() + ";"
        return r.choice([";", ";", ";", " ;", "\n;"])

    def stmt(self, depth):
        r = self.r
        x = r.random()
        if depth > 0 and x < 0.3:
            return self.block(depth)
        if self.lua and x < 0.5:
            return self.luastmt()
        return self.simple() + self.end()

    def body(self, depth):
        s = self.gap()
        for _ in range(self.r.randint(0, self.maxblock) if depth >= 0 else 0):
            s += self.stmt(depth) + self.gap()
        return s

    def text(self, depth=3, n=None):
        s = self.gap()
        for _ in range(n if n is not None else self.r.choice([0, 1, 2, 2, 3, 3, 4, 5])):
            s += self.stmt(depth) + self.gap()
        return nested(self.r, s) if self.r.random() < 0.03 else s

    SPECIAL = list("{};\"'\\#$ \n\r\t") + ["${", "\\\n", "\r\n", "}}", "{{", ";;", "a", "\u3000"]

    def mutate(self, s, k=None):
        r = self.r
        for _ in range(k or r.choice([1, 1, 1, 2, 3])):
            if not s:
                s = r.choice(self.SPECIAL)
                continue
            i = r.randrange(len(s) + 1)
            x = r.random()
            if x < 0.45:
                s = s[:i] + r.choice(self.SPECIAL) + s[i:]
            elif x < 0.7:
                j = min(len(s), i + r.choice([1, 1, 1, 2, 5]))
                s = s[:i] + s[j:]
            elif x < 0.85:
                # remove or double one punctuation mark
                ps = [p for p in range(len(s)) if s[p] in "{};\"'#\n\\"]
                if ps:
                    p = r.choice(ps)
                    s = s[:p] + (s[p] * 2 if r.random() < 0.4 else "") + s[p + 1:]
            elif x < 0.93:
                s = s[:i]
            else:
                j = r.randrange(len(s) + 1)
                a, b = min(i, j), max(i, j)
                s = s[:b] + s[a:b] + s[b:] if b - a < 40 else s
        return s


def special_texts(lua=False):
    """Hand-picked shapes that single out one construct each."""
    q = ['a "b\nc" d;', "a 'b\\'c';", 'a b"c d;', 'a ${b c} d;', "a ${b\nc;", "a b\\\nc;\nd;", "a b\\\r\nc;\nd;", "a \\", "a b;\\", "# c\\\nx;", "a;# c\n# d\nb;",
         "a # x\n b # y\n;", "a{b;}c;", "a{}b{}", "a{\n}\n\nb;", "}", "a;}", ";", "{", "a;;", "a{;}", "a{{}}", "a", "a b", "a{b", "a{b;", "a{b{c;}", "#", "# x", "a#b;", "a #b",
         "a \"x\"y;", "a \"x\"\"y\";", "a 'x'{b;}", "\"a\" b;", "'' b;", "\"\";", "a \"\";", "a '\n\n' b;\nc;", "a\n\n{\n\nb\n\n;\n}", "\r\na\r\nb\r\n;\r\n", "a\rb;", "\r", "\n\n\na;\n",
         "a \"{\" b;", "a \"}\";", "a ';' ;", "a\\{b;", "a\\;b;", "a\\ b c;", "a $;", "a ${;", "a ${}{b;}", "a $ {b;}", "a $\\{b;", "a \\${b};", "\ufeffa b;", "a\u00a0b;", "a\u3000b\u2028c;",
         "a \"b # c\" # d\n;", "if (a) {b;}", "a \"\\\"\";", "a '\\\\';", "a \"\\\\\" b;", "a {# c\n}", "a { # c\nb; # d\n# e\n} # f\n", "a b;c d;\ne f;", "a\u0085b;", "a \"b", "a 'b\n", "a \"b\\\"",
         "http { # x\nserver { a 1; } } # y", "#a\r\nb;", "a b #c\r\n;", "a\\\\ b;", "a\\\\;b;", "a \\\"b c\\\" d;", "a x\\", "a {b;}\n}\nc;", "a {b; }}", "{}", "a;{}", "a{b;};", ";a;"]
    if lua:
        q += ["content_by_lua_block {x}", "content_by_lua_block{x}y;", "content_by_lua_block\n{\nx\n}\na;", "content_by_lua_block x;a;", "content_by_lua_block;a;", "content_by_lua_block {", "content_by_lua_block {a{",
              "content_by_lua_block", "set_by_lua_block $a {x} b;", "set_by_lua_block $a{x} b;", "set_by_lua_block\n$a\n{\nx\n}\nb;", "set_by_lua_block {x}", "set_by_lua_block $a", "a content_by_lua_block {x;}", "a\ncontent_by_lua_block;b;",
              "\"content_by_lua_block\" {x}", "'content_by_lua_block'{x}", "# content_by_lua_block {\na;", "a \"content_by_lua_block {\";", "content_by_lua_block {'}'}", "content_by_lua_block {\"}\" '{'}", "content_by_lua_block {'\"}'}a;", "content_by_lua_block {};a;",
              "content_by_lua_block {} {}", "http{content_by_lua_block {a\nb}\nc;}", "content_by_lua_blockx {a;}", "xcontent_by_lua_block {a;}", "content_by_lua_block #c\n{x}", "content_by_lua_block } a;", "a{content_by_lua_block {x}}", "a{content_by_lua_block {x}",
              "content_by_lua_block {\r\n\\}x\r\n}\r\na;", "content_by_lua_block {#}\na;", "content_by_lua_block {-- '\n}\na;'}", "rewrite_by_lua_block {a}rewrite_by_lua_block {b}c;", "content_by_lua_block\\ {a}", "conten\\t_by_lua_block {a}"]
    return q


def long_texts(rng, n=1):
    """Inputs that cross buffer and channel sizes."""
    out = []
    for size in (4094, 4095, 4096, 4097, 8191, 8193):
        out.append("a " + "x" * size + " y;\nb;")
    out.append("a1 \"" + ("q\n" * 2100) + "\";\nb;")
    out.append("# " + "c" * 5000 + "\na b;")
    out.append("any" + " w" * 2500 + ";\nb;\n")
    out.append("a1 x;\n" * 1300 + "b;\n")
    out.append("blk{" * 120 + "a0;" + "}" * 120 + "\nb;")
    out.append("\n" * 3000 + "a b;\n")
    out.append("a0;" * 700 + "}")
    out.append("blk{" * 60 + "a0;" + "}" * 59)
    out.append(" " * 4095 + "a b;")
    out.append("a1 '" + "\u4e2d" * 1400 + "';b;")
    rng.shuffle(out)
    return out if n is None else out[:n]
