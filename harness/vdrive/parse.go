package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() {
	ops["lex"] = opLex
	ops["lexn"] = opLexN
	ops["parse"] = opParse
	ops["round"] = opRound
	ops["roundn"] = opRoundN
	ops["parsen"] = opParseN
	ops["multi"] = opMulti
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

// chunkReader hands out at most n bytes at a time (0: no limit) and ends with err.
// With a negative n it hands out at most -n bytes, the last ones together with err,
// and nothing at all every other time.
type chunkReader struct {
	s   string
	n   int
	err error
	odd bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.err
	}
	n := len(r.s)
	if r.n > 0 && n > r.n {
		n = r.n
	}
	if r.n < 0 {
		if r.odd = !r.odd; r.odd {
			return 0, nil
		}
		if n > -r.n {
			n = -r.n
		}
	}
	n = copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.n < 0 && r.s == "" {
		return n, r.err
	}
	return n, nil
}

func (r *chunkReader) Close() error { return nil }

func newReader(s string, chunk int, fail string) *chunkReader {
	r := &chunkReader{s: s, n: chunk, err: io.EOF}
	if fail != "" {
		r.err = errors.New(fail)
	}
	return r
}

func lexOptions(lua bool) cp.LexOptions {
	o := cp.LexOptions{}
	if lua {
		l := &cp.Lua{}
		o.Lexers = []cp.RegisterLexer{l.RegisterLexer()}
	}
	return o
}

type tok struct {
	V string `json:"v"`
	L int    `json:"l"`
	Q bool   `json:"q"`
	E string `json:"e"`
}

func fromTok(t cp.NgxToken) tok {
	x := tok{V: t.Value, L: t.Line, Q: t.IsQuoted}
	if t.Error != nil {
		e := fromErr(t.Error)
		x = tok{L: e.L, E: e.W}
		if e.F == "" && e.L == 0 {
			x.L = t.Line // not a ParseError
		}
	}
	return x
}

func lexText(x string, lua bool, chunk int, fail string) []tok {
	toks := []tok{}
	var ch chan cp.NgxToken
	if lua {
		ch = cp.LexWithOptions(newReader(x, chunk, fail), lexOptions(true))
	} else {
		ch = cp.Lex(newReader(x, chunk, fail))
	}
	for t := range ch {
		toks = append(toks, fromTok(t))
	}
	return toks
}

func setCap(n *int) {
	if n != nil {
		cp.SetTokenChanCap(*n)
	} else {
		cp.SetTokenChanCap(cp.TokenChanCap)
	}
}

func opLex(raw []byte) obj {
	var c struct {
		X     string
		Lua   bool
		Cap   *int
		Chunk int
		Fail  string
	}
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	return obj{"toks": lexText(c.X, c.Lua, c.Chunk, c.Fail)}
}

// many texts at once
func opLexN(raw []byte) obj {
	var c struct {
		XS  []string
		Lua bool
	}
	must(json.Unmarshal(raw, &c))
	setCap(&smallCap)
	out := [][]tok{}
	for _, x := range c.XS {
		out = append(out, lexText(x, c.Lua, 0, ""))
	}
	return obj{"toksn": out}
}

type srcEntry struct {
	N string
	M [][]string
}

type caseFile struct {
	N string // name
	K string // kind
	X string // text
	E string // error
}

type caseGlob struct {
	P string
	E string
	N []string
}

type caseOpt struct {
	Ignore                                                              []string
	Stop, Combine, Single, Comments, Strict, Skipctx, Skipargs, Lua, CB bool

	Regs []*extReg // lexers besides Lua's
}

type parseCase struct {
	Main  string
	Files []caseFile
	Globs []caseGlob
	Opt   caseOpt
	Src   [][]srcEntry
	Srcn  []string
	Deflt bool
	Cap   *int
	Chunk int
	Build *buildOpt
	Regs  []*extReg

	injected *[]error
}

var flagBits = map[string]uint{
	"0": 1, "1": 2, "2": 4, "3": 8, "4": 0x10, "5": 0x20, "6": 0x40, "7": 0x80,
	"block": 0x100, "expr": 0x200, "flag": 0x400, "any": 0x800, "1+": 0x1000, "2+": 0x2000,
	"direct": 0x10000, "mgmt": 0x20000, "main": 0x40000, "events": 0x80000,
	"mail": 0x100000, "mail.srv": 0x200000,
	"stream": 0x400000, "stream.srv": 0x800000, "stream.ups": 0x1000000,
	"http": 0x2000000, "http.srv": 0x4000000, "http.loc": 0x8000000, "http.ups": 0x10000000,
	"http.sif": 0x20000000, "http.lif": 0x40000000, "http.lmt": 0x80000000, "http.oidc": 0x100000000,
}

func bitsOf(fl []string) uint {
	var m uint
	for _, f := range fl {
		b, ok := flagBits[f]
		if !ok {
			fatal("unknown flag %q", f)
		}
		m |= b
	}
	return m
}

// the lists of the sources made by tableFn, with what is behind them, if they are kept
var (
	keepLists  bool
	tableLists [][]uint
)

// tableFn makes a source whose lists lie behind each other, with room behind the last.
func tableFn(tab []srcEntry) cp.MatchFunc {
	m := map[string][]uint{}
	n := 4
	for _, e := range tab {
		n += len(e.M)
	}
	all := make([]uint, 0, n)
	for _, e := range tab {
		if _, ok := m[e.N]; ok {
			continue
		}
		if len(e.M) == 0 {
			m[e.N] = nil
			continue
		}
		at := len(all)
		for _, u := range e.M {
			all = append(all, bitsOf(u))
		}
		m[e.N] = all[at:]
	}
	if keepLists {
		tableLists = append(tableLists, all[:cap(all)])
	}
	return func(d string) ([]uint, bool) {
		u, ok := m[d]
		return u, ok
	}
}

type stuckReader struct{}

func (stuckReader) Read([]byte) (int, error) { return 0, nil }

func (c *parseCase) open(name string) (io.ReadCloser, error) {
	for _, f := range c.Files {
		if f.N != name {
			continue
		}
		switch f.K {
		case "open":
			return nil, c.inject(errors.New(f.E))
		case "stuck": // never has anything to read
			return io.NopCloser(stuckReader{}), nil
		case "read":
			r := newReader(f.X, c.Chunk, f.E)
			_ = c.inject(r.err)
			return r, nil
		}
		return newReader(f.X, c.Chunk, ""), nil
	}
	return nil, c.inject(fmt.Errorf("open %s: no such file or directory", name))
}

// inject remembers the errors handed to the parser.
func (c *parseCase) inject(err error) error {
	if c.injected != nil {
		*c.injected = append(*c.injected, err)
	}
	return err
}

func (c *parseCase) glob(pat string) ([]string, error) {
	for _, g := range c.Globs {
		if g.P == pat {
			if g.E != "" {
				return nil, c.inject(errors.New(g.E))
			}
			return append([]string(nil), g.N...), nil
		}
	}
	return nil, nil
}

func (c *parseCase) options() *cp.ParseOptions {
	o := &cp.ParseOptions{
		IgnoreDirectives:          append([]string(nil), c.Opt.Ignore...),
		StopParsingOnError:        c.Opt.Stop,
		CombineConfigs:            c.Opt.Combine,
		SingleFile:                c.Opt.Single,
		ParseComments:             c.Opt.Comments,
		ErrorOnUnknownDirectives:  c.Opt.Strict,
		SkipDirectiveContextCheck: c.Opt.Skipctx,
		SkipDirectiveArgsCheck:    c.Opt.Skipargs,
		LexOptions:                lexOptions(c.Opt.Lua),
		Open:                      c.open,
		Glob:                      c.glob,
	}
	if c.Regs != nil {
		o.LexOptions = extOptions(c.Regs)
	}
	if c.Opt.CB {
		n := 0
		o.ErrorCallback = func(err error) interface{} {
			n++
			return fmt.Sprintf("cb%d:%s", n, err.Error())
		}
	}
	if !c.Deflt {
		for i, tab := range c.Src {
			if i < len(c.Srcn) && c.Srcn[i] != "" {
				o.DirectiveSources = append(o.DirectiveSources, sourceFn(c.Srcn[i]))
			} else {
				o.DirectiveSources = append(o.DirectiveSources, tableFn(tab))
			}
		}
	}
	return o
}

func opParse(raw []byte) obj {
	var c parseCase
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	p, err := cp.Parse(c.Main, c.options())
	return obj{"ret": retOf(err), "p": fromPayload(p), "nil": p == nil}
}

// opParseN parses many texts, each as the main file, with the same options.
func opParseN(raw []byte) obj {
	var c struct {
		parseCase
		XS  []string
		Aux []caseFile
	}
	must(json.Unmarshal(raw, &c))
	setCap(&smallCap)
	outs := []obj{}
	for _, x := range c.XS {
		c.Files = append([]caseFile{{N: c.Main, K: "ok", X: x}}, c.Aux...)
		p, err := cp.Parse(c.Main, c.options())
		outs = append(outs, obj{"ret": retOf(err), "p": fromPayload(p)})
	}
	return obj{"outs": outs}
}

type variant struct {
	Opt   caseOpt
	Files []caseFile // instead of the case's
	Cap   *int
	Chunk int
	Deflt bool
}

// opMulti parses the same files under several options.
func opMulti(raw []byte) obj {
	var c struct {
		parseCase
		Vars []variant
	}
	must(json.Unmarshal(raw, &c))
	outs := []obj{}
	files := c.Files
	for _, v := range c.Vars {
		setCap(v.Cap)
		if c.Files = files; v.Files != nil {
			c.Files = v.Files
		}
		c.Opt, c.Chunk = v.Opt, v.Chunk
		p, err := cp.Parse(c.Main, c.options())
		outs = append(outs, obj{"ret": retOf(err), "p": fromPayload(p)})
	}
	return obj{"outs": outs}
}

type buildOpt struct {
	Indent       int
	Tabs, Header bool
	Lua          bool
	Ext          []string // directives with a builder of their own
}

type extBuilder struct{}

func (extBuilder) Build(d *cp.Directive) string {
	t := "[[" + d.Directive + "|" + strings.Join(d.Args, ",") + "]]"
	switch d.Directive[len(d.Directive)-1] {
	case '2':
		return " " + t + "\n"
	case '3':
		return "\n\t" + t + " \n\n"
	case '4':
		return ""
	}
	return t
}

func (b *buildOpt) options() *cp.BuildOptions {
	o := &cp.BuildOptions{Indent: b.Indent, Tabs: b.Tabs, Header: b.Header}
	if b.Lua {
		l := &cp.Lua{}
		o.Builders = []cp.RegisterBuilder{l.RegisterBuilder()}
	}
	if len(b.Ext) > 0 {
		o.Builders = append(o.Builders, cp.BuildWithBuilder(extBuilder{}, b.Ext...))
	}
	return o
}

func buildAll(p *cp.Payload, b *buildOpt) ([]string, error) {
	out := []string{}
	for _, c := range p.Config {
		var buf bytes.Buffer
		if err := cp.Build(&buf, c, b.options()); err != nil {
			return out, err
		}
		out = append(out, buf.String())
	}
	return out, nil
}

// opRound parses, builds every config, parses the built texts in place of the
// files with the same options, and builds once more.
func opRound(raw []byte) obj {
	var c parseCase
	must(json.Unmarshal(raw, &c))
	return round(c)
}

// opRoundN does so for many texts.
func opRoundN(raw []byte) obj {
	var c struct {
		parseCase
		XS  []string
		Aux []caseFile
	}
	must(json.Unmarshal(raw, &c))
	c.Cap = &smallCap
	outs := []obj{}
	for _, x := range c.XS {
		c.Files = append([]caseFile{{N: c.Main, K: "ok", X: x}}, c.Aux...)
		outs = append(outs, round(c.parseCase))
	}
	return obj{"outs": outs}
}

func round(c parseCase) obj {
	setCap(c.Cap)
	res := obj{"p2": fromPayload(nil), "ret2": []Err{}, "p3": fromPayload(nil), "ret3": []Err{},
		"built": []string{}, "built2": []string{}, "built3": []string{}, "berr": ""}
	p, err := cp.Parse(c.Main, c.options())
	res["ret"], res["p"] = retOf(err), fromPayload(p)
	if err != nil || p == nil {
		return res
	}
	built, err := buildAll(p, c.Build)
	res["built"] = built
	if err != nil {
		res["berr"] = err.Error()
		return res
	}
	for _, n := range []string{"2", "3"} {
		c2 := c
		c2.Files = nil
		for i, cf := range p.Config {
			c2.Files = append(c2.Files, caseFile{N: cf.File, K: "ok", X: built[i]})
		}
		p, err = cp.Parse(c.Main, c2.options())
		res["ret"+n], res["p"+n] = retOf(err), fromPayload(p)
		if err != nil || p == nil {
			return res
		}
		built, err = buildAll(p, c.Build)
		res["built"+n] = built
		if err != nil {
			res["berr"] = err.Error()
			return res
		}
	}
	return res
}
