package main

// Every call on every kind of input, for calls that do not return.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"runtime/debug"
	"strings"
	"time"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() {
	ops["total"] = opTotal
	ops["totalp"] = opTotalPayloads
	ops["totalj"] = opTotalJSON
}

// call is one call that did not return as it should.
type call struct {
	I int    `json:"i"` // which input
	C string `json:"c"` // which call
	O string `json:"o"` // what happened
}

type caller struct {
	n     int // calls made
	input int
	slow  float64 // longest call
	bad   []call
}

func (c *caller) do(name string, f func()) {
	c.n++
	t := time.Now()
	defer func() {
		if s := time.Since(t).Seconds(); s > c.slow {
			c.slow = s
		}
		if r := recover(); r != nil && len(c.bad) < 10 {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 700 {
				st = st[:700]
			}
			c.bad = append(c.bad, call{c.input, name, fmt.Sprint("panic: ", r, "\n", st)})
		}
	}()
	f()
}

func (c *caller) result() obj {
	if c.bad == nil {
		c.bad = []call{}
	}
	return obj{"calls": c.n, "inputs": c.input, "bad": c.bad, "slowest": fmt.Sprintf("%.2f", c.slow)}
}

var totalLayouts = []cp.BuildOptions{{}, {Indent: -7, Header: true}, {Indent: 103}, {Indent: 5, Tabs: true}}

// everything there is to do with a payload
func (c *caller) payload(p *cp.Payload, more bool) {
	l := &cp.Lua{}
	var q *cp.Payload
	c.do("Combined", func() {
		if x, err := p.Combined(); err == nil {
			q = x
		} else {
			_ = err.Error()
		}
	})
	confs := append([]cp.Config(nil), p.Config...)
	if q != nil {
		confs = append(confs, q.Config...)
	}
	lays := totalLayouts
	if !more {
		lays = lays[:2]
	}
	for _, conf := range confs {
		for _, o := range lays {
			for k := 0; k < 2; k++ {
				o := o
				if k == 1 {
					if o.Indent != 0 {
						continue
					}
					o.Builders = []cp.RegisterBuilder{l.RegisterBuilder()}
				}
				c.do("Build", func() { must(cp.Build(io.Discard, conf, &o)) })
			}
		}
	}
	c.do("BuildInto", func() {
		if err := cp.BuildInto(p, &cp.StringsCreator{}, &cp.BuildOptions{}); err != nil {
			_ = err.Error()
		}
	})
	c.do("JSON", func() {
		b, err := json.Marshal(p)
		if err != nil {
			_ = err.Error()
			return
		}
		var r cp.Payload
		if json.Unmarshal(b, &r) == nil {
			_, _ = json.Marshal(&r)
		}
	})
	var walk func(ds cp.Directives)
	walk = func(ds cp.Directives) {
		for i, d := range ds {
			_ = d.String()
			_ = d.IsBlock()
			_ = d.IsInclude()
			_ = d.IsComment()
			_ = d.Equal(d)
			_ = d.Equal(nil)
			_ = d.Equal(ds[(i+1)%len(ds)])
			for _, a := range d.Args {
				_ = cp.Enquote(a)
			}
			walk(d.Block)
		}
	}
	c.do("directives", func() {
		for _, conf := range p.Config {
			walk(conf.Parsed)
		}
	})
	c.do("errors", func() {
		for _, e := range p.Errors {
			if e.Error != nil {
				_ = e.Error.Error()
			}
		}
	})
}

func (c *caller) lex(x string, lua bool) {
	c.do("Lex", func() {
		for t := range cp.LexWithOptions(strings.NewReader(x), lexOptions(lua)) {
			if t.Error != nil {
				_ = t.Error.Error()
			}
		}
	})
}

// opTotal does everything with texts.
func opTotal(raw []byte) obj {
	var c struct {
		parseCase
		XS   []string
		Reps []rep // texts given by what they repeat
		Enum *struct {
			Pieces []string
			Pre    []string
			Len    int
		}
		Aux  []caseFile
		Vars []variant
		More bool
		Pay  bool // go on with the payloads
	}
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	cl := &caller{}
	one := func(x string) {
		cl.lex(x, false)
		cl.lex(x, true)
		c.Files = append([]caseFile{{N: c.Main, K: "ok", X: x}}, c.Aux...)
		for _, v := range c.Vars {
			c.Opt, c.Chunk = v.Opt, v.Chunk
			c.Deflt = v.Deflt
			var p *cp.Payload
			cl.do("Parse", func() {
				q, err := cp.Parse(c.Main, c.options())
				if err != nil {
					_ = err.Error()
				}
				p = q
			})
			if p != nil && c.Pay {
				cl.payload(p, c.More)
			}
		}
		cl.input++
	}
	if len(c.XS) > 0 && c.Enum == nil {
		for _, x := range c.XS {
			one(x)
		}
	}
	for _, r := range c.Reps {
		one(r.text())
	}
	if c.Enum != nil {
		var walk func(pre string, n int)
		walk = func(pre string, n int) {
			one(pre)
			if n == 0 {
				return
			}
			for _, p := range c.Enum.Pieces {
				walk(pre+p, n-1)
			}
		}
		walk(strings.Join(c.Enum.Pre, ""), c.Enum.Len)
	}
	return cl.result()
}

// rep is a text: pre, n times mid, m times post, end
type rep struct {
	Pre, Mid, Post, End string
	N, M                int
}

func (r rep) text() string {
	var b bytes.Buffer
	b.WriteString(r.Pre)
	b.WriteString(strings.Repeat(r.Mid, r.N))
	b.WriteString(strings.Repeat(r.Post, r.M))
	b.WriteString(r.End)
	return b.String()
}

// opTotalPayloads does everything with payloads.
func opTotalPayloads(raw []byte) obj {
	var c struct{ PS []Payl }
	must(json.Unmarshal(raw, &c))
	cl := &caller{}
	for _, x := range c.PS {
		p := x.toPayload()
		cl.payload(p, true)
		for i := range p.Config { // zero values where lists were empty
			if len(p.Config[i].Parsed) == 0 {
				p.Config[i].Parsed = nil
			}
			p.Config[i].Errors = nil
		}
		p.Errors = nil
		if len(p.Config) == 0 {
			p.Config = nil
		}
		cl.payload(p, false)
		cl.input++
	}
	return cl.result()
}

// opTotalJSON decodes what may be JSON, and goes on with what comes out.
func opTotalJSON(raw []byte) obj {
	var c struct{ XS []string }
	must(json.Unmarshal(raw, &c))
	cl := &caller{}
	for _, x := range c.XS {
		var p cp.Payload
		ok := false
		cl.do("Unmarshal", func() {
			err := json.Unmarshal([]byte(x), &p)
			if err != nil {
				_ = err.Error()
			}
			ok = err == nil
		})
		var q *cp.Payload
		cl.do("Unmarshal", func() { _ = json.Unmarshal([]byte(x), &q) })
		var dirs cp.Directives
		cl.do("Unmarshal", func() { _ = json.Unmarshal([]byte(x), &dirs) })
		if ok && !hasNil(p) {
			cl.payload(&p, false)
		}
		if !hasNil(cp.Payload{Config: []cp.Config{{Parsed: dirs}}}) {
			cl.payload(&cp.Payload{Config: []cp.Config{{Parsed: dirs}}}, false)
		}
		cl.input++
	}
	return cl.result()
}

func hasNil(p cp.Payload) bool {
	var walk func(ds cp.Directives) bool
	walk = func(ds cp.Directives) bool {
		for _, d := range ds {
			if d == nil || walk(d.Block) {
				return true
			}
		}
		return false
	}
	for _, c := range p.Config {
		if walk(c.Parsed) {
			return true
		}
	}
	return false
}
