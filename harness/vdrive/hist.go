package main

// Histories of calls on shared objects, and what parsed directives share.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() {
	ops["hist"] = opHist
	ops["alias"] = opAlias
}

type histStep struct {
	O    string
	A, B int
}

// an object the caller holds
type held struct {
	payload *cp.Payload
	popt    *cp.ParseOptions
	bopt    *cp.BuildOptions
	table   []string
	value   string
}

func (h *held) snapshot() string {
	switch {
	case h.payload != nil:
		return dump(fromPayload(h.payload))
	case h.popt != nil:
		o := h.popt
		s := fmt.Sprintf("%+v", *o)
		s += fmt.Sprintf("|%q", o.IgnoreDirectives[:cap(o.IgnoreDirectives)])
		s += fmt.Sprintf("|%d %d|", len(o.DirectiveSources), cap(o.DirectiveSources))
		for _, f := range o.DirectiveSources[:cap(o.DirectiveSources)] {
			s += fmt.Sprintf("%p ", f)
		}
		return s + fmt.Sprintf("|%+v", o.LexOptions.Lexers[:cap(o.LexOptions.Lexers)])
	case h.bopt != nil:
		return fmt.Sprintf("%+v|%+v", *h.bopt, h.bopt.Builders[:cap(h.bopt.Builders)])
	case h.table != nil:
		names := []string{}
		for n := range sources {
			names = append(names, n)
		}
		sort.Strings(names)
		s := ""
		for _, src := range names {
			for _, d := range h.table {
				m, ok := sources[src](d)
				s += fmt.Sprintf("%v%v%v ", len(m), m[:cap(m)], ok)
			}
		}
		return s + fmt.Sprint(tableLists)
	}
	return h.value
}

// poke changes everything a payload holds, in place and by appending.
func poke(p *cp.Payload) {
	var walk func(ds cp.Directives)
	walk = func(ds cp.Directives) {
		for i, d := range ds {
			if d == nil {
				continue
			}
			for k := range d.Args {
				d.Args[k] += "~"
			}
			d.Args = append(d.Args, "poked")
			for k := range d.Includes {
				d.Includes[k] += 7
			}
			if d.Includes != nil {
				d.Includes = append(d.Includes, 77)
			}
			if d.Comment != nil {
				*d.Comment += " poked"
			}
			d.Line += 1000
			walk(d.Block)
			if d.Block != nil {
				d.Block = append(d.Block, &cp.Directive{Directive: "poked", Line: i})
			}
		}
	}
	for i := range p.Config {
		walk(p.Config[i].Parsed)
		p.Config[i].Parsed = append(p.Config[i].Parsed, &cp.Directive{Directive: "poked"})
		for k := range p.Config[i].Errors {
			if p.Config[i].Errors[k].Line != nil {
				*p.Config[i].Errors[k].Line += 1000
			}
		}
		p.Config[i].Errors = append(p.Config[i].Errors, cp.ConfigError{})
		p.Config[i].File += "~"
	}
	for k := range p.Errors {
		p.Errors[k].File += "~"
	}
	p.Errors = append(p.Errors, cp.PayloadError{File: "poked"})
	p.Config = append(p.Config, cp.Config{File: "poked"})
	p.Status += "~"
}

func opHist(raw []byte) obj {
	var c struct {
		parseCase
		Mains []string
		Opts  []caseOpt
		Lays  []buildOpt
		Names []string
		Steps []histStep
	}
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	keepLists, tableLists = true, nil
	defer func() { keepLists, tableLists = false, nil }()
	objs := []*held{}
	for _, o := range c.Opts {
		c.Opt = o
		po := c.options()
		if o.Regs != nil {
			po.LexOptions.Lexers = append(po.LexOptions.Lexers, extOptions(o.Regs).Lexers...)
		}
		// room for more in the caller's slices
		po.IgnoreDirectives = append(make([]string, 0, len(o.Ignore)+4), o.Ignore...)
		po.DirectiveSources = append(make([]cp.MatchFunc, 0, len(po.DirectiveSources)+4), po.DirectiveSources...)
		po.LexOptions.Lexers = append(make([]cp.RegisterLexer, 0, len(po.LexOptions.Lexers)+4), po.LexOptions.Lexers...)
		if o.CB {
			po.ErrorCallback = func(err error) interface{} { return "cb:" + err.Error() }
		}
		objs = append(objs, &held{popt: po})
	}
	for _, l := range c.Lays {
		l := l
		bo := l.options()
		bo.Builders = append(make([]cp.RegisterBuilder, 0, len(bo.Builders)+4), bo.Builders...)
		objs = append(objs, &held{bopt: bo})
	}
	objs = append(objs, &held{table: append([]string{}, c.Names...)})
	ids := map[string]int{}
	row := func() []int {
		r := []int{}
		for _, h := range objs {
			s := h.snapshot()
			if _, ok := ids[s]; !ok {
				ids[s] = len(ids) + 1
			}
			r = append(r, ids[s])
		}
		return r
	}
	rows := [][]int{row()}
	for _, s := range c.Steps {
		h := &held{}
		switch s.O {
		case "parse":
			p, err := cp.Parse(c.Mains[s.A-1], objs[s.B-1].popt)
			if err != nil || p == nil {
				h.payload = &cp.Payload{Status: "no payload: " + fmt.Sprint(err)}
			} else {
				h.payload = p
			}
		case "lex":
			for _, f := range c.Files {
				if f.N == c.Mains[s.A-1] {
					h.value = "toks" + dump(lexText(f.X, c.Opts[0].Lua, c.Chunk, ""))
				}
			}
		case "comb":
			p, err := objs[s.A-1].payload.Combined()
			if err != nil {
				h.payload = &cp.Payload{Status: "no payload: " + fmt.Sprint(err)}
			} else {
				h.payload = p
			}
		case "build":
			h.value = "built:"
			for _, g := range objs[s.A-1].payload.Config {
				var b bytes.Buffer
				err := cp.Build(&b, g, objs[s.B-1].bopt)
				h.value += b.String() + "|" + fmt.Sprint(err) + "|"
			}
		case "into":
			cr := &creator{ops: []event{}}
			err := cp.BuildInto(objs[s.A-1].payload, cr, objs[s.B-1].bopt)
			h.value = "into:" + dump(cr.ops) + fmt.Sprint(err)
		case "json":
			b, err := json.Marshal(objs[s.A-1].payload)
			h.value = "json:" + string(b) + fmt.Sprint(err)
		case "equal":
			h.value = "equal:"
			for _, g := range objs[s.A-1].payload.Config {
				for _, k := range objs[s.B-1].payload.Config {
					for i := range g.Parsed {
						for j := range k.Parsed {
							h.value += fmt.Sprint(g.Parsed[i].Equal(k.Parsed[j]))
						}
					}
				}
			}
		case "poke":
			poke(objs[s.A-1].payload)
			h = nil
		default:
			fatal("step %q", s.O)
		}
		if h != nil {
			objs = append(objs, h)
		}
		rows = append(rows, row())
	}
	return obj{"rows": rows}
}

// opAlias parses, combines, and then changes each directive in turn; no other may change.
func opAlias(raw []byte) obj {
	var c parseCase
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	p, err := cp.Parse(c.Main, c.options())
	res := obj{"n": 0, "shared": []string{}}
	if err != nil || p == nil {
		return res
	}
	var all []*cp.Directive
	var walk func(ds cp.Directives)
	walk = func(ds cp.Directives) {
		for _, d := range ds {
			all = append(all, d)
			walk(d.Block)
		}
	}
	for _, g := range p.Config {
		walk(g.Parsed)
	}
	if len(all) < 400 {
		if q, err := p.Combined(); err == nil && len(p.Config) > 0 {
			for _, g := range q.Config {
				walk(g.Parsed)
			}
		}
		if len(all) > 3000 {
			all = all[:3000]
		}
	}
	seen := map[*cp.Directive]bool{}
	shared := []string{}
	for _, d := range all {
		if seen[d] {
			shared = append(shared, "the directive "+d.Directive+" appears twice")
		}
		seen[d] = true
	}
	shallow := func(d *cp.Directive) string {
		s := fmt.Sprintf("%q %d %q %v %q", d.Directive, d.Line, d.Args, d.Includes, d.File)
		if d.Comment != nil {
			s += *d.Comment
		}
		for _, b := range d.Block {
			s += fmt.Sprintf(" %p", b)
		}
		return s
	}
	snaps := make([]string, len(all))
	for i, d := range all {
		snaps[i] = shallow(d)
	}
	for i, d := range all {
		for k := range d.Args {
			d.Args[k] = fmt.Sprintf("changed%d.%d", i, k)
		}
		args := d.Args
		for k := 0; k < 5; k++ {
			args = append(args, fmt.Sprintf("appended%d", i))
		}
		_ = append(d.Args, fmt.Sprintf("over%d", i))
		for k := range d.Includes {
			d.Includes[k] = -i
		}
		_ = append(d.Includes, -i, -i)
		if d.Comment != nil {
			*d.Comment = fmt.Sprintf("changed%d", i)
		}
		_ = append(d.Block, &cp.Directive{Directive: "x"}, &cp.Directive{Directive: "y"})
		for k := range d.Block {
			d.Block[k] = &cp.Directive{Directive: "z"}
		}
		snaps[i] = shallow(d)
		for j, e := range all {
			if s := shallow(e); s != snaps[j] {
				shared = append(shared, fmt.Sprintf("changing directive %d changes directive %d: %s", i, j, s))
				snaps[j] = s
			}
		}
		if len(shared) > 5 {
			break
		}
	}
	res["n"], res["shared"] = len(all), shared
	return res
}
