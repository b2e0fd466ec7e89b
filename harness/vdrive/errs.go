package main

import (
	"encoding/json"
	"errors"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() {
	ops["errs"] = opErrs
	ops["errsn"] = opErrsN
	ops["lexerrs"] = opLexErrs
	ops["errfmt"] = opErrFmt
}

// errView is what a program can find out about an error.
type errView struct {
	At    string   `json:"at"`    // ret, payload, config, callback, token
	Err   Err      `json:"err"`   // its fields and message
	JSON  string   `json:"json"`  // the message in the JSON form
	Line  int      `json:"line"`  // of the record it stands in
	File  string   `json:"file"`  // ditto
	Prem  bool     `json:"prem"`  // errors.Is ErrPrematureLexEnd
	Is    []string `json:"is"`    // the injected errors it is, by text
	As    bool     `json:"as"`    // a *ParseError
	Again bool     `json:"again"` // the message stays the same
}

func viewErr(at string, err error, file string, line *int, injected []error) errView {
	v := errView{At: at, Err: fromErr(err), File: file, Line: deref(line), Is: []string{}, Prem: errors.Is(err, cp.ErrPrematureLexEnd)}
	var pe *cp.ParseError
	v.As = errors.As(err, &pe)
	seen := map[string]bool{}
	for _, i := range injected {
		if errors.Is(err, i) && !seen[i.Error()] {
			seen[i.Error()] = true
			v.Is = append(v.Is, i.Error())
		}
	}
	b, merr := json.Marshal(cp.PayloadError{File: file, Line: line, Error: err})
	must(merr)
	var out struct {
		File  string
		Line  *int
		Error string
	}
	must(json.Unmarshal(b, &out))
	v.JSON = out.Error
	v.Again = err.Error() == v.Err.T && out.File == file && deref(out.Line) == deref(line)
	return v
}

func (c *parseCase) errs() []errView {
	views := []errView{}
	c.injected = &[]error{}
	o := c.options()
	calls := []error{}
	if c.Opt.CB {
		o.ErrorCallback = func(err error) interface{} {
			calls = append(calls, err)
			return nil
		}
	}
	p, err := cp.Parse(c.Main, o)
	inj := *c.injected
	if err != nil {
		views = append(views, viewErr("ret", err, "", nil, inj))
	}
	if p != nil {
		for _, e := range p.Errors {
			views = append(views, viewErr("payload", e.Error, e.File, e.Line, inj))
		}
		for _, g := range p.Config {
			for _, e := range g.Errors {
				views = append(views, viewErr("config", e.Error, g.File, e.Line, inj))
			}
		}
	}
	for _, e := range calls {
		views = append(views, viewErr("callback", e, "", nil, inj))
	}
	return views
}

func opErrs(raw []byte) obj {
	var c parseCase
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	return obj{"es": c.errs()}
}

func opErrsN(raw []byte) obj {
	var c struct {
		parseCase
		XS  []string
		Aux []caseFile
	}
	must(json.Unmarshal(raw, &c))
	setCap(&smallCap)
	outs := [][]errView{}
	for _, x := range c.XS {
		c.Files = append([]caseFile{{N: c.Main, K: "ok", X: x}}, c.Aux...)
		outs = append(outs, c.errs())
	}
	return obj{"outs": outs}
}

func opLexErrs(raw []byte) obj {
	var c lexxCase
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	r := newReader(c.X, c.Chunk, c.Fail)
	o := extOptions(c.Regs)
	if c.Lua {
		o = lexOptions(true)
	}
	views := []errView{}
	for t := range cp.LexWithOptions(r, o) {
		if t.Error != nil {
			v := viewErr("token", t.Error, "", nil, []error{r.err})
			v.Line = t.Line
			views = append(views, v)
		}
	}
	return obj{"es": views}
}

// opErrFmt formats errors made by hand.
func opErrFmt(raw []byte) obj {
	var c struct {
		ES []struct {
			W, F, S, B string
			L          int
			HF, HL     bool
		}
	}
	must(json.Unmarshal(raw, &c))
	out := []errView{}
	for _, x := range c.ES {
		e := &cp.ParseError{What: x.W, Statement: x.S, BlockCtx: x.B}
		if x.HF {
			f := x.F
			e.File = &f
		}
		if x.HL {
			l := x.L
			e.Line = &l
		}
		v := viewErr("made", e, "", nil, nil)
		b, err := json.Marshal(e)
		must(err)
		var s string
		must(json.Unmarshal(b, &s))
		v.Again = v.Again && s == v.JSON
		out = append(out, v)
	}
	return obj{"es": out}
}
