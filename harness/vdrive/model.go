package main

// Conversions between the package's values and the shapes the specification uses.

import (
	"errors"
	"fmt"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// Dir mirrors the specification's directive record.
type Dir struct {
	D  string   `json:"d"`
	L  int      `json:"l"`
	A  []string `json:"a"`
	F  string   `json:"f"`
	I  []int    `json:"i"`
	HI bool     `json:"hi"`
	B  []Dir    `json:"b"`
	HB bool     `json:"hb"`
	C  string   `json:"c"`
	HC bool     `json:"hc"`
	M  bool     `json:"m"`
	Z  bool     `json:"z,omitempty"` // nil instead of empty lists (input only)
}

const nilDir = "<nil>"

func fromDirs(ds cp.Directives) []Dir {
	out := []Dir{}
	for _, d := range ds {
		out = append(out, fromDir(d))
	}
	return out
}

func fromDir(d *cp.Directive) Dir {
	if d == nil {
		return Dir{D: nilDir, A: []string{}, I: []int{}, B: []Dir{}}
	}
	x := Dir{D: d.Directive, L: d.Line, A: []string{}, F: d.File, I: []int{}, HI: d.Includes != nil, HB: d.Block != nil, M: d.IsMapBlockParameter}
	x.A = append(x.A, d.Args...)
	x.I = append(x.I, d.Includes...)
	x.B = fromDirs(d.Block)
	if d.Comment != nil {
		x.C, x.HC = *d.Comment, true
	}
	return x
}

func toDirs(xs []Dir) cp.Directives {
	out := cp.Directives{}
	for _, x := range xs {
		out = append(out, toDir(x))
	}
	return out
}

func toDir(x Dir) *cp.Directive {
	if x.D == nilDir {
		return nil
	}
	d := &cp.Directive{Directive: x.D, Line: x.L, Args: append([]string{}, x.A...), File: x.F, IsMapBlockParameter: x.M}
	if x.HI {
		d.Includes = append([]int{}, x.I...)
	}
	if x.HB {
		d.Block = toDirs(x.B)
	}
	if x.HC {
		c := x.C
		d.Comment = &c
	}
	if x.Z {
		if len(d.Args) == 0 {
			d.Args = nil
		}
		if len(d.Includes) == 0 {
			d.Includes = nil
		}
		if len(d.Block) == 0 {
			d.Block = nil
		}
	}
	return d
}

// Err mirrors the specification's error record.
type Err struct {
	W string `json:"w"`
	L int    `json:"l"`
	F string `json:"f"`
	S string `json:"s"`
	B string `json:"b"`
	T string `json:"t"`
}

func fromErr(err error) Err {
	if err == nil {
		return Err{W: "<nil>"}
	}
	var pe *cp.ParseError
	if !errors.As(err, &pe) {
		return Err{W: err.Error(), T: err.Error()}
	}
	e := Err{W: pe.What, S: pe.Statement, B: pe.BlockCtx, T: err.Error()}
	if pe.Line != nil {
		e.L = *pe.Line
	}
	if pe.File != nil {
		e.F = *pe.File
	}
	return e
}

func (e Err) toErr() error {
	if e.W == "<nil>" {
		return nil
	}
	if e.F == "" && e.L == 0 && e.B == "" && e.S == "" {
		return errors.New(e.T)
	}
	f, l := e.F, e.L
	return &cp.ParseError{What: e.W, File: &f, Line: &l, Statement: e.S, BlockCtx: e.B}
}

type PErr struct {
	File string `json:"file"`
	L    int    `json:"l"`
	Err  Err    `json:"err"`
	CB   string `json:"cb"`
}

type CErr struct {
	L   int `json:"l"`
	Err Err `json:"err"`
}

type Conf struct {
	File   string `json:"file"`
	St     string `json:"st"`
	Errs   []CErr `json:"errs"`
	Parsed []Dir  `json:"parsed"`
}

type Payl struct {
	St     string `json:"st"`
	Errs   []PErr `json:"errs"`
	Config []Conf `json:"config"`
}

func deref(l *int) int {
	if l == nil {
		return 0
	}
	return *l
}

func ref(l int) *int {
	if l == 0 {
		return nil
	}
	return &l
}

func fromPayload(p *cp.Payload) Payl {
	out := Payl{Errs: []PErr{}, Config: []Conf{}}
	if p == nil {
		return out
	}
	out.St = p.Status
	for _, e := range p.Errors {
		pe := PErr{File: e.File, L: deref(e.Line), Err: fromErr(e.Error)}
		if e.Callback != nil {
			pe.CB = fmt.Sprint(e.Callback)
		}
		out.Errs = append(out.Errs, pe)
	}
	for _, c := range p.Config {
		oc := Conf{File: c.File, St: c.Status, Errs: []CErr{}, Parsed: fromDirs(c.Parsed)}
		for _, e := range c.Errors {
			oc.Errs = append(oc.Errs, CErr{L: deref(e.Line), Err: fromErr(e.Error)})
		}
		out.Config = append(out.Config, oc)
	}
	return out
}

func (p Payl) toPayload() *cp.Payload {
	out := &cp.Payload{Status: p.St, Errors: []cp.PayloadError{}, Config: []cp.Config{}}
	for _, e := range p.Errs {
		pe := cp.PayloadError{File: e.File, Line: ref(e.L), Error: e.Err.toErr()}
		if e.CB != "" {
			pe.Callback = e.CB
		}
		out.Errors = append(out.Errors, pe)
	}
	for _, c := range p.Config {
		oc := cp.Config{File: c.File, Status: c.St, Errors: []cp.ConfigError{}, Parsed: toDirs(c.Parsed)}
		for _, e := range c.Errs {
			oc.Errors = append(oc.Errors, cp.ConfigError{Line: ref(e.L), Error: e.Err.toErr()})
		}
		out.Config = append(out.Config, oc)
	}
	return out
}

func retOf(err error) []Err {
	if err == nil {
		return []Err{}
	}
	return []Err{fromErr(err)}
}
