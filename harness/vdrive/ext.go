package main

import (
	"encoding/json"
	"errors"
	"strings"
	"unicode"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() {
	ops["lexx"] = opLexX
	ops["lexxn"] = opLexXN
}

// extReg is a registration of an external lexer that follows a program (see spec/NgxExt.tla).
type extReg struct {
	N   []string
	Pr  [][]interface{}
	Eof bool
	Cap int
}

func (r *extReg) Lex(s *cp.SubScanner, name string) <-chan cp.NgxToken {
	ch := make(chan cp.NgxToken, r.Cap)
	go func() {
		defer close(ch)
		buf := ""
		scan := func() bool {
			if s.Scan() {
				buf += s.Text()
				return true
			}
			if r.Eof {
				ch <- cp.NgxToken{Value: "EOF", Line: s.Line(), IsQuoted: true}
			}
			return false
		}
		for _, i := range r.Pr {
			switch i[0] {
			case "eat":
				for k := 0; k < int(i[1].(float64)); k++ {
					if !scan() {
						return
					}
				}
			case "to":
				for {
					if !scan() {
						return
					}
					if s.Text() == i[1] {
						break
					}
				}
			case "sp":
				for {
					if !scan() {
						return
					}
					if strings.TrimFunc(s.Text(), unicode.IsSpace) != "" {
						break
					}
				}
			case "tok":
				ch <- cp.NgxToken{Value: buf, Line: s.Line(), IsQuoted: i[1].(bool)}
				buf = ""
			case "lit":
				ch <- cp.NgxToken{Value: i[1].(string), Line: s.Line(), IsQuoted: i[2].(bool)}
			case "name":
				ch <- cp.NgxToken{Value: name, Line: s.Line(), IsQuoted: true}
			case "err":
				l := s.Line()
				ch <- cp.NgxToken{Error: &cp.ParseError{What: i[1].(string), Line: &l}}
			case "perr":
				ch <- cp.NgxToken{Error: errors.New(i[1].(string)), Line: s.Line()}
			default:
				fatal("program %v", i)
			}
		}
	}()
	return ch
}

func extOptions(regs []*extReg) cp.LexOptions {
	o := cp.LexOptions{}
	for _, r := range regs {
		o.Lexers = append(o.Lexers, cp.LexWithLexer(r, r.N...))
	}
	return o
}

type lexxCase struct {
	X     string
	Lua   bool
	XS    []string
	Regs  []*extReg
	Cap   *int
	Chunk int
	Fail  string
}

func (c lexxCase) lex(x string) []tok {
	toks := []tok{}
	for t := range cp.LexWithOptions(newReader(x, c.Chunk, c.Fail), extOptions(c.Regs)) {
		toks = append(toks, fromTok(t))
	}
	return toks
}

func opLexX(raw []byte) obj {
	var c lexxCase
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	return obj{"toks": c.lex(c.X)}
}

func opLexXN(raw []byte) obj {
	var c lexxCase
	must(json.Unmarshal(raw, &c))
	setCap(&smallCap)
	out := [][]tok{}
	for _, x := range c.XS {
		out = append(out, c.lex(x))
	}
	return obj{"toksn": out}
}
