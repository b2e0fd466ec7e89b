package main

// Schedules, buffering, chunking, parallel calls.

import (
	"bytes"
	"encoding/json"
	"io"
	"runtime"
	"sync"
	"time"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() {
	ops["gaten"] = opGateN
	ops["gatep"] = opGateParse
	ops["lexv"] = opLexV
	ops["par"] = opPar
}

type sched struct {
	S     []string // "F": the source hands out a chunk, "T": the consumer goes on
	Cap   int
	Chunk int // number of chunks
}

// gate lets a source and a consumer go on one step at a time; opened, nothing waits any more.
type gate struct{ feed, take, open chan struct{} }

func newGate() *gate {
	return &gate{make(chan struct{}, 1024), make(chan struct{}, 1024), make(chan struct{})}
}

func (g *gate) pass(ch chan struct{}) {
	select {
	case <-ch:
	case <-g.open:
	}
}

type gatedReader struct {
	g    *gate
	s    string
	size int
}

func (r *gatedReader) Read(p []byte) (int, error) {
	r.g.pass(r.g.feed)
	if r.s == "" {
		return 0, io.EOF
	}
	n := r.size
	if n > len(r.s) {
		n = len(r.s)
	}
	n = copy(p, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}

func (r *gatedReader) Close() error { return nil }

func (s sched) reader(g *gate, x string) *gatedReader {
	size := 1
	if s.Chunk > 0 && len(x) > 0 {
		size = (len(x) + s.Chunk - 1) / s.Chunk
	}
	return &gatedReader{g, x, size}
}

const nap = 300 * time.Microsecond

// opGateN lexes a text under many schedules.
func opGateN(raw []byte) obj {
	var c struct {
		X      string
		Lua    bool
		Scheds []sched
	}
	must(json.Unmarshal(raw, &c))
	outs := [][]tok{}
	for _, s := range c.Scheds {
		cp.SetTokenChanCap(s.Cap)
		g := newGate()
		ch := cp.LexWithOptions(s.reader(g, c.X), lexOptions(c.Lua))
		toks := []tok{}
		over := false
		for _, e := range s.S {
			if e == "F" {
				g.feed <- struct{}{}
				runtime.Gosched()
				continue
			}
			select { // the code may hold a token back longer than the model
			case t, ok := <-ch:
				if over = !ok; ok {
					toks = append(toks, fromTok(t))
				}
			case <-time.After(nap):
			}
			if over {
				break
			}
		}
		close(g.open)
		for t := range ch {
			toks = append(toks, fromTok(t))
		}
		outs = append(outs, toks)
	}
	return obj{"outs": outs}
}

// opGateParse parses a text under many schedules: the parser waits at each directive.
func opGateParse(raw []byte) obj {
	var c struct {
		parseCase
		Scheds []sched
	}
	must(json.Unmarshal(raw, &c))
	outs := []obj{}
	x := c.Files[0].X
	for _, s := range c.Scheds {
		cp.SetTokenChanCap(s.Cap)
		g := newGate()
		o := c.options()
		inner := o.Open
		o.Open = func(n string) (io.ReadCloser, error) {
			if n == c.Files[0].N {
				return s.reader(g, x), nil
			}
			return inner(n)
		}
		for i, f := range o.DirectiveSources {
			f := f
			first := i == 0
			o.DirectiveSources[i] = func(n string) ([]uint, bool) {
				if first {
					g.pass(g.take)
				}
				return f(n)
			}
		}
		go func() {
			for _, e := range s.S {
				if e == "F" {
					g.feed <- struct{}{}
				} else {
					g.take <- struct{}{}
				}
				time.Sleep(nap / 10)
			}
			close(g.open)
		}()
		p, err := cp.Parse(c.Main, o)
		outs = append(outs, obj{"ret": retOf(err), "p": fromPayload(p)})
	}
	return obj{"outs": outs}
}

// opLexV lexes a text with several channel capacities and chunkings.
func opLexV(raw []byte) obj {
	var c struct {
		X    string
		Lua  bool
		Fail string
		Vars []struct{ Cap, Chunk int }
	}
	must(json.Unmarshal(raw, &c))
	outs := [][]tok{}
	for _, v := range c.Vars {
		v := v
		setCap(&v.Cap)
		outs = append(outs, lexText(c.X, c.Lua, v.Chunk, c.Fail))
	}
	return obj{"outs": outs}
}

// opPar runs its calls one after the other and then all at once, several times. They share
// one options value of each kind and one payload.
func opPar(raw []byte) obj {
	var c struct {
		parseCase
		XS    []string // further main files, for the same options
		Words []string
		Times int
		Cold  bool // all at once first
	}
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	po := c.options()
	po.ErrorCallback = func(err error) interface{} { return "cb:" + err.Error() }
	lo := lexOptions(c.Opt.Lua)
	bo := c.Build.options()
	inner := po.Open
	po.Open = func(n string) (io.ReadCloser, error) {
		for i := range c.XS {
			if n == mainName(i) {
				return newReader(c.XS[i], c.Chunk, ""), nil
			}
		}
		return inner(n)
	}
	shared, err := cp.Parse(c.Main, po)
	if err != nil {
		shared = &cp.Payload{}
	}
	parse := func(n string) string {
		p, err := cp.Parse(n, po)
		return dump(obj{"ret": retOf(err), "p": fromPayload(p)})
	}
	calls := []func() string{
		func() string { return parse(c.Main) },
		func() string {
			p, err := shared.Combined()
			return dump(obj{"ret": retOf(err), "p": fromPayload(p)})
		},
		func() string {
			out := []string{}
			for _, g := range shared.Config {
				var b bytes.Buffer
				if err := cp.Build(&b, g, bo); err != nil {
					out = append(out, "error: "+err.Error())
				}
				out = append(out, b.String())
			}
			return dump(out)
		},
		func() string {
			cr := &creator{ops: []event{}}
			err := cp.BuildInto(shared, cr, bo)
			return dump(obj{"e": retOf(err), "ops": cr.ops})
		},
		func() string {
			b, err := json.Marshal(shared)
			if err != nil {
				return "error: " + err.Error()
			}
			var q cp.Payload
			if err := json.Unmarshal(b, &q); err != nil {
				return "error: " + err.Error()
			}
			return string(b) + dump(fromPayload(&q))
		},
		func() string {
			out := []bool{}
			for _, g := range shared.Config {
				for _, a := range g.Parsed {
					for _, b := range g.Parsed {
						out = append(out, a.Equal(b))
					}
				}
			}
			return dump(out)
		},
		func() string {
			out := []string{}
			for _, w := range c.Words {
				out = append(out, cp.Enquote(w))
			}
			return dump(out)
		},
		func() string {
			s := ""
			for _, g := range shared.Config {
				for _, d := range g.Parsed {
					s += d.String()
					if d.IsBlock() || d.IsComment() || d.IsInclude() {
						s += "!"
					}
				}
			}
			return s
		},
	}
	for i := range c.XS {
		i := i
		calls = append(calls, func() string { return parse(mainName(i)) })
		calls = append(calls, func() string {
			toks := []tok{}
			for t := range cp.LexWithOptions(newReader(c.XS[i], c.Chunk, ""), lo) {
				toks = append(toks, fromTok(t))
			}
			return dump(toks)
		})
	}
	results := make([][]string, len(calls))
	alone := func() {
		for i, f := range calls {
			r := f()
			if len(results[i]) == 0 || results[i][0] != r {
				results[i] = append(results[i], r)
			}
		}
	}
	if !c.Cold {
		alone()
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < c.Times; k++ {
		for i := range calls {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				r := calls[i]()
				mu.Lock()
				defer mu.Unlock()
				for _, x := range results[i] {
					if x == r {
						return
					}
				}
				results[i] = append(results[i], r)
			}()
		}
	}
	close(start)
	wg.Wait()
	if c.Cold {
		alone()
	}
	return obj{"results": results}
}

func mainName(i int) string { return "\x00main" + string(rune('0'+i%10)) + string(rune('0'+i/10)) }
