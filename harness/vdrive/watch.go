package main

// Faults and what is left behind.

import (
	"encoding/json"
	"errors"
	"io"
	"runtime"
	"strconv"
	"sync"
	"time"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() {
	ops["watch"] = opWatch
	ops["lexw"] = opLexW
	ops["combinew"] = opCombineW
}

// left waits for goroutines to end and gives the number of those that do not.
func left(before int) int {
	n := 0
	for i := 0; i < 400; i++ {
		if n = runtime.NumGoroutine() - before; n <= 0 {
			return 0
		}
		if i < 50 {
			runtime.Gosched()
			continue
		}
		time.Sleep(5 * time.Millisecond)
	}
	return n
}

type ioFault struct {
	O string
	N string
	K int
}

type watcher struct {
	mu     sync.Mutex
	events []event
	count  map[string]int
	faults []ioFault
	over   bool
	late   int
}

func (w *watcher) log(o, n, x string, bad bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.over && o != "close" {
		w.late++
	}
	if len(w.events) < 4000 {
		w.events = append(w.events, event{o, n, x, bad})
	}
}

// fault tells whether this is an operation that fails.
func (w *watcher) fault(o, n string) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	key := o + " " + n
	if o == "glob" {
		key = o
	}
	w.count[key]++
	for _, f := range w.faults {
		if f.O == o && (f.N == n || o == "glob") && f.K == w.count[key] {
			return errors.New("injected " + o + " " + n + " " + strconv.Itoa(f.K))
		}
	}
	return nil
}

type watchedReader struct {
	r    io.ReadCloser
	w    *watcher
	n    string
	told bool
}

func (r *watchedReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	if err != nil && !r.told {
		r.told = true
		if errors.Is(err, io.EOF) {
			r.w.log("eof", r.n, "", false)
		} else {
			r.w.log("read", r.n, err.Error(), true)
		}
	}
	return n, err
}

func (r *watchedReader) Close() error {
	r.w.log("close", r.n, "", false)
	return r.r.Close()
}

func opWatch(raw []byte) obj {
	var c struct {
		parseCase
		Faults []ioFault
		Part   bool // a glob that fails still returns what it found
	}
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	w := &watcher{count: map[string]int{}, faults: c.Faults, events: []event{}}
	o := c.options()
	o.Open = func(n string) (io.ReadCloser, error) {
		err := w.fault("open", n)
		var r io.ReadCloser
		if err == nil {
			r, err = c.open(n)
		}
		if err != nil {
			w.log("open", n, err.Error(), true)
			return nil, err
		}
		w.log("open", n, "", false)
		return &watchedReader{r: r, w: w, n: n}, nil
	}
	o.Glob = func(p string) ([]string, error) {
		err := w.fault("glob", p)
		var ns []string
		if err == nil {
			ns, err = c.glob(p)
		}
		if err != nil {
			w.log("glob", p, err.Error(), true)
			if c.Part {
				ns, _ = c.glob(p)
			}
			return ns, err
		}
		w.log("glob", p, "", false)
		return ns, nil
	}
	before := runtime.NumGoroutine()
	p, err := cp.Parse(c.Main, o)
	w.mu.Lock()
	evs := append([]event{}, w.events...)
	w.over = true
	w.mu.Unlock()
	res := obj{"ret": retOf(err), "p": fromPayload(p), "events": evs, "left": left(before)}
	w.mu.Lock()
	res["late"] = w.late
	w.mu.Unlock()
	return res
}

// opLexW lexes a text and looks for what is left when all tokens have been taken.
func opLexW(raw []byte) obj {
	var c struct {
		X     string
		Lua   bool
		Cap   *int
		Chunk int
		Fail  string
	}
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	before := runtime.NumGoroutine()
	toks := lexText(c.X, c.Lua, c.Chunk, c.Fail)
	return obj{"toks": toks, "left": left(before)}
}

// opCombineW combines and looks for what is left.
func opCombineW(raw []byte) obj {
	var c struct{ P Payl }
	must(json.Unmarshal(raw, &c))
	p := c.P.toPayload()
	before := runtime.NumGoroutine()
	_, err := p.Combined()
	return obj{"err": err != nil, "left": left(before)}
}
