package main

// Combining, building, quoting, JSON, equality.

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() {
	ops["combine"] = opCombine
	ops["quoten"] = opQuoteN
	ops["build"] = opBuild
	ops["buildn"] = opBuildN
	ops["files"] = opFiles
	ops["into"] = opInto
	ops["json"] = opJSON
	ops["jsonn"] = opJSONN
	ops["equal"] = opEqual
}

func dump(v interface{}) string { return string(encode(v)) }

func opCombine(raw []byte) obj {
	var c struct{ P Payl }
	must(json.Unmarshal(raw, &c))
	return combine(c.P)
}

func combine(pl Payl) obj {
	p := pl.toPayload()
	before := dump(fromPayload(p))
	q, err := p.Combined()
	res := obj{"ret": retOf(err), "p": fromPayload(q), "nil": q == nil}
	res["kept"] = dump(fromPayload(p)) == before
	return res
}

// every word once as an argument and once as a name
func opQuoteN(raw []byte) obj {
	var c struct{ WS []string }
	must(json.Unmarshal(raw, &c))
	type out struct {
		E  string `json:"e"`
		A  string `json:"a"`
		AT []tok  `json:"at"`
		N  string `json:"n"`
		NT []tok  `json:"nt"`
	}
	outs := []out{}
	build := func(d *cp.Directive) string {
		var buf bytes.Buffer
		if err := cp.Build(&buf, cp.Config{Parsed: cp.Directives{d}}, &cp.BuildOptions{}); err != nil {
			return "error: " + err.Error()
		}
		return buf.String()
	}
	for _, w := range c.WS {
		o := out{E: cp.Enquote(w)}
		o.A = build(&cp.Directive{Directive: "x", Args: []string{w, "y"}})
		o.N = build(&cp.Directive{Directive: w, Args: []string{"y"}, IsMapBlockParameter: true})
		o.AT = lexText(o.A, false, 0, "")
		o.NT = lexText(o.N, false, 0, "")
		outs = append(outs, o)
	}
	return obj{"outs": outs}
}

func opBuild(raw []byte) obj {
	var c struct {
		Parsed []Dir
		Build  buildOpt
	}
	must(json.Unmarshal(raw, &c))
	var buf bytes.Buffer
	err := cp.Build(&buf, cp.Config{File: "x", Parsed: toDirs(c.Parsed)}, c.Build.options())
	return obj{"text": buf.String(), "ret": retOf(err)}
}

// many trees under many layouts
func opBuildN(raw []byte) obj {
	var c struct {
		Trees  [][]Dir
		Builds []buildOpt
	}
	must(json.Unmarshal(raw, &c))
	outs := [][]string{}
	for _, t := range c.Trees {
		row := []string{}
		for i := range c.Builds {
			var buf bytes.Buffer
			if err := cp.Build(&buf, cp.Config{Parsed: toDirs(t)}, c.Builds[i].options()); err != nil {
				row = append(row, "error: "+err.Error())
				continue
			}
			row = append(row, buf.String())
		}
		outs = append(outs, row)
	}
	return obj{"outs": outs}
}

type namedText struct {
	N string `json:"n"`
	X string `json:"x"`
}

// opFiles builds a payload into a scratch directory. In names, "@" stands for that directory.
func opFiles(raw []byte) obj {
	var c struct {
		P     Payl
		Build buildOpt
		Dir   string
		Pre   []namedText
		Trap  []namedText // paths that cannot be written: x says how
		// built before, into the same place
		Earlier []Payl
	}
	must(json.Unmarshal(raw, &c))
	scratch, err := os.MkdirTemp("", "vdrive")
	must(err)
	defer os.RemoveAll(scratch)
	root := filepath.Join(scratch, "a", "b") // names that lead upwards stay inside
	must(os.MkdirAll(root, 0o755))
	cwd, err := os.Getwd()
	must(err)
	must(os.Mkdir(filepath.Join(root, "cwd"), 0o755))
	must(os.Chdir(filepath.Join(root, "cwd")))
	defer os.Chdir(cwd)
	real := func(s string) string { return strings.ReplaceAll(s, "@", root) }
	for _, f := range c.Pre {
		n := real(f.N)
		must(os.MkdirAll(filepath.Dir(n), 0o755))
		must(os.WriteFile(n, []byte(f.X), 0o644))
	}
	for _, f := range c.Trap {
		n := real(f.N)
		must(os.MkdirAll(filepath.Dir(n), 0o755))
		switch f.X {
		case "dir": // a directory stands where the file goes
			must(os.Mkdir(n, 0o755))
		case "file": // a file stands where a directory goes
			must(os.WriteFile(n, nil, 0o644))
		case "full": // no space on the device
			must(os.Symlink("/dev/full", n))
		default:
			fatal("trap %q", f.X)
		}
	}
	payload := func(pl Payl) *cp.Payload {
		p := pl.toPayload()
		for i := range p.Config {
			p.Config[i].File = real(p.Config[i].File)
		}
		return p
	}
	for _, e := range c.Earlier {
		_ = cp.BuildFiles(*payload(e), real(c.Dir), c.Build.options())
	}
	p := payload(c.P)
	before := dump(fromPayload(p))
	fds := countFDs()
	err = cp.BuildFiles(*p, real(c.Dir), c.Build.options())
	leaked := countFDs() - fds
	res := obj{"failed": err != nil, "kept": dump(fromPayload(p)) == before, "leaked": leaked}
	res["err"] = ""
	if err != nil {
		res["err"] = strings.ReplaceAll(err.Error(), root, "@")
	}
	files := []namedText{}
	must(filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.Mode().IsRegular() {
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			files = append(files, namedText{N: "@" + strings.TrimPrefix(path, root), X: string(b)})
		}
		return nil
	}))
	sort.Slice(files, func(i, j int) bool { return files[i].N < files[j].N })
	res["files"] = files
	return res
}

func countFDs() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(es)
}

// a creator whose operations are numbered and logged; operation `fail` fails
type creator struct {
	ops  []event
	fail int
}

type event struct {
	O string `json:"o"` // operation
	N string `json:"n"` // name
	X string `json:"x"` // data
	E bool   `json:"e"` // failed
}

func (c *creator) op(o, n, x string) error {
	bad := len(c.ops)+1 == c.fail
	c.ops = append(c.ops, event{o, n, x, bad})
	if bad {
		return errors.New("injected " + o + " failure")
	}
	return nil
}

func (c *creator) Create(name string) (io.WriteCloser, error) {
	if err := c.op("create", name, ""); err != nil {
		return nil, err
	}
	return &createdFile{c, name}, nil
}

type createdFile struct {
	c *creator
	n string
}

func (f *createdFile) Write(p []byte) (int, error) {
	if err := f.c.op("write", f.n, string(p)); err != nil {
		return 0, err
	}
	return len(p), nil
}

func (c *creator) Reset() {}

func (f *createdFile) Close() error { return f.c.op("close", f.n, "") }

// opInto builds a payload with a creator.
func opInto(raw []byte) obj {
	var c struct {
		P     Payl
		Build buildOpt
		Fail  int
	}
	must(json.Unmarshal(raw, &c))
	p := c.P.toPayload()
	before := dump(fromPayload(p))
	cr := &creator{fail: c.Fail, ops: []event{}}
	err := cp.BuildInto(p, cr, c.Build.options())
	res := obj{"failed": err != nil, "events": cr.ops, "kept": dump(fromPayload(p)) == before, "err": ""}
	if err != nil {
		res["err"] = err.Error()
	}
	// the creator that keeps strings, used twice
	sc := &cp.StringsCreator{}
	strs := [][]namedText{}
	for i := 0; i < 2; i++ {
		sc.Reset()
		if err := cp.BuildInto(p, sc, c.Build.options()); err != nil {
			res["err"] = "strings: " + err.Error()
		}
		fs := []namedText{}
		for _, f := range sc.Files {
			fs = append(fs, namedText{f.Name, f.String()})
		}
		strs = append(strs, fs)
	}
	res["strs"] = strs
	return res
}

// tagged turns decoded JSON into ["s","text"], ["n",1], ["b",true], ["z"], ["a",[...]], ["o",[[key,value],...]]
func tagged(dec *json.Decoder) interface{} {
	t, err := dec.Token()
	must(err)
	switch x := t.(type) {
	case json.Delim:
		if x == '[' {
			a := []interface{}{}
			for dec.More() {
				a = append(a, tagged(dec))
			}
			_, err := dec.Token()
			must(err)
			return []interface{}{"a", a}
		}
		o := []interface{}{}
		for dec.More() {
			k, err := dec.Token()
			must(err)
			o = append(o, []interface{}{k, tagged(dec)})
		}
		_, err := dec.Token()
		must(err)
		return []interface{}{"o", o}
	case string:
		return []interface{}{"s", x}
	case json.Number:
		n, err := x.Int64()
		must(err)
		return []interface{}{"n", n}
	case bool:
		return []interface{}{"b", x}
	}
	return []interface{}{"z"}
}

func opJSON(raw []byte) obj {
	var c struct{ P Payl }
	must(json.Unmarshal(raw, &c))
	return viaJSON(c.P)
}

// many payloads
func opJSONN(raw []byte) obj {
	var c struct{ PS []Payl }
	must(json.Unmarshal(raw, &c))
	outs := []obj{}
	for _, p := range c.PS {
		outs = append(outs, viaJSON(p))
	}
	return obj{"outs": outs}
}

func viaJSON(pl Payl) obj {
	p := pl.toPayload()
	before := dump(fromPayload(p))
	b, err := json.Marshal(p)
	res := obj{"merr": "", "uerr": "", "again": false, "j": []interface{}{"z"}, "p": fromPayload(nil)}
	if err != nil {
		res["merr"] = err.Error()
		return res
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	res["j"] = tagged(dec)
	var q cp.Payload
	if err := json.Unmarshal(b, &q); err != nil {
		res["uerr"] = err.Error()
		return res
	}
	res["p"] = fromPayload(&q)
	b2, err := json.Marshal(&q)
	if err != nil {
		res["merr"] = err.Error()
		return res
	}
	res["again"] = bytes.Equal(b, b2)
	res["kept"] = dump(fromPayload(p)) == before
	return res
}

// opEqual compares directives: every pair of separate copies, and each with itself.
// A directive may also be compared with one whose lists are the same slices.
func opEqual(raw []byte) obj {
	var c struct{ DS, With []Dir }
	must(json.Unmarshal(raw, &c))
	a, b := toDirs(c.DS), toDirs(c.With)
	before := dump(fromDirs(a)) + dump(fromDirs(b))
	out := [][]bool{}
	for i := range a {
		row := []bool{}
		for j := range b {
			row = append(row, a[i].Equal(b[j]))
		}
		out = append(out, row)
	}
	self, same := []bool{}, []bool{}
	for i := range a {
		self = append(self, a[i].Equal(a[i]))
		if a[i] == nil {
			same = append(same, true)
			continue
		}
		twin := *a[i]
		same = append(same, twin.Equal(a[i]) && a[i].Equal(&twin))
	}
	return obj{"eq": out, "self": self, "same": same, "kept": before == dump(fromDirs(a))+dump(fromDirs(b))}
}
