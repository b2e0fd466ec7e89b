package main

// The generator, in process and as a command, on trees of source files.

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
)

func init() {
	ops["gen"] = opGen
	ops["genn"] = opGenN
}

type genFile struct {
	N, X, K, T string // K: "" a file, "dir" an empty directory, "gone" a link to nothing, "deep" directories too deep to be listed, "link" a link to the file T (whose text X is)
}

type genOver struct {
	D string     `json:"d"`
	M [][]string `json:"m"`
}

type genConf struct {
	Filter  []string
	Over    []genOver
	Map, Fn string
	Comment string
}

func writeTree(root string, files []genFile) {
	for _, f := range files {
		n := filepath.Join(root, f.N)
		must(os.MkdirAll(filepath.Dir(n), 0o755))
		switch f.K {
		case "dir":
			must(os.MkdirAll(n, 0o755))
		case "deep":
			must(os.MkdirAll(n, 0o755))
			deepen(n)
		case "gone":
			must(os.Symlink(filepath.Join(root, "nowhere"), n))
		case "link":
			must(os.Symlink(filepath.Join(root, f.T), n))
		default:
			must(os.WriteFile(n, []byte(f.X), 0o644))
		}
	}
}

// deepen makes directories below n until their path is longer than one may be.
func deepen(n string) {
	at, err := os.OpenRoot(n)
	must(err)
	for i := 0; i < 20; i++ {
		name := strings.Repeat("d", 250)
		must(at.Mkdir(name, 0o755))
		next, err := at.OpenRoot(name)
		must(err)
		must(at.Close())
		at = next
	}
	must(at.Close())
}

func (g genConf) config() generator.GenerateConfig {
	c := generator.GenerateConfig{DirectiveMapName: g.Map, MatchFuncName: g.Fn, MatchFuncComment: g.Comment}
	if len(g.Filter) > 0 {
		c.Filter = generator.Filters{}
		for _, f := range g.Filter {
			c.Filter[f] = struct{}{}
		}
	}
	if len(g.Over) > 0 {
		c.Override = map[string][]generator.Mask{}
		for _, o := range g.Over {
			ms := []generator.Mask{}
			for _, m := range o.M {
				ms = append(ms, append(generator.Mask{}, m...))
			}
			c.Override[o.D] = ms
		}
	}
	return c
}

// fullWriter takes so many bytes.
type fullWriter struct{ left int }

func (w *fullWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("full")
	}
	w.left -= len(p)
	return len(p), nil
}

// opGen generates twice.
func opGen(raw []byte) obj {
	var c struct {
		genConf
		Files []genFile
		At    string
		Via   string
		Conf  genConf
		Flags struct {
			Filter, Over     []string
			Map, Fn, Comment string
		}
		Nosrc, Badconf, Useconf bool
		Badkind                 string
		Failw                   bool // what is written is not taken
	}
	must(json.Unmarshal(raw, &c))
	scratch, err := os.MkdirTemp("", "vdrive")
	must(err)
	defer os.RemoveAll(scratch)
	root := filepath.Join(scratch, "src")
	must(os.Mkdir(root, 0o755))
	writeTree(root, c.Files)
	at := filepath.Join(root, c.At)
	run := func() (string, bool) {
		var buf bytes.Buffer
		if c.Via != "cli" {
			var w io.Writer = &buf
			if c.Failw {
				w = &fullWriter{left: 3 * len(c.Files)}
			}
			err := generator.Generate(at, w, c.config())
			return buf.String(), err != nil
		}
		var args []string
		if !c.Nosrc {
			args = append(args, "-src-path", at)
		}
		if c.Useconf {
			f := filepath.Join(scratch, "conf.json")
			m := map[string]interface{}{}
			put := func(k, v string) {
				if v != "" {
					m[k] = v
				}
			}
			put("directiveMapName", c.Conf.Map)
			put("matchFuncName", c.Conf.Fn)
			put("matchFuncComment", c.Conf.Comment)
			if len(c.Conf.Filter) > 0 {
				m["filter"] = c.Conf.Filter
			}
			if len(c.Conf.Over) > 0 {
				o := map[string][][]string{}
				for _, x := range c.Conf.Over {
					o[x.D] = x.M
				}
				m["override"] = o
			}
			if c.Badconf { // a value of the wrong type
				switch c.Badkind {
				case "filter":
					m["filter"] = "alpha"
				case "filters":
					m["filter"] = []interface{}{"alpha", 1}
				case "override":
					m["override"] = map[string]interface{}{"alpha": "bitA"}
				case "comment":
					m["matchFuncComment"] = 1
				}
			}
			b, err := json.Marshal(m)
			must(err)
			if c.Badconf {
				switch c.Badkind {
				case "half":
					b = b[:len(b)/2]
				case "last":
					b = b[:len(b)-1]
				case "array":
					b = []byte("[" + string(b) + "]")
				case "empty":
					b = nil
				}
			}
			if !c.Badconf || c.Badkind != "missing" {
				must(os.WriteFile(f, b, 0o644))
			}
			args = append(args, "-config-path", f)
		}
		flag := func(k, v string) {
			if v != "" {
				args = append(args, "-"+k, v)
			}
		}
		flag("directive-map-name", c.Flags.Map)
		flag("match-func-name", c.Flags.Fn)
		flag("match-func-comment", c.Flags.Comment)
		for _, x := range c.Flags.Filter {
			flag("filter", x)
		}
		for _, x := range c.Flags.Over {
			args = append(args, "-override="+x)
		}
		cmd := exec.Command(os.Getenv("VGEN"), args...)
		cmd.Stdout = &buf
		if c.Failw {
			f, err := os.Open(os.DevNull) // which cannot be written to
			must(err)
			defer f.Close()
			cmd.Stdout = f
		}
		err := cmd.Run()
		if _, ok := err.(*exec.ExitError); err != nil && !ok {
			fatal("running the generator: %v", err)
		}
		return buf.String(), err != nil
	}
	out, failed := run()
	out2, failed2 := run()
	return obj{"out": out, "err": failed, "same": out == out2 && failed == failed2, "silent": out == ""}
}

// opGenN runs the generator on single files.
func opGenN(raw []byte) obj {
	var c struct {
		genConf
		XS []string
	}
	must(json.Unmarshal(raw, &c))
	scratch, err := os.MkdirTemp("", "vdrive")
	must(err)
	defer os.RemoveAll(scratch)
	outs := []obj{}
	f := filepath.Join(scratch, "a.c")
	for _, x := range c.XS {
		must(os.WriteFile(f, []byte(x), 0o644))
		var buf bytes.Buffer
		err := generator.Generate(scratch, &buf, c.config())
		outs = append(outs, obj{"out": buf.String(), "err": err != nil})
	}
	return obj{"outs": outs}
}
