package main

// Parsing real files: the case's files are laid out in a scratch directory, which
// names in the case refer to as /R. Neither Open nor Glob is given.

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() { ops["realfs"] = opRealFS }

func opRealFS(raw []byte) obj {
	root, err := os.MkdirTemp("", "vdrive")
	must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	must(err)
	var c parseCase
	must(json.Unmarshal([]byte(strings.ReplaceAll(string(raw), "/R/", root+"/")), &c))
	setCap(c.Cap)
	cwd, err := os.Getwd()
	must(err)
	must(os.Chdir(root))
	defer os.Chdir(cwd)
	for _, f := range c.Files {
		n := f.N
		if !filepath.IsAbs(n) {
			n = filepath.Join(root, n)
		}
		if !strings.HasPrefix(n, root+"/") {
			fatal("file %q is outside the scratch directory", n)
		}
		must(os.MkdirAll(filepath.Dir(n), 0o755))
		if f.K == "read" { // a directory can be opened but not read
			must(os.MkdirAll(n, 0o755))
			continue
		}
		if f.K == "open" { // a link that leads nowhere
			must(os.Symlink(filepath.Join(root, "no", "where"), n))
			continue
		}
		must(os.WriteFile(n, []byte(f.X), 0o644))
	}
	o := c.options()
	o.Open, o.Glob = nil, nil
	fds := countFDs()
	p, err := cp.Parse(c.Main, o)
	res := obj{"ret": retOf(err), "p": fromPayload(p), "nil": p == nil, "leaked": countFDs() - fds}
	b, err := json.Marshal(res)
	must(err)
	var back obj
	must(json.Unmarshal([]byte(strings.ReplaceAll(string(b), root+"/", "/R/")), &back))
	return back
}
