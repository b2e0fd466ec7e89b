package main

import (
	"encoding/json"
	"io"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

func init() {
	ops["views"] = opViews
	ops["viewsp"] = opViewsParse
	ops["filesn"] = opFilesN
}

type view struct {
	Block   bool   `json:"block"`
	Include bool   `json:"include"`
	Comment bool   `json:"comment"`
	Text    string `json:"text"`
}

func viewsOf(ds cp.Directives) []view {
	out := []view{}
	for _, d := range ds {
		out = append(out, view{d.IsBlock(), d.IsInclude(), d.IsComment(), d.String()})
		out = append(out, viewsOf(d.Block)...)
	}
	return out
}

// what directives say of themselves
func opViews(raw []byte) obj {
	var c struct{ DS []Dir }
	must(json.Unmarshal(raw, &c))
	ds := toDirs(c.DS)
	before := dump(fromDirs(ds))
	v := viewsOf(ds)
	return obj{"v": v, "ds": fromDirs(ds), "kept": dump(fromDirs(ds)) == before}
}

// the same of the directives of a parse
func opViewsParse(raw []byte) obj {
	var c parseCase
	must(json.Unmarshal(raw, &c))
	setCap(c.Cap)
	p, err := cp.Parse(c.Main, c.options())
	res := obj{"v": []view{}, "ds": []Dir{}, "kept": true}
	if err != nil || p == nil {
		return res
	}
	var ds cp.Directives
	for _, g := range p.Config {
		ds = append(ds, g.Parsed...)
	}
	before := dump(fromDirs(ds))
	v := viewsOf(ds)
	return obj{"v": v, "ds": fromDirs(ds), "kept": dump(fromDirs(ds)) == before}
}

type fileStep struct {
	O string
	H int
	X string
}

// histories of uses of a creator
func opFilesN(raw []byte) obj {
	var c struct{ TS [][]fileStep }
	must(json.Unmarshal(raw, &c))
	type out struct {
		Held []namedText `json:"held"`
		All  []namedText `json:"all"`
		Old  []namedText `json:"old"` // the lists taken just before the resets
		Bad  string      `json:"bad"`
	}
	outs := []out{}
	for _, ts := range c.TS {
		o := out{Held: []namedText{}, All: []namedText{}, Old: []namedText{}}
		lists := [][]*cp.FileString{}
		var sc cp.StringsCreator
		var into cp.Creator = &sc
		ws := []io.WriteCloser{}
		for _, t := range ts {
			switch t.O {
			case "create":
				w, err := into.Create(t.X)
				if err != nil || w == nil {
					fatal("create")
				}
				ws = append(ws, w)
			case "write":
				if n, err := ws[t.H-1].Write([]byte(t.X)); err != nil || n != len(t.X) {
					o.Bad = "write"
				}
			case "close":
				if err := ws[t.H-1].Close(); err != nil {
					o.Bad = "close"
				}
			case "reset":
				lists = append(lists, sc.Files)
				into.Reset()
			}
		}
		for _, f := range sc.Files {
			o.Held = append(o.Held, namedText{f.Name, f.String()})
		}
		for _, l := range lists {
			for _, f := range l {
				o.Old = append(o.Old, namedText{f.Name, f.String()})
			}
		}
		for _, w := range ws {
			f := w.(*cp.FileString)
			o.All = append(o.All, namedText{f.Name, f.String()})
		}
		outs = append(outs, o)
	}
	return obj{"outs": outs}
}
