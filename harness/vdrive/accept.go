package main

// Acceptance of single directives, in bulk.

import (
	"encoding/json"
	"io"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// the default capacity costs more than parsing a short text does
var smallCap = 16

func init() {
	ops["acceptn"] = opAcceptN
	ops["catalogue"] = opCatalogue
}

// opAcceptN parses small texts with small sources. An item names its sources (each
// an index into the tables) and is parsed under every option set. The answer
// holds the reason of the first error, "" if there is none.
func opAcceptN(raw []byte) obj {
	var c struct {
		Tables [][]srcEntry
		Texts  []string
		Opts   []caseOpt
		Items  []struct {
			S []int
			X int
		}
	}
	must(json.Unmarshal(raw, &c))
	setCap(&smallCap)
	fns := []cp.MatchFunc{}
	for _, t := range c.Tables {
		fns = append(fns, tableFn(t))
	}
	outs := [][]string{}
	for _, it := range c.Items {
		row := []string{}
		for _, o := range c.Opts {
			pc := parseCase{Main: "m.conf", Opt: o, Deflt: true, Files: []caseFile{{N: "m.conf", K: "ok", X: c.Texts[it.X]}}}
			po := pc.options()
			for _, s := range it.S {
				po.DirectiveSources = append(po.DirectiveSources, fns[s])
			}
			row = append(row, firstReason(cp.Parse("m.conf", po)))
		}
		outs = append(outs, row)
	}
	return obj{"outs": outs}
}

func firstReason(p *cp.Payload, err error) string {
	if err != nil {
		return fromErr(err).W
	}
	if len(p.Errors) > 0 {
		return fromErr(p.Errors[0].Error).W
	}
	if p.Status != "ok" {
		return "status " + p.Status
	}
	return ""
}

// opCatalogue asks a shipped source about names: whether it knows them, and which of
// the texts (with @ standing for the name) it accepts. The texts are the main file.
func opCatalogue(raw []byte) obj {
	var c struct {
		Srcs  []string // several: together, in this order; none: the default of Parse
		Names []string
		Texts []string
		Opt   caseOpt
	}
	must(json.Unmarshal(raw, &c))
	setCap(&smallCap)
	outs := []string{}
	known := []string{}
	for _, n := range c.Names {
		k := ""
		for _, s := range c.Srcs {
			if m, ok := sourceFn(s)(n); ok && len(m) > 0 {
				k += "1"
			} else if !ok && len(m) == 0 {
				k += "0"
			} else {
				k += "?"
			}
		}
		known = append(known, k)
		row := make([]byte, 0, len(c.Texts))
		for _, x := range c.Texts {
			pc := parseCase{Main: "m.conf", Opt: c.Opt, Deflt: true, Files: []caseFile{{N: "m.conf", K: "ok", X: strings.ReplaceAll(x, "@", n)}}}
			po := pc.options()
			po.Open = func(name string) (io.ReadCloser, error) {
				if name != "m.conf" { // whatever is included is there
					return newReader("", 0, ""), nil
				}
				return pc.open(name)
			}
			for _, s := range c.Srcs {
				po.DirectiveSources = append(po.DirectiveSources, sourceFn(s))
			}
			if p, err := cp.Parse("m.conf", po); err == nil && p.Status == "ok" {
				row = append(row, '1')
			} else {
				row = append(row, '0')
			}
		}
		outs = append(outs, string(row))
	}
	return obj{"outs": outs, "known": known}
}

func init() { ops["fsn"] = opFSN }

// opFSN parses many file systems: the texts of the named files vary.
func opFSN(raw []byte) obj {
	var c struct {
		parseCase
		Names []string
		FS    [][]string
	}
	must(json.Unmarshal(raw, &c))
	setCap(&smallCap)
	outs := []obj{}
	aux := c.Files
	for _, xs := range c.FS {
		c.Files = nil
		for i, x := range xs {
			c.Files = append(c.Files, caseFile{N: c.Names[i], K: "ok", X: x})
		}
		c.Files = append(c.Files, aux...)
		p, err := cp.Parse(c.Main, c.options())
		outs = append(outs, obj{"ret": retOf(err), "p": fromPayload(p)})
	}
	return obj{"outs": outs}
}

func init() { ops["combinen"] = opCombineN }

// opCombineN combines many payloads.
func opCombineN(raw []byte) obj {
	var c struct{ PS []Payl }
	must(json.Unmarshal(raw, &c))
	outs := []obj{}
	for _, p := range c.PS {
		outs = append(outs, combine(p))
	}
	return obj{"outs": outs}
}
