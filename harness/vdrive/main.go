// Command vdrive runs cases against the real package and records what it did.
//
// usage: vdrive CASES OUT [SKIP]
//
// CASES and OUT hold one JSON object per line. Every case is answered by one
// line {"id":..., "k":"done"|"panic"|"hang", ...}, written as soon as the case is
// over, so that after a crash the number of lines says which case was running.
// It uses the public API of the package only.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

type obj = map[string]interface{}

var ops = map[string]func(raw []byte) obj{}

func runCase(op string, raw []byte) (res obj) {
	defer func() {
		if r := recover(); r != nil {
			st := debug.Stack()
			if len(st) > 1500 {
				st = st[:1500]
			}
			res = obj{"k": "panic", "what": fmt.Sprint(r), "stack": string(st)}
		}
	}()
	f, ok := ops[op]
	if !ok {
		fatal("unknown op %q", op)
	}
	res = f(raw)
	if _, ok := res["k"]; !ok {
		res["k"] = "done"
	}
	return res
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vdrive: "+f+"\n", a...)
	os.Exit(4) // not 2, which a panic ends with
}

// encode writes JSON in which everything that is not ASCII is escaped.
func encode(v interface{}) []byte {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		fatal("encode: %v", err)
	}
	var out bytes.Buffer
	for _, r := range buf.String() {
		if r < 0x80 {
			out.WriteRune(r)
		} else if r < 0x10000 {
			fmt.Fprintf(&out, `\u%04x`, r)
		} else {
			r -= 0x10000
			fmt.Fprintf(&out, `\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		}
	}
	return out.Bytes()
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: vdrive CASES OUT [SKIP]")
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		fatal("%v", err)
	}
	out, err := os.OpenFile(os.Args[2], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fatal("%v", err)
	}
	skip := 0
	if len(os.Args) > 3 {
		skip, _ = strconv.Atoi(os.Args[3])
	}
	limit := 20 * time.Second
	if s := os.Getenv("VDRIVE_LIMIT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	rd := bufio.NewReaderSize(in, 1<<20)
	n := 0
	for {
		line, err := rd.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) == 0 {
			if err != nil {
				break
			}
			continue
		}
		n++
		if n <= skip {
			continue
		}
		var h struct {
			ID json.RawMessage `json:"id"`
			Op string          `json:"op"`
		}
		if err := json.Unmarshal(line, &h); err != nil {
			fatal("case %d: %v", n, err)
		}
		done := make(chan obj, 1)
		go func() { done <- runCase(h.Op, line) }()
		var res obj
		select {
		case res = <-done:
		case <-time.After(limit):
			res = obj{"k": "hang"}
		}
		res["id"] = h.ID
		if _, err := out.Write(encode(res)); err != nil {
			fatal("%v", err)
		}
		if res["k"] == "hang" {
			os.Exit(3)
		}
		if err != nil {
			break
		}
	}
}
