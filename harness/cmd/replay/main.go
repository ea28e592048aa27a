// replay runs a harness natively on given assignments (stdin: JSON) and prints one result per run.
package main

import (
	"encoding/json"
	"fmt"
	"image"
	"image/jpeg"
	"image/png"
	"io"
	"math/rand"
	"os"

	"verifharness/h"
	"verifharness/sym"
)

type req struct {
	Job  string     `json:"job"`
	Real bool       `json:"real"`
	Thor bool       `json:"thorough"`
	Runs []*sym.Run `json:"runs"`
	Rand []int64    `json:"rand"`
}

type result struct {
	Outcome string `json:"outcome"`
	Label   string `json:"label"`
}

func one(f func(), r *sym.Run, q *req) (res result) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case sym.AssumeFailed:
			res = result{"assume", x.Name}
		case sym.AssertFailed:
			res = result{"fail", x.Label}
		default:
			res = result{"panic", fmt.Sprint(x)}
		}
	}()
	sym.Start(r, q.Real, q.Thor)
	rand.VerifHook = sym.Env
	png.VerifHook = func(w io.Writer, m image.Image) { sym.EncodeHook(w, m, "png", 0) }
	jpeg.VerifHook = func(w io.Writer, m image.Image, q int) { sym.EncodeHook(w, m, "jpeg", q) }
	defer sym.Clean()
	f()
	return result{"ok", fmt.Sprint(sym.Asserted())}
}

func main() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(2)
	}
	q := &req{}
	if err := json.Unmarshal(b, q); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := h.Jobs[q.Job]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no job", q.Job)
		os.Exit(2)
	}
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	bad := 0
	for i, r := range q.Runs {
		if i < len(q.Rand) {
			rand.Seed(q.Rand[i])
		}
		res := one(f, r, q)
		o, _ := json.Marshal(res)
		fmt.Fprintf(out, "\n@@RESULT %s\n", o)
		if res.Outcome == "fail" || res.Outcome == "panic" {
			bad++
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
