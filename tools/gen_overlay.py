#!/usr/bin/env python3
"""gen_overlay.py DIR: writes DIR/overlay.json and a copy of math/rand's rand.go whose top-level
functions first ask a hook, so that a native replay can fix the outcome of the random source.
The overlay is used for the replay binary only."""
import json, os, re, subprocess, sys
d = sys.argv[1]
src = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip() + "/src/math/rand/rand.go"
s = open(src).read()
def hook(name, args, ret, kind, conv, n="0"):
    global s
    pat = re.compile(r"^func %s\(%s\) %s \{" % (name, re.escape(args), ret), re.M)
    s, k = pat.subn(lambda m: m.group(0) + " if VerifHook != nil { if v, ok := VerifHook(\"%s\", int64(%s)); ok { return %s } }; " % (kind, n, conv), s)
    if k != 1:
        sys.exit("math/rand.%s not found" % name)
hook("Float64", "", "float64", "env:rand.Float64", "math.Float64frombits(v)")
hook("Float32", "", "float32", "env:rand.Float32", "float32(math.Float64frombits(v))")
hook("NormFloat64", "", "float64", "env:rand.Norm", "math.Float64frombits(v)")
hook("Intn", "n int", "int", "env:rand.Intn", "int(v)", "n")
hook("Int63n", "n int64", "int64", "env:rand.Intn", "int64(v)", "n")
hook("Int31n", "n int32", "int32", "env:rand.Intn", "int32(v)", "n")
s += "\n// VerifHook, when set, may decide the outcome of a call.\nvar VerifHook func(kind string, n int64) (uint64, bool)\n"
# NormFloat64 lives in the same file; math is needed for Float64frombits
if not re.search(r'^\s*"math"$', s, re.M) and '"math"' not in s:
    s = s.replace("import (", 'import (\n\t"math"', 1)
out = d + "/rand.go"
open(out, "w").write(s)
rep = {src: out}
root = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip() + "/src/image/"
def enc(pkg, head, call, decl):
    src = root + pkg + "/writer.go"
    s = open(src).read()
    if s.count(head) != 1:
        sys.exit("image/%s: encoder not found" % pkg)
    s = s.replace(head, head + " if VerifHook != nil { " + call + " }; ") + "\n" + decl + "\n"
    out = d + "/" + pkg + ".go"
    open(out, "w").write(s)
    rep[src] = out
enc("png", "func (enc *Encoder) Encode(w io.Writer, m image.Image) error {", "VerifHook(w, m)", "var VerifHook func(io.Writer, image.Image)")
enc("jpeg", "func Encode(w io.Writer, m image.Image, o *Options) error {", "q := DefaultQuality; if o != nil { q = o.Quality }; VerifHook(w, m, q)", "var VerifHook func(io.Writer, image.Image, int)")
json.dump({"Replace": rep}, open(d + "/overlay.json", "w"))
