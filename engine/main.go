package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var debugOn bool

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verification directory")
	replay := flag.String("replay", "", "native replay binary")
	only := flag.String("job", "", "run only jobs containing this text")
	seed := flag.Int("seed", 1, "seed")
	list := flag.Bool("list", false, "list jobs")
	verbose := flag.Bool("v", false, "verbose")
	par := flag.Int("j", runtime.NumCPU(), "parallel jobs")
	budget := flag.Int("budget", 0, "seconds per job")
	smtlog := flag.String("smtlog", "", "write the solver dialogue of the (single) job here")
	flag.BoolVar(&debugOn, "debug", false, "crash on engine errors")
	flag.Parse()
	debug.SetGCPercent(200)
	t0 := time.Now()
	g, err := load(filepath.Join(*verif, "harness"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	g.Tier = *tier
	loadT := time.Since(t0)
	var jobs []*Job
	for name, m := range g.hpkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || len(name) < 5 || name[0] != 'C' || name[3] != '_' {
			continue
		}
		if *prop != "" && !strings.HasPrefix(name, *prop+"_") {
			continue
		}
		if *only != "" && !strings.Contains(name, *only) {
			continue
		}
		j := &Job{Name: name, Fn: f}
		for _, p := range strings.Split(name, "_")[1:] {
			switch p {
			case "Real":
				j.Real = true
			case "Thorough":
				j.Thorough = true
			}
		}
		if j.Thorough && g.Tier != "thorough" && *only == "" {
			continue
		}
		j.Budget = 150 * time.Second
		if g.Tier == "thorough" {
			j.Budget = 900 * time.Second
		}
		if *budget > 0 {
			j.Budget = time.Duration(*budget) * time.Second
		}
		jobs = append(jobs, j)
	}
	sort.Slice(jobs, func(a, b int) bool { return jobs[a].Name < jobs[b].Name })
	if *list {
		for _, j := range jobs {
			fmt.Println(j.Name)
		}
		return
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "no jobs for", *prop)
		os.Exit(2)
	}
	_ = smtlog
	results := make([]*JobResult, len(jobs))
	var found atomic.Bool
	listed := map[string]bool{}
	for _, k := range readKnown(*verif) {
		listed[k.Job] = true
	}
	sem := make(chan struct{}, *par)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j *Job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if g.Tier != "thorough" {
				// the whole check has to end in time; once a violation is confirmed the rest is brief
				left := 600*time.Second - time.Since(t0)
				if found.Load() || left < 10*time.Second {
					left = 10 * time.Second
				}
				j.Budget = min(j.Budget, left)
			}
			r := g.runJob(j)
			if *replay != "" {
				r.confirm(*replay, *seed)
			}
			if len(r.Viol) > 0 && !listed[j.Name] {
				found.Store(true)
			}
			results[i] = r
			if *verbose {
				r.print()
			}
		}(i, j)
	}
	wg.Wait()
	os.Exit(finish(g, *prop, *tier, *seed, *verif, results, loadT, time.Since(t0), *only != ""))
}

func load(dir string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	pk, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, err
	}
	if n := packages.PrintErrors(pk); n > 0 {
		return nil, fmt.Errorf("%d package errors", n)
	}
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	g := &Engine{prog: prog, methods: map[methodKey]*ssa.Function{}, intr: map[*ssa.Function]Intrinsic{}}
	for _, p := range pkgs {
		if p != nil && p.Pkg.Path() == harnessMod+"/h" {
			g.hpkg = p
		}
	}
	if g.hpkg == nil {
		return nil, fmt.Errorf("no harness package")
	}
	g.pkgs = prog.AllPackages()
	sort.Slice(g.pkgs, func(a, b int) bool { return g.pkgs[a].Pkg.Path() < g.pkgs[b].Pkg.Path() })
	return g, nil
}

// ---------- native replay ----------

type replayReq struct {
	Job  string   `json:"job"`
	Real bool     `json:"real"`
	Thor bool     `json:"thorough"`
	Runs []*Model `json:"runs"`
	Rand []int64  `json:"rand,omitempty"` // per run: seed of math/rand
}

type replayRes struct {
	Outcome string `json:"outcome"` // ok, assume, fail, panic, crash, timeout
	Label   string `json:"label"`
}

func runReplay(bin string, req *replayReq, limit time.Duration) []replayRes {
	b, _ := json.Marshal(req)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = append(os.Environ(), "GODEBUG=randseednop=0,randautoseed=0", "GOMEMLIMIT=2GiB")
	o, err := cmd.Output()
	var out []replayRes
	sc := bufio.NewScanner(bytes.NewReader(o))
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		ln := sc.Text()
		if !strings.HasPrefix(ln, "@@RESULT ") {
			continue
		}
		var r replayRes
		if json.Unmarshal([]byte(ln[9:]), &r) == nil {
			out = append(out, r)
		}
	}
	if len(out) < len(req.Runs) {
		st := "crash"
		if ctx.Err() != nil || err == nil {
			st = "timeout" // no verdict
		} else if ee, ok := err.(*exec.ExitError); !ok || !strings.Contains(string(ee.Stderr), "fatal error:") && !strings.Contains(string(ee.Stderr), "panic:") {
			st = "timeout"
		}
		out = append(out, replayRes{st, fmt.Sprint(err)})
	}
	return out
}

var palette = []string{"0", "1", "-1", "2", "-2", "1/2", "-1/2", "3", "-3", "1/4", "-1/4", "3/2", "-3/2", "5", "-5", "1/10", "7", "10", "-10", "1/1000"}

// variants proposes further concrete inputs on the same path as m (its discrete choices are kept).
func variants(m *Model, e *Exec, n int, seed int64) []*Model {
	rng := rand.New(rand.NewSource(seed))
	var out []*Model
	for k := 0; k < n; k++ {
		v := &Model{Vars: map[string]string{}, Funs: m.Funs}
		for _, t := range e.syms {
			cur, ok := m.Vars[t.name]
			if strings.HasPrefix(t.name, "pick:") {
				if ok {
					v.Vars[t.name] = cur
				}
				continue
			}
			if ok && rng.Intn(4) == 0 && k%2 == 0 {
				v.Vars[t.name] = cur
				continue
			}
			switch t.s.K {
			case KReal:
				if rng.Intn(2) == 0 {
					v.Vars[t.name] = palette[rng.Intn(len(palette))]
				} else {
					v.Vars[t.name] = strconv.Itoa(rng.Intn(4001)-2000) + "/256"
				}
			case KBool:
				v.Vars[t.name] = strconv.Itoa(rng.Intn(2))
			default:
				if rng.Intn(2) == 0 {
					v.Vars[t.name] = strconv.FormatUint(uint64(int64(rng.Intn(9)-4))&mask(t.s.W), 10)
				} else {
					v.Vars[t.name] = strconv.FormatUint(rng.Uint64()&mask(t.s.W), 10)
				}
			}
		}
		out = append(out, v)
	}
	return out
}

func (r *JobResult) confirm(bin string, seed int) {
	e := r.Exec
	usesRand := false
	for _, t := range e.syms {
		if strings.HasPrefix(t.name, "env:rand") {
			usesRand = true
		}
	}
	mk := func(ms []*Model, seeds int) *replayReq {
		q := &replayReq{Job: r.Job.Name, Real: r.Job.Real, Thor: e.eng.Tier == "thorough"}
		for _, m := range ms {
			for s := 0; s < seeds; s++ {
				q.Runs = append(q.Runs, m)
				q.Rand = append(q.Rand, int64(s+1))
			}
		}
		return q
	}
	bad := func(x replayRes) bool { return x.Outcome == "fail" || x.Outcome == "panic" || x.Outcome == "crash" }
	seen := map[string]bool{}
	confirmedAny := false
	for _, c := range e.Cands {
		if seen[c.Label] {
			continue
		}
		nseed := 1
		if usesRand {
			nseed = 64
		}
		ms := []*Model{c.Model}
		q := mk(ms, nseed)
		found := false
		check := func(q *replayReq, res []replayRes) {
			for i, x := range res {
				if i < len(q.Runs) && bad(x) {
					found = true
					r.Viol = append(r.Viol, &Violation{c.Label, q.Runs[i], x.Outcome + ": " + x.Label, q.Rand[i]})
					return
				}
			}
		}
		check(q, runReplay(bin, q, 60*time.Second))
		if !found && !confirmedAny {
			nv := 300
			if usesRand {
				nv, nseed = 40, 8
			}
			q = mk(variants(c.Model, e, nv, int64(seed)), nseed)
			check(q, runReplay(bin, q, 60*time.Second))
		}
		if found {
			seen[c.Label] = true
			confirmedAny = true
		} else {
			r.Unconf = append(r.Unconf, c.Kind+": "+c.Label)
		}
	}
	// paths that were executed to the end: replay a model of each
	if len(e.witness) > 0 || confirmedAny == false {
		ms := e.witness
		if len(ms) == 0 {
			ms = []*Model{{Vars: map[string]string{}}}
		}
		nseed := 1
		if usesRand {
			nseed = 4
		}
		q := mk(ms, nseed)
		res := runReplay(bin, q, 60*time.Second)
		for i, x := range res {
			if i >= len(q.Runs) {
				break
			}
			r.Replays++
			switch {
			case x.Outcome == "ok":
				r.Agree++
			case bad(x) && !confirmedAny:
				r.Viol = append(r.Viol, &Violation{x.Label, q.Runs[i], x.Outcome + ": " + x.Label, q.Rand[i]})
				confirmedAny = true
			}
		}
	}
}

func (r *JobResult) print() {
	e := r.Exec
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: %.1fs paths %d (empty %d) states %d steps %d forks %d merges %d asserts %d closed %d proved %d queries %d unk %d fallb %d solver %.1fs terms %d replays %d/%d\n",
		r.Job.Name, r.Wall.Seconds(), e.Paths, e.emptyPaths, e.States, e.Steps, e.Forks, e.Merges, e.Asserts, e.Closed, e.Proved, e.sol.Queries, e.sol.UnknownN, e.sol.Fallbacks, e.sol.Time.Seconds(), e.tc.n, r.Agree, r.Replays)
	if c := r.Cert; c.Steps > 0 {
		fmt.Fprintf(&sb, "   rewriting steps %d certified %d undecided %d refuted %d side %d in %.1fs %v\n", c.Steps, c.Proved, c.Undecided, c.Refuted, c.Side, c.Time.Seconds(), c.Bad)
	}
	if r.Crash != "" {
		fmt.Fprintln(&sb, "   CRASH", r.Crash)
	}
	for _, k := range sortedKeys(e.Incompl) {
		fmt.Fprintln(&sb, "   incomplete:", k, e.Incompl[k])
	}
	for _, k := range e.Unk {
		fmt.Fprintln(&sb, "   unknown:", k)
	}
	for _, c := range e.Cands {
		b, _ := json.Marshal(c.Model)
		if len(b) > 800 {
			b = b[:800]
		}
		fmt.Fprintln(&sb, "   candidate:", c.Kind, c.Label, string(b))
	}
	for _, v := range r.Viol {
		fmt.Fprintln(&sb, "   CONFIRMED:", v.Label, "|", v.Native)
	}
	for _, v := range r.Unconf {
		fmt.Fprintln(&sb, "   unconfirmed:", v)
	}
	for _, k := range sortedKeys(e.Notes) {
		fmt.Fprintln(&sb, "   note:", k)
	}
	os.Stdout.WriteString(sb.String())
}

// ---------- evidence ----------

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Job      string `json:"job"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

func readKnown(verif string) (known []knownFinding) {
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		json.Unmarshal(b, &known)
	}
	return
}

func finish(g *Engine, prop, tier string, seed int, verif string, rs []*JobResult, loadT, wall time.Duration, partial bool) int {
	cov := map[string]any{}
	var states, steps, paths, asserts, closed, proved, queries, sat, unsat, unk, replays, agree, merges, fallb int
	var solver time.Duration
	var cert Cert
	fns := map[string]bool{}
	bounds := map[string]bool{}
	stubs := map[string]bool{}
	reduced := map[string]bool{}
	var samples []any
	perJob := []any{}
	nviol := 0
	known := readKnown(verif)
	vac := 0
	for _, r := range rs {
		e := r.Exec
		states += e.States
		steps += e.Steps
		paths += e.Paths
		asserts += e.Asserts
		closed += e.Closed
		proved += e.Proved
		merges += e.Merges
		queries += e.sol.Queries
		sat += e.sol.SatN
		unsat += e.sol.UnsatN
		unk += e.sol.UnknownN
		fallb += e.sol.Fallbacks
		solver += e.sol.Time
		cert.Steps += r.Cert.Steps
		cert.Proved += r.Cert.Proved
		cert.Side += r.Cert.Side
		cert.Time += r.Cert.Time
		if r.Cert.Refuted > 0 {
			reduced[r.Job.Name+": a rewriting step of the engine is not an identity: "+strings.Join(r.Cert.Bad, " ")] = true
		}
		replays += r.Replays
		agree += r.Agree
		for f := range e.Fns {
			o := f
			if f.Origin() != nil {
				o = f.Origin()
			}
			for o.Parent() != nil {
				o = o.Parent()
			}
			if o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), repoMod) {
				fns[strings.ReplaceAll(o.String(), repoMod+"/", "")] = true
			}
		}
		for n := range e.Notes {
			if strings.HasPrefix(n, "bound: ") {
				bounds[r.Job.Name+": "+n[7:]] = true
			} else {
				stubs[n] = true
			}
		}
		if r.Crash != "" {
			reduced[r.Job.Name+": engine error: "+r.Crash] = true
		}
		for k := range e.Incompl {
			reduced[r.Job.Name+": "+k] = true
		}
		for _, k := range e.Unk {
			reduced[r.Job.Name+": no solver verdict on: "+k] = true
		}
		for _, k := range r.Unconf {
			reduced[r.Job.Name+": solver counterexample not reproduced natively: "+k] = true
		}
		if e.Paths == 0 || e.Asserts == 0 {
			vac++
			reduced[r.Job.Name+": no complete path with an assertion"] = true
		}
		if len(e.witness) > 0 && len(samples) < 6 {
			samples = append(samples, map[string]any{"job": r.Job.Name, "input": trim(e.witness[len(e.witness)-1]), "verdict": "held on this path for all values"})
		}
		perJob = append(perJob, map[string]any{"job": r.Job.Name, "paths": e.Paths, "assertions": e.Asserts, "by_normal_form": e.Closed, "by_solver": e.Proved, "queries": e.sol.Queries, "solver_s": round(e.sol.Time.Seconds()), "wall_s": round(r.Wall.Seconds()), "arithmetic": map[bool]string{true: "reals", false: "machine"}[r.Job.Real]})
		kf := map[string]bool{}
		for _, v := range r.Viol {
			isKnown := false
			for _, k := range known {
				if k.Property == prop && k.Status == "known" && k.Job == r.Job.Name && (k.Label == v.Label) {
					isKnown = true
					if !kf[k.What] {
						kf[k.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
					}
				}
			}
			if isKnown {
				continue
			}
			nviol++
			dir := filepath.Join(verif, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Job.Name, nviol))
			b, _ := json.MarshalIndent(map[string]any{"property": prop, "job": r.Job.Name, "real": r.Job.Real, "thorough": tier == "thorough", "assertion": v.Label, "native": v.Native, "runs": []*Model{v.Model}, "rand": []int64{v.Seed}}, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s (native run: %s)\n", prop, p, r.Job.Name, v.Label, v.Native)
		}
	}
	keys := func(m map[string]bool) []string { k := sortedKeys(m); return k }
	cov["states"] = states
	cov["transitions"] = steps
	cov["traces_validated_against_impl"] = agree
	cov["native_replays"] = replays
	cov["samples"] = samples
	cov["symbolic_paths"] = paths
	cov["state_merges"] = merges
	cov["assertions_checked"] = asserts
	cov["assertions_by_normal_form"] = closed
	cov["assertions_by_solver"] = proved
	cov["solver_queries"] = queries
	cov["solver_sat"] = sat
	cov["solver_unsat"] = unsat
	cov["solver_unknown"] = unk
	cov["solver_fallbacks"] = fallb
	cov["rewriting_steps"] = cert.Steps
	cov["rewriting_steps_proved_by_solver"] = cert.Proved
	cov["rewriting_steps_undecided_or_not_reached"] = cert.Steps - cert.Proved + cert.Side
	cov["certificate_solver_s"] = round(cert.Time.Seconds())
	cov["solver_s"] = round(solver.Seconds())
	cov["load_s"] = round(loadT.Seconds())
	cov["functions_encoded"] = keys(fns)
	cov["bounds"] = keys(bounds)
	cov["reduced"] = keys(reduced)
	cov["jobs"] = perJob
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": keys(stubs), "wall_s": round(wall.Seconds()), "violations": nviol}
	if prop != "" && !partial {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
	}
	fmt.Printf("%s %s: %d jobs, %d paths, %d assertions (%d by normal form, %d by solver), %d queries, solver %.1fs, %d/%d rewriting steps certified, wall %.1fs, replayed %d/%d, reduced %d, violations %d\n",
		prop, tier, len(rs), paths, asserts, closed, proved, queries, solver.Seconds(), cert.Proved, cert.Steps+cert.Side, wall.Seconds(), agree, replays, len(reduced), nviol)
	for _, k := range keys(reduced) {
		fmt.Println("  reduced:", k)
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func trim(m *Model) *Model {
	if len(m.Vars) <= 24 {
		return m
	}
	o := &Model{Vars: map[string]string{}}
	for i, k := range sortedKeys(m.Vars) {
		if i >= 24 {
			break
		}
		o.Vars[k] = m.Vars[k]
	}
	return o
}

func round(f float64) float64 {
	return float64(int(f*100+0.5)) / 100
}
