package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The check of one property: a pool of worker processes verifies the property's functions
// while the bounded search for failing inputs runs beside it.

type job struct {
	Key    string `json:"key"`
	Prop   string `json:"prop"`
	Scale  int    `json:"scale"`
	Budget int    `json:"budget"`
}

type jobResult struct {
	Job     job         `json:"job"`
	Rep     *FuncReport `json:"rep"`
	LoadErr string      `json:"load_err,omitempty"`
	Dropped []string    `json:"dropped,omitempty"`
}

func workerMain(dir, repo string) {
	out := json.NewEncoder(os.Stdout)
	pr, err := load(dir, repo, []string{"./..."})
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<20)
	for in.Scan() {
		var j job
		if json.Unmarshal(in.Bytes(), &j) != nil {
			continue
		}
		r := jobResult{Job: j}
		if err != nil {
			r.LoadErr = err.Error()
		} else {
			r.Dropped = pr.dropped
			for _, c := range pr.spec.order {
				if c.Key == j.Key {
					scale_ = max(j.Scale, 1)
					r.Rep = pr.verify(c, j.Prop, j.Budget)
				}
			}
		}
		out.Encode(r)
	}
}

type pool struct {
	self, dir, repo string
	jobs            chan job
	results         chan jobResult
	wg              sync.WaitGroup
	ctx             context.Context
}

func (p *pool) run(n int) {
	for i := 0; i < n; i++ {
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			p.worker()
		}()
	}
	go func() { p.wg.Wait(); close(p.results) }()
}

func (p *pool) worker() {
	var cmd *exec.Cmd
	var enc *json.Encoder
	var rd *bufio.Reader
	var in interface{ Close() error }
	start := func() {
		cmd = exec.CommandContext(p.ctx, p.self, "worker")
		cmd.Env = append(os.Environ(), "GOVC_DIR="+p.dir, "GOVC_REPO="+p.repo, "GOMAXPROCS=4")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		w, _ := cmd.StdinPipe()
		o, _ := cmd.StdoutPipe()
		cmd.Stderr = os.Stderr
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, "cannot start a worker:", err)
		}
		enc, rd, in = json.NewEncoder(w), bufio.NewReaderSize(o, 1<<20), w
	}
	for j := range p.jobs {
		if cmd == nil {
			start()
		}
		var r jobResult
		err := enc.Encode(j)
		if err == nil {
			var l []byte
			l, err = rd.ReadBytes('\n')
			if err == nil {
				err = json.Unmarshal(l, &r)
			}
		}
		if err != nil {
			if cmd.Process != nil {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
			cmd.Wait()
			cmd = nil
			msg := "the verifier ended without an answer"
			if p.ctx.Err() != nil {
				msg = "the verifier ran out of time"
			}
			r = jobResult{Job: j, Rep: &FuncReport{Key: j.Key, Short: j.Key, Err: msg, Obls: []OblReport{{Kind: "timeout", Label: msg, By: "none"}}}}
		}
		p.results <- r
	}
	if cmd != nil {
		in.Close()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		cmd.Wait()
	}
}

func verifyAll(ctx context.Context, dir, repo string, jobs []job, workers int) ([]*FuncReport, string, []string) {
	self, _ := os.Executable()
	p := &pool{self: self, dir: dir, repo: repo, jobs: make(chan job, len(jobs)), results: make(chan jobResult, len(jobs)), ctx: ctx}
	for _, j := range jobs {
		p.jobs <- j
	}
	close(p.jobs)
	p.run(min(workers, len(jobs)))
	var reps []*FuncReport
	loadErr := ""
	var dropped []string
	for r := range p.results {
		if r.LoadErr != "" {
			loadErr = r.LoadErr
			continue
		}
		dropped = r.Dropped
		if r.Rep == nil {
			r.Rep = &FuncReport{Key: r.Job.Key, Short: r.Job.Key, Err: "no contract", Obls: []OblReport{{Kind: "contract", Label: "no contract"}}}
		}
		reps = append(reps, r.Rep)
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i].Key < reps[j].Key })
	return reps, loadErr, dropped
}

func failures(rep *FuncReport) []OblReport {
	var out []OblReport
	for _, o := range rep.Obls {
		if !o.OK {
			out = append(out, o)
		}
	}
	return out
}

// Harness results: one JSON file per property written by the overlay test.
type harnessResult struct {
	Cases    int64             `json:"cases"`
	Distinct int64             `json:"distinct"`
	Rule     string            `json:"rule"`
	Samples  []string          `json:"samples"`
	Failures []harnessFailure  `json:"failures"`
	Extra    map[string]string `json:"extra,omitempty"`
	Ran      bool              `json:"-"`
	Note     string            `json:"-"`
	WallMs   int64             `json:"-"`
}

type harnessFailure struct {
	Key   string `json:"key"`   // what fails, stable
	Input string `json:"input"` // the failing input, schedule or history
	What  string `json:"what"`
}

// harnessPkgs lists the package directories that have a harness for the property.
func harnessOverlay(dir, repo, prop, out string) (string, []string, error) {
	repl := map[string]string{}
	root := filepath.Join(dir, "harness")
	pkgs := map[string]bool{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		base := filepath.Base(rel)
		// files named <something>_c01_verif_test.go belong to single properties
		if i := strings.Index(base, "_verif_test.go"); i >= 0 {
			mine := false
			for _, f := range strings.Split(base[:i], "_") {
				mine = mine || f == strings.ToLower(prop)
			}
			if !mine && !strings.HasPrefix(base, "common") {
				return nil
			}
			if mine {
				pkgs[filepath.Dir(rel)] = true
			}
		}
		repl[filepath.Join(repo, rel)] = p
		return nil
	})
	if err != nil && !os.IsNotExist(err) {
		return "", nil, err
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(out, "overlay.json")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return "", nil, err
	}
	return ov, sortedKeys(pkgs), nil
}

func runHarness(ctx context.Context, dir, repo, prop, tier string, seed int) *harnessResult {
	t0 := time.Now()
	res := &harnessResult{}
	defer func() { res.WallMs = time.Since(t0).Milliseconds() }()
	out, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		res.Note = err.Error()
		return res
	}
	defer os.RemoveAll(out)
	ov, pkgs, err := harnessOverlay(dir, repo, prop, out)
	if err != nil || len(pkgs) == 0 {
		res.Note = "there is no search for failing inputs for this property"
		if err != nil {
			res.Note = err.Error()
		}
		return res
	}
	for i, p := range pkgs {
		dst := filepath.Join(out, fmt.Sprintf("result%d.json", i))
		limit := "240s"
		if tier == "thorough" {
			limit = "700s"
		}
		cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-overlay", ov, "-run", "^TestVerif_"+prop+"$", "-count=1", "-timeout", limit, "./"+p)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "VERIF_OUT="+dst, "VERIF_SCRATCH="+out, "VERIF_TIER="+tier, "VERIF_SEED="+strconv.Itoa(seed), "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.WaitDelay = 5 * time.Second
		txt, runErr := cmd.CombinedOutput()
		b, err := os.ReadFile(dst)
		if err != nil {
			res.Note += fmt.Sprintf("the search in %s did not run: %v: %s ", p, runErr, clip(string(txt), 1500))
			continue
		}
		var one harnessResult
		if err := json.Unmarshal(b, &one); err != nil {
			res.Note += err.Error()
			continue
		}
		res.Ran = true
		res.Cases += one.Cases
		res.Distinct += one.Distinct
		if res.Rule != "" && one.Rule != "" {
			res.Rule += "; "
		}
		res.Rule += one.Rule
		res.Samples = append(res.Samples, one.Samples...)
		res.Failures = append(res.Failures, one.Failures...)
		if runErr != nil && len(one.Failures) == 0 {
			res.Note += fmt.Sprintf("the search in %s ended early: %v: %s ", p, runErr, clip(string(txt), 1500))
		}
	}
	return res
}

// knownFindings reads "finding: property=<id> key=<key> <text>" lines.
func knownFindings(dir, prop string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[0] == "finding:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return out
}

func checkMain(dir, repo, prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3000 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	evDir := filepath.Join(dir, "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, "replay-"+prop+".json")
	os.Remove(replay)

	sp, err := readSpecs(dir)
	if err != nil {
		fmt.Println("bad specification:", err)
		return 2
	}
	var jobs []job
	budget := 20000
	if tier == "thorough" {
		budget = 60000
	}
	for _, c := range sp.order {
		if c.Trusted {
			continue
		}
		for _, p := range c.Props {
			if p == prop {
				jobs = append(jobs, job{c.Key, prop, 1, budget})
			}
		}
	}
	// long ones first
	weight := func(k string) int {
		c := sp.contracts[k]
		return len(c.Invs)*3 + len(c.Ensures)
	}
	sort.SliceStable(jobs, func(i, j int) bool { return weight(jobs[i].Key) > weight(jobs[j].Key) })

	hch := make(chan *harnessResult, 1)
	go func() { hch <- runHarness(ctx, dir, repo, prop, tier, seed) }()
	reps, loadErr, dropped := verifyAll(ctx, dir, repo, jobs, 6)
	h := <-hch
	known := knownFindings(dir, prop)
	var newFail []harnessFailure
	var knownHit []string
	for _, f := range h.Failures {
		if t, ok := known[f.Key]; ok {
			knownHit = append(knownHit, t)
		} else {
			newFail = append(newFail, f)
		}
	}
	// what failed is tried again with more time, unless it's clear already
	if len(newFail) == 0 && loadErr == "" {
		var again []job
		for _, r := range reps {
			if len(failures(r)) > 0 && !strings.Contains(r.Err, "cannot be verified") {
				again = append(again, job{r.Key, prop, 3, 2 * budget})
			}
		}
		if len(again) > 0 {
			reps2, _, _ := verifyAll(ctx, dir, repo, again, 3)
			for _, r2 := range reps2 {
				for i, r := range reps {
					if r.Key == r2.Key && len(failures(r2)) < len(failures(r)) {
						r2.Notes = append(r2.Notes, "needed a second attempt with more time")
						reps[i] = r2
					}
				}
			}
		}
	}
	type failed struct {
		Function   string
		Source     string
		Obligation OblReport
	}
	var fails []failed
	obls, ok, gone := 0, 0, 0
	by := map[string]int{}
	assumed, trusted, notes, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var solverMs int64
	var queries int64
	ens := 0
	var funcs []map[string]any
	mine := map[string]bool{}
	for _, j := range jobs {
		mine[j.Key] = true
	}
	for _, r := range reps {
		if r.Gone {
			gone++
			notes[r.Notes[0]] = true
			continue
		}
		nok := 0
		for _, o := range r.Obls {
			obls++
			if o.OK {
				ok++
				nok++
				by[o.By]++
			} else {
				fails = append(fails, failed{r.Short, r.Pos, o})
			}
		}
		ens += r.Ensures
		solverMs += r.SolverMs
		queries += r.Queries
		for _, k := range r.Called {
			if mine[k] {
				continue
			}
			if strings.HasPrefix(k, "model ") {
				trusted["built-in model of "+strings.TrimPrefix(k, "model ")] = true
				continue
			}
			c := sp.contracts[k]
			switch {
			case c == nil:
			case c.Trusted:
				trusted["assumed contract: "+k] = true
			default:
				assumed[k+" (discharged by the checks of "+strings.Join(c.Props, ", ")+")"] = true
			}
		}
		for _, k := range r.Inlined {
			inlined[k] = true
		}
		for _, k := range r.Notes {
			notes[k] = true
		}
		f := map[string]any{"function": r.Short, "source": r.Pos, "obligations": len(r.Obls), "discharged": nok, "postconditions": r.Ensures, "paths": r.Paths, "solver_ms": r.SolverMs, "wall_ms": r.WallMs}
		if len(r.Loops) > 0 {
			f["loops"] = r.Loops
		}
		funcs = append(funcs, f)
	}
	if loadErr != "" {
		fails = append(fails, failed{"(all)", "", OblReport{Kind: "load", Label: loadErr}})
	}
	for _, d := range dropped {
		notes["verification-only client code no longer fits: "+d] = true
	}
	if len(jobs) > 0 && obls == 0 && loadErr == "" && len(fails) == 0 {
		fails = append(fails, failed{"(all)", "", OblReport{Kind: "contract", Label: "no function under contract is left"}})
	}
	violated := len(fails) > 0 || len(newFail) > 0

	var tb []string
	tb = append(tb, "govc (/verif/govc): symbolic execution of the go/ssa form of /repo, its memory model and SMT encoding", "golang.org/x/tools/go/ssa v0.52.0, go/packages, go/types", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (answer unsat)")
	tb = append(tb, sortedKeys(trusted)...)
	ass := []string{}
	ass = append(ass, sortedKeys(notes)...)
	for _, k := range sortedKeys(assumed) {
		ass = append(ass, "relies on the contract of "+k)
	}
	ass = append(ass, propAssumptions(dir, prop)...)
	cov := map[string]any{
		"obligations": obls, "discharged": ok,
		"checker_cmd":  fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier),
		"trusted_base": tb,
		"functions":    funcs, "functions_under_contract": len(funcs), "postconditions": ens,
		"by_backend": by, "solver_ms": solverMs, "queries": queries,
		"executed_in_place": sortedKeys(inlined),
		"evaluations":       h.Cases, "distinct_nontrivial": h.Distinct, "rule": h.Rule, "samples": h.Samples,
		"bounded_search": map[string]any{"label": "bounded: never counted as proved", "ran": h.Ran, "note": h.Note, "wall_ms": h.WallMs},
	}
	if gone > 0 {
		cov["functions_gone"] = gone
	}
	level := "proof"
	if len(jobs) == 0 {
		level = "exploration"
	}
	nviol := 0
	if violated {
		nviol = 1
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ass, "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), b, 0o644)

	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	fmt.Printf("%s: %d of %d obligations of %d functions discharged, %d cases searched, %.1fs\n", prop, ok, obls, len(funcs), h.Cases, time.Since(t0).Seconds())
	if !h.Ran {
		fmt.Println("note:", h.Note)
	} else if h.Note != "" {
		fmt.Println("note:", h.Note)
	}
	if !violated {
		return 0
	}
	rp := map[string]any{"property": prop, "failed_obligations": fails, "failing_inputs": newFail, "rerun": fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier), "seed": seed, "search_note": h.Note}
	b, _ = json.MarshalIndent(rp, "", " ")
	os.WriteFile(replay, b, 0o644)
	for _, f := range fails {
		fmt.Printf("failed: %s: %s %s [%s]\n", f.Function, f.Obligation.Kind, clip(f.Obligation.Label, 300), f.Obligation.Pos)
	}
	for _, f := range newFail {
		fmt.Printf("failing input: %s: %s\n", clip(f.What, 400), clip(f.Input, 600))
	}
	suffix := ""
	if len(newFail) == 0 {
		suffix = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, suffix)
	return 1
}

// propAssumptions reads the documented assumptions of a property.
func propAssumptions(dir, prop string) []string {
	var out []string
	b, _ := os.ReadFile(filepath.Join(dir, "spec", "assumptions.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.Index(l, ":")
		if i < 0 || strings.HasPrefix(l, "#") {
			continue
		}
		for _, p := range strings.Fields(l[:i]) {
			if p == prop || p == "all" {
				out = append(out, strings.TrimSpace(l[i+1:]))
			}
		}
	}
	return out
}
