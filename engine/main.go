package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	fHarness  = flag.String("harness", "/verif/harness", "harness module")
	fProp     = flag.String("prop", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fReplay   = flag.String("replay", "", "native replayer")
	fEvidence = flag.String("evidence", "", "evidence file")
	fKnown    = flag.String("known", "", "known findings")
	fOut      = flag.String("out", "", "directory for replay files")
	fOnly     = flag.String("only", "", "run only harnesses containing this")
	fSeed     = flag.Int64("seed", 1, "seed")
	fBudget   = flag.Int("budget", 100, "seconds of exploration for the whole property")
	fWorkers  = flag.Int("j", 8, "workers")
	fVerbose  = flag.Bool("v", false, "details")
	fMerge    = flag.Bool("merge", true, "merge pure branches")
	fMaxPaths = flag.Int("maxpaths", 4000000, "path limit per harness")
	fLevel    = flag.String("level", "model_checking", "evidence level")
)

type replayResp struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *fHarness, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, "./h", "runtime", "errors", "strconv", "time", "reflect", "fmt", "internal/strconv")
	if err != nil {
		die("load: %v", err)
	}
	if packages.PrintErrors(ps) > 0 {
		die("the harness or /repo does not compile")
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	eng := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, maxDepth: 12000, tier: *fTier, seed: *fSeed}
	for _, p := range prog.AllPackages() {
		eng.pkgs[p.Pkg.Path()] = p
	}
	b := func(k types.BasicKind) *RType { return rtypeOf(types.Typ[k]) }
	eng.tByte, eng.tInt, eng.tInt32, eng.tInt64 = b(types.Uint8), b(types.Int), b(types.Int32), b(types.Int64)
	eng.tUint32, eng.tUint64, eng.tFloat32, eng.tFloat64 = b(types.Uint32), b(types.Uint64), b(types.Float32), b(types.Float64)
	eng.tBytes = rtypeOf(types.NewSlice(types.Typ[types.Uint8]))
	eng.tAny = rtypeOf(types.NewInterfaceType(nil, nil))
	eng.tRuntime = rtypeOf(eng.pkgs["runtime"].Type("errorString").Type())

	hp := eng.pkgs["verifharness/h"]
	if hp == nil {
		die("no harness package")
	}
	var hs []*Harness
	for name, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, *fProp+"_") {
			if *fOnly != "" && !strings.Contains(name, *fOnly) {
				continue
			}
			hs = append(hs, &Harness{name, f})
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	if len(hs) == 0 {
		die("no harness for %s", *fProp)
	}
	loadT := time.Since(t0)
	var workers []*Worker
	for i := 0; i < *fWorkers; i++ {
		w := &Worker{id: i, eng: eng, sol: NewSolver("z3", 5000), rng: rand.New(rand.NewSource(*fSeed*1000 + int64(i)))}
		w.reset()
		workers = append(workers, w)
	}
	hardEnd := time.Now().Add(time.Duration(*fBudget) * time.Second)
	results := map[string]*Result{}
	var cands []*Candidate
	ran := 0
	for i, h := range hs {
		left := time.Until(hardEnd)
		share := left / time.Duration(len(hs)-i)
		// an early harness may use up to three shares
		if s3 := share * 3; s3 < left {
			share = s3
		} else {
			share = left
		}
		if len(hs)-i > 1 && share > left*2/3 {
			share = left * 2 / 3
		}
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		rc := runCfg{maxPaths: *fMaxPaths, maxSteps: 20000000, maxDecs: 20000, deadline: time.Now().Add(share), solverMs: 4000, merge: *fMerge, maxViol: 12, cosim: 40, crossEvery: 4000}
		if *fTier == "thorough" {
			rc.solverMs = 20000
			rc.cosim = 200
			rc.maxSteps = 100000000
		}
		r := eng.explore(h, rc, workers)
		results[h.name] = r
		cands = append(cands, r.cands...)
		fmt.Printf("%s: %d paths (%d completed, %d infeasible), %d decisions, %d assertions (%d by folding, %d by solver), %d solver queries %.1fs, %.1fs%s\n",
			h.name, r.paths, r.done, r.infeasible, r.decisions, r.asserts, r.assertsConst, r.dischargedSolver, r.queries, r.solverTime.Seconds(), r.elapsed.Seconds(), map[bool]string{true: "  [bound reduced: see evidence]"}[r.truncated])
		for _, k := range sortedKeys(r.why) {
			fmt.Printf("   note: %s (%d)\n", k, r.why[k])
		}
		if *fVerbose {
			for _, c := range r.cands {
				fmt.Printf("   candidate %s %q fuzzy=%v %s\n", c.Kind, c.Msg, c.Fuzzy, renderInputs(c.Inputs))
			}
			for k, v := range r.reach {
				fmt.Printf("   reach %s %d\n", k, v)
			}
		}
		ran++
		// a violation that the real code shows settles the check
		if len(r.cands) > 0 && *fReplay != "" && !*fVerbose && anyConfirmed(r.cands, loadKnown(*fKnown, *fProp)) {
			break
		}
	}
	hs = hs[:ran]
	for _, w := range workers {
		w.sol.Close()
	}

	// --- replay on the real code ---
	var confirmed []*Candidate
	unconfirmed := 0
	cosimRun, cosimBad, concolic := 0, 0, 0
	var badMsgs []string
	if *fReplay != "" {
		res := replayAll(cands)
		for i, c := range cands {
			r := res[i]
			switch r.Status {
			case "assert", "panic", "hang", "crash":
				c.Msg = r.Status + ": " + r.Msg
				confirmed = append(confirmed, c)
			default:
				unconfirmed++
				badMsgs = append(badMsgs, fmt.Sprintf("%s: candidate %s %q did not reproduce (%s %s) %s", c.Harness, c.Kind, c.Msg, r.Status, r.Msg, renderInputs(c.Inputs)))
			}
		}
		var cs []*Candidate
		for _, h := range hs {
			cs = append(cs, results[h.name].cosim...)
		}
		res = replayAll(cs)
		for i, c := range cs {
			r := res[i]
			if c.Kind == "concolic" {
				concolic++
			} else {
				cosimRun++
			}
			switch r.Status {
			case "assert", "panic", "hang", "crash":
				if c.Kind == "cosim" {
					cosimBad++
					badMsgs = append(badMsgs, fmt.Sprintf("%s: engine finished a path natively failing with %s %s", c.Harness, r.Status, r.Msg))
				}
				c.Msg = r.Status + ": " + r.Msg
				confirmed = append(confirmed, c)
			case "ok":
				if c.Kind == "cosim" && !sameObs(c.Obs, r.Obs) {
					cosimBad++
					badMsgs = append(badMsgs, fmt.Sprintf("%s: observations differ: engine %v native %v", c.Harness, c.Obs, r.Obs))
				}
			default:
				if c.Kind == "cosim" {
					cosimBad++
					badMsgs = append(badMsgs, fmt.Sprintf("%s: native run is %s %s on %s", c.Harness, r.Status, r.Msg, renderInputs(c.Inputs)))
				}
			}
		}
	}
	for _, m := range badMsgs {
		fmt.Println("   note:", m)
	}

	// --- verdict ---
	known := loadKnown(*fKnown, *fProp)
	violations := 0
	seen := map[string]bool{}
	printedKnown := map[string]bool{}
	n := 0
	for _, c := range confirmed {
		if k := known.match(c); k != nil {
			if !printedKnown[k.Text] {
				printedKnown[k.Text] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k.Text)
			}
			continue
		}
		key := c.Harness + c.Msg
		if seen[key] {
			continue
		}
		seen[key] = true
		violations++
		if violations > 8 {
			continue
		}
		n++
		path := filepath.Join(*fOut, fmt.Sprintf("%s-%d.json", *fProp, n))
		os.MkdirAll(*fOut, 0o755)
		js, _ := json.MarshalIndent(map[string]interface{}{"property": *fProp, "harness": c.Harness, "inputs": c.Inputs, "tier": *fTier, "what": c.Msg, "readable": renderInputs(c.Inputs)}, "", " ")
		os.WriteFile(path, js, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		fmt.Printf("   %s: %s\n   inputs: %s\n", c.Harness, c.Msg, renderInputs(c.Inputs))
	}
	// listed findings that were not met in this run are still listed
	for _, k := range known {
		if !printedKnown[k.Text] && k.Always {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k.Text)
		}
	}
	if *fEvidence != "" {
		writeEvidence(hs, results, cosimRun, cosimBad, concolic, unconfirmed, violations, badMsgs, loadT, time.Since(t0))
	}
	fmt.Printf("%s: %d violation(s), co-simulated %d paths (%d disagreements), %d concolic runs, %d unconfirmed candidates, %.1fs\n", *fProp, violations, cosimRun, cosimBad, concolic, unconfirmed, time.Since(t0).Seconds())
	if violations > 0 {
		os.Exit(1)
	}
}

// anyConfirmed tells whether one of some candidates is a violation on the real code that is not listed.
func anyConfirmed(cs []*Candidate, known knownL) bool {
	for i, r := range replayAll(cs) {
		switch r.Status {
		case "assert", "panic", "hang", "crash":
			c := *cs[i]
			c.Msg = r.Status + ": " + r.Msg
			if known.match(&c) == nil {
				return true
			}
		}
	}
	return false
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(a[i], "=?") {
			return false
		}
	}
	return true
}

// renderInputs prints inputs, joining the bytes of strings.
func renderInputs(in map[string]uint64) string {
	groups := map[string][]string{}
	var names []string
	for k := range in {
		base := k
		if i := strings.LastIndexByte(k, '#'); i >= 0 {
			base = k[:i]
		}
		if strings.HasPrefix(base, "~") {
			continue
		}
		if _, ok := groups[base]; !ok {
			names = append(names, base)
		}
		groups[base] = append(groups[base], k)
	}
	sort.Strings(names)
	var out []string
	for _, n := range names {
		ks := groups[n]
		sort.Slice(ks, func(i, j int) bool { return idx(ks[i]) < idx(ks[j]) })
		small := true
		for _, k := range ks {
			if in[k] > 255 {
				small = false
			}
		}
		if small && len(ks) > 1 {
			b := make([]byte, len(ks))
			for i, k := range ks {
				b[i] = byte(in[k])
			}
			out = append(out, fmt.Sprintf("%s=%q", n, b))
			continue
		}
		var vs []string
		for _, k := range ks {
			vs = append(vs, fmt.Sprint(in[k]))
		}
		out = append(out, n+"="+strings.Join(vs, ","))
	}
	return strings.Join(out, " ")
}

func idx(k string) int {
	n, _ := strconv.Atoi(k[strings.LastIndexByte(k, '#')+1:])
	return n
}

// replayAll runs candidates natively; a crash or a hang of the replayer is blamed on the current request.
func replayAll(cs []*Candidate) []replayResp {
	out := make([]replayResp, len(cs))
	i := 0
	for i < len(cs) {
		cmd := exec.Command("/bin/bash", "-c", "ulimit -c 0; exec \"$0\"", *fReplay)
		cmd.Env = append(os.Environ(), "TZ=UTC", "GOTRACEBACK=none", "GORACE=halt_on_error=1 exitcode=66")
		in, _ := cmd.StdinPipe()
		so, _ := cmd.StdoutPipe()
		var errb strings.Builder
		cmd.Stderr = &limited{&errb}
		if err := cmd.Start(); err != nil {
			die("replay: %v", err)
		}
		sc := bufio.NewReaderSize(so, 1<<20)
		for i < len(cs) {
			req, _ := json.Marshal(map[string]interface{}{"harness": cs[i].Harness, "inputs": cs[i].Inputs, "tier": *fTier})
			if _, err := in.Write(append(req, '\n')); err != nil {
				out[i] = replayResp{Status: "crash", Msg: firstLine(errb.String())}
				i++
				break
			}
			ch := make(chan string, 1)
			go func() {
				l, err := sc.ReadString('\n')
				if err != nil {
					l = ""
				}
				ch <- l
			}()
			var line string
			select {
			case line = <-ch:
			case <-time.After(20 * time.Second):
				cmd.Process.Kill()
				out[i] = replayResp{Status: "hang", Msg: "no answer"}
				i++
				line = "-"
			}
			if line == "-" {
				break
			}
			if line == "" {
				cmd.Wait()
				out[i] = replayResp{Status: "crash", Msg: firstLine(errb.String())}
				i++
				break
			}
			json.Unmarshal([]byte(line), &out[i])
			h := out[i].Status == "hang"
			i++
			if h {
				break
			}
		}
		in.Close()
		cmd.Process.Kill()
		cmd.Wait()
	}
	return out
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l != "" && !strings.HasPrefix(l, "=====") {
			return l
		}
	}
	return "the process ended"
}

// ---------- known findings ----------
type knownF struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	Text     string `json:"text"`
	Fixed    string `json:"fixed"`
	Always   bool   `json:"always"`
	Inputs   string `json:"inputs"`
}
type knownL []*knownF

func loadKnown(path, prop string) knownL {
	var l knownL
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "{") {
			continue
		}
		k := &knownF{}
		if json.Unmarshal([]byte(line), k) == nil && k.Property == prop && k.Fixed == "" {
			l = append(l, k)
		}
	}
	return l
}

func (l knownL) match(c *Candidate) *knownF {
	for _, k := range l {
		if k.Harness == c.Harness && k.Msg != "" && strings.Contains(c.Msg, k.Msg) && (k.Inputs == "" || strings.Contains(renderInputs(c.Inputs), k.Inputs)) {
			return k
		}
	}
	return nil
}

// ---------- evidence ----------
func writeEvidence(hs []*Harness, results map[string]*Result, cosimRun, cosimBad, concolic, unconfirmed, violations int, notes []string, load, wall time.Duration) {
	states, trans, queries, nunk := 0, 0, 0, 0
	var st time.Duration
	asserts, folded, solved := 0, 0, 0
	dd, sd, cc, cb := 0, 0, 0, 0
	funcs := map[string]int{}
	reduced := false
	var per []interface{}
	var samples []interface{}
	reachMissing := []string{}
	for _, h := range hs {
		r := results[h.name]
		states += r.paths
		trans += r.decisions
		queries += r.queries
		nunk += r.nunk
		st += r.solverTime
		asserts += r.asserts
		folded += r.assertsConst
		solved += r.dischargedSolver
		dd += r.domainDecided
		sd += r.solverDecided
		cc += r.crossChecked
		cb += r.crossBad
		if r.truncated || len(r.why) > 0 {
			reduced = true
		}
		for f, n := range r.funcs {
			funcs[f] += n
		}
		if r.done == 0 {
			reachMissing = append(reachMissing, h.name)
		}
		per = append(per, map[string]interface{}{
			"harness": h.name, "paths": r.paths, "completed": r.done, "infeasible": r.infeasible, "decisions": r.decisions, "steps": r.steps,
			"assertions_reached": r.asserts, "assertions_folded": r.assertsConst, "assertions_unsat": r.dischargedSolver,
			"queries": r.queries, "sat": r.nsat, "unsat": r.nunsat, "unknown": r.nunk, "solver_s": round(r.solverTime.Seconds()),
			"wall_s": round(r.elapsed.Seconds()), "bounds": r.bounds, "reach": r.reach, "reduced": r.why, "complete": !r.truncated, "max_symbolic_inputs": r.maxVars,
		})
		for i, c := range r.cosim {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]interface{}{"harness": h.name, "inputs": renderInputs(c.Inputs), "observed": c.Obs})
		}
	}
	var enc []string
	for f := range funcs {
		if strings.Contains(f, "holistic_json") || strings.Contains(f, "holistic_common") {
			enc = append(enc, f)
		}
	}
	sort.Strings(enc)
	nstd := len(funcs) - len(enc)
	if len(samples) == 0 {
		samples = append(samples, "no completed path was sampled")
	}
	ev := map[string]interface{}{
		"property": *fProp, "tier": *fTier, "seed": *fSeed, "level": *fLevel, "wall_s": round(wall.Seconds()), "violations": violations,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": cosimRun, "samples": samples,
			"explanation":                        "states = symbolic paths executed over the SSA of the current /repo, transitions = branch decisions taken on them; each path stands for every input that satisfies its path condition",
			"harnesses":                          per,
			"assertions_reached":                 asserts,
			"assertions_decided_by_folding":      folded,
			"assertions_decided_by_solver":       solved,
			"solver":                             "z3 (SMT-LIB2, bit-vectors and floating point)",
			"solver_queries":                     queries,
			"solver_unknown":                     nunk,
			"solver_seconds":                     round(st.Seconds()),
			"branches_decided_by_byte_domains":   dd,
			"branches_decided_by_solver":         sd,
			"domain_verdicts_cross_checked":      cc,
			"domain_verdicts_wrong":              cb,
			"functions_encoded":                  enc,
			"other_functions_encoded":            nstd,
			"native_disagreements":               cosimBad,
			"concolic_runs":                      concolic,
			"unconfirmed_candidates":             unconfirmed,
			"harnesses_without_a_completed_path": reachMissing,
			"bounds_reduced":                     reduced,
			"notes":                              notes,
			"load_and_ssa_s":                     round(load.Seconds()),
			"exhaustive":                         !reduced,
		},
		"assumptions": []string{
			"go/ssa gives the meaning of the source; the engine's interpretation of SSA is checked by native co-simulation of sampled paths",
			"number/text conversions, strings.Builder, fmt and common.IsNil follow models (see DESIGN.md)",
			"bounds per harness are listed; nothing is claimed outside them",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
	if err := os.WriteFile(*fEvidence, append(b, '\n'), 0o644); err != nil {
		die("evidence: %v", err)
	}
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }
