package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog                             *ssa.Program
	pkgs                             map[string]*ssa.Package
	maxDepth                         int
	tByte                            *RType
	tInt                             *RType
	tRuntime                         *RType // runtime.errorString
	tInt32, tInt64, tUint32, tUint64 *RType
	tFloat32, tFloat64               *RType
	tBytes, tAny                     *RType
	ptrs                             map[types.Type]types.Type
	rtypes                           map[*RType]*value
	methMu                           sync.Mutex
	deadline                         time.Time
	z3                               string
	tier                             string
	seed                             int64
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (e *Engine) method(t *RType, m *types.Func) *Func {
	key := m.Id()
	t.mu.Lock()
	f, ok := t.meths[key]
	t.mu.Unlock()
	if ok {
		return f
	}
	sel := e.prog.MethodSets.MethodSet(t.t).Lookup(m.Pkg(), m.Name())
	if sel != nil {
		if fn := e.prog.MethodValue(sel); fn != nil {
			f = funcOf(fn)
		}
	}
	t.mu.Lock()
	t.meths[key] = f
	t.mu.Unlock()
	return f
}

// methodByName finds a method such as Error() string, or nil.
func (e *Engine) methodByName(t *RType, name string) *Func {
	key := "name:" + name
	t.mu.Lock()
	f, ok := t.meths[key]
	t.mu.Unlock()
	if ok {
		return f
	}
	var pkg *types.Package
	sel := e.prog.MethodSets.MethodSet(t.t).Lookup(pkg, name)
	if sel != nil {
		if fn := e.prog.MethodValue(sel); fn != nil {
			f = funcOf(fn)
		}
	}
	t.mu.Lock()
	t.meths[key] = f
	t.mu.Unlock()
	return f
}

func (e *Engine) runtimeError(msg string) iface {
	return iface{e.tRuntime, strings.TrimPrefix(msg, "runtime error: ")}
}

// ---------- exploration ----------
type item struct {
	dec   []uint16
	model map[string]uint64
}

type Harness struct {
	name string
	fn   *ssa.Function
}

// Run is the exploration of one harness.
type Run struct {
	eng     *Engine
	h       *Harness
	mu      sync.Mutex
	cond    *sync.Cond
	stack   []*item
	active  int
	stop    bool
	cfg     runCfg
	res     *Result
	started time.Time
}

type runCfg struct {
	maxPaths   int
	maxSteps   int
	maxDecs    int
	deadline   time.Time
	workers    int
	solverMs   int
	merge      bool
	maxViol    int
	cosim      int // how many finished paths to hand to the native co-simulation
	track      bool
	crossEvery int
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	W    int    `json:"w"`
	V    uint64 `json:"v"`
}

type Candidate struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"` // assert | panic | hang
	Msg     string            `json:"msg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Obs     []string          `json:"obs,omitempty"`
	Fuzzy   bool              `json:"fuzzy"` // some value of the model is not constrained exactly
	Pos     string            `json:"pos"`
	hints   []string
}

type Result struct {
	paths, infeasible, done      int
	decisions                    int
	steps                        int64
	asserts, assertsConst        int
	dischargedSolver             int
	domainDecided, solverDecided int
	queries, nsat, nunsat, nunk  int
	solverTime                   time.Duration
	truncated                    bool
	why                          map[string]int // reduced-bound reasons
	cands                        []*Candidate
	cosim                        []*Candidate
	funcs                        map[string]int
	reach                        map[string]int
	bounds                       map[string]string
	crossChecked, crossBad       int
	unconfirmedPaths             int
	maxVars                      int
	elapsed                      time.Duration
}

func newResult() *Result {
	return &Result{why: map[string]int{}, funcs: map[string]int{}, reach: map[string]int{}, bounds: map[string]string{}}
}

// Worker owns a term table and a solver.
type Worker struct {
	id      int
	eng     *Engine
	run     *Run
	ts      *Terms
	bytes   [256]*Term
	sol     *Solver
	globals map[*ssa.Global]*value // standard library
	rng     *rand.Rand
	baseTS  int
}

func (w *Worker) reset() {
	w.ts = NewTerms()
	for i := range w.bytes {
		w.bytes[i] = w.ts.BV(uint64(i), 8)
	}
	w.globals = map[*ssa.Global]*value{}
}

// Path is one execution.
type Path struct {
	w    *Worker
	eng  *Engine
	run  *Run
	dec  []uint16
	pos  int
	vars []*Term
	kind map[*Term]string
	cnt  map[string]int
	// path condition
	pc      []*Term
	flushed int
	dom     map[*Term]*[4]uint64
	tangled map[*Term]bool
	model   Env
	inModel map[string]uint64
	stale   bool // the model no longer satisfies the path condition

	steps, maxSteps int
	spec            int
	merge           bool
	initDepth       int
	initDone        map[*ssa.Package]bool
	globals         map[*ssa.Global]*value
	funcs           map[*Func]int
	track           bool
	mapOrder        int
	frozen          map[*value]string
	frozenGlobals   bool
	lockDepth       int
	writes          []string
	obs             []obsv
	fuzzy           bool
	numText         map[string]*FmtNum // text bytes -> the number it spells
	floatText       map[string]*Term
	hints           []string
	unsureN         int
	fakeAddr        map[*value]int
	bounds          map[string]string
	clock           int
	pools           map[*value][]value
	onces           map[*value]bool
	syncMaps        map[*value]*mapV
	approx          []*Term // conditions that make a model realistic, not part of the path condition
}

type obsv struct {
	name string
	v    value
	rt   *RType
}

// engine aborts
type abort struct {
	kind string // infeasible | unsupported | hang | budget | stop
	msg  string
}

func (p *Path) unsupported(f string, a ...interface{}) {
	if p.spec > 0 {
		panic(specAbort{})
	}
	panic(abort{"unsupported", fmt.Sprintf(f, a...)})
}
func (p *Path) hang(f string, a ...interface{}) {
	if p.spec > 0 {
		panic(specAbort{})
	}
	panic(abort{"hang", fmt.Sprintf(f, a...)})
}

// global returns the cell of a package variable, initialising its package on first use.
func (p *Path) global(g *ssa.Global) value {
	cls := classOfPath(g.Pkg.Pkg.Path())
	tab := p.globals
	if cls == clsStd {
		tab = p.w.globals
	}
	if c, ok := tab[g]; ok {
		return c
	}
	if p.spec > 0 {
		panic(specAbort{})
	}
	// first use of the package: create every cell, then run its initialiser
	for _, m := range g.Pkg.Members {
		if gl, ok := m.(*ssa.Global); ok {
			c := new(value)
			*c = rtypeOf(gl.Type()).elem.zero()
			tab[gl] = c
		}
	}
	c, ok := tab[g]
	if !ok {
		c = new(value)
		*c = rtypeOf(g.Type()).elem.zero()
		tab[g] = c
	}
	p.runInit(g.Pkg)
	if p.frozenGlobals && cls != clsStd {
		for g2, c2 := range tab {
			if g2.Pkg == g.Pkg {
				p.freezeGlobal(g2, c2)
			}
		}
	}
	return c
}

func (p *Path) runInit(pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil || noInit[pkg.Pkg.Path()] {
		return
	}
	f := funcOf(fn)
	f.compile()
	p.initDepth++
	save := p.steps
	frozen := p.frozen
	p.frozen = nil
	defer func() {
		p.initDepth--
		p.steps = save
		p.frozen = frozen
	}()
	fr := &frame{p: p, f: f}
	fr.regs = make([]value, f.nregs)
	fr.runTolerant(f.blocks[0])
}

// runTolerant runs an initialiser, skipping what cannot be modelled.
func (fr *frame) runTolerant(b *Block) {
	p := fr.p
	pred := -1
	for n := 0; n < 100000; n++ {
		if pred >= 0 && len(b.phis) > 0 {
			fr.doPhis(b, pred)
		}
		for _, in := range b.ins {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if a, ok := r.(abort); ok && a.kind == "unsupported" {
							return
						}
						if _, ok := r.(*tpanic); ok {
							return
						}
						if os.Getenv("VERIF_DEBUG") != "" {
							panic(r)
						}
						if _, ok := r.(abort); ok {
							panic(r)
						}
					}
				}()
				in(fr)
			}()
		}
		switch b.term {
		case tJump:
			pred = b.predIdx[0]
			b = b.succs[0]
		case tIf:
			c, ok := fr.get(b.cond).(bool)
			k := 1
			if ok && c {
				k = 0
			}
			pred = b.predIdx[k]
			b = b.succs[k]
		default:
			return
		}
	}
	p.unsupported("initialiser of %s does not end", fr.f.name)
}

// ---------- symbolic variables ----------
func (p *Path) newVar(name, kind string, w uint8) *Term {
	n := p.cnt[name]
	p.cnt[name] = n + 1
	full := fmt.Sprintf("%s#%d", name, n)
	var t *Term
	if w == 1 {
		t = p.w.ts.BoolVar(full)
	} else {
		t = p.w.ts.Var(full, w)
	}
	p.vars = append(p.vars, t)
	p.kind[t] = kind
	if v, ok := p.inModel[full]; ok {
		p.model[t] = v
	} else {
		p.model[t] = 0
	}
	return t
}

func small(t *Term) bool { return t.w <= 8 }

func fullDom(w uint8) [4]uint64 {
	var d [4]uint64
	n := 1 << w
	for i := 0; i < n; i += 64 {
		if n-i >= 64 {
			d[i>>6] = ^uint64(0)
		} else {
			d[i>>6] = 1<<uint(n-i) - 1
		}
	}
	return d
}

func (p *Path) domain(v *Term) *[4]uint64 {
	if d, ok := p.dom[v]; ok {
		return d
	}
	d := fullDom(v.w)
	p.dom[v] = &d
	return &d
}

// assume adds c to the path condition without checking feasibility.
func (p *Path) assume(c *Term) {
	if c == p.w.ts.True {
		return
	}
	if c.op == OpAnd {
		p.assume(c.args[0])
		p.assume(c.args[1])
		return
	}
	p.pc = append(p.pc, c)
	if !c.many && len(c.sup) == 1 && small(c.sup[0]) {
		v := c.sup[0]
		tab := p.w.ts.truthTable(c)
		d := p.domain(v)
		for i := range d {
			d[i] &= tab[i]
		}
		if mv := p.model[v]; !p.stale && (d[mv>>6]>>(mv&63))&1 == 0 {
			if p.tangled[v] {
				p.stale = true
			} else {
				for i := uint64(0); i < 256; i++ {
					if d[i>>6]>>(i&63)&1 == 1 {
						p.model[v] = i
						break
					}
				}
			}
		}
		return
	}
	vs := map[*Term]bool{}
	if c.many {
		c.vars(map[*Term]bool{}, vs)
	} else {
		for _, v := range c.sup {
			vs[v] = true
		}
	}
	for v := range vs {
		p.tangled[v] = true
	}
	if !p.stale && p.w.ts.Eval(c, p.model, map[*Term]uint64{}) != 1 {
		p.stale = true
	}
}

func (p *Path) flush() {
	for ; p.flushed < len(p.pc); p.flushed++ {
		p.w.sol.Assert(p.pc[p.flushed])
	}
}

// query asks the solver about the path condition together with extra; a model is stored on sat.
func (p *Path) query(extra ...*Term) (SatResult, Env) {
	p.flush()
	r, env := p.w.sol.Check(extra, p.vars)
	if r == Sat {
		for _, v := range p.vars {
			if _, ok := env[v]; !ok {
				env[v] = 0
			}
		}
	}
	return r, env
}

// holdsInModel: the current model satisfies pc; does it also satisfy c?
func (p *Path) evalModel(c *Term) (bool, bool) {
	if p.stale {
		return false, false
	}
	return p.w.ts.Eval(c, p.model, map[*Term]uint64{}) == 1, true
}

func (p *Path) setModel(env Env) {
	p.model = env
	p.stale = false
}

// decide forks on c.
func (p *Path) decide(c *Term) bool {
	ts := p.w.ts
	if c == ts.True {
		return true
	}
	if c == ts.False {
		return false
	}
	if p.spec > 0 {
		panic(specAbort{})
	}
	// decided by the byte domains alone?
	if !c.many && len(c.sup) == 1 && small(c.sup[0]) {
		v := c.sup[0]
		tab := ts.truthTable(c)
		d := p.domain(v)
		canT, canF := false, false
		for i := range d {
			if d[i]&tab[i] != 0 {
				canT = true
			}
			if d[i]&^tab[i] != 0 {
				canF = true
			}
		}
		if !canT || !canF {
			p.run.count(&p.run.res.domainDecided)
			p.crossCheck(c, canT)
			return canT
		}
	}
	if p.pos < len(p.dec) {
		k := p.dec[p.pos]
		p.pos++
		if k == 1 {
			p.assume(c)
			return true
		}
		p.assume(ts.Not(c))
		return false
	}
	if p.pos >= p.run.cfg.maxDecs {
		panic(abort{"budget", fmt.Sprintf("more than %d decisions on a path", p.run.cfg.maxDecs)})
	}
	if time.Now().After(p.run.cfg.deadline) {
		panic(abort{"stop", "time"})
	}
	nc := ts.Not(c)
	var otherModel Env
	takeTrue := true
	both := false
	if !c.many && len(c.sup) == 1 && small(c.sup[0]) && !p.tangled[c.sup[0]] {
		both = true
		p.run.count(&p.run.res.domainDecided)
	} else {
		p.run.count(&p.run.res.solverDecided)
		mv, ok := p.evalModel(c)
		if !ok {
			r, env := p.query(c)
			switch r {
			case Sat:
				p.setModel(env)
				mv = true
			case Unsat:
				p.dec = append(p.dec, 0)
				p.pos++
				p.assume(nc)
				return false
			default:
				mv = true
				p.unsure("solver gave no answer on a branch")
				if os.Getenv("VERIF_TERMS") != "" {
					fmt.Fprintln(os.Stderr, "UNDECIDED BRANCH", c.String())
				}
			}
		}
		takeTrue = mv
		oc := nc
		if !mv {
			oc = c
		}
		r, env := p.query(oc)
		switch r {
		case Sat:
			both = true
			otherModel = env
		case Unknown:
			both = true
			p.unsure("solver gave no answer on a branch")
			if os.Getenv("VERIF_TERMS") != "" {
				fmt.Fprintln(os.Stderr, "UNDECIDED BRANCH", c.String())
			}
		}
	}
	taken, other := uint16(1), uint16(0)
	if !takeTrue {
		taken, other = 0, 1
	}
	if both {
		alt := make([]uint16, p.pos+1)
		copy(alt, p.dec[:p.pos])
		alt[p.pos] = other
		p.run.push(&item{dec: alt, model: p.modelMap(otherModel)})
	}
	p.dec = append(p.dec[:p.pos:p.pos], taken)
	p.pos++
	if takeTrue {
		p.assume(c)
		return true
	}
	p.assume(nc)
	return false
}

func (p *Path) modelMap(env Env) map[string]uint64 {
	if env == nil {
		if p.stale {
			return nil
		}
		env = p.model
	}
	m := make(map[string]uint64, len(env))
	for t, v := range env {
		if v != 0 {
			m[t.name] = v
		}
	}
	return m
}

// crossCheck confirms a sample of the domain verdicts with the solver.
func (p *Path) crossCheck(c *Term, val bool) {
	n := p.run.cfg.crossEvery
	if n == 0 || p.w.rng.Intn(n) != 0 {
		return
	}
	q := c
	if val {
		q = p.w.ts.Not(c)
	}
	r, _ := p.query(q)
	p.run.mu.Lock()
	p.run.res.crossChecked++
	if r == Sat {
		p.run.res.crossBad++
	}
	p.run.mu.Unlock()
	if r == Sat {
		panic(abort{"unsupported", "internal: byte-domain verdict contradicts the solver"})
	}
}

func (p *Path) unsure(why string) {
	p.unsureN++
	p.run.note(why)
}

// choose forks n ways.
func (p *Path) choose(n int) int {
	if p.spec > 0 {
		panic(specAbort{})
	}
	v := p.newVar("choice", "choice", 8)
	p.assume(p.w.ts.Cmp(OpUlt, v, p.w.ts.BV(uint64(n), 8)))
	for k := 0; k < n-1; k++ {
		if p.decide(p.w.ts.Eq(v, p.w.ts.BV(uint64(k), 8))) {
			return k
		}
	}
	return n - 1
}

func (p *Path) inputs(env Env) map[string]uint64 {
	m := map[string]uint64{}
	for _, v := range p.vars {
		m[v.name] = env[v]
	}
	return m
}

// violation hands a counterexample to the replayer.
func (p *Path) violation(kind, msg string, env Env) {
	c := &Candidate{Harness: p.run.h.name, Kind: kind, Msg: msg, Inputs: p.inputs(env), Fuzzy: p.fuzzy || p.unsureN > 0, hints: p.hints}
	p.run.addCand(c)
}

// check is an assertion.
func (p *Path) check(c *Term, msg string) {
	ts := p.w.ts
	p.run.count(&p.run.res.asserts)
	if c == ts.True {
		p.run.count(&p.run.res.assertsConst)
		return
	}
	if c == ts.False {
		r, env := p.query()
		if r == Sat {
			p.violation("assert", msg, env)
		} else if r == Unknown {
			if !p.stale {
				p.fuzzy = true
				p.violation("assert", msg, p.model)
			} else {
				p.run.note("solver gave no answer on a failing path")
			}
		}
		panic(abort{"done", "assertion failed on the whole path"})
	}
	r, env := p.query(ts.Not(c))
	switch r {
	case Unsat:
		p.run.count(&p.run.res.dischargedSolver)
	case Sat:
		if len(p.approx) > 0 {
			if r3, env3 := p.query(append([]*Term{ts.Not(c)}, p.approx...)...); r3 == Sat {
				p.violation("assert", msg, env3)
			}
		}
		p.violation("assert", msg, env)
		r2, _ := p.query(c)
		if r2 == Unsat {
			panic(abort{"done", "assertion failed on the whole path"})
		}
	default:
		if os.Getenv("VERIF_TERMS") != "" {
			fmt.Fprintln(os.Stderr, "UNDECIDED", msg, c.String())
		}
		p.run.note("solver gave no answer on an assertion: " + msg)
		if ok, known := p.evalModel(c); known && !ok {
			p.fuzzy = true
			p.violation("assert", msg, p.model)
		}
	}
	p.assume(c)
}

// ---------- run ----------
func (r *Run) count(n *int) {
	r.mu.Lock()
	*n++
	r.mu.Unlock()
}
func (r *Run) note(why string) {
	r.mu.Lock()
	r.res.why[why]++
	r.mu.Unlock()
}
func (r *Run) push(it *item) {
	r.mu.Lock()
	r.stack = append(r.stack, it)
	r.mu.Unlock()
	r.cond.Signal()
}
func (r *Run) addCand(c *Candidate) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, x := range r.res.cands {
		if x.Msg == c.Msg && x.Kind == c.Kind {
			n++
		}
	}
	lim := 3
	if c.Fuzzy {
		lim = 8
	}
	if n < lim && len(r.res.cands) < 60 {
		r.res.cands = append(r.res.cands, c)
	}
	if len(r.res.cands) >= r.cfg.maxViol {
		r.stop = true
		r.res.truncated = true
		r.res.why["stopped after the first violations"]++
		r.cond.Broadcast()
	}
}

func (r *Run) next() *item {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil
		}
		if len(r.stack) > 0 {
			it := r.stack[len(r.stack)-1]
			r.stack = r.stack[:len(r.stack)-1]
			r.active++
			r.res.paths++
			if r.res.paths > r.cfg.maxPaths {
				r.stop = true
				r.res.truncated = true
				r.res.why[fmt.Sprintf("path limit %d", r.cfg.maxPaths)]++
				r.active--
				r.cond.Broadcast()
				return nil
			}
			return it
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) finished() {
	r.mu.Lock()
	r.active--
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (e *Engine) explore(h *Harness, cfg runCfg, workers []*Worker) *Result {
	r := &Run{eng: e, h: h, cfg: cfg, res: newResult(), started: time.Now()}
	r.cond = sync.NewCond(&r.mu)
	r.stack = []*item{{}}
	var wg sync.WaitGroup
	for _, w := range workers {
		w.run = r
		w.sol.timeout = cfg.solverMs
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			q0, s0, u0, k0, t0 := w.sol.queries, w.sol.nsat, w.sol.nunsat, w.sol.nunknown, w.sol.time
			for {
				it := r.next()
				if it == nil {
					break
				}
				w.runPath(it)
				r.finished()
				if len(w.ts.tab) > 1500000 {
					w.reset()
				}
			}
			r.mu.Lock()
			r.res.queries += w.sol.queries - q0
			r.res.nsat += w.sol.nsat - s0
			r.res.nunsat += w.sol.nunsat - u0
			r.res.nunk += w.sol.nunknown - k0
			r.res.solverTime += w.sol.time - t0
			r.mu.Unlock()
		}(w)
	}
	wg.Wait()
	if len(r.stack) > 0 {
		r.res.truncated = true
	}
	r.res.elapsed = time.Since(r.started)
	return r.res
}

var pathCounter int64

func (w *Worker) newPath(it *item) *Path {
	w.ts.dec = map[*Term]decNum{}
	p := &Path{w: w, eng: w.eng, run: w.run, dec: it.dec, kind: map[*Term]string{}, cnt: map[string]int{}, dom: map[*Term]*[4]uint64{}, tangled: map[*Term]bool{},
		model: Env{}, inModel: it.model, maxSteps: w.run.cfg.maxSteps, globals: map[*ssa.Global]*value{}, initDone: map[*ssa.Package]bool{},
		funcs: map[*Func]int{}, merge: w.run.cfg.merge, numText: map[string]*FmtNum{}, floatText: map[string]*Term{}, fakeAddr: map[*value]int{}, bounds: map[string]string{}}
	if it.model == nil && len(it.dec) > 0 {
		p.stale = true
	}
	return p
}

func (w *Worker) runPath(it *item) {
	n := atomic.AddInt64(&pathCounter, 1)
	p := w.newPath(it)
	p.track = n%16 == 1
	r := w.run
	w.sol.Reset()
	kind, msg := p.execute()
	r.mu.Lock()
	r.res.decisions += len(p.dec)
	r.res.steps += int64(p.steps)
	if len(p.vars) > r.res.maxVars {
		r.res.maxVars = len(p.vars)
	}
	for f, c := range p.funcs {
		r.res.funcs[f.name] += c
	}
	for k, v := range p.bounds {
		r.res.bounds[k] = v
	}
	r.mu.Unlock()
	switch kind {
	case "ok":
		r.count(&r.res.done)
		p.finish()
	case "done":
		r.count(&r.res.done)
	case "infeasible":
		r.count(&r.res.infeasible)
	case "panic", "hang":
		q, env := p.query()
		if q == Sat {
			p.violation(kind, msg, env)
		} else if q == Unknown && !p.stale {
			p.fuzzy = true
			p.violation(kind, msg, p.model)
		} else if q == Unknown {
			r.note("solver gave no answer on a path that ends in a " + kind)
		}
	case "unsupported":
		r.note("not modelled: " + msg)
		// run the real code on this path's inputs instead
		q, env := p.query()
		if q == Sat || q == Unknown && !p.stale {
			if q == Unknown {
				env = p.model
			}
			c := &Candidate{Harness: r.h.name, Kind: "concolic", Msg: msg, Inputs: p.inputs(env), Fuzzy: true, hints: p.hints}
			r.mu.Lock()
			if len(r.res.cosim) < r.cfg.cosim*4 {
				r.res.cosim = append(r.res.cosim, c)
			}
			r.mu.Unlock()
		}
	case "budget":
		r.note(msg)
	case "stop":
		r.mu.Lock()
		r.stop = true
		r.res.truncated = true
		r.res.why["time limit"]++
		r.mu.Unlock()
		r.cond.Broadcast()
	}
}

// finish: a completed path is handed to co-simulation now and then.
func (p *Path) finish() {
	r := p.run
	r.mu.Lock()
	want := len(r.res.cosim) < r.cfg.cosim && (r.res.done < r.cfg.cosim/2 || p.w.rng.Intn(1+r.res.done/4) < 4)
	r.mu.Unlock()
	if !want {
		return
	}
	res, env := p.query()
	if res == Unsat {
		r.mu.Lock()
		r.res.infeasible++
		r.mu.Unlock()
		return
	}
	if res != Sat {
		return
	}
	c := &Candidate{Harness: r.h.name, Kind: "cosim", Inputs: p.inputs(env)}
	if p.fuzzy || p.unsureN > 0 {
		c.Kind = "concolic"
	}
	for _, o := range p.obs {
		s, ok := p.renderObs(o, env)
		if !ok {
			s = "?"
		}
		c.Obs = append(c.Obs, o.name+"="+s)
	}
	r.mu.Lock()
	r.res.cosim = append(r.res.cosim, c)
	r.mu.Unlock()
}

func (p *Path) renderObs(o obsv, env Env) (s string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			s, ok = "", false
		}
	}()
	ev := func(t *Term) uint64 { return p.w.ts.Eval(t, env, map[*Term]uint64{}) }
	switch o.rt.cat {
	case CString:
		if rp, isR := o.v.(*Rope); isR && rp.flat == nil {
			return "", false
		}
		b := p.strBytes(o.v)
		buf := make([]byte, len(b))
		for i, t := range b {
			buf[i] = byte(ev(t))
		}
		return fmt.Sprintf("%q", buf), true
	case CBool, CInt, CUint, CFloat:
		k := ev(p.term(o.v, o.rt))
		if o.rt.cat == CInt {
			return fmt.Sprint(sx(k, o.rt.w)), true
		}
		return fmt.Sprint(k), true
	}
	return "", false
}

// execute runs the harness once along the decision prefix.
func (p *Path) execute() (kind, msg string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case abort:
			kind, msg = x.kind, x.msg
		case *tpanic:
			kind = "panic"
			msg = "panic: " + p.describePanic(x)
		case specAbort:
			kind, msg = "unsupported", "internal: speculation escaped"
		default:
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(r)
			}
			kind, msg = "unsupported", fmt.Sprintf("internal: %v", r)
		}
	}()
	f := funcOf(p.run.h.fn)
	p.callFunc(nil, f, nil, nil, nil)
	return "ok", ""
}

func (p *Path) describePanic(x *tpanic) string {
	if x.v.t == nil {
		return "nil"
	}
	switch v := x.v.v.(type) {
	case string:
		return v
	case *value:
		if x.v.t.name == "*errors.errorString" && v != nil {
			if s, ok := (*v).(structV); ok {
				if str, ok := s[0].(string); ok {
					return str
				}
			}
		}
	}
	return x.v.t.name
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
