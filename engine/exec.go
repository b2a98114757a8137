package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---------------------------------------------------------------- engine

type Engine struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	sizes     types.Sizes
	rtErrType types.Type
	solverBin string
	crossBin  string
	workersN  int
	tier      string
	seed      int

	mu      sync.Mutex
	models  map[string]bool
	fnsSeen map[string]int
	methods map[string]*ssa.Function
	mkeys   typeutil.Map // type -> int
	impl    map[implKey]bool
	nTypes  int
	workers []*Worker
	racy    map[string]bool
	races   map[string]string
	verbose bool
}

type implKey struct {
	t int
	i *types.Interface
}

func (e *Engine) typeID(t types.Type) int {
	if v := e.mkeys.At(t); v != nil {
		return v.(int)
	}
	e.nTypes++
	e.mkeys.Set(t, e.nTypes)
	return e.nTypes
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := fmt.Sprintf("%d/%s", e.typeID(t), m.Id())
	if f, ok := e.methods[k]; ok {
		return f
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = e.prog.MethodValue(sel)
	}
	e.methods[k] = f
	return f
}

// methodNamed finds an exported method by name (nil if absent).
func (e *Engine) methodNamed(t types.Type, name string) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := fmt.Sprintf("%d/%s", e.typeID(t), name)
	if f, ok := e.methods[k]; ok {
		return f
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	var f *ssa.Function
	if sel != nil {
		f = e.prog.MethodValue(sel)
	}
	e.methods[k] = f
	return f
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := implKey{e.typeID(t), i}
	if v, ok := e.impl[k]; ok {
		return v
	}
	v := types.Implements(t, i)
	e.impl[k] = v
	return v
}

func (e *Engine) noteModel(name string) {
	e.mu.Lock()
	e.models[name] = true
	e.mu.Unlock()
}

func (e *Engine) racySite(s string) bool { return e.racy[s] }

func (e *Engine) addRace(h *Run, a, b string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if a > b {
		a, b = b, a
	}
	h.races[a+" / "+b]++
}

func (e *Engine) pkgType(path, name string) types.Type {
	p := e.prog.ImportedPackage(path)
	if p == nil {
		panic(unsupported("package not loaded: " + path))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("no type " + path + "." + name))
	}
	return o.Type()
}

// ---------------------------------------------------------------- worker

type Worker struct {
	once    map[Ptr]bool // sync.Once values done by initialisers
	eng     *Engine
	id      int
	c       *Ctx
	sol     *Solver
	consts  map[*ssa.Const]Value
	fns     map[*ssa.Function]*FnInfo
	globals map[*ssa.Global]Ptr
	inited  map[*ssa.Package]bool
	native  map[string]interface{} // per-worker caches of models
	fnSeen  map[*FnInfo]bool
}

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{eng: e, id: id, c: NewCtx(), consts: map[*ssa.Const]Value{}, fns: map[*ssa.Function]*FnInfo{},
		globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{}, native: map[string]interface{}{}, fnSeen: map[*FnInfo]bool{}}
	w.sol = NewSolver(w.c, e.solverBin, 1)
	return w
}

func (w *Worker) noteFn(fi *FnInfo) {
	if w.fnSeen[fi] {
		return
	}
	w.fnSeen[fi] = true
	w.eng.mu.Lock()
	w.eng.fnsSeen[fi.full] = len(fi.fn.Blocks)
	w.eng.mu.Unlock()
}

// ---------------------------------------------------------------- run of one harness

type Dec struct {
	K   byte // 'b' branch, 'c' choice, 'v' value test
	N   int  // branch outcome / chosen index / 1 = equal
	V   uint64
	F   bool // forced (implied by the path)
	Tag string
}

type item struct {
	prefix []Dec
	model  Model
}

type Violation struct {
	Label   string
	Msg     string
	Where   string
	Harness string
	Inputs  map[string]string
	Decs    []Dec
	Sched   bool // depends on scheduling choices
	Block   string
	Obs     []string
	Trace   []string
}

type Trace struct {
	Inputs map[string]string
	Obs    []string
	Sched  bool
}

type Run struct {
	name string
	fn   *ssa.Function
	opt  RunOpts

	mu       sync.Mutex
	cond     *sync.Cond
	work     []item
	active   int
	stop     bool
	deadline time.Time

	paths      int
	status     map[string]int
	msgs       map[string]int
	reached    map[string]int
	asserts    map[string]int // label -> times proved
	assertsNT  int            // assertions needing the solver
	violations []*Violation
	vioCount   map[string]int
	traces     []Trace
	races      map[string]int
	branches   int
	steps      int64
	incomplete string
	wall       time.Duration
	queries    int
	solverTime time.Duration
	unknowns   int
	maxDepthD  int
	switches   int
	crossOK    int
	crossBad   int
	crossUnk   int
	crossSeen  [3]int
	crossTried [3]int
	crossTxt   string
}

type RunOpts struct {
	MaxPreempt int
	MaxLoop    int
	MaxSteps   int64
	MaxPaths   int
	Budget     time.Duration
	RaceOn     bool
	MapOrder   bool
	AllSched   bool
	Timers     bool
	Thorough   bool
	Traces     int
	Cross      bool
	LockFirst  bool
}

// RunHarness explores a harness; where it finds unsynchronised accesses, their sites become pre-emption
// points of another exploration.
func (e *Engine) RunHarness(pkg, name string, o RunOpts) *Run {
	end := time.Now().Add(o.Budget)
	r := e.runHarness(pkg, name, o)
	for i := 0; i < 2 && o.RaceOn && len(r.violations) == 0; i++ {
		n := len(e.racy)
		for k := range r.races {
			for _, s := range strings.Split(k, " / ") {
				e.racy[s] = true
			}
		}
		if len(e.racy) == n {
			break
		}
		o.Budget = max(time.Until(end), 20*time.Second)
		q := e.runHarness(pkg, name, o)
		q.paths += r.paths
		q.wall += r.wall
		q.queries += r.queries
		q.solverTime += r.solverTime
		for k, v := range r.races {
			q.races[k] += v
		}
		r = q
	}
	return r
}

func (e *Engine) runHarness(pkg, name string, o RunOpts) *Run {
	p := e.pkgs[pkg]
	if p == nil {
		fatal("package %s not loaded", pkg)
	}
	fn := p.Func(name)
	if fn == nil {
		fatal("harness %s.%s not found", pkg, name)
	}
	r := &Run{name: name, fn: fn, opt: o, status: map[string]int{}, msgs: map[string]int{}, reached: map[string]int{},
		asserts: map[string]int{}, vioCount: map[string]int{}, races: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	t0 := time.Now()
	r.deadline = t0.Add(o.Budget)
	r.work = []item{{}}
	for len(e.workers) < e.workersN {
		e.workers = append(e.workers, e.newWorker(len(e.workers)))
	}
	q0, s0, u0 := e.solverTotals()
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			e.workLoop(r, w)
		}(w)
	}
	wg.Wait()
	q1, s1, u1 := e.solverTotals()
	r.queries, r.solverTime, r.unknowns = q1-q0, s1-s0, u1-u0
	r.wall = time.Since(t0)
	if len(r.work) > 0 && r.incomplete == "" {
		r.incomplete = "stopped with unexplored paths"
	}
	return r
}

func (e *Engine) solverTotals() (q int, t time.Duration, u int) {
	for _, w := range e.workers {
		q += w.sol.Queries
		t += w.sol.Time
		u += w.sol.Unknowns
	}
	return
}

func (e *Engine) workLoop(r *Run, w *Worker) {
	for {
		r.mu.Lock()
		for len(r.work) == 0 && r.active > 0 && !r.stop {
			r.cond.Wait()
		}
		if r.stop || len(r.work) == 0 {
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		if time.Now().After(r.deadline) || (r.opt.MaxPaths > 0 && r.paths >= r.opt.MaxPaths) {
			if r.incomplete == "" {
				r.incomplete = "time or path budget exhausted"
			}
			r.stop = true
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		it := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		r.active++
		r.paths++
		r.mu.Unlock()

		if w.sol.dead {
			w.sol.restart()
		}
		x := newExec(w, r, it)
		x.runPath()

		r.mu.Lock()
		r.active--
		r.cond.Broadcast()
		r.mu.Unlock()
	}
}

func (s *Solver) restart() {
	s.Close()
	solverGenMu.Lock()
	solverGen++
	s.gen = 1000 + solverGen
	solverGenMu.Unlock()
	s.stack = nil
	s.dead = false
	s.start()
}

var solverGenMu sync.Mutex

// ---------------------------------------------------------------- one path

type Exec struct {
	w *Worker
	c *Ctx
	h *Run

	prefix []Dec
	di     int
	decs   []Dec
	lits   []*Term

	narrowMemo          map[*Term]*Term
	narrowGen, narrowAt int

	litSet map[*Term]bool
	ub     map[*Term]uint64 // unsigned bounds learnt from the path
	lb     map[*Term]uint64
	model  Model
	memo   map[*Term]uint64
	vars   []*Term
	varSet map[*Term]bool
	vseen  map[*Term]bool

	steps    int64
	maxSteps int64
	maxLoop  int
	initMode bool
	initFn   *ssa.Function
	journal  []jent

	s           *Sched
	cur         *G
	mutexes     map[Ptr]*mutex
	wgs         map[Ptr]*int
	chanID      int
	chvc        map[*Chan]map[int]int
	acc         map[interface{}]*accInfo
	raceOn      bool
	mapOrder    bool
	allSched    bool
	timersRacy  bool
	maxPreempt  int
	timerSeq    int
	schedChoice bool
	panicBlock  string
	crash       *crashCtl

	inputs   []input
	inNames  map[string]int
	obs      []obsEnt
	fresh    int
	freshIn  map[string]int
	st       *models
	trace    []string
	hung     bool
	reachedL map[string]bool
	sampled  string
	mapRaced bool
	asserted map[string]int
	ntAssert int
}

type input struct {
	name string
	t    *Term
	val  int64 // for choices (t == nil)
}

type obsEnt struct {
	label string
	v     Value
}

func newExec(w *Worker, r *Run, it item) *Exec {
	x := &Exec{w: w, c: w.c, h: r, prefix: it.prefix, model: it.model,
		litSet: map[*Term]bool{}, ub: map[*Term]uint64{}, lb: map[*Term]uint64{},
		varSet: map[*Term]bool{}, vseen: map[*Term]bool{},
		maxSteps: r.opt.MaxSteps, maxLoop: r.opt.MaxLoop,
		chvc: map[*Chan]map[int]int{}, acc: map[interface{}]*accInfo{},
		raceOn: r.opt.RaceOn, mapOrder: r.opt.MapOrder, allSched: r.opt.AllSched,
		timersRacy: r.opt.Timers, maxPreempt: r.opt.MaxPreempt,
		inNames: map[string]int{}, freshIn: map[string]int{}, reachedL: map[string]bool{}, asserted: map[string]int{}}
	if x.model == nil && len(x.prefix) == 0 {
		x.model = Model{}
	}
	x.st = newModels()
	x.memo = map[*Term]uint64{}
	x.initSched()
	return x
}

func (x *Exec) runPath() {
	r := x.h
	res := x.runMain(r.fn)
	status, msg := "ok", ""
	switch e := res.(type) {
	case nil:
	case *pathAbort:
		status, msg = e.status, e.msg
		if status == "deadlock" || status == "crash" {
			x.reportViolation(status, e.msg, "")
		}
	case *targetPanic:
		status = "panic"
		msg = x.panicText(e) + " at " + e.pos
		x.panicBlock = e.block
		x.reportViolation("panic", msg, e.pos)
	case *unsupportedErr:
		status, msg = "unsupported", e.msg+" @ "+x.where()
	default:
		status, msg = "internal", fmt.Sprint(e)+" @ "+x.where()
	}
	if x.sampled != "" && status == "ok" {
		msg = x.sampled
		defer func() {
			r.mu.Lock()
			r.status["sampled"]++
			r.mu.Unlock()
		}()
	}
	var tr *Trace
	if status == "ok" && r.opt.Traces > 0 {
		r.mu.Lock()
		want := len(r.traces) < r.opt.Traces
		r.mu.Unlock()
		if want {
			if m := x.tryModel(); m != nil {
				tr = &Trace{Inputs: x.inputValues(m), Obs: x.obsValues(m), Sched: x.schedChoice}
			}
		}
	}
	x.rollback()
	r.mu.Lock()
	r.status[status]++
	if msg != "" && status != "assume" {
		r.msgs[status+": "+msg]++
	}
	if status == "ok" {
		for l := range x.reachedL {
			r.reached[l]++
		}
	}
	for l, n := range x.asserted {
		r.asserts[l] += n
	}
	r.assertsNT += x.ntAssert
	r.steps += x.steps
	r.branches += len(x.decs)
	if len(x.decs) > r.maxDepthD {
		r.maxDepthD = len(x.decs)
	}
	r.switches += x.s.switches
	if tr != nil && len(r.traces) < r.opt.Traces {
		r.traces = append(r.traces, *tr)
	}
	r.mu.Unlock()
}

func (x *Exec) panicText(tp *targetPanic) (s string) {
	defer func() {
		if recover() != nil {
			s = "panic"
		}
	}()
	i, ok := tp.v.(Iface)
	if !ok || i.T == nil {
		return "nil panic"
	}
	if t, ok := i.V.(string); ok {
		return t
	}
	switch v := x.errText(i).(type) {
	case string:
		return v
	}
	return i.T.String()
}

// ---------------------------------------------------------------- decisions

func (x *Exec) addLit(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			x.addLit(a)
		}
		return
	}
	if x.litSet[t] {
		return
	}
	x.lits = append(x.lits, t)
	x.learn(t)
	x.c.collectVarsList(t, x.vseen, &x.vars)
}

func (x *Exec) learn(t *Term) {
	x.litSet[t] = true
	x.litSet[x.c.Not(t)] = false
	// simple interval facts
	neg := false
	u := t
	if u.op == ONot {
		neg = true
		u = u.args[0]
	}
	switch u.op {
	case OUlt: // a < b
		a, b := u.args[0], u.args[1]
		if !neg {
			if b.IsConst() && b.k > 0 {
				x.setUB(a, b.k-1)
			}
			if a.IsConst() {
				x.setLB(b, a.k+1)
			}
		} else { // b <= a
			if b.IsConst() {
				x.setLB(a, b.k)
			}
			if a.IsConst() {
				x.setUB(b, a.k)
			}
		}
	case OSlt:
		a, b := u.args[0], u.args[1]
		if neg { // b <= a
			a, b = b, a
		}
		d := uint64(1)
		if neg {
			d = 0
		}
		top := uint64(1) << uint(a.w-1)
		if b.IsConst() && b.k < top && b.k >= d {
			// a < b (or a <= b), a known nonnegative
			if _, hi := x.bounds(a); hi < top {
				x.setUB(a, b.k-d)
			}
		}
		if a.IsConst() && a.k < top && a.k+d < top {
			x.setLB(b, a.k+d)
			x.setUB(b, top-1)
		}
	case OEq:
		if !neg && u.args[0].w > 0 {
			for i := 0; i < 2; i++ {
				if u.args[i].IsConst() {
					x.setLB(u.args[1-i], u.args[i].k)
					x.setUB(u.args[1-i], u.args[i].k)
				}
			}
		}
	}
}

func (x *Exec) setUB(t *Term, v uint64) {
	if o, ok := x.ub[t]; !ok || v < o {
		x.ub[t] = v
		if k := bits.Len64(v); k < bits.Len64(t.umax()) && t.op != OConst && t.op != OConcat {
			x.narrowGen++
		}
	}
}

// narrow rewrites a condition with what the path knows about the size of its subterms; the result is
// equivalent on this path.
func (x *Exec) narrow(t *Term) *Term {
	if len(x.ub) == 0 {
		return t
	}
	if x.narrowAt != x.narrowGen || x.narrowMemo == nil {
		x.narrowMemo = map[*Term]*Term{}
		x.narrowAt = x.narrowGen
	}
	n := 0
	return x.narrowRec(t, &n)
}

func (x *Exec) narrowRec(t *Term, n *int) *Term {
	if t.op == OConst {
		return t
	}
	if r, ok := x.narrowMemo[t]; ok {
		return r
	}
	*n++
	if *n > 5000 {
		return t
	}
	c := x.c
	r := t
	if v, ok := x.ub[t]; ok && t.w > 0 {
		if k := bits.Len64(v); k < bits.Len64(t.umax()) && k < t.w {
			if k == 0 {
				r = c.BV(t.w, 0)
			} else {
				r = c.Concat(c.BV(t.w-k, 0), c.Extract(t, k-1, 0))
			}
			x.narrowMemo[t] = r
			return r
		}
	}
	if len(t.args) > 0 {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = x.narrowRec(a, n)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			r = c.rebuild(t, args)
		}
		if r.w == 0 && r.op != OConst {
			switch x.quick(r) {
			case 1:
				r = c.True
			case -1:
				r = c.False
			}
		}
	}
	x.narrowMemo[t] = r
	return r
}
func (x *Exec) setLB(t *Term, v uint64) {
	if o, ok := x.lb[t]; !ok || v > o {
		x.lb[t] = v
	}
}

func (x *Exec) bounds(t *Term) (lo, hi uint64) {
	lo, hi = t.umin(), t.umax()
	if v, ok := x.ub[t]; ok && v < hi {
		hi = v
	}
	if v, ok := x.lb[t]; ok && v > lo {
		lo = v
	}
	return
}

// quick decides a condition from the path literals without the solver (0 unknown, 1 true, -1 false).
func (x *Exec) quick(t *Term) int {
	if v, ok := x.litSet[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch t.op {
	case ONot:
		return -x.quick(t.args[0])
	case OAnd:
		all := true
		for _, a := range t.args {
			switch x.quick(a) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
	case OOr:
		all := true
		for _, a := range t.args {
			switch x.quick(a) {
			case 1:
				return 1
			case 0:
				all = false
			}
		}
		if all {
			return -1
		}
	case OUlt:
		al, ah := x.bounds(t.args[0])
		bl, bh := x.bounds(t.args[1])
		if ah < bl {
			return 1
		}
		if al >= bh {
			return -1
		}
	case OSlt:
		al, ah := x.bounds(t.args[0])
		bl, bh := x.bounds(t.args[1])
		if top := uint64(1) << uint(t.args[0].w-1); ah < top && bh < top {
			if ah < bl {
				return 1
			}
			if al >= bh {
				return -1
			}
		}
	case OEq:
		if t.args[0].w > 0 {
			al, ah := x.bounds(t.args[0])
			bl, bh := x.bounds(t.args[1])
			if ah < bl || bh < al {
				return -1
			}
			if al == ah && bl == bh && al == bl {
				return 1
			}
		}
	}
	return 0
}

func (x *Exec) evalBool(t *Term) bool {
	return x.c.Eval(t, x.model, x.memo) != 0
}

func (x *Exec) setModel(m Model) {
	x.model = m
	x.memo = map[*Term]uint64{}
}

// ensureModel returns a model of the path literals (nil if the solver gave up).
func (x *Exec) ensureModel() Model {
	if x.model != nil {
		ok := true
		for _, l := range x.lits {
			if !x.evalBool(l) {
				ok = false
				break
			}
		}
		if ok {
			return x.model
		}
	}
	res, m := x.w.sol.Check(x.lits, nil, x.vars)
	switch res {
	case Sat:
		if m == nil {
			m = Model{}
		}
		x.setModel(m)
		return m
	case Unsat:
		panic(&pathAbort{"infeasible", ""})
	}
	x.model = nil
	return nil
}

// tryModel is ensureModel for a path that may turn out to be infeasible.
func (x *Exec) tryModel() (m Model) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(*pathAbort); !ok {
				panic(e)
			}
			m = nil
		}
	}()
	return x.ensureModel()
}

func (x *Exec) modelValid() bool {
	return x.model != nil
}

func (x *Exec) push(alt Dec, m Model) {
	p := make([]Dec, len(x.decs)+1)
	copy(p, x.decs)
	p[len(x.decs)] = alt
	x.h.mu.Lock()
	x.h.work = append(x.h.work, item{prefix: p, model: m})
	x.h.cond.Signal()
	x.h.mu.Unlock()
}

func (x *Exec) record(d Dec) { x.decs = append(x.decs, d) }

// afterLit keeps the model in step with a newly added literal.
func (x *Exec) afterLit(l *Term) {
	if x.model == nil {
		return
	}
	if !x.evalBool(l) {
		x.model = nil
	}
}

func (x *Exec) branch(cond *Term) bool {
	if cond.IsConst() {
		return cond.k != 0
	}
	if x.initMode {
		panic(unsupported("symbolic branch in initialiser"))
	}
	if x.di < len(x.prefix) {
		d := x.prefix[x.di]
		if d.K != 'b' {
			panic(unsupported(fmt.Sprintf("replay mismatch: branch vs %c(%s) at %s", d.K, d.Tag, x.where())))
		}
		x.di++
		x.record(d)
		l := cond
		if d.N == 0 {
			l = x.c.Not(cond)
		}
		if d.F {
			x.learn(l)
		} else {
			x.addLit(l)
		}
		return d.N == 1
	}
	if q := x.quick(cond); q != 0 {
		x.crossForced(cond, q > 0)
		d := Dec{K: 'b', F: true}
		if q > 0 {
			d.N = 1
		}
		x.record(d)
		return q > 0
	}
	if nc := x.narrow(cond); nc != cond {
		q := 0
		if nc.IsConst() {
			q = -1
			if nc.k != 0 {
				q = 1
			}
		} else {
			q = x.quick(nc)
		}
		if q != 0 {
			d := Dec{K: 'b', F: true}
			x.crossForced(cond, q > 0)
			if q > 0 {
				d.N = 1
			}
			x.record(d)
			return q > 0
		}
	}
	x.checkDeadline()
	ncond := x.c.Not(cond)
	m := x.ensureModel()
	var side bool
	if m != nil {
		side = x.evalBool(cond)
	} else {
		// solver gave up on the path: find out which sides are possible
		r, mm := x.w.sol.Check(x.lits, cond, nil)
		_ = mm
		side = r != Unsat
	}
	taken, other := cond, ncond
	if !side {
		taken, other = ncond, cond
	}
	x.c.collectVarsList(other, x.vseen, &x.vars)
	r, om := x.w.sol.Check(x.lits, other, x.vars)
	d := Dec{K: 'b'}
	if side {
		d.N = 1
	}
	if r == Unsat {
		d.F = true
		x.record(d)
		x.learn(taken)
		return side
	}
	x.push(Dec{K: 'b', N: 1 - d.N}, om)
	x.record(d)
	x.addLit(taken)
	return side
}

func (x *Exec) crossForced(cond *Term, taken bool) {
	if x.w.eng.crossBin == "" {
		return
	}
	if !taken {
		cond = x.c.Not(cond)
	}
	x.crossCheck(cond, 2)
}

// assume restricts the path; an infeasible restriction ends it.
func (x *Exec) assume(cond *Term) {
	if cond.IsTrue() {
		return
	}
	if cond.IsFalse() {
		panic(&pathAbort{"assume", ""})
	}
	if x.quick(cond) > 0 {
		return
	}
	if x.quick(cond) < 0 {
		panic(&pathAbort{"assume", ""})
	}
	x.addLit(cond)
	if x.di < len(x.prefix) {
		return
	}
	if x.model != nil && x.evalBool(cond) {
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pa, ok := r.(*pathAbort); ok && pa.status == "infeasible" {
					panic(&pathAbort{"assume", ""})
				}
				panic(r)
			}
		}()
		x.ensureModel()
	}()
}

func (x *Exec) choose(n int, tag string) int {
	if n <= 1 {
		return 0
	}
	if strings.HasPrefix(tag, "preempt") || tag == "sched" || tag == "select" {
		x.schedChoice = true
	}
	if x.di < len(x.prefix) {
		d := x.prefix[x.di]
		if d.K != 'c' {
			panic(unsupported(fmt.Sprintf("replay mismatch: choice %s vs %c at %s", tag, d.K, x.where())))
		}
		x.di++
		x.record(d)
		return d.N
	}
	x.checkDeadline()
	for i := n - 1; i >= 1; i-- {
		x.push(Dec{K: 'c', N: i, Tag: tag}, x.model)
	}
	x.record(Dec{K: 'c', N: 0, Tag: tag})
	return 0
}

// concretize forks over the feasible values of t.
// pick fixes t to one of its values and forgets the others.
func (x *Exec) pick(t *Term) uint64 {
	if t.IsConst() {
		return t.k
	}
	if x.di < len(x.prefix) {
		d := x.prefix[x.di]
		if d.K != 'v' {
			panic(unsupported("replay mismatch: value"))
		}
		x.di++
		x.record(d)
		x.addLit(x.c.Eq(t, x.c.BV(t.w, d.V)))
		return d.V
	}
	m := x.ensureModel()
	if m == nil {
		panic(&pathAbort{"unknown", "solver gave up on a value at " + x.where()})
	}
	v := x.c.Eval(t, m, x.memo)
	x.record(Dec{K: 'v', N: 1, V: v})
	x.addLit(x.c.Eq(t, x.c.BV(t.w, v)))
	return v
}

func (x *Exec) concretize(t *Term) uint64 {
	if t.IsConst() {
		return t.k
	}
	for n := 0; ; n++ {
		if x.di < len(x.prefix) {
			d := x.prefix[x.di]
			if d.K != 'v' {
				panic(unsupported("replay mismatch: value"))
			}
			x.di++
			x.record(d)
			e := x.c.Eq(t, x.c.BV(t.w, d.V))
			if d.N == 1 {
				if d.F {
					x.learn(e)
				} else {
					x.addLit(e)
				}
				return d.V
			}
			x.addLit(x.c.Not(e))
			continue
		}
		if n > 300 {
			panic(&pathAbort{"unwind", "more than 300 values of a symbolic size or index at " + x.where()})
		}
		x.checkDeadline()
		m := x.ensureModel()
		if m == nil {
			panic(&pathAbort{"unknown", "solver gave up on a symbolic size at " + x.where()})
		}
		v := x.c.Eval(t, m, x.memo)
		e := x.c.Eq(t, x.c.BV(t.w, v))
		x.c.collectVarsList(e, x.vseen, &x.vars)
		r, om := x.w.sol.Check(x.lits, x.c.Not(e), x.vars)
		if r == Unsat {
			x.record(Dec{K: 'v', N: 1, V: v, F: true})
			x.learn(e)
			return v
		}
		x.push(Dec{K: 'v', N: 0, V: v}, om)
		x.record(Dec{K: 'v', N: 1, V: v})
		x.addLit(e)
		return v
	}
}

func (x *Exec) checkDeadline() {
	if time.Now().After(x.h.deadline) {
		x.h.mu.Lock()
		if x.h.incomplete == "" {
			x.h.incomplete = "time budget exhausted"
		}
		x.h.stop = true
		x.h.mu.Unlock()
		panic(&pathAbort{"timeout", ""})
	}
}

// ---------------------------------------------------------------- assertions

func (x *Exec) assertCond(cond *Term, label string) {
	if cond.IsTrue() {
		x.asserted[label]++
		return
	}
	if x.quick(cond) > 0 {
		x.asserted[label]++
		x.crossCheck(cond, 1)
		return
	}
	if x.di < len(x.prefix) {
		// an earlier run of this prefix decided the assertion already
		x.learnAssume(cond)
		return
	}
	if nc := x.narrow(cond); nc.IsTrue() || x.quick(nc) > 0 {
		x.asserted[label]++
		x.crossCheck(cond, 1)
		x.learn(cond)
		return
	} else if !nc.IsFalse() {
		cond = nc
	}
	x.ntAssert++
	x.c.collectVarsList(cond, x.vseen, &x.vars)
	bad := false
	if x.model != nil && x.allHold() && !x.evalBool(cond) {
		x.violation(label, x.model)
		bad = true
	} else {
		r, m := x.w.sol.Check(x.lits, x.c.Not(cond), x.vars)
		switch r {
		case Unsat:
			x.asserted[label]++
			x.crossCheck(cond, 0)
			x.learn(cond)
			return
		case Sat:
			if m == nil {
				m = Model{}
			}
			x.violation(label, m)
			bad = true
		default:
			x.h.mu.Lock()
			x.h.msgs["unknown: solver gave up on assertion "+label]++
			x.h.status["unknown-assert"]++
			x.h.mu.Unlock()
		}
	}
	if bad {
		// carry on with the part of the path where it holds
		x.assume(cond)
	}
}

func (x *Exec) learnAssume(cond *Term) {
	if cond.IsFalse() {
		panic(&pathAbort{"assume", ""})
	}
	// If the assertion was violated for some values the path continued where it holds.
	// Adding it again is sound either way.
	x.addLit(cond)
}

func (x *Exec) allHold() bool {
	for _, l := range x.lits {
		if !x.evalBool(l) {
			return false
		}
	}
	return true
}

// crossCheck asks another solver about a decision of this run: the path condition and the negation of
// cond must be unsatisfiable. A sample of the assertions discharged by the solver (kind 0), of those
// settled by the engine's own simplification (1) and of the branches it found to be forced (2) is checked.
func (x *Exec) crossCheck(cond *Term, kind int) {
	r := x.h
	if x.w.eng.crossBin == "" || !r.opt.Cross || x.initMode {
		return
	}
	r.mu.Lock()
	r.crossSeen[kind]++
	n := r.crossSeen[kind]
	// the first ones, then ever fewer
	if r.crossTried[kind] >= 25 || (n > 5 && n&(n-1) != 0 && n%997 != 0) {
		r.mu.Unlock()
		return
	}
	r.crossTried[kind]++
	r.mu.Unlock()
	res, txt := crossSolve(x.w.eng.crossBin, append(append([]*Term{}, x.lits...), x.c.Not(cond)))
	r.mu.Lock()
	defer r.mu.Unlock()
	switch res {
	case Unsat:
		r.crossOK++
	case Sat:
		r.crossBad++
		if r.crossTxt == "" {
			r.crossTxt = txt
		}
	default:
		r.crossUnk++
	}
}

func (x *Exec) violation(label string, m Model) {
	x.addViolation(&Violation{Label: label, Where: x.where(), Harness: x.h.name, Inputs: x.inputValues(m), Obs: x.obsValuesPlain(m)})
}

func (x *Exec) reportViolation(label, msg, where string) {
	m := func() (m Model) {
		defer func() {
			if r := recover(); r != nil {
				m = nil
			}
		}()
		return x.ensureModel()
	}()
	if m == nil {
		x.h.mu.Lock()
		x.h.msgs["unknown: "+label+" on a path the solver could not decide: "+msg]++
		x.h.mu.Unlock()
		return
	}
	x.addViolation(&Violation{Label: label, Msg: msg, Where: where, Harness: x.h.name, Inputs: x.inputValues(m), Obs: x.obsValuesPlain(m)})
}

func (x *Exec) addViolation(v *Violation) {
	v.Decs = append([]Dec{}, x.decs...)
	v.Sched = x.schedChoice
	v.Block = x.panicBlock
	v.Trace = append([]string{}, x.trace...)
	r := x.h
	r.mu.Lock()
	defer r.mu.Unlock()
	key := v.Label + "|" + v.Where
	r.vioCount[key]++
	if r.vioCount[key] <= 4 {
		r.violations = append(r.violations, v)
	}
}

func (x *Exec) inputValues(m Model) map[string]string {
	o := map[string]string{}
	memo := map[*Term]uint64{}
	for _, in := range x.inputs {
		if in.t == nil {
			o[in.name] = fmt.Sprint(in.val)
		} else {
			o[in.name] = fmt.Sprint(x.c.Eval(in.t, m, memo))
		}
	}
	return o
}

func (x *Exec) obsValuesPlain(m Model) []string { return x.obsValues(m) }

func (x *Exec) obsValues(m Model) []string {
	var o []string
	memo := map[*Term]uint64{}
	for _, e := range x.obs {
		s := ""
		switch v := e.v.(type) {
		case *Term:
			s = fmt.Sprint(x.c.Eval(v, m, memo))
		case string:
			s = v
		case *SymStr:
			b := make([]byte, len(v.b))
			for i, t := range v.b {
				b[i] = byte(x.c.Eval(t, m, memo))
			}
			s = string(b)
		default:
			continue
		}
		o = append(o, e.label+"="+s)
	}
	return o
}

// ---------------------------------------------------------------- globals and package initialisers

func (x *Exec) global(g *ssa.Global) Value {
	w := x.w
	if g.Pkg != nil && !w.inited[g.Pkg] {
		x.initPkg(g.Pkg)
	}
	p, ok := w.globals[g]
	if !ok {
		p = new(Value)
		*p = zero(x.c, g.Type().Underlying().(*types.Pointer).Elem())
		w.globals[g] = p
	}
	if ov, ok := globalOverride[g.String()]; ok && !x.w.inited2(g) {
		*p = ov(x)
	}
	if po, ok := (*p).(*Poison); ok && !x.initMode {
		_ = po
	}
	return p
}

func (w *Worker) inited2(g *ssa.Global) bool {
	k := "ov:" + g.String()
	if w.native[k] != nil {
		return true
	}
	w.native[k] = true
	return false
}

var globalOverride = map[string]func(x *Exec) Value{}

func (x *Exec) initPkg(p *ssa.Package) {
	w := x.w
	w.inited[p] = true
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	sm, sf, sc := x.initMode, x.initFn, x.steps
	x.initMode = true
	x.initFn = fn
	g := x.cur
	if g == nil {
		g = &G{id: -1, name: "init", vc: map[int]int{}}
	}
	st, sd := g.top, g.depth
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pa, ok := r.(*pathAbort); ok && pa.status == "kill" {
					panic(r)
				}
				msg = fmt.Sprint(r)
				if u, ok := r.(*unsupportedErr); ok {
					msg = u.msg
				}
				if tp, ok := r.(*targetPanic); ok {
					msg = "panic " + x.panicText(tp)
				}
			}
		}()
		x.callFn(g, nil, fn, nil, nil)
	}()
	g.top, g.depth = st, sd
	if msg != "" {
		// everything this initialiser had not stored yet is unusable
		if w.eng.verbose {
			fmt.Printf("init of %s aborted: %s\n", p.Pkg.Path(), msg)
		}
		for _, m := range p.Members {
			if gl, ok := m.(*ssa.Global); ok {
				if _, done := w.globals[gl]; !done && gl.Name() != "init$guard" {
					q := new(Value)
					*q = zero(x.c, gl.Type().Underlying().(*types.Pointer).Elem())
					w.globals[gl] = q
				}
			}
		}
	}
	x.initMode, x.initFn, x.steps = sm, sf, sc
}

var skipInit = map[string]bool{"runtime": true, "os": false, "reflect": true, "syscall": true, "internal/cpu": true}

// ---------------------------------------------------------------- helpers shared by models

func (x *Exec) freshName(base string) string {
	n := x.freshIn[base]
	x.freshIn[base] = n + 1
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s#%d", base, n)
}

// newVar makes a named harness input.
func (x *Exec) newInput(name string, w int) *Term {
	n := x.freshName(name)
	t := x.c.Var(fmt.Sprintf("in:%s:%d", n, w), w)
	x.inputs = append(x.inputs, input{name: n, t: t})
	x.regVar(t)
	return t
}

// newVar makes an internal unconstrained variable (model results).
func (x *Exec) newVar(name string, w int) *Term {
	n := x.freshName("~" + name)
	t := x.c.Var(fmt.Sprintf("%s:%d", n, w), w)
	x.regVar(t)
	return t
}

func (x *Exec) regVar(t *Term) {
	if !x.vseen[t] {
		x.vseen[t] = true
		x.vars = append(x.vars, t)
	}
}

func sortedKeys(m map[string]int) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
