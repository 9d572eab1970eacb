package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   *ssa.Function
	val  Value // function value
	args []Value
	call *ssa.CallCommon
	pos  token.Pos
}

type modEntry struct {
	p   *PtrV   // location (all leaves of Elem)
	s   *SliceV // slice contents
	t   types.Type
	m   *RefV // map contents
	mt  *types.Map
	mt0 types.Type
}

type Frame struct {
	fn         *ssa.Function
	blk, prev  *ssa.BasicBlock
	ip         int
	env        map[ssa.Value]Value
	defers     []*deferred
	spec       bool
	loops      []*loopAct
	onRet      func(s *State, res []Value)
	panicking  bool
	recovered  bool
	isDeferred bool
	con        *Contract // set if this frame runs a contract
	verify     bool
	mods       []modEntry
	modAny     bool
	tres       []Value // results of target in use mode
	tdone      bool
	entryAlloc uint64
	freshN     int
	stop       bool
	hook       bool
	specHook   bool
	target     bool
	forked     bool
	thread     *threadInfo
}

type heldLock struct {
	field string
	ref   *Term
	read  bool
}

type kidEnt struct {
	s   *StringV
	mem *Mem // snapshot of byte memory when needed (nil if immutable)
	kid *Term
}

type State struct {
	mem      map[string]*Mem
	pc       []*Term
	lits     map[*Term]bool
	frames   []*Frame
	alloc    uint64
	kids     []kidEnt
	eqs      []streq
	idxs     []*Term
	locks    []heldLock
	trace    []string
	logic    map[string]Value // logical constants by name
	univ     []*univFact
	lens     []lenRec
	doms     []domRec
	panicked bool
	depth    int
	prov     map[string]bool
	hints    []hint
	bconds   []*Term
	fctx     *frameCtx
}

type univFact struct {
	desc string
	kt   string // key type
	inst func(x *Exec, s *State, k *Term) *Term
}
type lenRec struct {
	mem *Mem
	ref *Term
	n   *Term
}
type domRec struct {
	mem *Mem
	ref *Term
	d   *Term
	key *Term // put under this key (of type kt)
	kt  string
}
type streq struct {
	b    *Term
	a, t *StringV
	am   *Mem
	tm   *Mem
}

type Obligation struct {
	Name   string
	Pos    string
	Result string // "discharged", "failed", "unknown"
	Detail string
	Model  map[string]string
	Trace  []string
	N      int
}

type Exec struct {
	orgOf     map[*Term]*Origin
	c         *Ctx
	sol       *Solver
	w         *World
	init      map[string]*Mem
	selCache  map[selKey]*Term
	wfDone    map[[4]int]bool
	lits      map[uint64]string
	litRef    map[string]uint64
	memN      int
	baseN     int
	sinks     []*wsink
	closures  map[uint64]*closure
	obls      map[string]*Obligation
	oblOrd    []string
	noObl     int // >0: obligations suppressed (speculative loop runs)
	tags      map[string]uint64
	tagTypes  []types.Type
	con       *Contract
	opt       Options
	steps     int
	paths     int
	pathsDone int
	endSat    bool
	deadline  time.Time
	externs   map[string]int
	inlined   map[string]int
	used      map[string]int
	fnIDs     map[*ssa.Function]uint64
	loopsOf   map[*ssa.Function]*loopInfo
	kidN      int
	loopCuts  map[string][]string
	spawned   map[string]int
	covers    map[string]bool
	unk       int
	slowest   time.Duration
	slowName  string
	argsIn    []Value
	argTypes  []types.Type
	argNames  []string
	failStop  bool
	unrollN   int
	cutPaths  int
	urems     []*Term
	uremSeen  map[*Term]bool
	allocN    uint64
	hintFrames []*Frame
	anyFresh bool
	dbgN int
	sp        *specRun
	keyLeaf   map[string]leaf
}

type closure struct {
	fn   *ssa.Function
	bind []Value
	late []int
}

type Options struct {
	panics     bool // check for runtime panics
	perms      bool // ownership theory
	cbPanic    bool
	lockCheck  bool
	maxSteps   int
	unknownPan bool
	blockCheck bool
	seq        bool
}

func NewExec(w *World, con *Contract, timeoutMs int) *Exec {
	x := &Exec{c: NewCtx(), w: w, init: map[string]*Mem{}, selCache: map[selKey]*Term{}, wfDone: map[[4]int]bool{}, lits: map[uint64]string{}, litRef: map[string]uint64{},
		closures: map[uint64]*closure{}, obls: map[string]*Obligation{}, tags: map[string]uint64{}, con: con, externs: map[string]int{}, inlined: map[string]int{}, used: map[string]int{},
		fnIDs: map[*ssa.Function]uint64{}, loopsOf: map[*ssa.Function]*loopInfo{}, loopCuts: map[string][]string{}, spawned: map[string]int{}, covers: map[string]bool{}, uremSeen: map[*Term]bool{}}
	x.sol = NewSolver(x.c, timeoutMs)
	x.opt = con.Opt
	x.allocN = oldBound
	x.keyLeaf = map[string]leaf{}
	return x
}

func (s *State) clone() *State {
	n := *s
	n.mem = make(map[string]*Mem, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.lits = make(map[*Term]bool, len(s.lits))
	for k, v := range s.lits {
		n.lits[k] = v
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		nf := *f
		nf.env = make(map[ssa.Value]Value, len(f.env)+8)
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.defers = append([]*deferred(nil), f.defers...)
		nf.loops = append([]*loopAct(nil), f.loops...)
		nf.mods = append([]modEntry(nil), f.mods...)
		n.frames[i] = &nf
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.kids = s.kids[:len(s.kids):len(s.kids)]
	n.eqs = s.eqs[:len(s.eqs):len(s.eqs)]
	n.idxs = s.idxs[:len(s.idxs):len(s.idxs)]
	n.locks = append([]heldLock(nil), s.locks...)
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.univ = s.univ[:len(s.univ):len(s.univ)]
	n.lens = s.lens[:len(s.lens):len(s.lens)]
	n.doms = s.doms[:len(s.doms):len(s.doms)]
	n.hints = s.hints[:len(s.hints):len(s.hints)]
	n.bconds = s.bconds[:len(s.bconds):len(s.bconds)]
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (x *Exec) assume(s *State, t *Term) {
	if t.IsTrue() || s.lits[t] {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			x.assume(s, a)
		}
		return
	}
	s.lits[t] = true
	s.pc = append(s.pc, t)
}

func (x *Exec) feasible(s *State, t *Term) bool {
	if t.IsFalse() || s.lits[x.c.Not(t)] {
		return false
	}
	if t.IsTrue() || s.lits[t] {
		return true
	}
	if t.Op == OAnd {
		all := true
		for _, a := range t.Args {
			if s.lits[x.c.Not(a)] {
				return false
			}
			if !s.lits[a] {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return x.sol.Sliced(s.pc, t, false) != Unsat
}

// decide returns (canTrue, canFalse)
func (x *Exec) decide(s *State, t *Term) (bool, bool) {
	if t.IsTrue() || s.lits[t] {
		return true, false
	}
	n := x.c.Not(t)
	if t.IsFalse() || s.lits[n] {
		return false, true
	}
	ct := x.feasible(s, t)
	if !ct {
		return false, true
	}
	return true, x.feasible(s, n)
}

func (x *Exec) valid(s *State, t *Term) bool {
	if t.IsTrue() || s.lits[t] {
		return true
	}
	if t.IsFalse() {
		return !x.feasible(s, x.c.True)
	}
	return x.sol.Sliced(s.pc, x.c.Not(t), false) == Unsat
}

func (x *Exec) posOf(s *State) string {
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.spec {
			continue
		}
		p := token.NoPos
		if f.ip < len(f.blk.Instrs) && f.ip >= 0 {
			p = f.blk.Instrs[f.ip].Pos()
			if p == token.NoPos {
				for j := f.ip - 1; j >= 0 && p == token.NoPos; j-- {
					p = f.blk.Instrs[j].Pos()
				}
			}
		}
		pp := x.w.prog.Fset.Position(p)
		return fmt.Sprintf("%s:%d (%s)", shortFile(pp.Filename), pp.Line, shortFn(f.fn))
	}
	return ""
}

func shortFile(f string) string {
	return strings.TrimPrefix(strings.TrimPrefix(f, x0repo+"/"), "/")
}

var x0repo = "/repo"

func shortFn(f *ssa.Function) string {
	n := f.RelString(nil)
	n = strings.ReplaceAll(n, "github.com/lesismal/arpc/extension/", "")
	n = strings.ReplaceAll(n, "github.com/lesismal/", "")
	return n
}

// prove registers an obligation instance and decides it.
func (x *Exec) prove(s *State, name string, t *Term) {
	if x.noObl > 0 {
		x.assume(s, t)
		return
	}
	o := x.obls[name]
	if o == nil {
		o = &Obligation{Name: name, Result: "discharged"}
		x.obls[name] = o
		x.oblOrd = append(x.oblOrd, name)
	}
	o.N++
	if t.IsTrue() || s.lits[t] {
		return
	}
	if o.Result == "failed" {
		x.assume(s, t)
		return
	}
	t0 := time.Now()
	want, names := x.modelWants(s)
	neg := x.c.Not(t)
	var m map[*Term]uint64
	r := x.sol.Sliced(s.pc, neg, false)
	if r != Unsat {
		r, m = x.sol.Check(s.pc, neg, want)
	}
	if r == Sat && len(x.urems) > 0 {
		// refine the abstract remainders
		r, m = x.sol.Check(append(append([]*Term{}, s.pc...), x.urems...), neg, want)
	}
	if d := time.Since(t0); d > x.slowest {
		x.slowest = d
		x.slowName = name
	}
	if r == Sat && m == nil {
		m = map[*Term]uint64{}
	}
	switch r {
	case Unsat:
	case Sat:
		o.Result = "failed"
		o.Pos = x.posOf(s)
		o.Detail = t.String()
		o.Trace = append([]string{}, s.trace...)
		o.Model = map[string]string{}
		for i, w := range want {
			if v, ok := m[w]; ok {
				o.Model[names[i]] = fmt.Sprintf("%d", v)
			}
		}
		x.argModel(s, neg, o)
	default:
		if o.Result == "discharged" {
			o.Result = "unknown"
			o.Pos = x.posOf(s)
			o.Trace = append([]string{}, s.trace...)
		}
	}
	x.assume(s, t)
}

func (x *Exec) modelWants(s *State) ([]*Term, []string) {
	var ts []*Term
	var ns []string
	for i, a := range x.argsIn {
		terms := x.toLeaves(x.argTypes[i], a)
		ls := leavesOf(x.argTypes[i])
		for j, t := range terms {
			ts = append(ts, t)
			ns = append(ns, x.argNames[i]+ls[j].suf)
		}
	}
	return ts, ns
}

// argModel adds the byte contents of slice/string arguments from the counterexample (first 4096 bytes).
func (x *Exec) argModel(s *State, neg *Term, o *Obligation) {
	defer func() { recover() }()
	var want []*Term
	var names []string
	emit := func(name string, ref, off, ln *Term, lnName string) {
		n := uint64(0)
		fmt.Sscanf(o.Model[lnName], "%d", &n)
		if n > 300 {
			n = 300
		}
		m := x.memInit(bytesKey, byteLeaf)
		for i := uint64(0); i < n; i++ {
			want = append(want, x.sel(m, ref, x.c.AddK(off, int64(i))))
			names = append(names, fmt.Sprintf("%s[%d]", name, i))
		}
	}
	for i, a := range x.argsIn {
		switch v := a.(type) {
		case *SliceV:
			if st, ok := x.argTypes[i].Underlying().(*types.Slice); ok && elemKey(st.Elem()) == "uint8" {
				emit(x.argNames[i], v.R, v.O, v.L, x.argNames[i]+"#l")
			}
		case *StringV:
			emit(x.argNames[i], v.R, v.O, v.L, x.argNames[i]+"#l")
		}
	}
	if len(want) == 0 {
		return
	}
	r, m := x.sol.Check(s.pc, neg, want)
	if r == Sat {
		for i, w := range want {
			if v, ok := m[w]; ok {
				o.Model[names[i]] = fmt.Sprintf("%d", v)
			}
		}
	}
}

func (x *Exec) memInit(key string, l leaf) *Mem {
	if m, ok := x.init[key]; ok {
		return m
	}
	m := x.newBase(key, l, oldBound)
	x.init[key] = m
	return m
}

// ---- exploration ----

type specRun struct {
	loop  *loop
	depth int // frame depth of the loop frame
	backs []*State
	conds []*Term
}

func (x *Exec) explore(init *State, sp *specRun) {
	savedSp := x.sp
	x.sp = sp
	defer func() { x.sp = savedSp }()
	work := []*State{init}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s != nil {
			if x.failStop && x.noObl == 0 && x.anyFailed() {
				return
			}
			x.steps++
			if x.steps > x.opt.maxSteps {
				throwf("step limit exceeded (%d)", x.opt.maxSteps)
			}
			if x.steps&255 == 0 && time.Now().After(x.deadline) {
				throwf("time limit exceeded")
			}
			succ := x.step(s, sp)
			if len(succ) == 0 {
				s = nil
				x.paths++
				break
			}
			for i := len(succ) - 1; i >= 1; i-- {
				work = append(work, succ[i])
			}
			s = succ[0]
		}
	}
}

func (x *Exec) anyFailed() bool {
	for _, o := range x.obls {
		if o.Result == "failed" {
			return true
		}
	}
	return false
}

func one(s *State) []*State { return []*State{s} }

// step executes one instruction of the top frame.
func (x *Exec) step(s *State, sp *specRun) []*State {
	f := s.top()
	if f.panicking {
		return x.unwindStep(s)
	}
	if f.ip >= len(f.blk.Instrs) {
		throwf("fell off block in %s", f.fn)
	}
	in := f.blk.Instrs[f.ip]
	if trc {
		fmt.Fprintf(os.Stderr, "%*s[%s b%d] %s\n", len(s.frames), "", f.fn.Name(), f.blk.Index, in)
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
		f.ip++
		return one(s)
	case *ssa.Phi:
		throwf("phi executed out of order")
	case *ssa.Jump:
		return x.jump(s, f.blk.Succs[0], sp)
	case *ssa.If:
		cond := x.val(s, i.Cond).(*Term)
		if sp != nil && len(s.frames) == sp.depth {
			sp.conds = append(sp.conds, cond)
		}
		ct, cf := x.decide(s, cond)
		if ct && cf {
			s2 := s.clone()
			x.assume(s, cond)
			x.assume(s2, x.c.Not(cond))
			s.bconds = append(s.bconds, cond)
			s2.bconds = append(s2.bconds, x.c.Not(cond))
			x.note(s, "if true")
			x.note(s2, "if false")
			if j := diamond(f.blk); j != nil && x.loopInfo(f.fn).byHeader[j] == nil {
				return x.mergeDiamond(s, s2, cond, j, sp)
			}
			r := x.jump(s, f.blk.Succs[0], sp)
			return append(r, x.jump(s2, s2.top().blk.Succs[1], sp)...)
		}
		if ct {
			x.assume(s, cond)
			s.bconds = append(s.bconds, cond)
			return x.jump(s, f.blk.Succs[0], sp)
		}
		if cf {
			x.assume(s, x.c.Not(cond))
			s.bconds = append(s.bconds, x.c.Not(cond))
			return x.jump(s, f.blk.Succs[1], sp)
		}
		return nil // infeasible
	case *ssa.Return:
		res := make([]Value, len(i.Results))
		for k, r := range i.Results {
			res[k] = x.val(s, r)
		}
		return x.doReturn(s, res)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return x.callDeferred(s, d)
		}
		f.ip++
		return one(s)
	case *ssa.Panic:
		f.ip++
		return x.doPanic(s)
	case *ssa.Defer:
		d := &deferred{call: &i.Call, pos: i.Pos()}
		x.evalCall(s, d)
		f.defers = append(f.defers, d)
		f.ip++
		return one(s)
	case *ssa.Go:
		d := &deferred{call: &i.Call, pos: i.Pos()}
		x.evalCall(s, d)
		f.ip++
		return x.spawn(s, d, "go")
	case *ssa.Call:
		return x.call(s, i)
	case *ssa.Store:
		return x.doStore(s, i)
	case *ssa.MapUpdate:
		return x.mapUpdate(s, i)
	case *ssa.Send:
		return x.chanSend(s, i)
	case *ssa.Select:
		return x.doSelect(s, i)
	case *ssa.UnOp:
		return x.unop(s, i)
	case *ssa.Next:
		return x.next(s, i)
	case *ssa.Lookup:
		return x.lookup(s, i)
	case *ssa.TypeAssert:
		return x.typeAssert(s, i)
	case ssa.Value:
		v, ok := x.pure(s, i)
		if !ok {
			return nil
		}
		f.env[i] = v
		f.ip++
		return one(s)
	}
	throwf("unsupported instruction %T %s", in, in)
	return nil
}

func (x *Exec) note(s *State, msg string) {
	if x.noObl == 0 {
		s.trace = append(s.trace, x.posOf(s)+": "+msg)
	}
}

func (x *Exec) doReturn(s *State, res []Value) []*State {
	f := s.top()
	if x.sp != nil && len(s.frames) <= x.sp.depth {
		return nil
	}
	s.frames = s.frames[:len(s.frames)-1]
	if f.con != nil && f.verify {
		if x.noObl == 0 {
			x.pathsDone++
			if !x.endSat {
				r, _ := x.sol.check(s.pc, nil, nil, false)
				x.endSat = r != Unsat
			}
		}
		return nil
	}
	if f.stop {
		f.onRet(s, res)
		return nil
	}
	if f.forked {
		return nil
	}
	if f.onRet != nil {
		f.onRet(s, res)
	}
	if len(s.frames) == 0 {
		return nil
	}
	return one(s)
}

// jump moves the top frame of s to block b, evaluating phis and cutting loops.
func (x *Exec) jump(s *State, b *ssa.BasicBlock, sp *specRun) []*State {
	f := s.top()
	pred := f.blk
	li := x.loopInfo(f.fn)
	// evaluate phis
	pi := -1
	for k, p := range b.Preds {
		if p == pred {
			pi = k
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		phis = append(phis, ph)
		vals = append(vals, x.val(s, ph.Edges[pi]))
	}
	// leaving loops
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		if l.lp.blocks[b] {
			break
		}
		if sp != nil && sp.loop == l.lp && len(s.frames) == sp.depth {
			return nil // speculative run ends at loop exit
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	for k, ph := range phis {
		f.env[ph] = vals[k]
	}
	f.prev = pred
	f.blk = b
	f.ip = n
	if lp := li.byHeader[b]; lp != nil {
		if len(f.loops) > 0 && f.loops[len(f.loops)-1].lp == lp {
			act := f.loops[len(f.loops)-1]
			if act.unroll > 0 {
				act2 := *act
				act2.unroll--
				if act2.unroll == 0 {
					if act2.cut {
						x.cutPaths++
						return nil
					}
					throwf("unroll limit in %s", f.fn)
				}
				f.loops[len(f.loops)-1] = &act2
				return one(s)
			}
			if sp != nil && sp.loop == lp && len(s.frames) == sp.depth {
				sp.backs = append(sp.backs, s)
				return nil
			}
			x.backEdge(s, act)
			return nil
		}
		return x.enterLoop(s, lp, sp)
	}
	return one(s)
}

// ---- values ----

func (x *Exec) val(s *State, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return &PtrV{Key: "G:" + c.Pkg.Pkg.Path() + "." + c.Name(), R: x.c.BV(1, 32), I: x.zero64(), Elem: c.Type().(*types.Pointer).Elem(),
			Org: &Origin{Field: c.Pkg.Pkg.Name() + "." + c.Name()}}
	case *ssa.Function:
		return &RefV{R: x.fnRef(c)}
	case *ssa.Builtin:
		return c
	}
	r, ok := s.top().env[v]
	if !ok {
		throwf("no value for %s in %s", v.Name(), s.top().fn)
	}
	return r
}

func (x *Exec) fnRef(fn *ssa.Function) *Term {
	id, ok := x.fnIDs[fn]
	if !ok {
		id = 0x20000000 + uint64(len(x.fnIDs))
		x.fnIDs[fn] = id
		x.closures[id] = &closure{fn: fn}
	}
	return x.c.BV(id, 32)
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return x.c.Bool(constant.BoolVal(c.Value))
		}
		if u.Info()&types.IsString != 0 {
			return x.lit(constant.StringVal(c.Value))
		}
		if u.Info()&types.IsFloat != 0 {
			fv, _ := constant.Float64Val(c.Value)
			return x.c.BV(math.Float64bits(fv), 64)
		}
		w, _ := intWidth(u)
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return x.c.BV(uint64(i), w)
		}
		if i, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return x.c.BV(i, w)
		}
	}
	throwf("constant %s of type %s", c, t)
	return nil
}

// check emits a no-panic obligation when enabled, otherwise assumes.
func (x *Exec) check(s *State, kind string, t *Term) bool {
	f := s.top()
	if f.spec {
		return true // specification reads are total
	}
	if t.IsTrue() || s.lits[t] {
		return true
	}
	ok := x.feasible(s, t)
	if x.opt.panics && x.con.coversPanic(f.fn) {
		x.prove(s, fmt.Sprintf("%s: no %s in %s", x.con.Name, kind, shortFn(f.fn)), t)
	} else {
		x.assume(s, t)
	}
	return ok
}

func (x *Exec) isNilPtr(p *PtrV) *Term { return x.c.Eq(p.R, x.c.BV(0, 32)) }

// pure evaluates side-effect free instructions.
func (x *Exec) pure(s *State, v ssa.Value) (Value, bool) {
	c := x.c
	switch i := v.(type) {
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		p := &PtrV{Key: ptrKey(t), R: x.alloc(s), I: x.zero64(), Elem: t}
		x.storeV(s, t, p, x.zero(t))
		return p, true
	case *ssa.BinOp:
		return x.binop(s, i)
	case *ssa.ChangeType:
		return x.val(s, i.X), true
	case *ssa.ChangeInterface:
		return x.val(s, i.X), true
	case *ssa.Convert:
		return x.convert(s, i), true
	case *ssa.Extract:
		return x.val(s, i.Tuple).(TupleV)[i.Index], true
	case *ssa.Field:
		return x.val(s, i.X).(*StructV).F[i.Field], true
	case *ssa.FieldAddr:
		p := x.val(s, i.X).(*PtrV)
		if !x.check(s, "nil dereference", c.Not(x.isNilPtr(p))) {
			return nil, false
		}
		st := p.Elem
		if st == nil {
			st = i.X.Type().Underlying().(*types.Pointer).Elem()
		}
		su := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		fl := su.Field(i.Field)
		return &PtrV{Key: p.Key + "." + fl.Name(), R: p.R, I: p.I, Elem: fl.Type(), Org: &Origin{Field: fieldName(i.X.Type().Underlying().(*types.Pointer).Elem(), fl.Name()), Owner: p}}, true
	case *ssa.IndexAddr:
		idx := c.Ext(x.val(s, i.Index).(*Term), 64, isSigned(i.Index.Type()))
		switch b := x.val(s, i.X).(type) {
		case *SliceV:
			if !x.check(s, "index out of range", c.Ult(idx, b.L)) {
				return nil, false
			}
			el := i.Type().Underlying().(*types.Pointer).Elem()
			return &PtrV{Key: "E:" + elemKey(el), R: b.R, I: c.Add(b.O, idx), Elem: el, Org: elemOrg(b.Org, idx)}, true
		case *PtrV:
			arr := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !x.check(s, "index out of range", c.Ult(idx, c.BV(uint64(arr.Len()), 64))) {
				return nil, false
			}
			if strings.HasPrefix(b.Key, "E:") {
				return &PtrV{Key: b.Key, R: b.R, I: c.Add(b.I, idx), Elem: arr.Elem()}, true
			}
			return &PtrV{Key: b.Key + "[]", R: b.R, I: idx, Elem: arr.Elem()}, true
		}
		throwf("IndexAddr on %T", x.val(s, i.X))
	case *ssa.Index:
		switch b := x.val(s, i.X).(type) {
		case *StringV:
			idx := c.Ext(x.val(s, i.Index).(*Term), 64, isSigned(i.Index.Type()))
			if !x.check(s, "index out of range", c.Ult(idx, b.L)) {
				return nil, false
			}
			return x.byteAt(s, b.R, c.Add(b.O, idx)), true
		}
		throwf("Index on %T", x.val(s, i.X))
	case *ssa.MakeChan:
		r := &RefV{R: x.alloc(s)}
		sz := x.val(s, i.Size).(*Term)
		x.store1(s, "chancap", leaf{"", 64, 0}, r.R, x.zero64(), c.Ext(sz, 64, true))
		return r, true
	case *ssa.MakeMap:
		r := &RefV{R: x.alloc(s)}
		mt := i.Type().Underlying().(*types.Map)
		x.fill(s, mapDomKey(mt), leaf{"", 0, 0}, r.R)
		if isGhostMap(i.Type()) {
			for _, l := range leavesOf(mt.Elem()) {
				x.fill(s, mapValKey(mt)+l.suf, l, r.R)
			}
		}
		return r, true
	case *ssa.MakeSlice:
		ln := c.Ext(x.val(s, i.Len).(*Term), 64, true)
		cp := c.Ext(x.val(s, i.Cap).(*Term), 64, true)
		if !x.check(s, "makeslice length out of range", c.And(c.Ule(ln, cp), c.Ule(cp, c.BV(1<<40, 64)))) {
			return nil, false
		}
		x.assume(s, c.And(c.Ule(ln, cp), c.Ule(cp, c.BV(1<<40, 64))))
		r := x.alloc(s)
		el := i.Type().Underlying().(*types.Slice).Elem()
		for _, l := range leavesOf(el) {
			x.fill(s, "E:"+elemKey(el)+l.suf, l, r)
		}
		return &SliceV{R: r, O: x.zero64(), L: ln, C: cp}, true
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		r := x.alloc(s)
		cl := &closure{fn: fn}
		for _, b := range i.Bindings {
			cl.bind = append(cl.bind, x.val(s, b))
		}
		cl.late = lateBindings(i)
		x.closures[r.Val] = cl
		return &RefV{R: r}, true
	case *ssa.MakeInterface:
		if logOnly(i) {
			// a logged value: nothing is known or needed about its box
			return &IfaceV{T: x.tagOf(i.X.Type()), P: x.c.Var("logged", 32)}, true
		}
		return x.box(s, x.val(s, i.X), i.X.Type()), true
	case *ssa.Slice:
		return x.slice(s, i)
	case *ssa.SliceToArrayPointer:
		throwf("slice to array pointer")
	case *ssa.Range:
		switch m := x.val(s, i.X).(type) {
		case *RefV:
			mt := i.X.Type().Underlying().(*types.Map)
			r := x.alloc(s)
			it := &IterV{Map: m, MapT: mt, Vis: "visited:" + mapDomKey(mt), Ref: r}
			x.fill(s, it.Vis, leaf{"", 0, 0}, r)
			return it, true
		}
		throwf("range over string")
	}
	throwf("unsupported value instruction %T: %s", v, v)
	return nil, false
}

func elemOrg(o *Origin, idx *Term) *Origin {
	if o == nil {
		return nil
	}
	return &Origin{Field: o.Field + "[]", Owner: o.Owner, Idx: idx}
}

func fieldName(t types.Type, f string) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f
		}
	}
	return "?." + f
}

func isSigned(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		_, sg := intWidth(b)
		return sg
	}
	return false
}

func mapDomKey(m *types.Map) string { return "M:" + typeKey(m) + "#dom" }
func mapValKey(m *types.Map) string { return "M:" + typeKey(m) + "#val" }

func (x *Exec) slice(s *State, i *ssa.Slice) (Value, bool) {
	c := x.c
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return c.Ext(x.val(s, v).(*Term), 64, isSigned(v.Type()))
	}
	switch b := x.val(s, i.X).(type) {
	case *SliceV:
		lo := get(i.Low, x.zero64())
		hi := get(i.High, b.L)
		mx := get(i.Max, b.C)
		if !x.check(s, "slice bounds out of range", c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, b.C))) {
			return nil, false
		}
		return &SliceV{R: b.R, O: c.Add(b.O, lo), L: c.Sub(hi, lo), C: c.Sub(mx, lo), Org: b.Org}, true
	case *StringV:
		lo := get(i.Low, x.zero64())
		hi := get(i.High, b.L)
		if !x.check(s, "slice bounds out of range", c.And(c.Ule(lo, hi), c.Ule(hi, b.L))) {
			return nil, false
		}
		return &StringV{R: b.R, O: c.Add(b.O, lo), L: c.Sub(hi, lo)}, true
	case *PtrV:
		arr := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := c.BV(uint64(arr.Len()), 64)
		lo := get(i.Low, x.zero64())
		hi := get(i.High, n)
		mx := get(i.Max, n)
		if !x.check(s, "slice bounds out of range", c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, n))) {
			return nil, false
		}
		if !strings.HasPrefix(b.Key, "E:") {
			throwf("slice of array field")
		}
		return &SliceV{R: b.R, O: c.Add(b.I, lo), L: c.Sub(hi, lo), C: c.Sub(mx, lo)}, true
	}
	throwf("slice of %T", x.val(s, i.X))
	return nil, false
}

func (x *Exec) convert(s *State, i *ssa.Convert) Value {
	c := x.c
	v := x.val(s, i.X)
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	switch tt := to.(type) {
	case *types.Basic:
		if tt.Kind() == types.UnsafePointer {
			if p, ok := v.(*PtrV); ok {
				return p
			}
			throwf("convert to unsafe.Pointer")
		}
		if tt.Info()&types.IsString != 0 {
			switch b := v.(type) {
			case *StringV:
				return b
			case *SliceV: // string([]byte): fresh immutable copy
				return x.copyToString(s, b)
			}
			throwf("convert to string from %s", from)
		}
		fb, ok := from.(*types.Basic)
		if !ok {
			throwf("convert %s -> %s", from, to)
		}
		if fb.Kind() == types.UnsafePointer {
			p := v.(*PtrV)
			return x.c.UF("addr."+p.Key, 64, p.R, p.I)
		}
		t := v.(*Term)
		if fb.Info()&types.IsFloat != 0 || tt.Info()&types.IsFloat != 0 {
			if fb.Info()&types.IsFloat != 0 && tt.Info()&types.IsFloat != 0 {
				return t
			}
			w, _ := intWidth(tt)
			return c.UF("floatconv."+fb.Name()+"."+tt.Name(), w, t)
		}
		w, _ := intWidth(tt)
		_, sg := intWidth(fb)
		return c.Ext(t, w, sg)
	case *types.Slice:
		if b, ok := v.(*StringV); ok {
			r := x.alloc(s)
			x.copyBytes(s, r, x.zero64(), x.memOf(s, bytesKey, byteLeaf), b.R, b.O, b.L)
			return &SliceV{R: r, O: x.zero64(), L: b.L, C: b.L}
		}
	case *types.Pointer:
		if p, ok := v.(*PtrV); ok {
			return &PtrV{Key: p.Key, R: p.R, I: p.I, Elem: tt.Elem(), Org: p.Org}
		}
	}
	throwf("convert %s -> %s", from, to)
	return nil
}

func (x *Exec) copyToString(s *State, b *SliceV) *StringV {
	// fresh immutable object, allocated in the string region
	r := x.strAlloc(s)
	x.copyBytes(s, r, x.zero64(), x.memOf(s, bytesKey, byteLeaf), b.R, b.O, b.L)
	return &StringV{r, x.zero64(), b.L}
}

func (x *Exec) strAlloc(s *State) *Term {
	r := 0xD0000000 + x.allocN - oldBound
	x.allocN++
	s.alloc = x.allocN
	return x.c.BV(r, 32)
}

func (x *Exec) copyBytes(s *State, dref, doff *Term, src *Mem, sref, soff, n *Term) {
	if n.IsConst() && n.Val == 0 {
		return
	}
	m := x.memOf(s, bytesKey, byteLeaf)
	x.noteWrite(s, bytesKey, byteLeaf, dref)
	if n.IsConst() && n.Val <= 8 {
		vals := make([]*Term, n.Val)
		for i := range vals {
			vals[i] = x.sel(src, sref, x.c.AddK(soff, int64(i)))
		}
		for i := range vals {
			m = x.push(&Mem{kind: mStore, prev: m, ref: dref, idx: x.c.AddK(doff, int64(i)), val: vals[i]})
		}
		x.setMem(s, bytesKey, m)
		return
	}
	x.setMem(s, bytesKey, x.push(&Mem{kind: mCopy, prev: m, ref: dref, idx: doff, n: n, src: src, sref: sref, soff: soff}))
}

func (x *Exec) copyElems(s *State, el types.Type, dref, doff, sref, soff, n *Term) {
	if n.IsConst() && n.Val == 0 {
		return
	}
	for _, l := range leavesOf(el) {
		key := "E:" + elemKey(el) + l.suf
		m := x.memOf(s, key, l)
		x.noteWrite(s, key, l, dref)
		x.setMem(s, key, x.push(&Mem{kind: mCopy, prev: m, ref: dref, idx: doff, n: n, src: m, sref: sref, soff: soff}))
	}
}

func (x *Exec) binop(s *State, i *ssa.BinOp) (Value, bool) {
	c := x.c
	a, b := x.val(s, i.X), x.val(s, i.Y)
	switch i.Op {
	case token.EQL:
		return x.eq(s, i.X.Type(), a, b), true
	case token.NEQ:
		return c.Not(x.eq(s, i.X.Type(), a, b)), true
	}
	if sa, ok := a.(*StringV); ok {
		sb := b.(*StringV)
		switch i.Op {
		case token.ADD:
			r := x.strAlloc(s)
			bm := x.memOf(s, bytesKey, byteLeaf)
			x.copyBytes(s, r, x.zero64(), bm, sa.R, sa.O, sa.L)
			x.copyBytes(s, r, sa.L, bm, sb.R, sb.O, sb.L)
			return &StringV{r, x.zero64(), c.Add(sa.L, sb.L)}, true
		default:
			return c.Var("strcmp", 0), true
		}
	}
	ta, tb := a.(*Term), b.(*Term)
	bt := i.X.Type().Underlying().(*types.Basic)
	w, sg := intWidth(bt)
	if bt.Info()&types.IsFloat != 0 {
		rw := uint(64)
		if i.Op == token.LSS || i.Op == token.GTR || i.Op == token.LEQ || i.Op == token.GEQ {
			rw = 0
		}
		return c.UF("float."+i.Op.String(), rw, ta, tb), true
	}
	if bt.Info()&types.IsBoolean != 0 {
		throwf("bool binop")
	}
	switch i.Op {
	case token.ADD:
		return c.Add(ta, tb), true
	case token.SUB:
		return c.Sub(ta, tb), true
	case token.MUL:
		return c.Mul(ta, tb), true
	case token.QUO, token.REM:
		if !x.check(s, "division by zero", c.Neq(tb, c.BV(0, w))) {
			return nil, false
		}
		x.assume(s, c.Neq(tb, c.BV(0, w)))
		op := OUdiv
		if i.Op == token.QUO && sg {
			op = OSdiv
		} else if i.Op == token.REM && sg {
			op = OSrem
		} else if i.Op == token.REM {
			op = OUrem
		}
		if (op == OUrem || op == OSrem) && !ta.IsConst() && !tb.IsConst() {
			r := x.urem(ta, tb)
			if op == OSrem {
				z := c.BV(0, w)
				return c.Ite(c.And(c.Sle(z, ta), c.Sle(z, tb)), r, c.Bin(OSrem, ta, tb)), true
			}
			return r, true
		}
		return c.Bin(op, ta, tb), true
	case token.AND:
		return c.Bin(OBand, ta, tb), true
	case token.OR:
		return c.Bin(OBor, ta, tb), true
	case token.XOR:
		return c.Bin(OBxor, ta, tb), true
	case token.AND_NOT:
		return c.Bin(OBand, ta, c.Bnot(tb)), true
	case token.SHL, token.SHR:
		yb := i.Y.Type().Underlying().(*types.Basic)
		yw, ysg := intWidth(yb)
		if ysg {
			if !x.check(s, "negative shift", c.Sle(c.BV(0, yw), tb)) {
				return nil, false
			}
		}
		// saturate count
		cnt := tb
		if yw > w {
			big := c.Not(c.Ult(tb, c.BV(uint64(w), yw)))
			cnt = c.Ite(big, c.BV(uint64(w), w), c.Extract(tb, 0, w))
		} else {
			cnt = c.Ext(tb, w, false)
		}
		if i.Op == token.SHL {
			return c.Bin(OShl, ta, cnt), true
		}
		if sg {
			return c.Bin(OAshr, ta, cnt), true
		}
		return c.Bin(OLshr, ta, cnt), true
	case token.LSS:
		if sg {
			return c.Slt(ta, tb), true
		}
		return c.Ult(ta, tb), true
	case token.LEQ:
		if sg {
			return c.Sle(ta, tb), true
		}
		return c.Ule(ta, tb), true
	case token.GTR:
		if sg {
			return c.Slt(tb, ta), true
		}
		return c.Ult(tb, ta), true
	case token.GEQ:
		if sg {
			return c.Sle(tb, ta), true
		}
		return c.Ule(tb, ta), true
	}
	throwf("binop %s", i)
	return nil, false
}

func (x *Exec) eq(s *State, t types.Type, a, b Value) *Term {
	c := x.c
	switch va := a.(type) {
	case *Term:
		return c.Eq(va, b.(*Term))
	case *PtrV:
		vb, ok := b.(*PtrV)
		if !ok {
			throwf("ptr eq")
		}
		za, zb := va.R.IsConst() && va.R.Val == 0, vb.R.IsConst() && vb.R.Val == 0
		if za || zb || va.Key == vb.Key {
			if za || zb {
				return c.Eq(va.R, vb.R)
			}
			return c.And(c.Eq(va.R, vb.R), c.Eq(va.I, vb.I))
		}
		return c.False
	case *RefV:
		return c.Eq(va.R, b.(*RefV).R)
	case *SliceV: // only comparison with nil
		return c.Eq(va.R, b.(*SliceV).R)
	case *StringV:
		return x.strEq(s, va, b.(*StringV))
	case *IfaceV:
		vb, ok := b.(*IfaceV)
		if !ok {
			throwf("iface eq with %T", b)
		}
		if vb.T.IsConst() && vb.T.Val == 0 {
			return c.Eq(va.T, vb.T)
		}
		if va.T.IsConst() && va.T.Val == 0 {
			return c.Eq(va.T, vb.T)
		}
		return c.And(c.Eq(va.T, vb.T), c.Eq(va.P, vb.P))
	case *StructV:
		st := t.Underlying().(*types.Struct)
		r := c.True
		for i := range va.F {
			r = c.And(r, x.eq(s, st.Field(i).Type(), va.F[i], b.(*StructV).F[i]))
		}
		return r
	}
	throwf("eq on %T", a)
	return nil
}

func immutableStr(v *StringV) bool { return refLo(v.R) >= strRegion }

func (x *Exec) strEq(s *State, a, b *StringV) *Term {
	return x.strEqM(s, a, x.strMem(s, a), b, x.strMem(s, b))
}

func (x *Exec) strEqM(s *State, a *StringV, ma *Mem, b *StringV, mt *Mem) *Term {
	c := x.c
	if ma == mt && a.R == b.R && a.O == b.O && a.L == b.L {
		return c.True
	}
	if c.Distinct(a.L, b.L) {
		return c.False
	}
	la, aok := x.litOf(a)
	lb, bok := x.litOf(b)
	if aok && bok {
		return c.Bool(la == lb)
	}
	if aok {
		a, b = b, a
		ma, mt = mt, ma
		la, lb = lb, la
		bok = true
	}
	if ma == nil {
		ma = x.memInit(bytesKey, byteLeaf)
	}
	if mt == nil {
		mt = x.memInit(bytesKey, byteLeaf)
	}
	if bok && len(lb) <= 64 {
		r := c.Eq(a.L, c.BV(uint64(len(lb)), 64))
		for i := 0; i < len(lb); i++ {
			r = c.And(r, c.Eq(x.sel(ma, a.R, c.AddK(a.O, int64(i))), c.BV(uint64(lb[i]), 8)))
		}
		return r
	}
	if a.L.IsConst() && b.L.IsConst() && a.L.Val <= 32 {
		r := c.True
		for i := uint64(0); i < a.L.Val; i++ {
			r = c.And(r, c.Eq(x.sel(ma, a.R, c.AddK(a.O, int64(i))), x.sel(mt, b.R, c.AddK(b.O, int64(i)))))
		}
		return r
	}
	if a.L == b.L {
		ra, oa, ka := x.canonRegion(ma, a.R, a.O, a.L)
		rb, ob, kb := x.canonRegion(mt, b.R, b.O, b.L)
		if ra == rb && oa == ob && ka == kb {
			return c.True
		}
	}
	for _, e := range s.eqs {
		if (e.am == ma && e.tm == mt && sameStr(e.a, a) && sameStr(e.t, b)) || (e.am == mt && e.tm == ma && sameStr(e.a, b) && sameStr(e.t, a)) {
			return e.b
		}
	}
	bv := c.Var("streq", 0)
	d := c.Var("strdiff", 64)
	x.assume(s, c.Imp(bv, c.Eq(a.L, b.L)))
	x.assume(s, c.Imp(c.Not(bv), c.Or(c.Neq(a.L, b.L), c.And(c.Ult(d, a.L), c.Neq(x.sel(ma, a.R, c.Add(a.O, d)), x.sel(mt, b.R, c.Add(b.O, d)))))))
	e := streq{b: bv, a: a, t: b, am: ma, tm: mt}
	s.eqs = append(s.eqs, e)
	for _, ix := range s.idxs {
		x.instEq(s, e, ix)
	}
	x.addIdx(s, d)
	// offset views: the difference index as seen from other equalities
	for _, ix := range []*Term{c.Add(a.O, d), c.Add(b.O, d)} {
		x.addIdx(s, ix)
	}
	return bv
}

func sameStr(a, b *StringV) bool { return a.R == b.R && a.O == b.O && a.L == b.L }

func (x *Exec) instEq(s *State, e streq, ix *Term) {
	c := x.c
	x.assume(s, c.Imp(c.And(e.b, c.Ult(ix, e.a.L)), c.Eq(x.sel(e.am, e.a.R, c.Add(e.a.O, ix)), x.sel(e.tm, e.t.R, c.Add(e.t.O, ix)))))
}

func (x *Exec) addIdx(s *State, ix *Term) {
	for _, o := range s.idxs {
		if o == ix {
			return
		}
	}
	s.idxs = append(s.idxs, ix)
	for _, e := range s.eqs {
		x.instEq(s, e, ix)
	}
}

func (x *Exec) litOf(v *StringV) (string, bool) {
	if v.R.IsConst() && v.O.IsConst() && v.L.IsConst() {
		if l, ok := x.lits[v.R.Val]; ok && v.O.Val+v.L.Val <= uint64(len(l)) {
			return l[v.O.Val : v.O.Val+v.L.Val], true
		}
	}
	if v.L.IsConst() && v.L.Val == 0 {
		return "", true
	}
	return "", false
}

// kid is the canonical key of a string's current content.
func (x *Exec) kid(s *State, v *StringV) *Term {
	c := x.c
	if l, ok := x.litOf(v); ok {
		id := c.BV(x.litKid(l), 32)
		lv := x.lit(l)
		for _, k := range s.kids {
			if k.kid == id {
				return id
			}
		}
		x.relateKid(s, lv, nil, id)
		s.kids = append(s.kids, kidEnt{lv, nil, id})
		return id
	}
	m := x.strMem(s, v)
	for _, k := range s.kids {
		if k.mem == m && sameStr(k.s, v) {
			return k.kid
		}
	}
	k := c.Var("kid", 32)
	x.sol.Axiom(k, c.Ult(k, c.BV(oldBound, 32)))
	k.Ub = oldBound
	x.relateKid(s, v, m, k)
	s.kids = append(s.kids, kidEnt{v, m, k})
	return k
}

// strMem: memory a string's bytes are read from (nil: immutable, any).
func (x *Exec) strMem(s *State, v *StringV) *Mem {
	if immutableStr(v) && !v.R.IsConst() {
		return nil
	}
	if v.R.IsConst() {
		if _, ok := x.lits[v.R.Val]; ok {
			return nil
		}
	}
	return x.memOf(s, bytesKey, byteLeaf)
}

func (x *Exec) relateKid(s *State, v *StringV, m *Mem, k *Term) {
	c := x.c
	for _, o := range s.kids {
		if o.kid == k || (o.kid.IsConst() && k.IsConst()) {
			continue
		}
		x.assume(s, c.Eq(c.Eq(k, o.kid), x.strEqM(s, v, m, o.s, o.mem)))
	}
}

func (x *Exec) litKid(l string) uint64 {
	v := x.lit(l)
	return 0x30000000 + (v.R.Val - litRegion)
}

// registerKid links an arbitrary key id (from map iteration) with a string value.
func (x *Exec) registerKid(s *State, v *StringV, k *Term) {
	m := x.strMem(s, v)
	x.relateKid(s, v, m, k)
	s.kids = append(s.kids, kidEnt{v, m, k})
}

func (x *Exec) tagOf(t types.Type) *Term {
	k := typeKey(t)
	id, ok := x.tags[k]
	if !ok {
		id = uint64(len(x.tags) + 1)
		x.tags[k] = id
		x.tagTypes = append(x.tagTypes, t)
	}
	return x.c.BV(id, 32)
}

func (x *Exec) typeOfTag(id uint64) types.Type {
	if id == 0 || id > uint64(len(x.tagTypes)) {
		return nil
	}
	return x.tagTypes[id-1]
}

func (x *Exec) box(s *State, v Value, t types.Type) *IfaceV {
	tag := x.tagOf(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return &IfaceV{T: tag, P: x.toLeaves(t, v)[0]}
	case *types.Map, *types.Chan, *types.Signature:
		return &IfaceV{T: tag, P: v.(*RefV).R}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			sv := v.(*StringV)
			k := x.kid(s, sv)
			ls := leavesOf(t)
			terms := x.toLeaves(t, v)
			for i, l := range ls {
				x.store1(s, "box:"+typeKey(t)+l.suf, l, k, x.zero64(), terms[i])
			}
			return &IfaceV{T: tag, P: k}
		}
		if u.Info()&types.IsBoolean != 0 {
			return &IfaceV{T: tag, P: x.c.Ite(v.(*Term), x.c.BV(1, 32), x.c.BV(0, 32))}
		}
		if w, _ := intWidth(u); w > 0 && w <= 32 {
			return &IfaceV{T: tag, P: x.c.Ext(v.(*Term), 32, false)}
		}
	}
	r := x.alloc(s)
	ls := leavesOf(t)
	terms := x.toLeaves(t, v)
	for i, l := range ls {
		x.store1(s, "box:"+typeKey(t)+l.suf, l, r, x.zero64(), terms[i])
	}
	return &IfaceV{T: tag, P: r}
}

func (x *Exec) unbox(s *State, iv *IfaceV, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return &PtrV{Key: ptrKey(u.Elem()), R: iv.P, I: x.zero64(), Elem: u.Elem(), Org: iv.Org}
	case *types.Map, *types.Chan, *types.Signature:
		return &RefV{R: iv.P}
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return x.c.Neq(iv.P, x.c.BV(0, 32))
		}
		if u.Info()&types.IsString == 0 {
			if w, _ := intWidth(u); w > 0 && w <= 32 {
				return x.c.Extract(iv.P, 0, w)
			}
		}
	}
	v := x.load(s, t, &PtrV{Key: "box:" + typeKey(t), R: iv.P, I: x.zero64(), Elem: t})
	if sv, ok := v.(*StringV); ok && !iv.P.IsConst() {
		found := false
		for _, k := range s.kids {
			if k.kid == iv.P {
				found = true
			}
		}
		if !found {
			x.registerKid(s, sv, iv.P)
		}
	}
	return v
}

// hasType: condition that iface holds concrete type t / implements interface t.
func (x *Exec) hasType(s *State, iv *IfaceV, t types.Type) *Term {
	c := x.c
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return c.Neq(iv.T, c.BV(0, 32))
		}
		if iv.T.IsConst() {
			if iv.T.Val == 0 {
				return c.False
			}
			if ct := x.typeOfTag(iv.T.Val); ct != nil {
				return c.Bool(types.Implements(ct, it))
			}
		}
		b := c.UF("impl."+typeKey(t), 0, iv.T)
		x.sol.Axiom(b, c.Imp(c.Eq(iv.T, c.BV(0, 32)), c.Not(b)))
		for id, ct := range x.tagTypes {
			x.sol.Axiom(b, c.Imp(c.Eq(iv.T, c.BV(uint64(id+1), 32)), c.Eq(b, c.Bool(types.Implements(ct, it)))))
		}
		return b
	}
	return c.Eq(iv.T, x.tagOf(t))
}

func (x *Exec) typeAssert(s *State, i *ssa.TypeAssert) []*State {
	c := x.c
	f := s.top()
	iv := x.val(s, i.X).(*IfaceV)
	cond := x.hasType(s, iv, i.AssertedType)
	_, isI := i.AssertedType.Underlying().(*types.Interface)
	mk := func(s *State) Value {
		if isI {
			return &IfaceV{T: iv.T, P: iv.P, Org: iv.Org}
		}
		return x.unbox(s, iv, i.AssertedType)
	}
	if !i.CommaOk {
		if !x.check(s, "failed type assertion", cond) {
			return nil
		}
		x.assume(s, cond)
		f.env[i] = mk(s)
		f.ip++
		return one(s)
	}
	ct, cf := x.decide(s, cond)
	var out []*State
	if ct && cf {
		s2 := s.clone()
		x.assume(s2, c.Not(cond))
		f2 := s2.top()
		f2.env[i] = TupleV{x.zero(i.AssertedType), c.False}
		f2.ip++
		out = append(out, s2)
	}
	if ct {
		x.assume(s, cond)
		f.env[i] = TupleV{mk(s), c.True}
	} else {
		f.env[i] = TupleV{x.zero(i.AssertedType), c.False}
	}
	f.ip++
	return append(one(s), out...)
}

func (x *Exec) unop(s *State, i *ssa.UnOp) []*State {
	c := x.c
	f := s.top()
	switch i.Op {
	case token.MUL: // load
		p := x.val(s, i.X).(*PtrV)
		if !x.check(s, "nil dereference", c.Not(x.isNilPtr(p))) {
			return nil
		}
		t := i.Type()
		v := x.loadAt(s, t, p)
		f.env[i] = v
		f.ip++
		if p.Org != nil && !f.spec {
			if h := x.hookFor("load", p.Org.Field); h != nil {
				hv := []Value{v}
				if p.Org.Idx != nil {
					hv = append(hv, p.Org.Idx)
				}
				return x.runHook(s, h, p.Org, hv, nil)
			}
		}
		return one(s)
	case token.ARROW:
		return x.chanRecv(s, i)
	case token.NOT:
		f.env[i] = c.Not(x.val(s, i.X).(*Term))
	case token.SUB:
		t := x.val(s, i.X).(*Term)
		if b := i.X.Type().Underlying().(*types.Basic); b.Info()&types.IsFloat != 0 {
			f.env[i] = c.UF("fneg", 64, t)
		} else {
			f.env[i] = c.Sub(c.BV(0, t.W), t)
		}
	case token.XOR:
		f.env[i] = c.Bnot(x.val(s, i.X).(*Term))
	default:
		throwf("unop %s", i)
	}
	f.ip++
	return one(s)
}

// loadAt handles volatile fields, constant globals and ownership checks.
func (x *Exec) loadAt(s *State, t types.Type, p *PtrV) Value {
	f := s.top()
	if p.Org != nil {
		if x.w.isVolatile(p.Org.Field, x.con) && !f.spec {
			v := x.fresh(s, "vol."+p.Org.Field, t)
			return x.withOrg(v, p.Org)
		}
	}
	if strings.HasPrefix(p.Key, "G:") {
		if v := x.w.constGlobal(x, s, p, t); v != nil {
			return v
		}
	}
	return x.withOrg(x.load(s, t, p), p.Org)
}

// withOrg remembers which field a reference was loaded from. A reference that travelled through a
// local cell or another field without hooks keeps the origin it had before.
func (x *Exec) withOrg(v Value, o *Origin) Value {
	var r *Term
	switch w := v.(type) {
	case *RefV:
		r = w.R
	case *SliceV:
		r = w.R
	case *IfaceV:
		r = w.P
	}
	if r != nil && !(r.IsConst() && r.Val == 0) {
		if o != nil && x.w.hooked(o.Field) {
			if x.orgOf == nil {
				x.orgOf = map[*Term]*Origin{}
			}
			if x.orgOf[r] == nil {
				x.orgOf[r] = o
			}
		} else if prev := x.orgOf[r]; prev != nil {
			o = prev
		}
	}
	if o == nil {
		return v
	}
	switch w := v.(type) {
	case *RefV:
		w.Org = o
	case *SliceV:
		w.Org = o
	case *IfaceV:
		w.Org = o
	case *PtrV:
		w.Org = o
	}
	return v
}

func (x *Exec) doStore(s *State, i *ssa.Store) []*State {
	f := s.top()
	p := x.val(s, i.Addr).(*PtrV)
	if !x.check(s, "nil dereference", x.c.Not(x.isNilPtr(p))) {
		return nil
	}
	v := x.val(s, i.Val)
	t := i.Val.Type()
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() > 0 && v != nil {
		throwf("array store")
	}
	x.storeV(s, t, p, v)
	f.ip++
	if p.Org != nil && !f.spec {
		if h := x.hookFor("store", p.Org.Field); h != nil {
			return x.runHook(s, h, p.Org, []Value{v}, nil)
		}
	}
	return one(s)
}

// ---- maps ----

func (x *Exec) mapKey(s *State, mt *types.Map, k Value) *Term {
	c := x.c
	switch v := k.(type) {
	case *Term:
		if v.W == 0 {
			return c.Ite(v, c.BV(1, 64), c.BV(0, 64))
		}
		return c.Ext(v, 64, false)
	case *StringV:
		return c.Ext(x.kid(s, v), 64, false)
	case *PtrV:
		return c.Ext(x.toLeaves(types.NewPointer(v.Elem), v)[0], 64, false)
	case *RefV:
		return c.Ext(v.R, 64, false)
	case *IfaceV:
		return c.Bin(OBor, c.Bin(OShl, c.Ext(v.T, 64, false), c.BV(32, 64)), c.Ext(v.P, 64, false))
	}
	throwf("map key %T", k)
	return nil
}

func isGhostMap(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return strings.HasPrefix(n.Obj().Name(), "gmap")
	}
	return false
}

func (x *Exec) mapGet(s *State, mt *types.Map, ghost bool, m *RefV, key *Term) (Value, *Term) {
	c := x.c
	dm := x.memOf(s, mapDomKey(mt), leaf{"", 0, 0})
	var dom *Term
	if ghost {
		dom = c.True
	} else {
		dom = c.And(c.Neq(m.R, c.BV(0, 32)), x.sel(dm, m.R, key))
		for _, l := range s.lens {
			if l.mem == dm && l.ref == m.R {
				x.assume(s, c.Imp(dom, c.Neq(l.n, x.zero64())))
			}
		}
		s.doms = append(s.doms, domRec{dm, m.R, dom, nil, ""})
		for _, u := range s.univ {
			if u.kt == typeKey(mt.Key()) {
				x.assume(s, u.inst(x, s, key))
			}
		}
	}
	ls := leavesOf(mt.Elem())
	var zl []*Term
	if !ghost {
		z := x.zero(mt.Elem())
		zl = x.toLeaves(mt.Elem(), z)
	}
	terms := make([]*Term, len(ls))
	for i, l := range ls {
		terms[i] = x.load1(s, mapValKey(mt)+l.suf, l, m.R, key)
		if !ghost {
			terms[i] = c.Ite(dom, terms[i], zl[i])
		}
	}
	return x.fromLeaves(mt.Elem(), &terms, true), dom
}

func (x *Exec) lookup(s *State, i *ssa.Lookup) []*State {
	f := s.top()
	if sv, ok := x.val(s, i.X).(*StringV); ok {
		idx := x.c.Ext(x.val(s, i.Index).(*Term), 64, isSigned(i.Index.Type()))
		if !x.check(s, "index out of range", x.c.Ult(idx, sv.L)) {
			return nil
		}
		f.env[i] = x.byteAt(s, sv.R, x.c.Add(sv.O, idx))
		f.ip++
		return one(s)
	}
	m := x.val(s, i.X).(*RefV)
	mt := i.X.Type().Underlying().(*types.Map)
	kv := x.val(s, i.Index)
	key := x.mapKey(s, mt, kv)
	v, dom := x.mapGet(s, mt, isGhostMap(i.X.Type()), m, key)
	if fv, ok := v.(*RefV); ok && m.Org != nil && fv.Org == nil {
		if _, isFn := mt.Elem().Underlying().(*types.Signature); isFn {
			v = &RefV{R: fv.R, Org: &Origin{Field: m.Org.Field + "[]", Owner: m.Org.Owner}}
		}
	}
	if i.CommaOk {
		f.env[i] = TupleV{v, dom}
	} else {
		f.env[i] = v
	}
	f.ip++
	if ps := x.unhashable(s, mt, f); ps != nil {
		return append(one(s), ps...)
	}
	if m.Org != nil && !f.spec {
		if h := x.hookFor("mapget", m.Org.Field); h != nil {
			return x.runHook(s, h, m.Org, []Value{kv, v, dom}, nil)
		}
	}
	return one(s)
}

// unhashable explores the panic of a map operation whose interface key a caller chose.
func (x *Exec) unhashable(s *State, mt *types.Map, f *Frame) []*State {
	if !x.opt.cbPanic || f.spec || !types.IsInterface(mt.Key()) {
		return nil
	}
	s2 := s.clone()
	x.note(s2, "map key is not hashable")
	return x.doPanic(s2)
}

func (x *Exec) mapPut(s *State, mt *types.Map, ghost bool, m *RefV, key *Term, v Value) {
	if !ghost {
		x.store1(s, mapDomKey(mt), leaf{"", 0, 0}, m.R, key, x.c.True)
		s.doms = append(s.doms, domRec{nil, m.R, nil, key, typeKey(mt.Key())})
	}
	terms := x.toLeaves(mt.Elem(), v)
	for i, l := range leavesOf(mt.Elem()) {
		x.store1(s, mapValKey(mt)+l.suf, l, m.R, key, terms[i])
	}
}

func (x *Exec) mapUpdate(s *State, i *ssa.MapUpdate) []*State {
	f := s.top()
	m := x.val(s, i.Map).(*RefV)
	mt := i.Map.Type().Underlying().(*types.Map)
	if !x.check(s, "write to nil map", x.c.Neq(m.R, x.c.BV(0, 32))) {
		return nil
	}
	kv, vv := x.val(s, i.Key), x.val(s, i.Value)
	key := x.mapKey(s, mt, kv)
	x.mapPut(s, mt, isGhostMap(i.Map.Type()), m, key, vv)
	f.ip++
	if ps := x.unhashable(s, mt, f); ps != nil {
		return append(one(s), ps...)
	}
	if m.Org != nil && !f.spec {
		if h := x.hookFor("mapset", m.Org.Field); h != nil {
			return x.runHook(s, h, m.Org, []Value{kv, vv}, nil)
		}
	}
	return one(s)
}

// keyValue builds the Go key value for a raw key term.
func (x *Exec) keyValue(s *State, t types.Type, k *Term) Value {
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			kid := c.Extract(k, 0, 32)
			for _, e := range s.kids {
				if e.kid == kid {
					return e.s
				}
			}
			v := x.fresh(s, "mapkey", t).(*StringV)
			x.registerKid(s, v, kid)
			return v
		}
		w, _ := intWidth(u)
		return c.Extract(k, 0, w)
	case *types.Pointer:
		return &PtrV{Key: ptrKey(u.Elem()), R: c.Extract(k, 0, 32), I: x.zero64(), Elem: u.Elem()}
	case *types.Interface:
		return &IfaceV{T: c.Extract(k, 32, 32), P: c.Extract(k, 0, 32)}
	}
	throwf("map key type %s", t)
	return nil
}

func (x *Exec) next(s *State, i *ssa.Next) []*State {
	c := x.c
	f := s.top()
	it := x.val(s, i.Iter).(*IterV)
	mt := it.MapT
	tup := i.Type().(*types.Tuple)
	dm := x.memOf(s, mapDomKey(mt), leaf{"", 0, 0})
	vm := x.memOf(s, it.Vis, leaf{"", 0, 0})
	// exit branch: every key in dom is visited
	s2 := s.clone()
	mref := it.Map.R
	vref := it.Ref
	s2.univ = append(s2.univ, &univFact{desc: "range done", kt: typeKey(mt.Key()), inst: func(x *Exec, st *State, k *Term) *Term {
		return x.c.Imp(x.c.And(x.c.Neq(mref, x.c.BV(0, 32)), x.sel(dm, mref, k)), x.sel(vm, vref, k))
	}})
	x.instLogic(s2, s2.univ[len(s2.univ)-1])
	f2 := s2.top()
	f2.env[i] = TupleV{c.False, x.zeroOrNil(tup.At(1).Type()), x.zeroOrNil(tup.At(2).Type())}
	f2.ip++
	out := []*State{}
	// next branch
	k := c.Var("rangekey", 64)
	switch mt.Key().Underlying().(type) {
	case *types.Pointer:
		lo := c.Extract(k, 0, 32)
		k = c.Ext(func() *Term {
			v := c.Var("rangekeyp", 32)
			x.sol.Axiom(v, c.Ult(v, c.BV(s.alloc, 32)))
			v.Ub = s.alloc
			return v
		}(), 64, false)
		_ = lo
	case *types.Basic:
		b := mt.Key().Underlying().(*types.Basic)
		if b.Info()&types.IsString != 0 {
			v := c.Var("rangekid", 32)
			x.sol.Axiom(v, c.Ult(v, c.BV(oldBound, 32)))
			v.Ub = oldBound
			k = c.Ext(v, 64, false)
		} else if w, _ := intWidth(b); w < 64 {
			k = c.Ext(c.Var("rangekey", w), 64, false)
		}
	}
	x.assume(s, c.And(c.Neq(it.Map.R, c.BV(0, 32)), x.sel(dm, it.Map.R, k), c.Not(x.sel(vm, it.Ref, k))))
	for _, u := range s.univ {
		if u.kt == typeKey(mt.Key()) {
			x.assume(s, u.inst(x, s, k))
		}
	}
	if x.feasible(s, c.True) {
		x.store1(s, it.Vis, leaf{"", 0, 0}, it.Ref, k, c.True)
		kv := x.keyValue(s, mt.Key(), k)
		v, _ := x.mapGet(s, mt, false, it.Map, k)
		f.env[i] = TupleV{c.True, kv, v}
		f.ip++
		if it.Map.Org != nil && !f.spec {
			if h := x.hookFor("rangenext", it.Map.Org.Field); h != nil {
				out = append(out, x.runHook(s, h, it.Map.Org, []Value{kv, v}, nil)...)
			} else {
				out = append(out, s)
			}
		} else {
			out = append(out, s)
		}
	}
	return append(out, s2)
}

func (x *Exec) zeroOrNil(t types.Type) Value {
	if t == nil || t == types.Typ[types.Invalid] {
		return nil
	}
	return x.zero(t)
}

// instLogic instantiates a universal fact at the logical constants of matching type.
func (x *Exec) instLogic(s *State, u *univFact) {
	var names []string
	for n := range s.logic {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		lv := s.logic[n].(logicVal)
		if typeKey(lv.t) == u.kt {
			k := x.mapKey(s, nil, lv.v)
			x.assume(s, u.inst(x, s, k))
		}
	}
}

type logicVal struct {
	v Value
	t types.Type
}

var trc = os.Getenv("GOVER_TRACE") != ""

// urem is an abstract unsigned remainder by a non-zero, non-constant divisor, refined on demand:
// r < d, and either r follows the remainder of the predecessor (a = y+k, k a small constant), or
// r <= a, a<d -> r==a, d<=a<2d -> r==a-d.
func (x *Exec) urem(ta, tb *Term) *Term {
	c := x.c
	w := ta.W
	r := c.UF(fmt.Sprintf("urem%d", w), w, ta, tb)
	if x.uremSeen[r] {
		return r
	}
	x.uremSeen[r] = true
	x.urems = append(x.urems, c.Eq(r, c.Bin(OUrem, ta, tb)))
	if ta.Op == OAdd && len(ta.Args) >= 2 {
		k := ta.Args[len(ta.Args)-1]
		if !k.IsConst() {
			k = ta.Args[0]
		}
		if k.IsConst() && k.Val >= 1 && k.Val <= 12 {
			one := c.BV(1, w)
			r1 := x.urem(c.Sub(ta, one), tb)
			x.sol.Axiom(r, c.And(c.Ult(r, tb), c.Ult(r1, tb), c.Imp(c.Neq(ta, c.BV(0, w)), c.Eq(r, c.Ite(c.Eq(c.Add(r1, one), tb), c.BV(0, w), c.Add(r1, one))))))
			return r
		}
	}
	df := c.Sub(ta, tb)
	x.sol.Axiom(r, c.And(c.Ult(r, tb), c.Ule(r, ta), c.Imp(c.Ult(ta, tb), c.Eq(r, ta)),
		c.Imp(c.And(c.Ule(tb, ta), c.Ult(df, tb)), c.Eq(r, df))))
	return r
}

// logOnly reports whether a boxed value is only an argument of a logging call.
func logOnly(mi *ssa.MakeInterface) bool {
	switch mi.X.Type().Underlying().(type) {
	case *types.Basic:
	default:
		return false
	}
	rs := mi.Referrers()
	if rs == nil || len(*rs) != 1 {
		return false
	}
	st, ok := (*rs)[0].(*ssa.Store)
	if !ok || st.Val != ssa.Value(mi) {
		return false
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return false
	}
	for _, r := range *al.Referrers() {
		switch u := r.(type) {
		case *ssa.IndexAddr:
		case *ssa.Slice:
			for _, r2 := range *u.Referrers() {
				call, ok := r2.(ssa.CallInstruction)
				if !ok {
					return false
				}
				fn := call.Common().StaticCallee()
				if fn == nil || fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/arpc/log") {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
