package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
}

type loopAct struct {
	lp     *loop
	unroll int
	cut    bool
}

func (x *Exec) loopInfo(fn *ssa.Function) *loopInfo {
	if li, ok := x.loopsOf[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			lp := li.byHeader[h]
			if lp == nil {
				lp = &loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				li.byHeader[h] = lp
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				n := st[len(st)-1]
				st = st[:len(st)-1]
				if lp.blocks[n] {
					continue
				}
				lp.blocks[n] = true
				st = append(st, n.Preds...)
			}
		}
	}
	x.loopsOf[fn] = li
	return li
}

const loopBump = 1 << 14

type cell struct {
	name string
	l    leaf
	get  func(s *State) *Term
}

type cand struct {
	name string
	eval func(s *State) *Term
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, ph)
	}
	return out
}

// loopFresh is like fresh but with no assumption on string regions.
func (x *Exec) loopFresh(s *State, hint string, t types.Type, entry Value) Value {
	if p, ok := entry.(*PtrV); ok {
		c := x.c
		if p.Key != "P:nil" && t != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok && p.Key != ptrKey(pt.Elem()) {
				r := c.Var(hint, 32)
				x.sol.Axiom(r, c.Ult(r, c.BV(s.alloc, 32)))
				r.Ub = s.alloc
				return &PtrV{Key: p.Key, R: r, I: c.Var(hint+"#i", 64), Elem: p.Elem, Org: p.Org}
			}
		}
	}
	v := x.freshOpt(s, hint, t, true)
	switch w := v.(type) {
	case *PtrV:
		if e, ok := entry.(*PtrV); ok {
			w.Org = e.Org
		}
	case *SliceV:
		if e, ok := entry.(*SliceV); ok {
			w.Org = e.Org
		}
	case *RefV:
		if e, ok := entry.(*RefV); ok {
			w.Org = e.Org
		}
	case *IfaceV:
		if e, ok := entry.(*IfaceV); ok {
			w.Org = e.Org
		}
	}
	return v
}

// valLeaves flattens any value.
func (x *Exec) valLeaves(t types.Type, v Value) []*Term {
	if p, ok := v.(*PtrV); ok {
		return []*Term{p.R, p.I}
	}
	return x.toLeaves(t, v)
}

func (x *Exec) applyHavoc(s *State, mod *wsink, alloc0, alloc1 uint64) {
	for _, key := range mod.order {
		k := mod.keys[key]
		h := &havocSet{}
		if k.all {
			h.all = true
		} else {
			var rs []*Term
			for r := range k.refs {
				rs = append(rs, r)
			}
			sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
			h.refs = rs
			if k.fresh {
				h.lo, h.hi = alloc0, alloc1
			}
		}
		x.havocKey(s, key, k.l, h)
	}
}

func isNumCell(l leaf) bool { return l.w > 0 && l.isRef == 0 }

func (x *Exec) enterLoop(s *State, lp *loop, sp *specRun) []*State {
	c := x.c
	f := s.top()
	depth := len(s.frames)
	phis := headerPhis(lp.header)
	entry := map[*ssa.Phi]Value{}
	for _, ph := range phis {
		entry[ph] = f.env[ph]
	}
	if f.spec {
		// specification loops are unrolled
		f.loops = append(f.loops, &loopAct{lp: lp, unroll: 300})
		return one(s)
	}
	if x.unrollN > 0 {
		f.loops = append(f.loops, &loopAct{lp: lp, unroll: x.unrollN, cut: true})
		x.note(s, "loop: unrolled")
		return one(s)
	}
	alloc0 := x.allocN
	x.allocN += loopBump
	alloc1 := x.allocN
	nlocks, ndefer := len(s.locks), len(f.defers)

	mod := &wsink{mark: c.nvar, alloc: alloc0, keys: map[string]*wkey{}}
	var conds []*Term
	mkHead := func() *State {
		st := s.clone()
		st.alloc = x.allocN
		x.applyHavoc(st, mod, alloc0, alloc1)
		ft := st.top()
		for _, ph := range phis {
			ft.env[ph] = x.loopFresh(st, ph.Comment, ph.Type(), entry[ph])
		}
		ft.loops = append(ft.loops, &loopAct{lp: lp})
		return st
	}
	run := func(st *State) (*specRun, *wsink) {
		sk := &wsink{mark: mod.mark, alloc: alloc0, keys: map[string]*wkey{}}
		nsp := &specRun{loop: lp, depth: depth}
		x.sinks = append(x.sinks, sk)
		x.noObl++
		x.explore(st, nsp)
		x.noObl--
		x.sinks = x.sinks[:len(x.sinks)-1]
		return nsp, sk
	}
	// 1. modified-set fixpoint
	condVars := map[*Term]bool{}
	for i := 0; ; i++ {
		if i > 12 {
			throwf("loop modification analysis does not stabilise in %s", f.fn)
		}
		nsp, sk := run(mkHead())
		conds = append(conds, nsp.conds...)
		for _, b := range nsp.backs {
			if len(b.locks) != nlocks {
				if x.opt.lockCheck && x.noObl == 0 {
					x.prove(b, "C21.locks balanced over loop iterations in "+shortFn(f.fn), c.False)
				}
				throwf("lock state changes over loop iterations in %s", f.fn)
			}
			if len(b.top().defers) != ndefer {
				throwf("defer inside loop in %s", f.fn)
			}
			for _, ph := range phis {
				if p, ok := b.top().env[ph].(*PtrV); ok {
					e := entry[ph].(*PtrV)
					if p.Key != e.Key && p.Key != "P:nil" && !(p.R.IsConst() && p.R.Val == 0) {
						throwf("loop pointer %s changes kind in %s", ph.Comment, f.fn)
					}
				}
			}
		}
		if !mod.merge(sk) {
			break
		}
	}
	_ = condVars
	// propagate the modified set to enclosing sinks
	for _, o := range x.sinks {
		for _, key := range mod.order {
			k := mod.keys[key]
			ok := o.keys[key]
			if ok == nil {
				ok = &wkey{l: k.l, refs: map[*Term]bool{}}
				o.keys[key] = ok
				o.order = append(o.order, key)
			}
			if k.all {
				ok.all = true
			}
			if k.fresh {
				ok.fresh = true
			}
			for r := range k.refs {
				o.add(key, k.l, r)
			}
		}
	}
	// 2. candidates
	var cells []cell
	for _, ph := range phis {
		ph := ph
		var ls []leaf
		if _, ok := entry[ph].(*PtrV); ok {
			ls = []leaf{{"", 32, 'r'}, {"#i", 64, 0}}
		} else if _, ok := entry[ph].(*IterV); ok {
			continue
		} else {
			ls = leavesOf(ph.Type())
		}
		for i, l := range ls {
			i := i
			cells = append(cells, cell{ph.Comment + l.suf, l, func(st *State) *Term {
				return x.valLeaves(ph.Type(), st.frames[depth-1].env[ph])[i]
			}})
		}
	}
	for _, key := range mod.order {
		k := mod.keys[key]
		if k.all || len(key) < 2 || !(key[:2] == "P:" || key[:2] == "G:") {
			continue
		}
		var rs []*Term
		for r := range k.refs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
		for _, r := range rs {
			key, r, l := key, r, k.l
			cells = append(cells, cell{key, l, func(st *State) *Term { return x.load1(st, key, l, r, x.zero64()) }})
		}
	}
	var cands []cand
	add := func(name string, ev func(st *State) *Term) { cands = append(cands, cand{name, ev}) }
	for _, h := range s.hints {
		h := h
		if h.arity == 0 {
			add("hint "+h.name, func(st *State) *Term { return x.evalSpec(st, h.fn, nil) })
		}
	}
	var nums []int
	entryT := make([]*Term, len(cells))
	for i := range cells {
		cl := cells[i]
		e := cl.get(s)
		entryT[i] = e
		add(cl.name+" unchanged", func(st *State) *Term { return c.Eq(cl.get(st), e) })
		if cl.l.isRef == 'r' || cl.l.isRef == 'i' || cl.l.suf == "#t" {
			add(cl.name+" nonzero", func(st *State) *Term { return c.Neq(cl.get(st), c.BV(0, cl.l.w)) })
			add(cl.name+" fresh-or-entry", func(st *State) *Term {
				v := cl.get(st)
				return c.Or(c.Eq(v, e), c.And(c.Ule(c.BV(alloc0, 32), v), c.Ult(v, c.BV(strRegion, 32))))
			})
		}
		if cl.l.w == 0 {
			continue
		}
		if isNumCell(cl.l) && cl.l.suf != "#t" {
			nums = append(nums, i)
			add(cl.name+" >= entry", func(st *State) *Term { return c.Sle(e, cl.get(st)) })
			add(cl.name+" <= entry", func(st *State) *Term { return c.Sle(cl.get(st), e) })
			add(cl.name+" u>= entry", func(st *State) *Term { return c.Ule(e, cl.get(st)) })
			if !(e.IsConst() && e.Val == 0) {
				add(cl.name+" >= 0", func(st *State) *Term { return c.Sle(c.BV(0, cl.l.w), cl.get(st)) })
			}
			add(cl.name+" <= 2^40", func(st *State) *Term {
				if cl.l.w != 64 {
					return c.False
				}
				return c.Ule(cl.get(st), c.BV(1<<40, 64))
			})
		}
	}
	if len(nums) > 16 {
		nums = nums[:16]
	}
	for a := 0; a < len(nums); a++ {
		for b := a + 1; b < len(nums); b++ {
			p, q := cells[nums[a]], cells[nums[b]]
			ep, eq := entryT[nums[a]], entryT[nums[b]]
			if p.l.w != q.l.w {
				continue
			}
			add(p.name+" tracks "+q.name, func(st *State) *Term { return c.Eq(c.Sub(p.get(st), ep), c.Sub(q.get(st), eq)) })
			add(p.name+" mirrors "+q.name, func(st *State) *Term { return c.Eq(c.Sub(p.get(st), ep), c.Sub(eq, q.get(st))) })
			add(p.name+" <= "+q.name, func(st *State) *Term { return c.Sle(p.get(st), q.get(st)) })
			add(q.name+" <= "+p.name, func(st *State) *Term { return c.Sle(q.get(st), p.get(st)) })
		}
	}
	// references that start equal
	for a := range cells {
		for b := a + 1; b < len(cells); b++ {
			p, q := cells[a], cells[b]
			if p.l.isRef != 'r' || q.l.isRef != 'r' || p.l.w != q.l.w || (entryT[a].IsConst() && entryT[a].Val == 0) {
				continue
			}
			if entryT[a] != entryT[b] && (strings.HasPrefix(p.name, "G:") == strings.HasPrefix(q.name, "G:") || entryT[a].IsConst() && entryT[b].IsConst()) {
				continue
			}
			add(p.name+" same as "+q.name, func(st *State) *Term { return c.Eq(p.get(st), q.get(st)) })
		}
	}
	// bounds by loop-invariant terms occurring in conditions
	bnd := map[*Term]bool{}
	var bnds []*Term
	for _, cd := range conds {
		if cd.Op == ONot {
			cd = cd.Args[0]
		}
		if cd.Op == OSlt || cd.Op == OSle || cd.Op == OUlt || cd.Op == OUle || cd.Op == OEq {
			for _, a := range cd.Args {
				if a.W >= 8 && a.Hist <= mod.mark && !bnd[a] {
					bnd[a] = true
					bnds = append(bnds, a)
				}
			}
		}
	}
	if len(bnds) > 8 {
		bnds = bnds[:8]
	}
	for _, b := range bnds {
		for _, i := range nums {
			cl, b := cells[i], b
			if cl.l.w != b.W {
				continue
			}
			add(fmt.Sprintf("%s <= bound", cl.name), func(st *State) *Term { return c.Sle(cl.get(st), b) })
			add(fmt.Sprintf("%s >= bound", cl.name), func(st *State) *Term { return c.Sle(b, cl.get(st)) })
			add(fmt.Sprintf("%s u<= bound", cl.name), func(st *State) *Term { return c.Ule(cl.get(st), b) })
			add(fmt.Sprintf("%s < bound", cl.name), func(st *State) *Term { return c.Slt(cl.get(st), b) })
		}
	}
	filter := func(st *State, cs []cand) []cand {
		// try all at once first
		terms := make([]*Term, len(cs))
		for i, cd := range cs {
			terms[i] = cd.eval(st)
		}
		if len(x.urems) == 0 && x.valid(st, c.And(terms...)) {
			return cs
		}
		var keep []cand
		for i, cd := range cs {
			if strings.HasPrefix(cd.name, "hint") && os.Getenv("GOVER_HINT") != "" {
				fmt.Fprintf(os.Stderr, "hint %s: %v %s\n", cd.name, x.valid(st, terms[i]), terms[i].str(14))
				x.dbgN++
				os.WriteFile(fmt.Sprintf("/tmp/dump/%d_", x.dbgN)+strings.ReplaceAll(cd.name, " ", "_")+".smt2", []byte(x.sol.Standalone(append(append([]*Term{}, st.pc...), c.Not(terms[i])))), 0644)
			}
			if x.valid(st, terms[i]) {
				keep = append(keep, cd)
			}
		}
		return keep
	}
	sEval := s.clone()
	live := filter(sEval, cands)
	for round := 0; ; round++ {
		if round > 40 {
			throwf("invariant inference does not stabilise")
		}
		st := mkHead()
		for _, cd := range live {
			x.assume(st, cd.eval(st))
		}
		nsp, sk := run(st)
		if mod.merge(sk) {
			continue
		}
		n := len(live)
		for _, b := range nsp.backs {
			live = filter(b, live)
		}
		if len(live) == n {
			break
		}
	}
	if x.noObl == 0 {
		var names []string
		for _, cd := range live {
			names = append(names, cd.name)
		}
		x.loopCuts[fmt.Sprintf("%s b%d", shortFn(f.fn), lp.header.Index)] = names
		if os.Getenv("GOVER_LOOPS") != "" {
			fmt.Fprintf(os.Stderr, "loop %s b%d: keys %v inv %v\n", shortFn(f.fn), lp.header.Index, mod.order, names)
			for _, k := range mod.order {
				fmt.Fprintf(os.Stderr, "   %s all=%v fresh=%v refs=%d\n", k, mod.keys[k].all, mod.keys[k].fresh, len(mod.keys[k].refs))
			}
		}
	}
	st := mkHead()
	for _, cd := range live {
		x.assume(st, cd.eval(st))
	}
	x.note(st, "loop: arbitrary iteration")
	return one(st)
}

// backEdge: the invariants were established during inference.
func (x *Exec) backEdge(s *State, act *loopAct) {}

type hint struct {
	name  string
	fn    *RefV
	arity int
}

// evalSpec evaluates a boolean specification closure in s without side effects on s
// (definitional facts produced on the way are added to s).
func (x *Exec) evalSpec(s *State, fn *RefV, args []Value) *Term {
	c := x.c
	if !fn.R.IsConst() {
		throwf("specification closure is not constant")
	}
	cl := x.closures[fn.R.Val]
	if cl == nil {
		throwf("unknown specification closure")
	}
	st := s.clone()
	st.bconds = nil
	base := len(st.pc)
	var res []*Term
	fr := x.newFrame(cl.fn, args, cl.bind)
	fr.spec = true
	fr.stop = true
	var defs []*Term
	fr.onRet = func(e *State, r []Value) {
		cond := c.And(e.bconds...)
		isB := map[*Term]bool{}
		for _, b := range e.bconds {
			isB[b] = true
		}
		for _, t := range e.pc[base:] {
			if !isB[t] {
				defs = append(defs, t)
			}
		}
		res = append(res, c.Imp(cond, r[0].(*Term)))
	}
	st.frames = []*Frame{fr}
	x.noObl++
	saved := x.sp
	savedF := x.hintFrames
	x.hintFrames = append(append([]*Frame{}, savedF...), s.frames...)
	x.explore(st, nil)
	x.hintFrames = savedF
	x.sp = saved
	x.noObl--
	for _, d := range defs {
		x.assume(s, d)
	}
	return c.And(res...)
}
