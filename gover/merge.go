package main

import (
	"golang.org/x/tools/go/ssa"
)

// diamond recognises "if c { simple } [else { simple }]" and returns the join block.
func diamond(b *ssa.BasicBlock) *ssa.BasicBlock {
	t, e := b.Succs[0], b.Succs[1]
	arm := func(a *ssa.BasicBlock) *ssa.BasicBlock {
		if len(a.Preds) != 1 || len(a.Succs) != 1 || len(a.Instrs) > 40 {
			return nil
		}
		for _, in := range a.Instrs {
			switch in.(type) {
			case *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Store, *ssa.Jump, *ssa.UnOp, *ssa.Slice, *ssa.Extract:
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
					return nil
				}
			default:
				return nil
			}
		}
		return a.Succs[0]
	}
	jt, je := arm(t), arm(e)
	switch {
	case jt != nil && jt == je:
		return jt
	case jt != nil && jt == e:
		return e
	case je != nil && je == t:
		return t
	}
	return nil
}

// mergeDiamond runs both arms to the join and merges the two states when they differ only in
// scalar stores and scalar phis; otherwise both states go on separately.
func (x *Exec) mergeDiamond(a, b *State, cond *Term, j *ssa.BasicBlock, sp *specRun) []*State {
	c := x.c
	depth := len(a.frames)
	base := a.clone()
	n0 := len(a.pc)
	if n1 := len(b.pc); n1 < n0 {
		n0 = n1
	}
	run := func(s *State, succ *ssa.BasicBlock) []*State {
		out := x.jump(s, succ, sp)
		for len(out) == 1 && len(out[0].frames) == depth && out[0].top().blk != j && !out[0].top().panicking {
			x.steps++
			out = x.step(out[0], sp)
		}
		return out
	}
	ra := run(a, a.top().blk.Succs[0])
	rb := run(b, b.top().blk.Succs[1])
	both := append(append([]*State{}, ra...), rb...)
	if len(ra) != 1 || len(rb) != 1 {
		return both
	}
	a, b = ra[0], rb[0]
	fa, fb := a.top(), b.top()
	if len(a.frames) != depth || len(b.frames) != depth || fa.blk != j || fb.blk != j || fa.ip != fb.ip || fa.panicking || fb.panicking {
		return both
	}
	if len(a.locks) != len(b.locks) || len(a.kids) != len(b.kids) || len(a.eqs) != len(b.eqs) || len(a.idxs) != len(b.idxs) || len(a.univ) != len(b.univ) || len(a.lens) != len(b.lens) || len(a.doms) != len(b.doms) || len(a.kids) != len(base.kids) || len(a.eqs) != len(base.eqs) || len(a.lens) != len(base.lens) || len(a.univ) != len(base.univ) {
		return both
	}
	// phis
	merged := map[ssa.Value]Value{}
	for _, in := range j.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := x.mergeVal(cond, fa.env[ph], fb.env[ph])
		if !ok {
			return both
		}
		merged[ph] = v
	}
	// memory
	keys := map[string]bool{}
	for k := range a.mem {
		keys[k] = true
	}
	for k := range b.mem {
		keys[k] = true
	}
	mem := map[string]*Mem{}
	for k := range keys {
		l := x.keyLeaf[k]
		ma, mb := a.mem[k], b.mem[k]
		if ma == mb {
			mem[k] = ma
			continue
		}
		m0 := base.mem[k]
		if m0 == nil {
			m0 = x.init[k]
		}
		if m0 == nil {
			return both
		}
		if ma == nil {
			ma = m0
		}
		if mb == nil {
			mb = m0
		}
		sa, ok1 := storesSince(ma, m0)
		sb, ok2 := storesSince(mb, m0)
		if !ok1 || !ok2 || l.isRef != 0 {
			return both
		}
		m := m0
		for i := len(sa) - 1; i >= 0; i-- {
			m = x.push(&Mem{kind: mStore, prev: m, ref: sa[i].ref, idx: sa[i].idx, val: c.Ite(cond, sa[i].val, x.sel(m, sa[i].ref, sa[i].idx))})
		}
		for i := len(sb) - 1; i >= 0; i-- {
			m = x.push(&Mem{kind: mStore, prev: m, ref: sb[i].ref, idx: sb[i].idx, val: c.Ite(cond, x.sel(m, sb[i].ref, sb[i].idx), sb[i].val)})
		}
		mem[k] = m
	}
	fa.loops = base.top().loops
	for ph, v := range merged {
		fa.env[ph] = v
	}
	var extraA, extraB []*Term
	inBase := func(t *Term) bool { return base.lits[t] && t != cond }
	for _, t := range a.pc {
		if t != cond && !inBase(t) {
			extraA = append(extraA, t)
		}
	}
	nc := c.Not(cond)
	for _, t := range b.pc {
		if t != nc && !inBase(t) {
			extraB = append(extraB, t)
		}
	}
	r := a
	r.mem = mem
	r.lits = map[*Term]bool{}
	r.pc = nil
	isPart := map[*Term]bool{}
	if cond.Op == OAnd {
		for _, t := range cond.Args {
			isPart[t] = true
		}
	}
	for _, t := range base.pc {
		if t == cond || isPart[t] {
			continue
		}
		r.lits[t] = true
		r.pc = append(r.pc, t)
	}
	for _, t := range extraA {
		x.assume(r, c.Imp(cond, t))
	}
	for _, t := range extraB {
		x.assume(r, c.Imp(nc, t))
	}
	if b.alloc > r.alloc {
		r.alloc = b.alloc
	}
	if len(r.bconds) > 0 {
		r.bconds = r.bconds[:len(base.bconds)-1]
	}
	if len(r.trace) > 0 && len(base.trace) > 0 {
		r.trace = base.trace[: len(base.trace)-1 : len(base.trace)-1]
	}
	return one(r)
}

func storesSince(m, m0 *Mem) ([]*Mem, bool) {
	var out []*Mem
	for k := 0; k < 50; k++ {
		if m == m0 {
			return out, true
		}
		if m0.kind == mStore && m == m0.prev {
			return out, true
		}
		if m.kind != mStore {
			return nil, false
		}
		out = append(out, m)
		m = m.prev
	}
	return nil, false
}

func (x *Exec) mergeVal(cond *Term, a, b Value) (Value, bool) {
	if a == nil || b == nil {
		return nil, false
	}
	switch u := a.(type) {
	case *Term:
		v, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		if u == v {
			return u, true
		}
		return x.c.Ite(cond, u, v), true
	case *StringV:
		if v, ok := b.(*StringV); ok && sameStr(u, v) {
			return u, true
		}
	case *PtrV:
		if v, ok := b.(*PtrV); ok && u.Key == v.Key && u.R == v.R && u.I == v.I {
			return u, true
		}
	case *SliceV:
		if v, ok := b.(*SliceV); ok && u.R == v.R && u.O == v.O && u.L == v.L && u.C == v.C {
			return u, true
		}
	case *IfaceV:
		if v, ok := b.(*IfaceV); ok && u.T == v.T && u.P == v.P {
			return u, true
		}
	case *RefV:
		if v, ok := b.(*RefV); ok && u.R == v.R {
			return u, true
		}
	}
	return nil, false
}

// canonRegion follows a byte range down the memory history to where its bytes come from.
func (x *Exec) canonRegion(m *Mem, ref, off, ln *Term) (*Mem, *Term, *Term) {
	c := x.c
	for m != nil {
		switch m.kind {
		case mStore:
			if c.Distinct(m.ref, ref) || c.Ult(c.Sub(m.idx, off), ln).IsFalse() {
				m = m.prev
				continue
			}
			return m, ref, off
		case mFill:
			if c.Distinct(m.ref, ref) {
				m = m.prev
				continue
			}
			return m, ref, off
		case mCopy:
			if c.Distinct(m.ref, ref) {
				m = m.prev
				continue
			}
			if m.ref == ref {
				// containment [off,off+ln) in [m.idx, m.idx+n)
				d := c.Sub(off, m.idx)
				if m.n == ln && d.IsConst() && d.Val == 0 {
					m, ref, off = m.src, m.sref, m.soff
					continue
				}
				// disjoint: off+ln <= idx or idx+n <= off
				l1, _, k1 := srng(c.Sub(m.idx, c.Add(off, ln)), 6)
				l2, _, k2 := srng(c.Sub(off, c.Add(m.idx, m.n)), 6)
				if (k1 && l1 >= 0) || (k2 && l2 >= 0) {
					m = m.prev
					continue
				}
			}
			return m, ref, off
		default:
			return m, ref, off
		}
	}
	return m, ref, off
}
