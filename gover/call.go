package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type retFn func(s *State, res []Value)

func (x *Exec) newFrame(fn *ssa.Function, args []Value, bind []Value) *Frame {
	if len(fn.Blocks) == 0 {
		throwf("no body for %s", fn)
	}
	fr := &Frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]Value{}, spec: x.w.isSpecFn(fn)}
	if len(args) != len(fn.Params) {
		throwf("arity mismatch calling %s: %d args for %d params", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	return fr
}

// evalCall evaluates function value and arguments of a deferred or spawned call.
func (x *Exec) evalCall(s *State, d *deferred) {
	cc := d.call
	if cc.IsInvoke() {
		d.val = x.val(s, cc.Value)
	} else {
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			d.val = v
		case *ssa.Function:
			d.fn = v
		default:
			d.val = x.val(s, cc.Value)
		}
	}
	for _, a := range cc.Args {
		d.args = append(d.args, x.val(s, a))
	}
}

func (x *Exec) call(s *State, i *ssa.Call) []*State {
	d := &deferred{call: &i.Call, pos: i.Pos()}
	x.evalCall(s, d)
	f := s.top()
	f.ip++
	return x.dispatch(s, d, i, func(s *State, res []Value) {
		f := s.top()
		switch {
		case len(res) == 0:
			f.env[i] = TupleV{}
		case len(res) == 1 && !isTuple(i.Type()):
			f.env[i] = res[0]
		default:
			f.env[i] = TupleV(res)
		}
	})
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

func (x *Exec) callDeferred(s *State, d *deferred) []*State {
	n := len(s.frames)
	out := x.dispatch(s, d, nil, func(s *State, res []Value) {})
	for _, o := range out {
		if len(o.frames) > n {
			o.frames[n].isDeferred = true
		}
	}
	return out
}

func retAndContinue(s *State, ret retFn, res ...Value) []*State {
	if ret != nil {
		ret(s, res)
	}
	return one(s)
}

// dispatch performs a call; f.ip has already been advanced.
func (x *Exec) dispatch(s *State, d *deferred, site *ssa.Call, ret retFn) []*State {
	cc := d.call
	if b, ok := d.val.(*ssa.Builtin); ok {
		return x.builtin(s, b, d, ret)
	}
	if cc != nil && cc.IsInvoke() {
		return x.invoke(s, d, site, ret)
	}
	if d.fn != nil {
		return x.callFn(s, d.fn, nil, d.args, site, ret)
	}
	fv := d.val.(*RefV)
	return x.callValue(s, fv, d.args, cc.Signature(), site, ret)
}

// callValue calls a function value.
func (x *Exec) callValue(s *State, fv *RefV, args []Value, sig *types.Signature, site *ssa.Call, ret retFn) []*State {
	c := x.c
	if fv.R.Op == OIte {
		cond := fv.R.Args[0]
		ct, cf := x.decide(s, cond)
		var out []*State
		if ct && cf {
			s2 := s.clone()
			x.assume(s2, c.Not(cond))
			out = append(out, x.callValue(s2, &RefV{R: fv.R.Args[2], Org: fv.Org}, args, sig, site, ret)...)
			x.assume(s, cond)
			return append(x.callValue(s, &RefV{R: fv.R.Args[1], Org: fv.Org}, args, sig, site, ret), out...)
		}
		if ct {
			return x.callValue(s, &RefV{R: fv.R.Args[1], Org: fv.Org}, args, sig, site, ret)
		}
		if cf {
			return x.callValue(s, &RefV{R: fv.R.Args[2], Org: fv.Org}, args, sig, site, ret)
		}
		return nil
	}
	if fv.R.IsConst() {
		if fv.R.Val == 0 {
			if x.opt.panics && x.con.coversPanic(s.top().fn) {
				x.prove(s, x.con.Name+": no call of nil function in "+shortFn(s.top().fn), c.False)
			}
			return nil
		}
		if cl := x.closures[fv.R.Val]; cl != nil {
			return x.callFn(s, cl.fn, cl.bind, args, site, ret)
		}
	}
	if !x.check(s, "call of nil function", c.Neq(fv.R, c.BV(0, 32))) {
		return nil
	}
	x.assume(s, c.Neq(fv.R, c.BV(0, 32)))
	// opaque user function
	field := ""
	if fv.Org != nil {
		field = fv.Org.Field
	}
	if h := x.hookFor("call", field); h != nil && !s.top().specHook {
		hargs := append([]Value{fv}, args...)
		return x.runHookRet(s, h, fv.Org, hargs, func(s *State, res []Value) {
			if len(res) != sig.Results().Len() {
				res = x.freshResults(s, "cb", sig.Results())
			}
			if ret != nil {
				ret(s, res)
			}
		}, sig)
	}
	if field == "" {
		field = "function value of type " + sig.String()
	}
	x.externs["callback "+field]++
	return x.opaque(s, "cb", sig.Results(), ret, true)
}

// opaque returns arbitrary results without effects; callbacks may panic.
func (x *Exec) opaque(s *State, hint string, rs *types.Tuple, ret retFn, cb bool) []*State {
	var out []*State
	if cb && x.opt.cbPanic {
		s2 := s.clone()
		x.note(s2, "callback panics")
		out = x.doPanic(s2)
	}
	if ret != nil {
		ret(s, x.freshResults(s, hint, rs))
	}
	return append(one(s), out...)
}

func (x *Exec) freshResults(s *State, hint string, rs *types.Tuple) []Value {
	var out []Value
	for i := 0; i < rs.Len(); i++ {
		out = append(out, x.freshOpt(s, fmt.Sprintf("%s.%d", hint, i), rs.At(i).Type(), false))
	}
	return out
}

func (x *Exec) invoke(s *State, d *deferred, site *ssa.Call, ret retFn) []*State {
	c := x.c
	iv, ok := d.val.(*IfaceV)
	if !ok {
		throwf("invoke on %T", d.val)
	}
	m := d.call.Method
	it := d.call.Value.Type()
	if !x.check(s, "method call on nil interface", c.Neq(iv.T, c.BV(0, 32))) {
		return nil
	}
	x.assume(s, c.Neq(iv.T, c.BV(0, 32)))
	var ct types.Type
	if iv.T.IsConst() {
		ct = x.typeOfTag(iv.T.Val)
	} else if t := x.w.ifaceDefault(it); t != nil {
		ct = t
		x.assume(s, c.Eq(iv.T, x.tagOf(t)))
		if !x.feasible(s, c.True) {
			return nil
		}
	}
	name := ifaceMethodName(it, m)
	if e := x.extern(name); e != nil && len(e.Theories) > 0 && !s.top().spec {
		// a theory's own account of the interface comes first
		return x.runExtern(s, e, append([]Value{iv}, d.args...), m.Type().(*types.Signature), ret)
	}
	if ct != nil {
		sel := x.w.prog.MethodSets.MethodSet(ct).Lookup(m.Pkg(), m.Name())
		if sel != nil {
			fn := x.w.prog.MethodValue(sel)
			if fn != nil {
				if len(fn.Blocks) > 0 || x.extern(fnKey(fn)) != nil {
					recv := x.unbox(s, iv, ct)
					return x.callFn(s, fn, nil, append([]Value{recv}, d.args...), site, ret)
				}
			}
		}
	}
	if h := x.hookOrgIface("invoke", iv.Org, m.Name()); h != nil {
		return x.runHookRet(s, h, iv.Org, append([]Value{iv}, d.args...), ret, m.Type().(*types.Signature))
	}
	if e := x.extern(name); e != nil {
		return x.runExtern(s, e, append([]Value{iv}, d.args...), m.Type().(*types.Signature), ret)
	}
	if m.Name() == "Error" && m.Type().(*types.Signature).Params().Len() == 0 {
		if ret != nil {
			ret(s, []Value{x.errText(iv)})
		}
		return one(s)
	}
	x.externs["interface method "+name]++
	return x.opaque(s, m.Name(), m.Type().(*types.Signature).Results(), ret, x.opt.cbPanic && x.w.mayPanic(name))
}

func (x *Exec) hookOrgIface(kind string, o *Origin, m string) *Hook {
	if o == nil {
		return nil
	}
	return x.hookFor(kind, o.Field+"."+m)
}

func (x *Exec) errText(iv *IfaceV) *StringV {
	c := x.c
	r := c.UF("errtext.r", 32, iv.T, iv.P)
	l := c.UF("errtext.l", 64, iv.T, iv.P)
	if r.Lo == 0 {
		x.sol.Axiom(r, c.And(c.Ule(c.BV(strRegion, 32), r), c.Ult(r, c.BV(litRegion, 32))))
		r.Lo, r.Ub = strRegion, litRegion
		x.small(l)
	}
	return &StringV{r, x.zero64(), l}
}

func ifaceMethodName(t types.Type, m *types.Func) string {
	n := "?"
	if nt, ok := t.(*types.Named); ok {
		n = nt.Obj().Name()
		if nt.Obj().Pkg() != nil {
			n = nt.Obj().Pkg().Name() + "." + n
		}
	}
	return "(" + n + ")." + m.Name()
}

func fnKey(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return "(" + star + n.Obj().Pkg().Name() + "." + n.Obj().Name() + ")." + fn.Name()
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return fn.String()
}

const maxDepth = 60

// callFn calls a known function.
func (x *Exec) callFn(s *State, fn *ssa.Function, bind []Value, args []Value, site *ssa.Call, ret retFn) []*State {
	name := fn.Name()
	caller := s.top()
	if strings.HasPrefix(name, "vc") && x.w.isSpecFn(fn) && len(fn.Name()) > 2 && fn.Name()[2] >= 'A' && fn.Name()[2] <= 'Z' {
		return x.intrinsic(s, fn, args, site, ret)
	}
	// target of the contract being executed
	if caller.con != nil && fn == caller.con.Target && !caller.tdone {
		return x.callTarget(s, fn, args, ret)
	}
	key := fnKey(fn)
	if r, ok := x.native(s, fn, key, args, ret); ok {
		return r
	}
	if e := x.extern(key); e != nil {
		return x.runExtern(s, e, args, fn.Signature, ret)
	}
	if x.w.nospawn(key, x.con) && inThread(s) {
		// the body of a long-running goroutine is verified by its own contract
		x.spawned[key]++
		return x.opaque(s, fn.Name(), fn.Signature.Results(), ret, false)
	}
	if !x.w.isSpecFn(fn) {
		if con := x.w.useContract(fn, x.con); con != nil {
			return x.useContract(s, con, args, ret)
		}
	}
	if x.w.inlinable(fn) && len(fn.Blocks) > 0 {
		if len(s.frames) > maxDepth {
			throwf("call depth exceeded at %s", fn)
		}
		rec := 0
		for _, f := range s.frames {
			if f.fn == fn {
				rec++
			}
		}
		if rec > 3 {
			throwf("recursive call of %s without contract", fn)
		}
		x.inlined[key]++
		fr := x.newFrame(fn, args, bind)
		fr.onRet = ret
		s.frames = append(s.frames, fr)
		return one(s)
	}
	if x.w.opaqueOK(fn) {
		x.externs[key]++
		return x.opaque(s, fn.Name(), fn.Signature.Results(), ret, false)
	}
	throwf("no contract or body for %s", key)
	return nil
}

func inThread(s *State) bool {
	for _, f := range s.frames {
		if f.thread != nil {
			return true
		}
	}
	return false
}

func (x *Exec) theoryOK(h *Hook) bool {
	if len(h.Theories) == 0 {
		return true
	}
	for t := range h.Theories {
		if x.con.Theories[t] {
			return true
		}
	}
	return false
}

// pick prefers the specification of a theory of the contract over a general one.
func (x *Exec) pick(hs []*Hook) *Hook {
	var gen *Hook
	for _, h := range hs {
		if len(h.Theories) == 0 {
			if gen == nil {
				gen = h
			}
		} else if x.theoryOK(h) {
			return h
		}
	}
	return gen
}

func (x *Exec) extern(name string) *Hook { return x.pick(x.w.externs[name]) }

func (x *Exec) hookFor(kind, field string) *Hook {
	if field == "" {
		return nil
	}
	return x.pick(x.w.hooks[kind+" "+field])
}

// runHook runs ghost code for an event.
func (x *Exec) runHook(s *State, h *Hook, o *Origin, args []Value, ret retFn) []*State {
	return x.runHookRet(s, h, o, args, ret, nil)
}

func (x *Exec) runHookRet(s *State, h *Hook, o *Origin, args []Value, ret retFn, sig *types.Signature) []*State {
	fn := h.Fn
	var full []Value
	np := len(fn.Params)
	if o != nil && o.Owner != nil && !h.NoOwner {
		full = append(full, o.Owner)
	}
	full = append(full, args...)
	if len(full) > np {
		full = full[:np]
	}
	for i := len(full); i < np; i++ {
		full = append(full, x.freshOpt(s, fn.Params[i].Name(), fn.Params[i].Type(), false))
	}
	// adapt owner pointer kinds
	for i, p := range fn.Params {
		if pv, ok := full[i].(*PtrV); ok {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && pv.Elem == nil {
				full[i] = &PtrV{Key: pv.Key, R: pv.R, I: pv.I, Elem: pt.Elem(), Org: pv.Org}
			}
		}
		// interface params receiving concrete values
		if _, ok := p.Type().Underlying().(*types.Interface); ok {
			if _, isI := full[i].(*IfaceV); !isI {
				throwf("hook %s: interface parameter %s", h.Fn.Name(), p.Name())
			}
		}
	}
	fr := x.newFrame(fn, full, nil)
	fr.onRet = ret
	fr.hook = true
	s.frames = append(s.frames, fr)
	return one(s)
}

func (x *Exec) runExtern(s *State, h *Hook, args []Value, sig *types.Signature, ret retFn) []*State {
	x.externs["assumed contract "+h.Name]++
	fn := h.Fn
	full := append([]Value{}, args...)
	if len(full) > len(fn.Params) {
		throwf("extern %s: too few parameters", h.Name)
	}
	for i := len(full); i < len(fn.Params); i++ {
		full = append(full, x.freshOpt(s, fn.Params[i].Name(), fn.Params[i].Type(), false))
	}
	fr := x.newFrame(fn, full, nil)
	fr.onRet = ret
	fr.hook = true
	s.frames = append(s.frames, fr)
	return one(s)
}

// ---- contracts ----

// useContract executes a callee's contract instead of its body.
func (x *Exec) useContract(s *State, con *Contract, args []Value, ret retFn) []*State {
	x.used[con.Name]++
	fn := con.Fn
	full := append([]Value{}, args...)
	for i := len(full); i < len(fn.Params); i++ {
		p := fn.Params[i]
		if lv, ok := s.logic[p.Name()]; ok && types.Identical(lv.(logicVal).t, p.Type()) {
			full = append(full, lv.(logicVal).v)
		} else {
			full = append(full, x.freshOpt(s, p.Name(), p.Type(), false))
		}
	}
	fr := x.newFrame(fn, full, nil)
	fr.spec = true
	fr.con = con
	fr.onRet = func(s *State, res []Value) {
		if ret != nil {
			ret(s, res)
		}
	}
	s.frames = append(s.frames, fr)
	return one(s)
}

type frameCtx struct {
	mods  []modEntry
	any   bool
	alloc uint64
	con   *Contract
}

// callTarget: the contract function calls the function it specifies.
func (x *Exec) callTarget(s *State, fn *ssa.Function, args []Value, ret retFn) []*State {
	f := s.top()
	f.tdone = true
	if f.verify {
		x.allocN++
		s.alloc = x.allocN
		f.entryAlloc = s.alloc
		if f.con.Modular {
			s.fctx = &frameCtx{mods: f.mods, any: f.modAny, alloc: s.alloc, con: f.con}
		}
		fr := x.newFrame(fn, args, nil)
		fr.target = true
		fr.onRet = func(s *State, res []Value) {
			s.fctx = nil
			if x.opt.lockCheck && x.noObl == 0 {
				var held []string
				for _, l := range s.locks {
					held = append(held, l.field)
				}
				x.prove(s, "C21.locks released: no lock is left held on return from "+shortFn(fn), x.c.Bool(len(s.locks) == 0))
				if len(held) > 0 {
					s.trace = append(s.trace, "still held: "+strings.Join(held, ","))
				}
				s.locks = nil
			}
			ret(s, res)
		}
		s.frames = append(s.frames, fr)
		return one(s)
	}
	// use mode: forget what may be modified, assume nothing else changes
	a0 := x.allocN
	x.allocN += 64
	s.alloc = x.allocN
	f.entryAlloc = a0
	f.freshN = 0
	if f.modAny {
		for _, k := range keysOf(s.mem) {
			l := x.leafOfKey(k)
			x.havocKey(s, k, l, &havocSet{all: true})
		}
	}
	for _, m := range f.mods {
		x.havocMod(s, m)
	}
	ret(s, x.freshResults(s, fn.Name(), fn.Signature.Results()))
	return one(s)
}

func keysOf(m map[string]*Mem) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func (x *Exec) leafOfKey(k string) leaf { return x.keyLeaf[k] }

func (x *Exec) modKeys(m modEntry) ([]string, []leaf, *Term) {
	var ks []string
	var ls []leaf
	switch {
	case m.s != nil:
		el := m.t.Underlying().(*types.Slice).Elem()
		for _, l := range leavesOf(el) {
			ks = append(ks, "E:"+elemKey(el)+l.suf)
			ls = append(ls, l)
		}
		return ks, ls, m.s.R
	case m.m != nil:
		if !isGhostMap(m.mt0) {
			ks = append(ks, mapDomKey(m.mt))
			ls = append(ls, leaf{"", 0, 0})
		}
		for _, l := range leavesOf(m.mt.Elem()) {
			ks = append(ks, mapValKey(m.mt)+l.suf)
			ls = append(ls, l)
		}
		return ks, ls, m.m.R
	default:
		for _, l := range leavesOf(m.p.Elem) {
			ks = append(ks, m.p.Key+l.suf)
			ls = append(ls, l)
		}
		return ks, ls, m.p.R
	}
}

func (x *Exec) havocMod(s *State, m modEntry) {
	ks, ls, ref := x.modKeys(m)
	for i, k := range ks {
		x.havocKey(s, k, ls[i], &havocSet{refs: []*Term{ref}})
	}
}

// frameCheck proves that a write is permitted by the modifies clause.
func (x *Exec) frameCheck(s *State, key string, ref *Term) {
	fc := s.fctx
	if fc == nil || fc.any || x.noObl > 0 {
		return
	}
	c := x.c
	if ref.IsConst() && ref.Val >= fc.alloc {
		return
	}
	if strings.HasPrefix(key, "visited:") || strings.HasPrefix(key, "box:") || key == "chancap" {
		return
	}
	ok := c.And(c.Ule(c.BV(fc.alloc, 32), ref))
	for _, m := range fc.mods {
		ks, _, r := x.modKeys(m)
		for _, k := range ks {
			if k == key {
				ok = c.Or(ok, c.Eq(ref, r))
			}
		}
	}
	x.prove(s, fc.con.Name+": frame (only declared locations are modified)", ok)
}

// ---- panics ----

func (x *Exec) doPanic(s *State) []*State {
	for {
		if len(s.frames) == 0 {
			return nil
		}
		if x.sp != nil && len(s.frames) <= x.sp.depth {
			return nil
		}
		f := s.top()
		if f.con != nil && f.verify {
			if f.con.HandlesPanic {
				s.panicked = true
				s.fctx = nil
				if x.opt.lockCheck && x.noObl == 0 {
					x.prove(s, "C21.locks released on panic: no lock is left held when a callback panics in "+shortFn(f.con.Target), x.c.Bool(len(s.locks) == 0))
					s.locks = nil
				}
				in := f.blk.Instrs[f.ip-1]
				if cv, ok := in.(*ssa.Call); ok {
					f.env[cv] = x.zero(cv.Type())
				}
				return one(s)
			}
			return nil
		}
		if f.spec {
			s.frames = s.frames[:len(s.frames)-1]
			continue
		}
		f.panicking = true
		f.recovered = false
		f.loops = nil
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return x.callDeferred(s, d)
		}
		s.frames = s.frames[:len(s.frames)-1]
		if f.thread != nil {
			return nil // unrecovered panic in a goroutine ends the program
		}
	}
}

// unwindStep continues unwinding after a deferred call returned into a panicking frame.
func (x *Exec) unwindStep(s *State) []*State {
	f := s.top()
	if !f.recovered {
		return x.doPanic(s)
	}
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return x.callDeferred(s, d)
	}
	f.panicking = false
	f.recovered = false
	if f.fn.Recover != nil {
		f.blk = f.fn.Recover
		f.ip = 0
		return one(s)
	}
	var res []Value
	rs := f.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		res = append(res, x.zero(rs.At(i).Type()))
	}
	return x.doReturn(s, res)
}

// ---- goroutines ----

type threadInfo struct {
	locks []heldLock
	saved []savedCell
}
type savedCell struct {
	p *PtrV
	v Value
	t types.Type
}

func (x *Exec) spawn(s *State, d *deferred, how string) []*State {
	name := "?"
	if d.fn != nil {
		name = fnKey(d.fn)
	} else if d.call != nil && d.call.IsInvoke() {
		name = ifaceMethodName(d.call.Value.Type(), d.call.Method)
	}
	var cls []*closure
	collect := func(v Value) {
		if rv, ok := v.(*RefV); ok && rv.R.IsConst() {
			if cl := x.closures[rv.R.Val]; cl != nil {
				cls = append(cls, cl)
			}
		}
	}
	collect(d.val)
	for _, a := range d.args {
		collect(a)
	}
	skip := x.w.nospawn(name, x.con)
	for _, cl := range cls {
		nm := fnKey(cl.fn)
		if cl.fn.Synthetic != "" && strings.HasSuffix(cl.fn.Name(), "$bound") && cl.fn.Object() != nil {
			nm = strings.TrimSuffix(nm, "$bound")
			if fo, ok := cl.fn.Object().(*types.Func); ok {
				if fn := x.w.prog.FuncValue(fo); fn != nil {
					nm = fnKey(fn)
				}
			}
		}
		if x.w.nospawn(nm, x.con) {
			skip = true
			name = nm
		}
	}
	x.spawned[name]++
	if h := x.hookFor("go", name); h != nil {
		return x.runHook(s, h, nil, d.args, nil)
	}
	if skip || x.w.nospawn("*", x.con) {
		return one(s)
	}
	th := &threadInfo{locks: s.locks}
	for _, cl := range cls {
		for _, ix := range cl.late {
			p, ok := cl.bind[ix].(*PtrV)
			if !ok {
				continue
			}
			v := x.load(s, p.Elem, p)
			th.saved = append(th.saved, savedCell{p, v, p.Elem})
			x.storeV(s, p.Elem, p, x.freshOpt(s, "late", p.Elem, true))
		}
	}
	s.locks = nil
	n := len(s.frames)
	restore := func(s *State) {
		s.locks = th.locks
		for _, sc := range th.saved {
			x.storeV(s, sc.t, sc.p, sc.v)
		}
	}
	done := false
	out := x.dispatch(s, d, nil, func(s *State, res []Value) { restore(s); done = true })
	for _, o := range out {
		if len(o.frames) > n {
			o.frames[n].thread = th
		} else if !done {
			restore(o)
		}
	}
	return out
}

// lateBindings lists captured cells that may be stored to after the closure was created.
func lateBindings(mc *ssa.MakeClosure) []int {
	var out []int
	blk := mc.Block()
	pos := -1
	for i, in := range blk.Instrs {
		if in == ssa.Instruction(mc) {
			pos = i
		}
	}
	reach := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, blk.Succs...)
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if reach[b] {
			continue
		}
		reach[b] = true
		st = append(st, b.Succs...)
	}
	for i, b := range mc.Bindings {
		al, ok := b.(*ssa.Alloc)
		if !ok {
			continue
		}
		late := false
		// an allocation executed anew on every iteration is not shared
		if al.Block() != nil && reach[al.Block()] && reach[blk] && al.Block().Dominates(blk) && al.Block() != al.Parent().Blocks[0] {
			// stores in later iterations go to a different cell unless reachable without passing the allocation
			reach2 := map[*ssa.BasicBlock]bool{}
			st := []*ssa.BasicBlock{}
			for _, sb := range blk.Succs {
				st = append(st, sb)
			}
			for len(st) > 0 {
				b := st[len(st)-1]
				st = st[:len(st)-1]
				if reach2[b] || b == al.Block() {
					continue
				}
				reach2[b] = true
				st = append(st, b.Succs...)
			}
			for _, r := range *al.Referrers() {
				if sto, ok := r.(*ssa.Store); ok && sto.Addr == ssa.Value(al) {
					if reach2[sto.Block()] {
						late = true
					}
					if sto.Block() == blk {
						for j, in := range blk.Instrs {
							if in == ssa.Instruction(sto) && j > pos {
								late = true
							}
						}
					}
				}
			}
		} else {
			for _, r := range *al.Referrers() {
				if sto, ok := r.(*ssa.Store); ok && sto.Addr == ssa.Value(al) {
					if reach[sto.Block()] {
						late = true
					}
					if sto.Block() == blk {
						for j, in := range blk.Instrs {
							if in == ssa.Instruction(sto) && j > pos {
								late = true
							}
						}
					}
				}
			}
		}
		if late {
			out = append(out, i)
		}
	}
	return out
}

// ---- builtins ----

func (x *Exec) builtin(s *State, b *ssa.Builtin, d *deferred, ret retFn) []*State {
	c := x.c
	f := s.top()
	args := d.args
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return retAndContinue(s, ret, v.L)
		case *StringV:
			return retAndContinue(s, ret, v.L)
		case *RefV:
			if mt, ok := d.call.Args[0].Type().Underlying().(*types.Map); ok {
				return retAndContinue(s, ret, x.mapLen(s, mt, v))
			}
			n := c.Var("chanlen", 64)
			x.small(n)
			if v.Org != nil && !f.spec {
				if h := x.hookFor("len", v.Org.Field); h != nil {
					return x.runHook(s, h, v.Org, []Value{n}, func(s *State, res []Value) { ret(s, []Value{n}) })
				}
			}
			return retAndContinue(s, ret, n)
		}
		throwf("len of %T", args[0])
	case "cap":
		switch v := args[0].(type) {
		case *SliceV:
			return retAndContinue(s, ret, v.C)
		case *RefV:
			return retAndContinue(s, ret, x.load1(s, "chancap", leaf{"", 64, 0}, v.R, x.zero64()))
		}
	case "append":
		return x.appendB(s, d, ret)
	case "copy":
		dst := args[0].(*SliceV)
		var sr, so, sl *Term
		switch v := args[1].(type) {
		case *SliceV:
			sr, so, sl = v.R, v.O, v.L
		case *StringV:
			sr, so, sl = v.R, v.O, v.L
		}
		n := c.Ite(c.Ult(dst.L, sl), dst.L, sl)
		if n.Op == OIte {
			if x.valid(s, c.Ule(sl, dst.L)) {
				n = sl
			} else if x.valid(s, c.Ule(dst.L, sl)) {
				n = dst.L
			}
		}
		el := d.call.Args[0].Type().Underlying().(*types.Slice).Elem()
		if elemKey(el) == "uint8" {
			x.copyBytes(s, dst.R, dst.O, x.memOf(s, bytesKey, byteLeaf), sr, so, n)
		} else {
			x.copyElems(s, el, dst.R, dst.O, sr, so, n)
		}
		return retAndContinue(s, ret, n)
	case "delete":
		m := args[0].(*RefV)
		mt := d.call.Args[0].Type().Underlying().(*types.Map)
		key := x.mapKey(s, mt, args[1])
		v, dom := x.mapGet(s, mt, false, m, key)
		x.store1(s, mapDomKey(mt), leaf{"", 0, 0}, m.R, key, c.False)
		if ret != nil {
			ret(s, nil)
		}
		if ps := x.unhashable(s, mt, f); ps != nil {
			return append(one(s), ps...)
		}
		if m.Org != nil && !f.spec {
			if h := x.hookFor("mapdelete", m.Org.Field); h != nil {
				return x.runHook(s, h, m.Org, []Value{args[1], v, dom}, nil)
			}
		}
		return one(s)
	case "close":
		ch := args[0].(*RefV)
		if !x.check(s, "close of nil channel", c.Neq(ch.R, c.BV(0, 32))) {
			return nil
		}
		if ret != nil {
			ret(s, nil)
		}
		if ch.Org != nil && !f.spec {
			if h := x.hookFor("close", ch.Org.Field); h != nil {
				return x.runHook(s, h, ch.Org, []Value{ch}, nil)
			}
		}
		return one(s)
	case "recover":
		if len(s.frames) >= 2 && f.isDeferred {
			p := s.frames[len(s.frames)-2]
			if p.panicking && !p.recovered {
				p.recovered = true
				v := x.freshOpt(s, "panicval", types.NewInterfaceType(nil, nil), false).(*IfaceV)
				x.assume(s, c.Neq(v.T, c.BV(0, 32)))
				return retAndContinue(s, ret, v)
			}
		}
		return retAndContinue(s, ret, &IfaceV{T: c.BV(0, 32), P: c.BV(0, 32)})
	case "print", "println":
		return retAndContinue(s, ret)
	case "ssa:wrapnilchk":
		return retAndContinue(s, ret, args[0])
	}
	throwf("builtin %s", b.Name())
	return nil
}

func (x *Exec) mapLen(s *State, mt *types.Map, m *RefV) *Term {
	c := x.c
	dm := x.memOf(s, mapDomKey(mt), leaf{"", 0, 0})
	for _, l := range s.lens {
		if l.mem == dm && l.ref == m.R {
			return l.n
		}
	}
	n := c.Var("maplen", 64)
	x.small(n)
	x.assume(s, c.Imp(c.Eq(m.R, c.BV(0, 32)), c.Eq(n, x.zero64())))
	s.lens = append(s.lens, lenRec{dm, m.R, n})
	for _, d := range s.doms {
		if d.key != nil && d.kt == typeKey(mt.Key()) {
			x.assume(s, c.Imp(c.And(c.Neq(m.R, c.BV(0, 32)), x.sel(dm, m.R, d.key)), c.Neq(n, x.zero64())))
		} else if d.mem == dm && d.ref == m.R {
			x.assume(s, c.Imp(d.d, c.Neq(n, x.zero64())))
		}
	}
	// an empty map has no key
	ref := m.R
	u := &univFact{desc: "len 0", kt: typeKey(mt.Key()), inst: func(x *Exec, st *State, k *Term) *Term {
		return x.c.Imp(x.c.Eq(n, x.zero64()), x.c.Not(x.c.And(x.c.Neq(ref, x.c.BV(0, 32)), x.sel(dm, ref, k))))
	}}
	s.univ = append(s.univ, u)
	x.instLogic(s, u)
	return n
}

// appendB models append: either in place (spare capacity) or in a fresh array.
func (x *Exec) appendB(s *State, d *deferred, ret retFn) []*State {
	c := x.c
	a := d.args[0].(*SliceV)
	var sr, so, sl *Term
	switch v := d.args[1].(type) {
	case *SliceV:
		sr, so, sl = v.R, v.O, v.L
	case *StringV:
		sr, so, sl = v.R, v.O, v.L
	}
	el := d.call.Args[0].Type().Underlying().(*types.Slice).Elem()
	nl := c.Add(a.L, sl)
	x.assume(s, c.Ule(nl, c.BV(1<<40, 64))) // memory is finite
	fits := c.Ule(nl, a.C)
	ct, cf := x.decide(s, fits)
	isB := elemKey(el) == "uint8"
	cp := func(s *State, dr, do, r, o, n *Term) {
		if isB {
			x.copyBytes(s, dr, do, x.memOf(s, bytesKey, byteLeaf), r, o, n)
		} else {
			x.copyElems(s, el, dr, do, r, o, n)
		}
	}
	grow := func(s *State) []*State {
		x.assume(s, c.Not(fits))
		r := x.alloc(s)
		for _, l := range leavesOf(el) {
			x.fill(s, "E:"+elemKey(el)+l.suf, l, r)
		}
		cp(s, r, x.zero64(), a.R, a.O, a.L)
		cp(s, r, a.L, sr, so, sl)
		nc := c.Var("cap", 64)
		x.small(nc)
		x.assume(s, c.Ule(nl, nc))
		return retAndContinue(s, ret, &SliceV{R: r, O: x.zero64(), L: nl, C: nc, Org: a.Org})
	}
	inplace := func(s *State) []*State {
		x.assume(s, fits)
		cp(s, a.R, c.Add(a.O, a.L), sr, so, sl)
		return retAndContinue(s, ret, &SliceV{R: a.R, O: a.O, L: nl, C: a.C, Org: a.Org})
	}
	if ct && cf {
		s2 := s.clone()
		o := inplace(s)
		return append(o, grow(s2)...)
	}
	if ct {
		return inplace(s)
	}
	if cf {
		return grow(s)
	}
	return nil
}

// ---- channels ----

func (x *Exec) recvValue(s *State, ch *RefV, t types.Type) (Value, *Term) {
	c := x.c
	v := x.freshOpt(s, "recv", t, false)
	if ch.Org != nil && x.w.neverClosed[ch.Org.Field] {
		return v, c.True
	}
	ok := c.Var("recvok", 0)
	vl := x.toLeaves(t, v)
	zl := x.toLeaves(t, x.zero(t))
	for i := range vl {
		x.assume(s, c.Imp(c.Not(ok), c.Eq(vl[i], zl[i])))
	}
	return v, ok
}

func (x *Exec) chanRecv(s *State, i *ssa.UnOp) []*State {
	f := s.top()
	ch := x.val(s, i.X).(*RefV)
	t := i.X.Type().Underlying().(*types.Chan).Elem()
	v, ok := x.recvValue(s, ch, t)
	if i.CommaOk {
		f.env[i] = TupleV{v, ok}
	} else {
		f.env[i] = v
	}
	f.ip++
	x.wakes(s, ch)
	x.assume(s, x.c.Neq(ch.R, x.c.BV(0, 32)))
	if ch.Org != nil && !f.spec {
		if h := x.hookFor("recv", ch.Org.Field); h != nil {
			return x.runHook(s, h, ch.Org, []Value{v, ok}, nil)
		}
	}
	return one(s)
}

func (x *Exec) chanSend(s *State, i *ssa.Send) []*State {
	f := s.top()
	ch := x.val(s, i.Chan).(*RefV)
	v := x.val(s, i.X)
	x.wakes(s, ch)
	f.ip++
	x.assume(s, x.c.Neq(ch.R, x.c.BV(0, 32)))
	if x.opt.blockCheck && !f.spec && ch.Org != nil {
		if h := x.hookFor("blocksend", ch.Org.Field); h != nil {
			return x.runHook(s, h, ch.Org, []Value{v}, nil)
		}
	}
	if ch.Org != nil && !f.spec {
		if h := x.hookFor("send", ch.Org.Field); h != nil {
			return x.runHook(s, h, ch.Org, []Value{v}, nil)
		}
	}
	return one(s)
}

func (x *Exec) doSelect(s *State, i *ssa.Select) []*State {
	c := x.c
	f := s.top()
	var out []*State
	tup := i.Type().(*types.Tuple)
	mk := func(s *State, idx int, ok *Term, recvs map[int]Value) {
		tv := TupleV{c.BV(uint64(idx), 64), ok}
		k := 0
		for j, st := range i.States {
			if st.Dir == types.RecvOnly {
				if v, has := recvs[j]; has {
					tv = append(tv, v)
				} else {
					tv = append(tv, x.zero(tup.At(2+k).Type()))
				}
				k++
			}
		}
		s.top().env[i] = tv
		s.top().ip++
	}
	if i.Blocking && len(x.con.Wakes) > 0 {
		var chs []*RefV
		for _, st := range i.States {
			if ch, ok := x.val(s, st.Chan).(*RefV); ok && st.Dir == types.RecvOnly {
				chs = append(chs, ch)
			}
		}
		x.wakes(s, chs...)
	}
	for j, st := range i.States {
		s2 := s.clone()
		ch := x.val(s2, st.Chan).(*RefV)
		nn := c.Neq(ch.R, c.BV(0, 32))
		if !x.feasible(s2, nn) {
			continue
		}
		x.assume(s2, nn)
		field := ""
		if ch.Org != nil {
			field = ch.Org.Field
		}
		x.note(s2, fmt.Sprintf("select case %d %s", j, field))
		if st.Dir == types.RecvOnly {
			v, ok := x.recvValue(s2, ch, st.Chan.Type().Underlying().(*types.Chan).Elem())
			mk(s2, j, ok, map[int]Value{j: v})
			if h := x.hookFor("recv", field); h != nil && !f.spec {
				out = append(out, x.runHook(s2, h, ch.Org, []Value{v, ok}, nil)...)
			} else {
				out = append(out, s2)
			}
		} else {
			v := x.val(s2, st.Send)
			mk(s2, j, c.False, nil)
			if h := x.hookFor("send", field); h != nil && !f.spec {
				out = append(out, x.runHook(s2, h, ch.Org, []Value{v}, nil)...)
			} else {
				out = append(out, s2)
			}
		}
	}
	if !i.Blocking {
		s2 := s.clone()
		x.note(s2, "select default")
		mk(s2, -1, c.False, nil)
		out = append(out, s2)
	}
	return out
}

// wakes: a blocking operation has to end when the declared channel is closed.
func (x *Exec) wakes(s *State, chans ...*RefV) {
	if len(x.con.Wakes) == 0 || s.top().spec {
		return
	}
	ok := x.c.False
	for _, ch := range chans {
		if ch == nil || ch.Org == nil {
			continue
		}
		for _, w := range x.con.Wakes {
			if ch.Org.Field == w {
				ok = x.c.True
			}
		}
	}
	name := x.con.Wakes[0] + ": every wait ends when it is closed"
	if len(x.con.Props) > 0 {
		name = x.con.Props[0] + ".every wait ends with the stop signal"
	}
	x.prove(s, name, ok)
}

var _ = token.NoPos
