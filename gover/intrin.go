package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

func constStr(site *ssa.Call, i int) string {
	if site != nil {
		if c, ok := site.Call.Args[i].(*ssa.Const); ok && c.Value != nil {
			return constant.StringVal(c.Value)
		}
	}
	return "?"
}

// rawArg looks through the conversion to interface{} of an intrinsic's argument.
func (x *Exec) rawArg(s *State, site *ssa.Call, i int) (Value, types.Type) {
	a := site.Call.Args[i]
	if mi, ok := a.(*ssa.MakeInterface); ok {
		return x.val(s, mi.X), mi.X.Type()
	}
	return x.val(s, a), a.Type()
}

func (x *Exec) intrinsic(s *State, fn *ssa.Function, args []Value, site *ssa.Call, ret retFn) []*State {
	c := x.c
	f := s.top()
	verify := f.con == nil || f.verify
	switch fn.Name() {
	case "vcRequires":
		t := args[0].(*Term)
		if f.con != nil && !f.verify {
			x.prove(s, x.con.Name+": precondition of "+f.con.Name, t)
		}
		x.assume(s, t)
		if !x.feasible(s, c.True) {
			return nil
		}
		return retAndContinue(s, ret)
	case "vcEnsures":
		t := args[1].(*Term)
		if verify {
			x.prove(s, x.oblName(f, constStr(site, 0)), t)
		} else {
			x.assume(s, t)
		}
		if !x.feasible(s, c.True) {
			return nil
		}
		return retAndContinue(s, ret)
	case "vcAssert":
		x.prove(s, x.oblName(f, constStr(site, 0)), args[1].(*Term))
		if !x.feasible(s, c.True) {
			return nil
		}
		return retAndContinue(s, ret)
	case "vcAssume":
		if !x.feasible(s, args[0].(*Term)) {
			return nil
		}
		x.assume(s, args[0].(*Term))
		return retAndContinue(s, ret)
	case "vcStop":
		return nil
	case "vcCover":
		if k := constStr(site, 0); x.noObl == 0 && !x.covers[k] {
			if r, _ := x.sol.check(s.pc, nil, nil, false); r != Unsat {
				x.covers[k] = true
			}
		}
		return retAndContinue(s, ret)
	case "vcImp":
		return retAndContinue(s, ret, c.Imp(args[0].(*Term), args[1].(*Term)))
	case "vcAnd":
		return retAndContinue(s, ret, c.And(args[0].(*Term), args[1].(*Term)))
	case "vcOr":
		return retAndContinue(s, ret, c.Or(args[0].(*Term), args[1].(*Term)))
	case "vcIff":
		return retAndContinue(s, ret, c.Eq(args[0].(*Term), args[1].(*Term)))
	case "vcIteInt":
		return retAndContinue(s, ret, c.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
	case "vcPanicked":
		return retAndContinue(s, ret, c.Bool(s.panicked))
	case "vcChoice":
		return retAndContinue(s, ret, c.Var("choice", 0))
	case "vcInt":
		return retAndContinue(s, ret, c.Var("int", 64))
	case "vcHint":
		if verify {
			s.hints = append(s.hints, hint{name: constStr(site, 0), fn: args[1].(*RefV)})
		}
		return retAndContinue(s, ret)
	case "vcModifies":
		v, t := x.rawArg(s, site, 0)
		f.mods = append(f.mods, x.modOf(v, t))
		return retAndContinue(s, ret)
	case "vcModifiesAll":
		f.modAny = true
		return retAndContinue(s, ret)
	case "vcHavoc":
		v, t := x.rawArg(s, site, 0)
		x.havocMod(s, x.modOf(v, t))
		return retAndContinue(s, ret)
	case "vcFresh":
		v, _ := x.rawArg(s, site, 0)
		var r *Term
		var set func(*Term)
		switch w := v.(type) {
		case *PtrV:
			r, set = w.R, func(t *Term) { w.R = t }
		case *SliceV:
			r, set = w.R, func(t *Term) { w.R = t }
		case *RefV:
			r, set = w.R, func(t *Term) { w.R = t }
		case *IfaceV:
			r = w.P
		default:
			throwf("vcFresh on %T", v)
		}
		if verify {
			x.prove(s, x.con.Name+": result is freshly allocated", c.Ule(c.BV(f.entryAlloc, 32), r))
		} else {
			x.anyFresh = true
			k := c.BV(f.entryAlloc+uint64(f.freshN), 32)
			f.freshN++
			if r.Op == OVar && set != nil {
				set(k)
			} else {
				x.assume(s, c.Eq(r, k))
			}
		}
		return retAndContinue(s, ret)
	case "vcIsFresh":
		v, _ := x.rawArg(s, site, 0)
		var r *Term
		switch w := v.(type) {
		case *PtrV:
			r = w.R
		case *SliceV:
			r = w.R
		case *RefV:
			r = w.R
		case *StringV:
			r = w.R
			return retAndContinue(s, ret, c.Or(c.Ule(c.BV(strRegion, 32), r), c.Ule(c.BV(f.entryAlloc, 32), r)))
		}
		return retAndContinue(s, ret, c.Ule(c.BV(f.entryAlloc, 32), r))
	case "vcBytesEq", "vcBytesStr", "vcSubEq":
		toS := func(v Value) *StringV {
			switch w := v.(type) {
			case *SliceV:
				return &StringV{w.R, w.O, w.L}
			case *StringV:
				return w
			}
			throwf("vcBytesEq on %T", v)
			return nil
		}
		a, b := toS(args[0]), toS(args[1])
		if c.Distinct(a.L, b.L) {
			return retAndContinue(s, ret, c.False)
		}
		return retAndContinue(s, ret, x.strEq(s, a, b))
	case "vcStrImmutable":
		v := args[0].(*StringV)
		return retAndContinue(s, ret, c.Or(c.Ule(c.BV(strRegion, 32), v.R), c.Eq(v.L, x.zero64())))
	case "vcSameArray":
		return retAndContinue(s, ret, c.Eq(args[0].(*SliceV).R, args[1].(*SliceV).R))
	case "vcArrayOff":
		return retAndContinue(s, ret, args[0].(*SliceV).O)
	case "vcArrayId":
		return retAndContinue(s, ret, c.Ext(args[0].(*SliceV).R, 64, false))
	case "vcStrArrayId":
		return retAndContinue(s, ret, c.Ext(args[0].(*StringV).R, 64, false))
	case "vcRaw":
		// contents of a slice up to capacity as a slice (spec only)
		v := args[0].(*SliceV)
		return retAndContinue(s, ret, &SliceV{R: v.R, O: x.zero64(), L: c.Add(v.O, v.C), C: c.Add(v.O, v.C)})
	case "vcId":
		v, _ := x.rawArg(s, site, 0)
		switch w := v.(type) {
		case *PtrV:
			return retAndContinue(s, ret, c.Ext(w.R, 64, false))
		case *RefV:
			return retAndContinue(s, ret, c.Ext(w.R, 64, false))
		case *IfaceV:
			return retAndContinue(s, ret, c.Bin(OBor, c.Bin(OShl, c.Ext(w.T, 64, false), c.BV(32, 64)), c.Ext(w.P, 64, false)))
		case *StringV:
			return retAndContinue(s, ret, c.Ext(x.kid(s, w), 64, false))
		case *SliceV:
			return retAndContinue(s, ret, c.Ext(w.R, 64, false))
		}
		throwf("vcId on %T", v)
	case "vcHeld", "vcHeldW":
		v, _ := x.rawArg(s, site, 0)
		p := v.(*PtrV)
		r := c.False
		for _, l := range s.locks {
			if p.Org != nil && l.field == p.Org.Field && !(l.read && fn.Name() == "vcHeldW") {
				r = c.Or(r, c.Eq(l.ref, p.R))
			}
		}
		return retAndContinue(s, ret, r)
	case "vcLocks":
		return retAndContinue(s, ret, c.BV(uint64(len(s.locks)), 64))
	case "vcFork":
		// explore f() separately (a concurrent activity), then continue without its effects
		s2 := s.clone()
		f2 := args[0].(*RefV)
		s2.locks = nil
		if f2.R.IsConst() {
			if cl := x.closures[f2.R.Val]; cl != nil {
				for _, ix := range cl.late {
					if p, ok := cl.bind[ix].(*PtrV); ok {
						x.storeV(s2, p.Elem, p, x.freshOpt(s2, "late", p.Elem, true))
					}
				}
			}
		}
		n := len(s2.frames)
		out := x.callValue(s2, &RefV{R: f2.R}, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, nil)
		for _, o := range out {
			if len(o.frames) > n {
				o.frames[n].forked = true
			}
		}
		var keep []*State
		for _, o := range out {
			if len(o.frames) > n {
				keep = append(keep, o)
			}
		}
		if ret != nil {
			ret(s, nil)
		}
		return append(one(s), keep...)
	case "vcCall":
		// call a (possibly opaque) func() from ghost code
		f2 := args[0].(*RefV)
		return x.callValue(s, &RefV{R: f2.R, Org: f2.Org}, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, ret)
	case "vcUF1":
		return retAndContinue(s, ret, c.UF("uf."+constStr(site, 0), 64, args[1].(*Term)))
	case "vcUF2":
		return retAndContinue(s, ret, c.UF("uf."+constStr(site, 0), 64, args[1].(*Term), args[2].(*Term)))
	case "vcVisited":
		// whether the innermost map iteration over keys of that type has delivered the key
		v, vt := x.rawArg(s, site, 0)
		key := x.mapKey(s, nil, v)
		r := c.False
		frs := append(append([]*Frame{}, x.hintFrames...), s.frames...)
		for fi := len(frs) - 1; fi >= 0 && r == c.False; fi-- {
			var best *IterV
			bn := ""
			for k, e := range frs[fi].env {
				if it, ok := e.(*IterV); ok && !it.IsStr && it.MapT != nil && typeKey(it.MapT.Key()) == typeKey(vt) && (len(k.Name()) > len(bn) || len(k.Name()) == len(bn) && k.Name() > bn) {
					best, bn = it, k.Name()
				}
			}
			if best != nil {
				r = x.sel(x.memOf(s, best.Vis, leaf{"", 0, 0}), best.Ref, key)
				break
			}
		}
		return retAndContinue(s, ret, r)
	case "vcThread":
		n := uint64(0)
		for _, fr := range s.frames {
			if fr.thread != nil {
				n++
			}
		}
		return retAndContinue(s, ret, c.BV(n, 64))
	case "vcFn":
		// identity of the innermost real function's contract-relevant frame name
		throwf("vcFn")
	}
	throwf("unknown intrinsic %s", fn.Name())
	return nil
}

func (x *Exec) oblName(f *Frame, n string) string {
	if f.con != nil {
		return n
	}
	return n
}

func (x *Exec) modOf(v Value, t types.Type) modEntry {
	switch w := v.(type) {
	case *PtrV:
		el := t.Underlying().(*types.Pointer).Elem()
		return modEntry{p: &PtrV{Key: w.Key, R: w.R, I: w.I, Elem: el}}
	case *SliceV:
		return modEntry{s: w, t: t}
	case *RefV:
		if mt, ok := t.Underlying().(*types.Map); ok {
			return modEntry{m: w, mt: mt, mt0: t}
		}
	}
	throwf("modifies clause on %s", t)
	return modEntry{}
}

// native models a few runtime primitives directly.
func (x *Exec) native(s *State, fn *ssa.Function, key string, args []Value, ret retFn) ([]*State, bool) {
	c := x.c
	f := s.top()
	var recvField string
	var recv *PtrV
	if len(args) > 0 {
		if p, ok := args[0].(*PtrV); ok {
			recv = p
			if p.Org != nil {
				recvField = p.Org.Field
			}
		}
	}
	if fn.Pkg == nil && fn.Object() == nil {
		return nil, false
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if recvField != "" && !f.spec && (pkg == "sync" || pkg == "time" || pkg == "sync/atomic") {
		if h := x.hookFor("mcall", recvField+"."+fn.Name()); h != nil {
			r := x.runHookRet(s, h, recv.Org, args[1:], func(s *State, res []Value) {
				if len(res) != fn.Signature.Results().Len() {
					res = x.freshResults(s, fn.Name(), fn.Signature.Results())
				}
				if ret != nil {
					ret(s, res)
				}
			}, nil)
			return r, true
		}
	}
	switch pkg {
	case "sync":
		switch key {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			return x.lockOp(s, recv, false, true, ret), true
		case "(*sync.RWMutex).RLock":
			return x.lockOp(s, recv, true, true, ret), true
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			return x.lockOp(s, recv, false, false, ret), true
		case "(*sync.RWMutex).RUnlock":
			return x.lockOp(s, recv, true, false, ret), true
		case "(*sync.Pool).Get":
			if h := x.hookFor("poolget", recvField); h != nil {
				return x.runHook(s, h, nil, nil, ret), true
			}
			if x.extern(key) != nil {
				return nil, false
			}
			x.externs["(*sync.Pool).Get"]++
			v := x.freshOpt(s, "pooled", fn.Signature.Results().At(0).Type(), false).(*IfaceV)
			x.assume(s, c.Neq(v.T, c.BV(0, 32)))
			return retAndContinue(s, ret, v), true
		case "(*sync.Pool).Put":
			if h := x.hookFor("poolput", recvField); h != nil {
				return x.runHook(s, h, nil, args[1:], ret), true
			}
			if x.extern(key) != nil {
				return nil, false
			}
			return retAndContinue(s, ret), true
		}
		return nil, false
	case "sync/atomic":
		if fn.Signature.Recv() != nil {
			return nil, false
		}
		return x.atomicOp(s, fn, args, ret)
	}
	if strings.HasSuffix(pkg, "/arpc/util") {
		switch fn.Name() {
		case "StrToBytes":
			v := args[0].(*StringV)
			x.externs["util.StrToBytes (trusted: aliases its argument)"]++
			return retAndContinue(s, ret, &SliceV{R: v.R, O: v.O, L: v.L, C: v.L}), true
		case "BytesToStr":
			v := args[0].(*SliceV)
			x.externs["util.BytesToStr (trusted: aliases its argument)"]++
			return retAndContinue(s, ret, &StringV{v.R, v.O, v.L}), true
		}
	}
	return nil, false
}

func (x *Exec) atomicOp(s *State, fn *ssa.Function, args []Value, ret retFn) ([]*State, bool) {
	c := x.c
	f := s.top()
	name := fn.Name()
	p := args[0].(*PtrV)
	t := p.Elem
	if !x.check(s, "nil dereference", c.Not(x.isNilPtr(p))) {
		return nil, true
	}
	if _, ok := t.Underlying().(*types.Basic); !ok {
		return nil, false
	}
	field := ""
	if p.Org != nil {
		field = p.Org.Field
	}
	vol := x.w.isVolatile(field, x.con) && !f.spec
	get := func() *Term {
		if vol {
			return x.freshOpt(s, "atomic", t, false).(*Term)
		}
		return x.load(s, t, p).(*Term)
	}
	hookRun := func(kind string, hargs []Value, res ...Value) ([]*State, bool) {
		if ret != nil {
			ret(s, res)
		}
		if h := x.hookFor(kind, field); h != nil && !f.spec {
			return x.runHook(s, h, p.Org, hargs, nil), true
		}
		return one(s), true
	}
	switch {
	case strings.HasPrefix(name, "Add"):
		old := get()
		n := c.Add(old, args[1].(*Term))
		x.storeV(s, t, p, n)
		return hookRun("atomicadd", []Value{args[1], n}, n)
	case strings.HasPrefix(name, "Load"):
		v := get()
		return hookRun("atomicload", []Value{v}, v)
	case strings.HasPrefix(name, "Store"):
		x.storeV(s, t, p, args[1])
		return hookRun("atomicstore", []Value{args[1]})
	case strings.HasPrefix(name, "CompareAndSwap"):
		old := get()
		eq := c.Eq(old, args[1].(*Term))
		x.storeV(s, t, p, c.Ite(eq, args[2].(*Term), old))
		return hookRun("cas", []Value{args[1], args[2], eq}, eq)
	}
	return nil, false
}

func (x *Exec) lockOp(s *State, p *PtrV, read, lock bool, ret retFn) []*State {
	c := x.c
	field := "?"
	if p.Org != nil {
		field = p.Org.Field
	}
	fnm := shortFn(s.top().fn)
	if lock {
		if x.opt.lockCheck {
			for _, l := range s.locks {
				if l.field == field && !(l.read && read) {
					x.prove(s, "C21.no lock is acquired again while held: "+field+" in "+fnm, c.Neq(l.ref, p.R))
				}
			}
		}
		s.locks = append(append([]heldLock{}, s.locks...), heldLock{field, p.R, read})
		if !x.opt.seq {
			x.havocGuarded(s, field, p)
		}
		for _, inv := range x.w.lockInvs[field] {
			if x.theoryOK(inv) {
				x.assume(s, x.evalSpecFn(s, inv.Fn, []Value{p.Org.Owner}))
			}
		}
		if ret != nil {
			ret(s, nil)
		}
		if h := x.hookFor("lock", field); h != nil && !s.top().spec {
			return x.runHook(s, h, p.Org, nil, nil)
		}
		return one(s)
	}
	found := -1
	for i := len(s.locks) - 1; i >= 0; i-- {
		l := s.locks[i]
		if l.field == field && l.read == read && (l.ref == p.R || x.valid(s, c.Eq(l.ref, p.R))) {
			found = i
			break
		}
	}
	if found < 0 {
		if x.opt.lockCheck {
			x.prove(s, "C21.only held locks are released: "+field+" in "+fnm, c.False)
		}
	} else {
		for _, inv := range x.w.lockInvs[field] {
			if x.theoryOK(inv) {
				x.prove(s, x.con.Prop()+".lock invariant "+inv.Fn.Name()+" restored in "+fnm, x.evalSpecFn(s, inv.Fn, []Value{p.Org.Owner}))
			}
		}
		n := append([]heldLock{}, s.locks[:found]...)
		s.locks = append(n, s.locks[found+1:]...)
	}
	if ret != nil {
		ret(s, nil)
	}
	if h := x.hookFor("unlock", field); h != nil && !s.top().spec {
		return x.runHook(s, h, p.Org, nil, nil)
	}
	return one(s)
}

func (x *Exec) evalSpecFn(s *State, fn *ssa.Function, args []Value) *Term {
	r := x.fnRef(fn)
	return x.evalSpec(s, &RefV{R: r}, args)
}

func (x *Exec) havocGuarded(s *State, field string, p *PtrV) {
	if p.Org == nil || p.Org.Owner == nil {
		return
	}
	own := p.Org.Owner
	st, ok := own.Elem.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for _, name := range x.w.guarded[field] {
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if fl.Name() != name {
				continue
			}
			if mt, ok := fl.Type().Underlying().(*types.Map); ok {
				// the map object may be replaced and its contents changed by others
				x.havocKey(s, mapDomKey(mt), leaf{"", 0, 0}, &havocSet{all: true})
				for _, l := range leavesOf(mt.Elem()) {
					x.havocKey(s, mapValKey(mt)+l.suf, l, &havocSet{all: true})
				}
			}
			for _, l := range leavesOf(fl.Type()) {
				x.havocKey(s, own.Key+"."+name+l.suf, l, &havocSet{refs: []*Term{own.R}})
			}
			if _, ok := fl.Type().Underlying().(*types.Map); ok {
				// guarded maps are initialised by the constructors
				r := x.load1(s, own.Key+"."+name, leaf{"", 32, 'r'}, own.R, x.zero64())
				x.assume(s, x.c.Neq(r, x.c.BV(0, 32)))
			}
		}
	}
}
