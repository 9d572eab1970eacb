package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- values ----

type Value interface{}

type Origin struct {
	Field string // "pkgname.Type.field" or "pkgname.var"
	Owner *PtrV
	Idx   *Term // index of the element, for fields ending in "[]"
}

type SliceV struct {
	R, O, L, C *Term
	Org        *Origin
}
type StringV struct{ R, O, L *Term }
type IfaceV struct {
	T, P *Term
	Org  *Origin
}
type PtrV struct {
	Key  string
	R, I *Term
	Elem types.Type
	Org  *Origin
	// cast: raw unsafe pointer
}

// RefV is a map, chan or func reference.
type RefV struct {
	R   *Term
	Org *Origin
}
type StructV struct{ F []Value }
type TupleV []Value

// IterV is a map iterator
type IterV struct {
	Map   *RefV
	MapT  *types.Map
	Vis   string // key of the ghost visited memory
	Ref   *Term
	IsStr bool
}

const (
	oldBound  = 0x40000000
	strRegion = 0x80000000
	litRegion = 0xC0000000
)

// ---- memory chains ----

type mkind uint8

const (
	mBase mkind = iota
	mStore
	mCopy
	mFill  // whole object ref := val
	mHavoc // refs satisfying pred take values from a fresh base
)

type Mem struct {
	kind   mkind
	prev   *Mem
	w      uint
	ref    *Term
	idx    *Term
	val    *Term
	n      *Term
	src    *Mem
	sref   *Term
	soff   *Term
	name   string
	bound  uint64 // refs read from here are < bound
	isRef  byte   // 0 no, 'r' heap ref, 's' string ref
	hav    *havocSet
	depth  int
	id     int
	noAxms bool
	havoc  bool
	axd    map[*Term]bool
	birth  int // variable birth index of a havocked base
}

type havocSet struct {
	all  bool
	refs []*Term
	lo   uint64
	hi   uint64 // refs in [lo,hi)
	// limited index range for a ref: parallel to refs, nil = whole object
	io, il []*Term
	// cond: when set, only refs satisfying it
}

type leaf struct {
	suf   string
	w     uint
	isRef byte
}

func elemKey(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		k := b.Kind()
		if k == types.Byte {
			return "uint8"
		}
		return types.Typ[k].Name()
	}
	return typeKey(t)
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func ptrKey(elem types.Type) string {
	if a, ok := elem.Underlying().(*types.Array); ok {
		return "E:" + elemKey(a.Elem())
	}
	return "P:" + typeKey(elem)
}

func intWidth(b *types.Basic) (uint, bool) { // width, signed
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Float32, types.Float64, types.UntypedFloat:
		return 64, true
	case types.UnsafePointer:
		return 32, false
	}
	return 0, false
}

// leaves of a type
func leavesOf(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []leaf{{"", 0, 0}}
		}
		if u.Info()&types.IsString != 0 {
			return []leaf{{"#r", 32, 's'}, {"#o", 64, 0}, {"#l", 64, 0}}
		}
		if u.Kind() == types.UnsafePointer {
			return []leaf{{"", 32, 'r'}}
		}
		w, _ := intWidth(u)
		if w == 0 {
			throwf("unsupported basic type %s", t)
		}
		return []leaf{{"", w, 0}}
	case *types.Slice:
		return []leaf{{"#r", 32, 'r'}, {"#o", 64, 0}, {"#l", 64, 0}, {"#c", 64, 0}}
	case *types.Interface:
		return []leaf{{"#t", 32, 0}, {"#p", 32, 'i'}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", 32, 'r'}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				out = append(out, leaf{"." + f.Name() + l.suf, l.w, l.isRef})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, leaf{"[]" + l.suf, l.w, l.isRef})
		}
		return out
	case *types.Tuple:
		throwf("tuple leaves")
	}
	throwf("unsupported type %s", t)
	return nil
}

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }
func throwf(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

func (x *Exec) newBase(key string, l leaf, bound uint64) *Mem {
	x.memN++
	x.baseN++
	return &Mem{kind: mBase, w: l.w, name: fmt.Sprintf("m%d.%s", x.baseN, strings.ReplaceAll(key, "github.com/lesismal/arpc", "arpc")), bound: bound, isRef: l.isRef, id: x.memN}
}

func (x *Exec) memOf(s *State, key string, l leaf) *Mem {
	if m, ok := s.mem[key]; ok {
		return m
	}
	if _, ok := x.keyLeaf[key]; !ok {
		x.keyLeaf[key] = l
	}
	// initial memory: shared for all states
	if m, ok := x.init[key]; ok {
		return m
	}
	m := x.newBase(key, l, oldBound)
	x.init[key] = m
	return m
}

func (x *Exec) push(m *Mem) *Mem {
	x.memN++
	m.id = x.memN
	m.w = m.prev.w
	m.isRef = m.prev.isRef
	m.depth = m.prev.depth + 1
	return m
}

type selKey struct {
	m        *Mem
	ref, idx *Term
}

func (x *Exec) sel(m *Mem, ref, idx *Term) *Term {
	k := selKey{m, ref, idx}
	if r, ok := x.selCache[k]; ok {
		return r
	}
	r := x.sel0(m, ref, idx)
	x.selCache[k] = r
	return r
}

func (x *Exec) havPred(h *havocSet, ref, idx *Term) *Term {
	c := x.c
	if h.all {
		return c.True
	}
	p := c.False
	for i, r := range h.refs {
		q := c.Eq(ref, r)
		if h.io != nil && h.io[i] != nil {
			q = c.And(q, c.Ult(c.Sub(idx, h.io[i]), h.il[i]))
		}
		p = c.Or(p, q)
	}
	if h.hi > h.lo {
		if ref.IsConst() {
			if ref.Val >= h.lo && ref.Val < h.hi {
				p = c.True
			}
		} else if !(refUb(ref) != 0 && refUb(ref) <= h.lo) {
			p = c.Or(p, c.And(c.Ule(c.BV(h.lo, 32), ref), c.Ult(ref, c.BV(h.hi, 32))))
		}
	}
	return p
}

func (x *Exec) baseSel(m *Mem, ref, idx *Term) *Term {
	c := x.c
	// literal strings
	if ref.IsConst() && ref.Val >= litRegion && m.w == 8 {
		if lit, ok := x.lits[ref.Val]; ok {
			if idx.IsConst() {
				if idx.Val < uint64(len(lit)) {
					return c.BV(uint64(lit[idx.Val]), 8)
				}
				return c.BV(0, 8)
			}
			r := c.BV(0, 8)
			for i := len(lit) - 1; i >= 0; i-- {
				r = c.Ite(c.Eq(idx, c.BV(uint64(i), 64)), c.BV(uint64(lit[i]), 8), r)
			}
			return r
		}
	}
	// objects in the immutable region have the same content in every base
	t := c.UF(m.name, m.w, ref, idx)
	if t.Hist < m.birth {
		t.Hist = m.birth
	}
	if m.noAxms {
		return t
	}
	switch m.isRef {
	case 'r', 'i':
		if !m.axd[t] {
			if m.axd == nil {
				m.axd = map[*Term]bool{}
			}
			m.axd[t] = true
			b := c.BV(m.bound, 32)
			if u := refUb(ref); u != 0 && u <= m.bound {
				x.sol.Axiom(t, c.Ult(t, b))
				t.Ub = m.bound
			} else if !x.anyFresh {
				// objects allocated after the base are initialised explicitly: convention for the base
				x.sol.Axiom(t, c.Ult(t, b))
			} else {
				x.sol.Axiom(t, c.And(c.Ult(t, c.BV(strRegion, 32)), c.Or(c.Ule(b, ref), c.Ult(t, b))))
			}
		}
	case 's':
		if t.Lo == 0 && !m.havoc {
			if u := refUb(ref); u != 0 && u <= m.bound {
				x.sol.Axiom(t, c.And(c.Ule(c.BV(strRegion, 32), t), c.Ult(t, c.BV(litRegion, 32))))
				t.Lo = strRegion
				t.Ub = litRegion
			}
		}
	}
	return t
}

func (x *Exec) sel0(m *Mem, ref, idx *Term) *Term {
	c := x.c
	type pend struct{ cond, val *Term }
	var ps []pend
	var res *Term
loop:
	for {
		switch m.kind {
		case mBase:
			res = x.baseSel(m, ref, idx)
			break loop
		case mStore:
			e := c.And(c.Eq(ref, m.ref), c.Eq(idx, m.idx))
			if e.IsTrue() {
				res = m.val
				break loop
			}
			if !e.IsFalse() {
				ps = append(ps, pend{e, m.val})
			}
		case mFill:
			e := c.Eq(ref, m.ref)
			if e.IsTrue() {
				res = m.val
				break loop
			}
			if !e.IsFalse() {
				ps = append(ps, pend{e, m.val})
			}
		case mCopy:
			e := c.And(c.Eq(ref, m.ref), c.Ult(c.Sub(idx, m.idx), m.n))
			if !e.IsFalse() {
				v := x.sel(m.src, m.sref, c.Add(c.Sub(idx, m.idx), m.soff))
				if e.IsTrue() {
					res = v
					break loop
				}
				ps = append(ps, pend{e, v})
			}
		case mHavoc:
			e := x.havPred(m.hav, ref, idx)
			if !e.IsFalse() {
				// strings in the immutable region survive
				if m.w == 8 && !m.hav.all {
				} else if m.w == 8 {
					e = c.And(e, c.Ult(ref, c.BV(strRegion, 32)))
					if refLo(ref) >= strRegion {
						e = c.False
					} else if refUb(ref) != 0 && refUb(ref) <= strRegion {
						e = c.True
					}
				}
				if !e.IsFalse() {
					v := x.baseSel(m.src, ref, idx)
					if e.IsTrue() {
						res = v
						break loop
					}
					ps = append(ps, pend{e, v})
				}
			}
		}
		m = m.prev
	}
	for i := len(ps) - 1; i >= 0; i-- {
		res = c.Ite(ps[i].cond, ps[i].val, res)
	}
	return res
}

func (x *Exec) setMem(s *State, key string, m *Mem) { s.mem[key] = m }

func (x *Exec) store1(s *State, key string, l leaf, ref, idx, val *Term) {
	m := x.memOf(s, key, l)
	if val.W != m.w {
		panic(fmt.Sprintf("store width %s: %d vs %d", key, val.W, m.w))
	}
	// overwrite of same cell
	if m.kind == mStore && m.ref == ref && m.idx == idx {
		m = m.prev
	}
	x.noteWrite(s, key, l, ref)
	x.setMem(s, key, x.push(&Mem{kind: mStore, prev: m, ref: ref, idx: idx, val: val}))
}

func (x *Exec) load1(s *State, key string, l leaf, ref, idx *Term) *Term {
	return x.sel(x.memOf(s, key, l), ref, idx)
}

// noteWrite logs writes for loop-modified sets and frame checks.
func (x *Exec) noteWrite(s *State, key string, l leaf, ref *Term) {
	for _, sk := range x.sinks {
		sk.add(key, l, ref)
	}
	if s.fctx != nil {
		x.frameCheck(s, key, ref)
	}
}

type wsink struct {
	mark  int    // variable birth index at loop head
	alloc uint64 // alloc counter at loop head
	keys  map[string]*wkey
	order []string
}
type wkey struct {
	l     leaf
	all   bool
	fresh bool
	refs  map[*Term]bool
}

func (w *wsink) add(key string, l leaf, ref *Term) {
	k := w.keys[key]
	if k == nil {
		k = &wkey{l: l, refs: map[*Term]bool{}}
		w.keys[key] = k
		w.order = append(w.order, key)
	}
	if ref.IsConst() && ref.Val >= w.alloc && ref.Val < strRegion {
		k.fresh = true
		return
	}
	if ref.IsConst() && ref.Val >= 0xD0000000 {
		if ref.Val-0xD0000000+oldBound >= w.alloc {
			return
		}
	}
	if ref.Hist > w.mark {
		k.all = true
		return
	}
	k.refs[ref] = true
}

func (w *wsink) merge(o *wsink) bool { // adds o into w; true if changed
	ch := false
	for _, key := range o.order {
		ok := o.keys[key]
		k := w.keys[key]
		if k == nil {
			k = &wkey{l: ok.l, refs: map[*Term]bool{}}
			w.keys[key] = k
			w.order = append(w.order, key)
			ch = true
		}
		if ok.all && !k.all {
			k.all = true
			ch = true
		}
		if ok.fresh && !k.fresh {
			k.fresh = true
			ch = true
		}
		for r := range ok.refs {
			if !k.refs[r] {
				k.refs[r] = true
				ch = true
			}
		}
	}
	return ch
}

// havocKey replaces the contents of key for the given set.
func (x *Exec) havocKey(s *State, key string, l leaf, h *havocSet) {
	m := x.memOf(s, key, l)
	if h.all {
		for _, sk := range x.sinks {
			k := sk.keys[key]
			if k == nil {
				k = &wkey{l: l, refs: map[*Term]bool{}}
				sk.keys[key] = k
				sk.order = append(sk.order, key)
			}
			k.all = true
		}
	} else {
		for _, r := range h.refs {
			x.noteWrite(s, key, l, r)
		}
	}
	if _, ok := x.keyLeaf[key]; !ok {
		x.keyLeaf[key] = l
	}
	b := x.newBase(key, l, s.alloc)
	b.havoc = true
	x.c.nvar++
	b.birth = x.c.nvar
	x.setMem(s, key, x.push(&Mem{kind: mHavoc, prev: m, src: b, hav: h}))
}

// ---- typed load/store ----

func (x *Exec) zero64() *Term { return x.c.BV(0, 64) }

func (x *Exec) wfSlice(v *SliceV) {
	// attach well-formedness to the length term if symbolic
	c := x.c
	if v.L.IsConst() && v.C.IsConst() && v.O.IsConst() {
		return
	}
	k := [4]int{v.R.ID, v.O.ID, v.L.ID, v.C.ID}
	if x.wfDone[k] {
		return
	}
	x.wfDone[k] = true
	lim := c.BV(1<<40, 64)
	ax := c.And(c.Ule(v.L, v.C), c.Ule(v.C, lim), c.Ule(v.O, lim), c.Imp(c.Eq(v.R, c.BV(0, 32)), c.Eq(v.C, x.zero64())))
	for _, t := range []*Term{v.L, v.C, v.O, v.R} {
		if t.Op == OVar || t.Op == OUF {
			x.sol.Axiom(t, ax)
		}
	}
	for _, t := range []*Term{v.L, v.C, v.O} {
		if t.Op == OVar || t.Op == OUF {
			t.Mx = 1 << 40
		}
	}
}

// small attaches the bound on lengths to a term.
func (x *Exec) small(t *Term) {
	if t.Mx == 0 {
		x.sol.Axiom(t, x.c.Ule(t, x.c.BV(1<<40, 64)))
		t.Mx = 1 << 40
	}
}

func (x *Exec) wfString(v *StringV) {
	c := x.c
	if v.L.IsConst() && v.O.IsConst() {
		return
	}
	k := [4]int{v.R.ID, v.O.ID, v.L.ID, -1}
	if x.wfDone[k] {
		return
	}
	x.wfDone[k] = true
	_ = c
	for _, t := range []*Term{v.L, v.O} {
		if t.Op == OVar || t.Op == OUF {
			x.small(t)
		}
	}
}

// fromLeaves builds a value of type t from leaf terms (consumed in order).
func (x *Exec) fromLeaves(t types.Type, ls *[]*Term, wf bool) Value {
	take := func() *Term { r := (*ls)[0]; *ls = (*ls)[1:]; return r }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			v := &StringV{take(), take(), take()}
			if wf {
				x.wfString(v)
			}
			return v
		}
		if u.Kind() == types.UnsafePointer {
			return &PtrV{Key: "P:unsafe", R: take(), I: x.zero64(), Elem: nil}
		}
		return take()
	case *types.Slice:
		v := &SliceV{R: take(), O: take(), L: take(), C: take()}
		if wf {
			x.wfSlice(v)
		}
		return v
	case *types.Interface:
		tt := take()
		pp := take()
		return &IfaceV{T: tt, P: pp}
	case *types.Pointer:
		return &PtrV{Key: ptrKey(u.Elem()), R: take(), I: x.zero64(), Elem: u.Elem()}
	case *types.Map, *types.Chan, *types.Signature:
		return &RefV{R: take()}
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.fromLeaves(u.Field(i).Type(), ls, wf))
		}
		return sv
	case *types.Array:
		throwf("array value %s", t)
	}
	throwf("fromLeaves %s", t)
	return nil
}

// toLeaves flattens a value of type t.
func (x *Exec) toLeaves(t types.Type, v Value) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			sv := v.(*StringV)
			return []*Term{sv.R, sv.O, sv.L}
		}
		if u.Kind() == types.UnsafePointer {
			if p, ok := v.(*PtrV); ok {
				return []*Term{p.R}
			}
		}
		return []*Term{v.(*Term)}
	case *types.Slice:
		sv := v.(*SliceV)
		return []*Term{sv.R, sv.O, sv.L, sv.C}
	case *types.Interface:
		iv := v.(*IfaceV)
		return []*Term{iv.T, iv.P}
	case *types.Pointer:
		p := v.(*PtrV)
		if p.Key != ptrKey(u.Elem()) || !(p.I.IsConst() && p.I.Val == 0) {
			if p.R.IsConst() && p.R.Val == 0 {
				return []*Term{p.R}
			}
			return []*Term{x.interiorRef(p)}
		}
		return []*Term{p.R}
	case *types.Map, *types.Chan, *types.Signature:
		return []*Term{v.(*RefV).R}
	case *types.Struct:
		sv := v.(*StructV)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.toLeaves(u.Field(i).Type(), sv.F[i])...)
		}
		return out
	case *types.Array:
		if u.Len() == 0 {
			return nil
		}
	}
	throwf("toLeaves %s", t)
	return nil
}

// interiorRef gives an opaque ref for an interior pointer that is stored somewhere.
func (x *Exec) interiorRef(p *PtrV) *Term {
	t := x.c.UF("interior."+p.Key, 32, p.R, p.I)
	if t.Ub == 0 {
		x.sol.Axiom(t, x.c.And(x.c.Ult(t, x.c.BV(oldBound, 32)), x.c.Neq(t, x.c.BV(0, 32))))
		t.Ub = oldBound
	}
	return t
}

func (x *Exec) load(s *State, t types.Type, p *PtrV) Value {
	ls := leavesOf(t)
	terms := make([]*Term, len(ls))
	for i, l := range ls {
		terms[i] = x.load1(s, p.Key+l.suf, l, p.R, p.I)
	}
	// a slice read from memory is well formed, also when it is not known which store wrote it
	if _, ok := t.Underlying().(*types.Slice); ok && (terms[2].Op == OIte || terms[3].Op == OIte) {
		c := x.c
		lim := c.BV(1<<40, 64)
		x.assume(s, c.And(c.Ule(terms[2], terms[3]), c.Ule(terms[3], lim), c.Ule(terms[1], lim), c.Imp(c.Eq(terms[0], c.BV(0, 32)), c.Eq(terms[3], x.zero64()))))
	}
	return x.fromLeaves(t, &terms, true)
}

func (x *Exec) storeV(s *State, t types.Type, p *PtrV, v Value) {
	if a, ok := t.Underlying().(*types.Array); ok {
		if a.Len() == 0 {
			return
		}
		if v == nil { // zero array
			for _, l := range leavesOf(a.Elem()) {
				k := p.Key + "[]" + l.suf
				if strings.HasPrefix(p.Key, "E:") {
					k = p.Key + l.suf
				}
				x.fill(s, k, l, p.R)
			}
			return
		}
		throwf("array store")
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		sv, ok := v.(*StructV)
		if !ok {
			throwf("struct store of %T", v)
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			x.storeV(s, f.Type(), &PtrV{Key: p.Key + "." + f.Name(), R: p.R, I: p.I, Elem: f.Type()}, sv.F[i])
		}
		return
	}
	ls := leavesOf(t)
	terms := x.toLeaves(t, v)
	for i, l := range ls {
		x.store1(s, p.Key+l.suf, l, p.R, p.I, terms[i])
	}
}

func (x *Exec) fill(s *State, key string, l leaf, ref *Term) {
	m := x.memOf(s, key, l)
	x.noteWrite(s, key, l, ref)
	var z *Term
	if l.w == 0 {
		z = x.c.False
	} else {
		z = x.c.BV(0, l.w)
	}
	x.setMem(s, key, x.push(&Mem{kind: mFill, prev: m, ref: ref, val: z}))
}

func (x *Exec) zero(t types.Type) Value {
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return c.False
		}
		if u.Info()&types.IsString != 0 {
			return x.lit("")
		}
		if u.Kind() == types.UnsafePointer {
			return &PtrV{Key: "P:unsafe", R: c.BV(0, 32), I: x.zero64()}
		}
		if u.Kind() == types.UntypedNil {
			return &PtrV{Key: "P:nil", R: c.BV(0, 32), I: x.zero64()}
		}
		w, _ := intWidth(u)
		return c.BV(0, w)
	case *types.Slice:
		return &SliceV{R: c.BV(0, 32), O: x.zero64(), L: x.zero64(), C: x.zero64()}
	case *types.Interface:
		return &IfaceV{T: c.BV(0, 32), P: c.BV(0, 32)}
	case *types.Pointer:
		return &PtrV{Key: ptrKey(u.Elem()), R: c.BV(0, 32), I: x.zero64(), Elem: u.Elem()}
	case *types.Map, *types.Chan, *types.Signature:
		return &RefV{R: c.BV(0, 32)}
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(u.At(i).Type()))
		}
		return tv
	case *types.Array:
		return nil
	}
	throwf("zero %s", t)
	return nil
}

// fresh makes an arbitrary (pre-existing or environment) value of type t.
func (x *Exec) fresh(s *State, hint string, t types.Type) Value {
	return x.freshOpt(s, hint, t, false)
}

// freshOpt: anyStr drops the assumption that strings are immutable pre-existing objects.
func (x *Exec) freshOpt(s *State, hint string, t types.Type, anyStr bool) Value {
	c := x.c
	if _, ok := t.Underlying().(*types.Array); ok {
		throwf("arbitrary array value")
	}
	ls := leavesOf(t)
	terms := make([]*Term, len(ls))
	for i, l := range ls {
		v := c.Var(hint+l.suf, l.w)
		switch l.isRef {
		case 'r', 'i':
			x.sol.Axiom(v, c.Ult(v, c.BV(s.alloc, 32)))
			v.Ub = s.alloc
		case 's':
			if anyStr {
				break
			}
			x.sol.Axiom(v, c.And(c.Ule(c.BV(strRegion, 32), v), c.Ult(v, c.BV(litRegion, 32))))
			v.Lo = strRegion
			v.Ub = litRegion
		}
		terms[i] = v
	}
	return x.fromLeaves(t, &terms, true)
}

func (x *Exec) lit(str string) *StringV {
	c := x.c
	r, ok := x.litRef[str]
	if !ok {
		r = litRegion + uint64(len(x.litRef))
		x.litRef[str] = r
		x.lits[r] = str
	}
	return &StringV{c.BV(r, 32), x.zero64(), c.BV(uint64(len(str)), 64)}
}

func (x *Exec) alloc(s *State) *Term {
	r := x.allocN
	if r > oldBound+0x2f000000 {
		throwf("allocation id space exhausted")
	}
	x.allocN++
	s.alloc = x.allocN
	return x.c.BV(r, 32)
}

var byteLeaf = leaf{"", 8, 0}

const bytesKey = "E:uint8"

func (x *Exec) byteAt(s *State, ref, idx *Term) *Term {
	return x.load1(s, bytesKey, byteLeaf, ref, idx)
}
