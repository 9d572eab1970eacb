package main

// Hash-consed bit-vector/boolean terms with a small simplifier.

import (
	"fmt"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // bv or bool constant
	OVar
	OUF
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // val = lo, width = result width
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// Term: W==0 means Bool.
type Term struct {
	ID   int
	Op   Op
	W    uint
	Val  uint64
	Name string
	Args []*Term
	Ub   uint64 // for refs: value < Ub known (0 = unknown)
	Lo   uint64 // for refs: value >= Lo known
	Mx   uint64 // for 64-bit values: value <= Mx known (0 = unknown)
	Hist int    // max birth index of contained variables
}

type Ctx struct {
	tab   map[string]*Term
	n     int
	nvar  int
	True  *Term
	False *Term
	vars  []*Term
	ufs   map[string]string // declared UFs: name -> signature
	ufOrd []string
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, ufs: map[string]string{}}
	c.True = c.mk(Term{Op: OConst, W: 0, Val: 1})
	c.False = c.mk(Term{Op: OConst, W: 0, Val: 0})
	return c
}

func (c *Ctx) mk(t Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|%d|%s", t.Op, t.W, t.Val, t.Name)
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	k := sb.String()
	if r, ok := c.tab[k]; ok {
		return r
	}
	nt := t
	c.n++
	nt.ID = c.n
	for _, a := range t.Args {
		if a.Hist > nt.Hist {
			nt.Hist = a.Hist
		}
	}
	c.tab[k] = &nt
	return &nt
}

func mask(w uint) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) BV(v uint64, w uint) *Term { return c.mk(Term{Op: OConst, W: w, Val: v & mask(w)}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var makes a fresh variable.
func (c *Ctx) Var(hint string, w uint) *Term {
	c.nvar++
	t := c.mk(Term{Op: OVar, W: w, Name: fmt.Sprintf("%s!%d", sanitize(hint), c.nvar)})
	t.Hist = c.nvar
	c.vars = append(c.vars, t)
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (c *Ctx) UF(name string, w uint, args ...*Term) *Term {
	name = sanitize(name)
	if _, ok := c.ufs[name]; !ok {
		var sb strings.Builder
		sb.WriteString("(declare-fun |" + name + "| (")
		for _, a := range args {
			sb.WriteString(sortStr(a.W) + " ")
		}
		sb.WriteString(") " + sortStr(w) + ")")
		c.ufs[name] = sb.String()
		c.ufOrd = append(c.ufOrd, name)
	}
	return c.mk(Term{Op: OUF, W: w, Name: name, Args: args})
}

func sortStr(w uint) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.Val == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.Val == 0 }

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.Val == 0)
	}
	if a.Op == ONot {
		return a.Args[0]
	}
	return c.mk(Term{Op: ONot, Args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.IsTrue() {
			return true
		}
		if a.IsFalse() {
			return false
		}
		if a.Op == OAnd {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.ID] {
			return true
		}
		if a.Op == ONot && seen[a.Args[0].ID] {
			return false
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	for _, a := range out {
		if a.Op == ONot && seen[a.Args[0].ID] {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(Term{Op: OAnd, Args: out})
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.IsTrue() {
			return c.True
		}
		if a.IsFalse() {
			continue
		}
		if a.Op == OOr {
			for _, x := range a.Args {
				if !seen[x.ID] {
					seen[x.ID] = true
					out = append(out, x)
				}
			}
			continue
		}
		if seen[a.ID] {
			continue
		}
		seen[a.ID] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.Op == ONot && seen[a.Args[0].ID] {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(Term{Op: OOr, Args: out})
}

func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Xor(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.IsTrue() {
		return a
	}
	if p.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a.IsTrue() && b.IsFalse() {
			return p
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not(p)
		}
		if a.IsTrue() {
			return c.Or(p, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(p), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.IsFalse() {
			return c.And(p, a)
		}
	}
	if p.Op == ONot {
		return c.Ite(p.Args[0], b, a)
	}
	if b.Op == OIte && b.Args[0] == p {
		return c.Ite(p, a, b.Args[2])
	}
	if a.Op == OIte && a.Args[0] == p {
		return c.Ite(p, a.Args[1], b)
	}
	t := c.mk(Term{Op: OIte, W: a.W, Args: []*Term{p, a, b}})
	if t.Ub == 0 {
		ua, ub := refUb(a), refUb(b)
		if ua != 0 && ub != 0 {
			if ua > ub {
				t.Ub = ua
			} else {
				t.Ub = ub
			}
		}
		la, lb := refLo(a), refLo(b)
		if la < lb {
			t.Lo = la
		} else {
			t.Lo = lb
		}
	}
	return t
}

func refUb(t *Term) uint64 {
	if t.IsConst() {
		return t.Val + 1
	}
	return t.Ub
}
func refLo(t *Term) uint64 {
	if t.IsConst() {
		return t.Val
	}
	return t.Lo
}

// definitely different by range or linear difference
func (c *Ctx) Distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.IsConst() && b.IsConst() {
		return a.Val != b.Val
	}
	if a.W > 0 && a.W <= 32 {
		ua, ub := refUb(a), refUb(b)
		if ua != 0 && refLo(b) >= ua {
			return true
		}
		if ub != 0 && refLo(a) >= ub {
			return true
		}
	}
	if a.W == 64 {
		d := c.Sub(a, b)
		if d.IsConst() && d.Val != 0 {
			return true
		}
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s %s", a.W, b.W, a, b))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Val == b.Val)
	}
	if a.W == 0 {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if c.Distinct(a, b) {
		return c.False
	}
	if a.W > 0 {
		// ite(p,x,y) == const with constants
		for i := 0; i < 2; i++ {
			if a.Op == OIte && b.IsConst() && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
				return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
			}
			a, b = b, a
		}
		if a.Op == OZext && b.IsConst() {
			in := a.Args[0]
			if b.Val > mask(in.W) {
				return c.False
			}
			return c.Eq(in, c.BV(b.Val, in.W))
		}
		if b.Op == OZext && a.IsConst() {
			return c.Eq(b, a)
		}
		if a.Op == OZext && b.Op == OZext && a.Args[0].W == b.Args[0].W {
			return c.Eq(a.Args[0], b.Args[0])
		}
	}
	if a.Op == OAdd || b.Op == OAdd {
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.Val == 0)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(Term{Op: OEq, Args: []*Term{a, b}})
}

func (c *Ctx) Neq(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// linear form
type lin struct {
	k  uint64
	m  map[*Term]uint64
	ts []*Term
}

func (c *Ctx) linOf(t *Term, coef uint64, l *lin) {
	switch t.Op {
	case OConst:
		l.k += coef * t.Val
	case OAdd:
		for _, a := range t.Args {
			c.linOf(a, coef, l)
		}
	case OMul:
		if t.Args[0].IsConst() {
			c.linOf(t.Args[1], coef*t.Args[0].Val, l)
			return
		}
		fallthrough
	default:
		if _, ok := l.m[t]; !ok {
			l.ts = append(l.ts, t)
		}
		l.m[t] += coef
	}
}

func (c *Ctx) fromLin(l *lin, w uint) *Term {
	var args []*Term
	sort.Slice(l.ts, func(i, j int) bool { return l.ts[i].ID < l.ts[j].ID })
	for _, t := range l.ts {
		k := l.m[t] & mask(w)
		if k == 0 {
			continue
		}
		if k == 1 {
			args = append(args, t)
		} else {
			args = append(args, c.mk(Term{Op: OMul, W: w, Args: []*Term{c.BV(k, w), t}}))
		}
	}
	k := l.k & mask(w)
	if len(args) == 0 {
		return c.BV(k, w)
	}
	if k != 0 {
		args = append(args, c.BV(k, w))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk(Term{Op: OAdd, W: w, Args: args})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.W != b.W {
		panic("Add width")
	}
	l := &lin{m: map[*Term]uint64{}}
	c.linOf(a, 1, l)
	c.linOf(b, 1, l)
	return c.fromLin(l, a.W)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := &lin{m: map[*Term]uint64{}}
	c.linOf(a, 1, l)
	c.linOf(b, ^uint64(0), l)
	return c.fromLin(l, a.W)
}
func (c *Ctx) AddK(a *Term, k int64) *Term { return c.Add(a, c.BV(uint64(k), a.W)) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsConst() || b.IsConst() {
		if b.IsConst() {
			a, b = b, a
		}
		l := &lin{m: map[*Term]uint64{}}
		c.linOf(b, a.Val, l)
		return c.fromLin(l, a.W)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(Term{Op: OMul, W: a.W, Args: []*Term{a, b}})
}

func sx(v uint64, w uint) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("Bin width mismatch %v %d %d", opNames[op], a.W, b.W))
	}
	w := a.W
	switch op {
	case OAdd:
		return c.Add(a, b)
	case OMul:
		return c.Mul(a, b)
	case OEq:
		return c.Eq(a, b)
	}
	if a.IsConst() && b.IsConst() {
		x, y := a.Val, b.Val
		switch op {
		case OUdiv:
			if y != 0 {
				return c.BV(x/y, w)
			}
		case OUrem:
			if y != 0 {
				return c.BV(x%y, w)
			}
		case OSdiv:
			if y != 0 {
				return c.BV(uint64(sx(x, w)/sx(y, w)), w)
			}
		case OSrem:
			if y != 0 {
				return c.BV(uint64(sx(x, w)%sx(y, w)), w)
			}
		case OBand:
			return c.BV(x&y, w)
		case OBor:
			return c.BV(x|y, w)
		case OBxor:
			return c.BV(x^y, w)
		case OShl:
			if y >= uint64(w) {
				return c.BV(0, w)
			}
			return c.BV(x<<y, w)
		case OLshr:
			if y >= uint64(w) {
				return c.BV(0, w)
			}
			return c.BV(x>>y, w)
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return c.BV(uint64(sx(x, w)>>y), w)
		case OUlt:
			return c.Bool(x < y)
		case OUle:
			return c.Bool(x <= y)
		case OSlt:
			return c.Bool(sx(x, w) < sx(y, w))
		case OSle:
			return c.Bool(sx(x, w) <= sx(y, w))
		}
	}
	switch op {
	case OBand, OBor, OBxor:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			switch {
			case op == OBand && b.Val == 0:
				return b
			case op == OBand && b.Val == mask(w):
				return a
			case (op == OBor || op == OBxor) && b.Val == 0:
				return a
			case op == OBor && b.Val == mask(w):
				return b
			}
		}
		if a == b {
			if op == OBxor {
				return c.BV(0, w)
			}
			return a
		}
		if !b.IsConst() && a.ID > b.ID {
			a, b = b, a
		}
	case OShl, OLshr, OAshr:
		if b.IsConst() && b.Val == 0 {
			return a
		}
		// (zext x) >> k and shifts of bytes assembled are left to the solver
	case OUlt:
		if a == b {
			return c.False
		}
		if b.IsConst() && b.Val == 0 {
			return c.False
		}
		if a.IsConst() && a.Val == mask(w) {
			return c.False
		}
		if a.Op == OZext && b.IsConst() && b.Val > mask(a.Args[0].W) {
			return c.True
		}
	case OUle:
		if a == b {
			return c.True
		}
		if a.IsConst() && a.Val == 0 {
			return c.True
		}
		if b.IsConst() && b.Val == mask(w) {
			return c.True
		}
		if a.Op == OZext && b.IsConst() && b.Val >= mask(a.Args[0].W) {
			return c.True
		}
		return c.Not(c.Bin(OUlt, b, a))
	case OSlt:
		if a == b {
			return c.False
		}
	case OSle:
		if a == b {
			return c.True
		}
		return c.Not(c.Bin(OSlt, b, a))
	}
	if op == OUlt || op == OSlt {
		if la, ha, oka := srng(a, 6); oka {
			if lb, hb, okb := srng(b, 6); okb {
				top := int64(mask(w) >> 1)
				switch {
				case la >= 0 && lb >= 0 && (op == OUlt || (ha <= top && hb <= top)):
					if ha < lb {
						return c.True
					}
					if la >= hb {
						return c.False
					}
					op = OUlt
				case w == 64 && op == OUlt && ha < 0 && lb >= 0:
					return c.False
				case w == 64 && op == OUlt && la >= 0 && hb < 0:
					return c.True
				case w == 64 && op == OSlt:
					if ha < lb {
						return c.True
					}
					if la >= hb {
						return c.False
					}
				}
			}
		}
	}
	rw := w
	if op == OUlt || op == OUle || op == OSlt || op == OSle {
		rw = 0
	}
	return c.mk(Term{Op: op, W: rw, Args: []*Term{a, b}})
}

func (c *Ctx) Ult(a, b *Term) *Term { return c.Bin(OUlt, a, b) }
func (c *Ctx) Ule(a, b *Term) *Term { return c.Bin(OUle, a, b) }
func (c *Ctx) Slt(a, b *Term) *Term { return c.Bin(OSlt, a, b) }
func (c *Ctx) Sle(a, b *Term) *Term { return c.Bin(OSle, a, b) }

func (c *Ctx) Bnot(a *Term) *Term {
	if a.IsConst() {
		return c.BV(^a.Val, a.W)
	}
	if a.Op == OBnot {
		return a.Args[0]
	}
	return c.mk(Term{Op: OBnot, W: a.W, Args: []*Term{a}})
}

func (c *Ctx) Ext(a *Term, w uint, signed bool) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		return c.Extract(a, 0, w)
	}
	if a.IsConst() {
		if signed {
			return c.BV(uint64(sx(a.Val, a.W)), w)
		}
		return c.BV(a.Val, w)
	}
	if !signed && a.Op == OZext {
		return c.Ext(a.Args[0], w, false)
	}
	if signed && a.Op == OZext {
		return c.Ext(a.Args[0], w, false)
	}
	op := OZext
	if signed {
		op = OSext
	}
	return c.mk(Term{Op: op, W: w, Args: []*Term{a}})
}

func (c *Ctx) Extract(a *Term, lo uint, w uint) *Term {
	if lo == 0 && a.W == w {
		return a
	}
	if a.IsConst() {
		return c.BV(a.Val>>lo, w)
	}
	if (a.Op == OZext || a.Op == OSext) && lo == 0 {
		in := a.Args[0]
		if in.W == w {
			return in
		}
		if in.W > w {
			return c.Extract(in, 0, w)
		}
		return c.Ext(in, w, a.Op == OSext)
	}
	if a.Op == OZext && lo >= a.Args[0].W {
		return c.BV(0, w)
	}
	if a.Op == OZext && lo+w <= a.Args[0].W {
		return c.Extract(a.Args[0], lo, w)
	}
	if a.Op == OExtract {
		return c.Extract(a.Args[0], uint(a.Val)+lo, w)
	}
	switch a.Op {
	case OBand, OBor, OBxor:
		return c.Bin(a.Op, c.Extract(a.Args[0], lo, w), c.Extract(a.Args[1], lo, w))
	case OBnot:
		return c.Bnot(c.Extract(a.Args[0], lo, w))
	case OIte:
		return c.Ite(a.Args[0], c.Extract(a.Args[1], lo, w), c.Extract(a.Args[2], lo, w))
	case OLshr:
		if a.Args[1].IsConst() {
			k := uint(a.Args[1].Val)
			if k+lo+w <= a.W {
				return c.Extract(a.Args[0], lo+k, w)
			}
		}
	case OShl:
		if a.Args[1].IsConst() {
			k := uint(a.Args[1].Val)
			if lo >= k {
				return c.Extract(a.Args[0], lo-k, w)
			}
			if lo+w <= k {
				return c.BV(0, w)
			}
		}
	}
	return c.mk(Term{Op: OExtract, W: w, Val: uint64(lo), Args: []*Term{a}})
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.Val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("%#x", t.Val)
	case OVar:
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	n := opNames[t.Op]
	switch t.Op {
	case OUF:
		n = t.Name
	case OZext:
		n = "zext"
	case OSext:
		n = "sext"
	case OExtract:
		n = fmt.Sprintf("extr%d", t.Val)
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	for _, a := range t.Args {
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

// smtDef renders one node given the rendering of its args.
func smtNode(t *Term, arg func(*Term) string) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.Val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.Val, t.W)
	case OVar:
		return "|" + t.Name + "|"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.Op {
	case OUF:
		sb.WriteString("|" + t.Name + "|")
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.W-t.Args[0].W)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.W-t.Args[0].W)
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", uint(t.Val)+t.W-1, t.Val)
	default:
		sb.WriteString(opNames[t.Op])
	}
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(arg(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// srng gives a signed interval that always contains t read as a mathematical integer
// (values of narrower types are read unsigned); ok is false when nothing useful is known.
func srng(t *Term, d int) (lo, hi int64, ok bool) {
	const big = int64(1) << 60
	switch t.Op {
	case OConst:
		v := int64(t.Val)
		if t.W == 64 && (v > big || v < -big) {
			return 0, 0, false
		}
		return v, v, true
	case OVar, OUF:
		if t.Mx != 0 {
			return 0, int64(t.Mx), true
		}
		if t.W == 32 && t.Ub != 0 {
			return int64(t.Lo), int64(t.Ub - 1), true
		}
		if t.W > 0 && t.W <= 32 {
			return 0, int64(mask(t.W)), true
		}
		return 0, 0, false
	}
	if t.W > 0 && t.W <= 32 {
		lo, hi, ok = 0, int64(mask(t.W)), true
	}
	if d == 0 {
		return
	}
	switch t.Op {
	case OZext:
		return srng(t.Args[0], d-1)
	case OIte:
		a, b, ok1 := srng(t.Args[1], d-1)
		e, f, ok2 := srng(t.Args[2], d-1)
		if !ok1 || !ok2 {
			return
		}
		if e < a {
			a = e
		}
		if f > b {
			b = f
		}
		return a, b, true
	case OAdd:
		if t.W != 64 {
			return
		}
		var l, h int64
		for _, x := range t.Args {
			a, b, k := srng(x, d-1)
			if !k {
				return 0, 0, false
			}
			l += a
			h += b
			if l < -big || h > big {
				return 0, 0, false
			}
		}
		return l, h, true
	case OMul:
		if t.W == 64 && t.Args[0].IsConst() {
			k := int64(t.Args[0].Val)
			a, b, ok1 := srng(t.Args[1], d-1)
			lim := int64(1) << 44
			if !ok1 || k > 1<<14 || k < -(1<<14) || a < -lim || b > lim {
				return 0, 0, false
			}
			if k < 0 {
				return k * b, k * a, true
			}
			return k * a, k * b, true
		}
		return
	case OBand:
		a, b, ok1 := srng(t.Args[0], d-1)
		e, f, ok2 := srng(t.Args[1], d-1)
		if ok1 && a >= 0 && (!ok2 || e < 0 || f >= b) {
			return 0, b, true
		}
		if ok2 && e >= 0 {
			return 0, f, true
		}
		return
	case OUrem:
		e, f, ok2 := srng(t.Args[1], d-1)
		if ok2 && e > 0 {
			return 0, f - 1, true
		}
		return
	}
	return
}
