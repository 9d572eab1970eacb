package main

import (
	"sort"
	"strconv"
	"strings"
)

type symset []uint64 // bitset

func (a symset) meets(b symset) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func (a symset) or(b symset) symset {
	if len(b) > len(a) {
		a, b = b, a
	}
	r := append(symset{}, a...)
	for i := range b {
		r[i] |= b[i]
	}
	return r
}

func (a symset) contains(b symset) bool {
	for i := range b {
		var x uint64
		if i < len(a) {
			x = a[i]
		}
		if b[i]&^x != 0 {
			return false
		}
	}
	return true
}

func (s *Solver) symID(name string) int {
	id, ok := s.symIDs[name]
	if !ok {
		id = len(s.symIDs)
		s.symIDs[name] = id
	}
	return id
}

// syms returns the variables and function symbols t (and its axioms) depend on.
func (s *Solver) syms(t *Term) symset {
	if r, ok := s.symc[t]; ok {
		return r
	}
	s.symc[t] = nil // cycles through axioms
	var r symset
	for _, a := range t.Args {
		r = r.or(s.syms(a))
	}
	if t.Op == OVar || t.Op == OUF {
		id := s.symID(t.Name)
		n := make(symset, id/64+1)
		n[id/64] = 1 << (id % 64)
		r = r.or(n)
	}
	for _, ax := range s.axioms[t] {
		r = r.or(s.syms(ax))
	}
	s.symc[t] = r
	return r
}

// slice keeps the conjuncts of path that can influence goal.
func (s *Solver) slice(path []*Term, goal *Term) []*Term {
	cur := s.syms(goal)
	in := make([]bool, len(path))
	for changed := true; changed; {
		changed = false
		for i := len(path) - 1; i >= 0; i-- {
			if in[i] {
				continue
			}
			p := s.syms(path[i])
			if p.meets(cur) {
				in[i] = true
				if !cur.contains(p) {
					cur = cur.or(p)
					changed = true
				}
			}
		}
	}
	var r []*Term
	for i, p := range path {
		if in[i] {
			r = append(r, p)
		}
	}
	return r
}

func sliceKey(path []*Term, goal *Term) string {
	ids := make([]int, 0, len(path)+1)
	for _, p := range path {
		ids = append(ids, int(p.ID))
	}
	sort.Ints(ids)
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(goal.ID)))
	for _, i := range ids {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(i))
	}
	return sb.String()
}

// Sliced decides path ∧ goal looking only at the relevant part of the path. An Unsat answer is
// an answer for the whole path; a Sat answer assumes the rest of the path is satisfiable.
func (s *Solver) Sliced(path []*Term, goal *Term, fallback bool) Result {
	if goal.IsFalse() {
		return Unsat
	}
	sl := s.slice(path, goal)
	k := sliceKey(sl, goal)
	if r, ok := s.cache[k]; ok {
		s.Hits++
		return r
	}
	r, _ := s.check(sl, goal, nil, fallback)
	if r != Unknown {
		s.cache[k] = r
	}
	return r
}
