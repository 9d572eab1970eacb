package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ConResult struct {
	Con        *Contract
	Obls       []*Obligation
	Err        string // tool limit
	Elapsed    time.Duration
	SolverTime time.Duration
	Queries    int
	ByProv     map[string]int
	Paths      int
	PathsDone  int
	EndSat     bool // some path to the end is satisfiable
	Externs    map[string]int
	Inlined    map[string]int
	Used       map[string]int
	Spawned    map[string]int
	Loops      map[string][]string
	Covers     map[string]bool
	Steps      int
	Slow       string
}

// VerifyContract discharges the obligations of one contract. A failed obligation that depends on
// a loop abstraction is confirmed by executing the loops concretely for a few iterations; if it
// cannot be confirmed, the obligation is reported as unknown (the invariants found do not suffice),
// not as failed.
func VerifyContract(w *World, con *Contract, timeoutMs int, limit time.Duration) (res *ConResult) {
	t0 := time.Now()
	if con.Bounded > 0 {
		return verifyContract(w, con, timeoutMs, limit, con.Bounded+1)
	}
	res = verifyContract(w, con, timeoutMs, limit, 0)
	var loopy []*Obligation
	for _, o := range res.Obls {
		if o.Result == "failed" {
			for _, t := range o.Trace {
				if strings.Contains(t, "loop: arbitrary iteration") {
					loopy = append(loopy, o)
					break
				}
			}
		}
	}
	if len(loopy) == 0 {
		return
	}
	for _, n := range []int{3, 5} {
		left := limit - time.Since(t0)
		if left < 5*time.Second {
			break
		}
		if left > 120*time.Second {
			left = 120 * time.Second
		}
		r2 := verifyContract(w, con, timeoutMs, left, n)
		conf := map[string]*Obligation{}
		for _, o := range r2.Obls {
			if o.Result == "failed" {
				conf[o.Name] = o
			}
		}
		res.Queries += r2.Queries
		res.SolverTime += r2.SolverTime
		rest := loopy[:0]
		for _, o := range loopy {
			if c := conf[o.Name]; c != nil {
				nn := o.N
				*o = *c
				o.N = nn
				o.Detail += fmt.Sprintf(" [confirmed by executing every loop for up to %d iterations]", n-1)
			} else {
				rest = append(rest, o)
			}
		}
		loopy = rest
		if len(loopy) == 0 {
			return
		}
	}
	for _, o := range loopy {
		o.Result = "unknown"
		o.Detail += " [only under the loop abstraction: not reproduced with the loops executed]"
	}
	return
}

func verifyContract(w *World, con *Contract, timeoutMs int, limit time.Duration, unroll int) (res *ConResult) {
	res = &ConResult{Con: con, ByProv: map[string]int{}}
	t0 := time.Now()
	if con.Err != "" {
		res.Err = con.Err
		return
	}
	x := NewExec(w, con, timeoutMs)
	x.deadline = time.Now().Add(limit)
	x.failStop = false
	x.unrollN = unroll
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				res.Err = u.msg
			} else if os.Getenv("GOVER_PANIC") != "" {
				panic(r)
			} else {
				res.Err = fmt.Sprintf("internal: %v", r)
			}
		}
		x.sol.Close()
		for _, n := range x.oblOrd {
			res.Obls = append(res.Obls, x.obls[n])
		}
		res.Elapsed = time.Since(t0)
		res.SolverTime = x.sol.Time
		res.Queries = x.sol.Queries
		res.ByProv = x.sol.ByProv
		res.Paths, res.PathsDone, res.EndSat = x.paths, x.pathsDone, x.endSat
		res.Externs, res.Inlined, res.Used, res.Spawned = x.externs, x.inlined, x.used, x.spawned
		res.Loops, res.Covers = x.loopCuts, x.covers
		res.Steps = x.steps
		res.Slow = fmt.Sprintf("%s %v", x.slowName, x.slowest)
	}()
	s := &State{mem: map[string]*Mem{}, lits: map[*Term]bool{}, alloc: oldBound, logic: map[string]Value{}}
	fn := con.Fn
	fr := &Frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]Value{}, spec: true, con: con, verify: true}
	nt := len(con.Target.Params)
	for i, p := range fn.Params {
		v := x.fresh(s, p.Name(), p.Type())
		fr.env[p] = v
		if i < nt || true {
			x.argsIn = append(x.argsIn, v)
			x.argTypes = append(x.argTypes, p.Type())
			x.argNames = append(x.argNames, p.Name())
		}
		if i >= nt || !types.Identical(p.Type(), con.Target.Params[i].Type()) {
			s.logic[p.Name()] = logicVal{v, p.Type()}
			if t, ok := v.(*Term); ok && t.W == 64 {
				s.idxs = append(s.idxs, t)
			}
		}
		if i == 0 && con.Target.Signature.Recv() != nil {
			if pv, ok := v.(*PtrV); ok {
				x.assume(s, x.c.Neq(pv.R, x.c.BV(0, 32)))
			}
		}
	}
	_ = types.Typ
	s.frames = []*Frame{fr}
	x.explore(s, nil)
	return
}

func (r *ConResult) undecided() bool {
	if r.Err != "" {
		return true
	}
	for _, o := range r.Obls {
		if o.Result != "discharged" && o.Result != "failed" {
			return true
		}
	}
	return false
}
