package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type level struct {
	f  *Term
	ax []*Term // terms whose axioms were asserted at this level
}

// Solver is an incremental SMT process following the current path prefix.
type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	defd    map[*Term]bool
	ufd     map[string]bool
	axDone  map[*Term]bool
	stack   []level
	axioms  map[*Term][]*Term
	Queries int
	Time    time.Duration
	FbTime  time.Duration
	ByProv  map[string]int
	timeout int
	bin     string
	dead    bool
	cache   map[string]Result
	symIDs  map[string]int
	symc    map[*Term]symset
	Hits    int
	dbg     io.Writer
}

func NewSolver(c *Ctx, timeoutMs int) *Solver {
	s := &Solver{c: c, axioms: map[*Term][]*Term{}, ByProv: map[string]int{}, timeout: timeoutMs, cache: map[string]Result{}, symIDs: map[string]int{}, symc: map[*Term]symset{}}
	s.bin = "z3-new"
	if _, err := exec.LookPath(s.bin); err != nil {
		s.bin = "z3"
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.defd = map[*Term]bool{}
	s.ufd = map[string]bool{}
	s.axDone = map[*Term]bool{}
	s.stack = nil
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "memory_max_size=6000")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_UFBV)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) Axiom(t *Term, ax *Term) {
	if ax.IsTrue() {
		return
	}
	s.axioms[t] = append(s.axioms[t], ax)
}

func (s *Solver) ref(t *Term) string {
	if t.Op == OConst || t.Op == OVar {
		return smtNode(t, nil)
	}
	return fmt.Sprintf("t%d", t.ID)
}

// define emits definitions of all nodes below t (iteratively to avoid deep recursion).
func (s *Solver) define(t *Term) {
	if s.defd[t] {
		return
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		top := &st[len(st)-1]
		if s.defd[top.t] {
			st = st[:len(st)-1]
			continue
		}
		if top.i < len(top.t.Args) {
			a := top.t.Args[top.i]
			top.i++
			if !s.defd[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		n := top.t
		s.defd[n] = true
		st = st[:len(st)-1]
		switch n.Op {
		case OConst:
		case OVar:
			fmt.Fprintf(s.in, "(declare-fun |%s| () %s)\n", n.Name, sortStr(n.W))
		default:
			if n.Op == OUF && !s.ufd[n.Name] {
				s.ufd[n.Name] = true
				s.in.WriteString(s.c.ufs[n.Name] + "\n")
			}
			fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", n.ID, sortStr(n.W), smtNode(n, s.ref))
		}
	}
}

func (s *Solver) collectAx(t *Term, seen map[*Term]bool, out *[]*Term) {
	st := []*Term{t}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		if len(s.axioms[n]) > 0 {
			*out = append(*out, n)
			st = append(st, s.axioms[n]...)
		}
		st = append(st, n.Args...)
	}
}

func (s *Solver) assertAt(lv *level, f *Term) {
	s.define(f)
	fmt.Fprintf(s.in, "(assert %s)\n", s.ref(f))
	// axioms
	seen := map[*Term]bool{}
	var ts []*Term
	s.collectAx(f, seen, &ts)
	for _, t := range ts {
		if s.axDone[t] {
			continue
		}
		s.axDone[t] = true
		lv.ax = append(lv.ax, t)
		for _, ax := range s.axioms[t] {
			s.define(ax)
			fmt.Fprintf(s.in, "(assert %s)\n", s.ref(ax))
		}
	}
}

func (s *Solver) sync(path []*Term) {
	i := 0
	for i < len(path) && i < len(s.stack) && s.stack[i].f == path[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		for _, lv := range s.stack[i:] {
			for _, t := range lv.ax {
				delete(s.axDone, t)
			}
		}
		s.stack = s.stack[:i]
	}
	for ; i < len(path); i++ {
		s.in.WriteString("(push 1)\n")
		s.stack = append(s.stack, level{f: path[i]})
		s.assertAt(&s.stack[len(s.stack)-1], path[i])
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") && strings.Contains(l, "timeout") {
			continue
		}
		return l, nil
	}
}

// Check decides path ∧ extra. If sat and model != nil the values of the given terms are fetched.
func (s *Solver) Check(path []*Term, extra *Term, want []*Term) (Result, map[*Term]uint64) {
	return s.check(path, extra, want, true)
}

func (s *Solver) check(path []*Term, extra *Term, want []*Term, fallback bool) (Result, map[*Term]uint64) {
	if extra != nil && extra.IsFalse() {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		if dbgQ != nil {
			dbgQ(time.Since(t0), len(path), extra)
		}
		if d := os.Getenv("GOVER_DUMP"); d != "" && time.Since(t0) > 2*time.Second {
			f := path
			if extra != nil {
				f = append(append([]*Term{}, path...), extra)
			}
			os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", d, s.Queries, time.Since(t0).Milliseconds()), []byte(s.Standalone(f)), 0644)
		}
	}()
	s.Queries++
	full := path
	if extra != nil && !extra.IsTrue() {
		full = append(append([]*Term{}, path...), extra)
	}
	s.sync(full)
	for _, w := range want {
		s.define(w)
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.restart()
		return s.fallback(full, want)
	}
	l, err := s.readLine()
	if err != nil {
		s.restart()
		return s.fallback(full, want)
	}
	switch l {
	case "unsat":
		s.ByProv[s.bin]++
		return Unsat, nil
	case "sat":
		s.ByProv[s.bin]++
		var m map[*Term]uint64
		if len(want) > 0 {
			m = s.getValues(want)
		}
		return Sat, m
	case "unknown":
		if !fallback {
			return Unknown, nil
		}
		return s.fallback(full, want)
	}
	fmt.Fprintln(os.Stderr, "solver said:", l)
	s.restart()
	return Unknown, nil
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func parseVal(v string) (uint64, bool) {
	v = strings.TrimSpace(v)
	switch {
	case v == "true":
		return 1, true
	case v == "false":
		return 0, true
	case strings.HasPrefix(v, "#x"):
		n, err := strconv.ParseUint(v[2:], 16, 64)
		return n, err == nil
	case strings.HasPrefix(v, "#b"):
		n, err := strconv.ParseUint(v[2:], 2, 64)
		return n, err == nil
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		n, err := strconv.ParseUint(f[0], 10, 64)
		return n, err == nil
	}
	return 0, false
}

func (s *Solver) getValues(want []*Term) map[*Term]uint64 {
	m := map[*Term]uint64{}
	for _, w := range want {
		if w.IsConst() {
			m[w] = w.Val
			continue
		}
		fmt.Fprintf(s.in, "(get-value (%s))\n", s.ref(w))
		s.in.Flush()
		// response: ((name value)) possibly over lines
		depth := 0
		var sb strings.Builder
		for {
			l, err := s.readLine()
			if err != nil {
				return m
			}
			sb.WriteString(l + " ")
			inbar := false
			for _, r := range l {
				if r == '|' {
					inbar = !inbar
				}
				if inbar {
					continue
				}
				if r == '(' {
					depth++
				}
				if r == ')' {
					depth--
				}
			}
			if depth <= 0 {
				break
			}
		}
		r := strings.TrimSpace(sb.String())
		r = strings.TrimPrefix(r, "((")
		r = strings.TrimSuffix(r, "))")
		i := strings.Index(r, " ")
		if strings.HasPrefix(r, "|") {
			j := strings.Index(r[1:], "|")
			i = j + 2
		}
		if i > 0 && i < len(r) {
			if v, ok := parseVal(r[i:]); ok {
				m[w] = v
			} else if v, ok := parseVal(strings.TrimSpace(r[i:]) + ")"); ok {
				m[w] = v
			}
		}
	}
	return m
}

// Standalone renders a self-contained query.
func (s *Solver) Standalone(full []*Term) string {
	var sb bytes.Buffer
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	tmp := &Solver{c: s.c, defd: map[*Term]bool{}, ufd: map[string]bool{}, axDone: map[*Term]bool{}, axioms: s.axioms}
	tmp.in = bufio.NewWriter(&sb)
	lv := &level{}
	for _, f := range full {
		tmp.assertAt(lv, f)
	}
	tmp.in.WriteString("(check-sat)\n")
	tmp.in.Flush()
	return sb.String()
}

func (s *Solver) fallback(full []*Term, want []*Term) (Result, map[*Term]uint64) {
	t0 := time.Now()
	defer func() { s.FbTime += time.Since(t0) }()
	q := s.Standalone(full)
	f, err := os.CreateTemp("", "gover*.smt2")
	if err != nil {
		return Unknown, nil
	}
	defer os.Remove(f.Name())
	f.WriteString(q)
	f.Close()
	type res struct {
		r    Result
		prov string
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.timeout*3)*time.Millisecond)
	defer cancel()
	ch := make(chan res, 3)
	cmds := [][]string{{"z3", f.Name()}, {"cvc5", "-q", f.Name()}, {"z3-new", "smt.random_seed=7", "memory_max_size=6000", f.Name()}}
	for _, a := range cmds {
		a := a
		go func() {
			out, _ := exec.CommandContext(ctx, a[0], a[1:]...).Output()
			l := strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0])
			switch l {
			case "unsat":
				ch <- res{Unsat, a[0]}
			case "sat":
				ch <- res{Sat, a[0]}
			default:
				ch <- res{Unknown, a[0]}
			}
		}()
	}
	for i := 0; i < len(cmds); i++ {
		r := <-ch
		if r.r != Unknown {
			s.ByProv[r.prov]++
			return r.r, nil
		}
	}
	return Unknown, nil
}

var dbgQ func(d time.Duration, n int, extra *Term)
