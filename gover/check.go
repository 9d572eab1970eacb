package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ownRels are the packages built with the repository's own go.mod; everything else needs the
// module file with the third-party requirements.
var ownRels = map[string]bool{"": true, "extension/pubsub": true, "extension/listener": true, "util": true, "codec": true}

type batteryResult struct {
	Tests  []string
	Failed []string
	Output string
	Built  bool
	Err    string
	Wall   float64
}

type finding struct{ prop, con, obl, text string }

func readFindings(path string) (out []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	// known: property=C01 obligation=<contract>/<name> :: text
	re := regexp.MustCompile(`^known: property=(\S+) obligation=([^/]+)/(.+?) :: (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3], m[4]})
		}
	}
	return
}

// contractDirs lists package dirs (relative) whose contract files mention the property.
func contractDirs(cdir, prop string) []string {
	var out []string
	re := regexp.MustCompile(`(?m)^//@ property\b.*\b` + prop + `\b`)
	seen := map[string]bool{}
	filepath.Walk(cdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		if re.Match(b) {
			rel, _ := filepath.Rel(cdir, filepath.Dir(p))
			if rel == "root" {
				rel = ""
			}
			if !seen[rel] {
				seen[rel] = true
				out = append(out, rel)
			}
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func runCheck(prop, tier, repo, verif string, tmo int, budget time.Duration) int {
	if tier == "thorough" {
		tmo *= 3
	}
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cdir := filepath.Join(verif, "contracts")
	var own, ext []string
	for _, r := range contractDirs(cdir, prop) {
		if ownRels[r] {
			own = append(own, r)
		} else {
			ext = append(ext, r)
		}
	}
	batCh := make(chan *batteryResult, 1)
	go func() { batCh <- runBattery(prop, tier, repo, verif) }()

	addRoot := func(r []string) []string {
		for _, x := range r {
			if x == "" {
				return r
			}
		}
		return append([]string{""}, r...)
	}
	var results []*ConResult
	var undecided []string
	var dropped []string
	var mu sync.Mutex
	deadline := t0.Add(budget)
	runWorld := func(rels []string, modfile string) {
		if len(rels) == 0 {
			return
		}
		w, err := Load(LoadCfg{Repo: repo, Contracts: cdir, Modfile: modfile, Rels: addRoot(rels)})
		if err != nil {
			mu.Lock()
			undecided = append(undecided, fmt.Sprintf("load %v: %v", rels, err))
			mu.Unlock()
			return
		}
		mu.Lock()
		for _, d := range w.dropped {
			dropped = append(dropped, d)
		}
		mu.Unlock()
		done := map[*Contract]bool{}
		var queue []*Contract
		for _, c := range w.contracts {
			for _, p := range c.Props {
				if p == prop && !(c.Thorough && tier != "thorough") && !done[c] {
					queue = append(queue, c)
					done[c] = true
				}
			}
		}
		byName := map[string]*Contract{}
		for _, c := range w.contracts {
			byName[c.Name] = c
		}
		for len(queue) > 0 {
			var wg sync.WaitGroup
			sem := make(chan struct{}, runtime.NumCPU())
			batch := queue
			queue = nil
			res := make([]*ConResult, len(batch))
			for i, c := range batch {
				wg.Add(1)
				sem <- struct{}{}
				go func(i int, c *Contract) {
					defer wg.Done()
					defer func() { <-sem }()
					left := time.Until(deadline)
					if left < time.Second {
						left = time.Second
					}
					if tier == "thorough" && c.Bounded > 0 && !c.doubled {
						// twice the bound, if the solvers manage it
						c.doubled = true
						n := c.Bounded
						c.Bounded = 2 * n
						res[i] = VerifyContract(w, c, tmo, left/2)
						if res[i].undecided() {
							c.Bounded = n
							res[i] = VerifyContract(w, c, tmo, left/2)
						}
						return
					}
					res[i] = VerifyContract(w, c, tmo, left)
				}(i, c)
			}
			wg.Wait()
			for _, r := range res {
				results = append(results, r)
				for u := range r.Used {
					if c := byName[u]; c != nil && !done[c] {
						done[c] = true
						queue = append(queue, c)
					}
				}
			}
		}
	}
	runWorld(own, "")
	runWorld(ext, "/opt/vp/arpc.mod")
	bat := <-batCh

	finds := readFindings(filepath.Join(verif, "known_findings.txt"))
	var obl, disc int
	backends := map[string]int{}
	var solver float64
	type failure struct {
		r *ConResult
		o *Obligation
	}
	var fails []failure
	var known []string
	fnSet, inl, ext2, loops, spawn := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	type fnRow struct {
		Function    string   `json:"function"`
		Contract    string   `json:"contract"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Queries     int      `json:"solver_queries"`
		SolverS     float64  `json:"solver_s"`
		Paths       int      `json:"symbolic_paths"`
		Invariants  []string `json:"inductive_loops,omitempty"`
		Status      string   `json:"status"`
	}
	var rows []fnRow
	nBounded := 0
	usedCons := map[string]bool{}
	for _, r := range results {
		for u := range r.Used {
			usedCons[u] = true
		}
	}
	for _, r := range results {
		row := fnRow{Function: r.Con.TargetName, Contract: r.Con.Name, Queries: r.Queries, SolverS: round3(r.SolverTime.Seconds()), Paths: r.PathsDone, Status: "proved"}
		bounded := r.Con.Bounded > 0
		if bounded {
			row.Status = fmt.Sprintf("bounded: holds with every loop executed for at most %d iterations", r.Con.Bounded)
			nBounded++
		}
		for l, inv := range r.Loops {
			row.Invariants = append(row.Invariants, fmt.Sprintf("%s (%d invariant conjuncts)", l, len(inv)))
			loops[l] = true
		}
		sort.Strings(row.Invariants)
		solver += r.SolverTime.Seconds()
		for k, n := range r.ByProv {
			backends[k] += n
		}
		for _, o := range r.Obls {
			if !relevant(r.Con, prop, o.Name, usedCons[r.Con.Name]) {
				continue
			}
			row.Obligations++
			if !bounded {
				obl++
			}
			if o.Result == "discharged" {
				if !bounded {
					disc++
				}
				row.Discharged++
				continue
			}
			if o.Result == "unknown" {
				// neither proved nor refuted: never reported as a violation, never counted as proved
				undecided = append(undecided, fmt.Sprintf("%s (%s): obligation %q neither discharged nor refuted%s", r.Con.Name, r.Con.TargetName, o.Name, tail(o.Detail, 120)))
				if row.Status == "proved" || bounded {
					row.Status = "undecided"
				}
				continue
			}
			isKnown := false
			for _, f := range finds {
				if f.prop == prop && f.con == r.Con.Name && f.obl == o.Name {
					known = append(known, f.text)
					isKnown = true
				}
			}
			row.Status = "failed"
			if !isKnown {
				fails = append(fails, failure{r, o})
			} else {
				row.Status = "known finding"
			}
		}
		if r.Err != "" {
			if row.Status != "failed" {
				row.Status = "undecided: " + r.Err
			}
			undecided = append(undecided, r.Con.Name+" ("+r.Con.TargetName+"): "+r.Err)
		} else if !r.EndSat {
			o := &Obligation{Name: prop + ".the function can return at all under its precondition", Result: "failed", Pos: r.Con.TargetName, Detail: "no symbolic path reaches the end of the contract"}
			fails = append(fails, failure{r, o})
			obl++
			row.Status = "failed"
		} else {
			if !bounded {
				obl++
				disc++
			}
			row.Obligations++
			row.Discharged++
		}
		if r.Con.Target != nil {
			fnSet[fnKey(r.Con.Target)] = true
		}
		for k := range r.Inlined {
			inl[k] = true
		}
		for k := range r.Externs {
			ext2[k] = true
		}
		for k := range r.Spawned {
			spawn[k] = true
		}
		rows = append(rows, row)
	}
	for _, d := range dropped {
		undecided = append(undecided, "specification does not fit the current source: "+d)
	}
	sort.Strings(undecided)
	sort.Slice(rows, func(i, j int) bool { return rows[i].Contract < rows[j].Contract })
	if len(results) == 0 && len(undecided) == 0 {
		fmt.Println("no contracts for", prop)
		return 2
	}

	viol := 0
	rdir := filepath.Join(verif, "replays")
	var out bytes.Buffer
	if len(fails) > 0 || len(bat.Failed) > 0 {
		viol = len(fails) + len(bat.Failed)
		os.MkdirAll(rdir, 0755)
		rp := filepath.Join(rdir, prop+".txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s, tier %s, %s\n", prop, tier, time.Now().Format(time.RFC3339))
		for _, f := range fails {
			fmt.Fprintf(&b, "\nFAILED OBLIGATION %s\n  contract %s on %s\n  at %s\n  result %s\n  %s\n", f.o.Name, f.r.Con.Name, f.r.Con.TargetName, f.o.Pos, f.o.Result, f.o.Detail)
			var ks []string
			for k := range f.o.Model {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Fprintf(&b, "    %s = %s\n", k, f.o.Model[k])
			}
			for _, t := range f.o.Trace {
				fmt.Fprintf(&b, "    | %s\n", t)
			}
		}
		if len(bat.Failed) > 0 {
			fmt.Fprintf(&b, "\nREPLAY ON THE REAL CODE (bounded battery) failed: %s\nre-run: %s battery -prop %s\n%s\n", strings.Join(bat.Failed, " "), filepath.Join(verif, "check"), prop, bat.Output)
		} else {
			fmt.Fprintf(&b, "\nreplay battery on the real code found no failing input (%d tests, built=%v %s)\n", len(bat.Tests), bat.Built, bat.Err)
		}
		os.WriteFile(rp, b.Bytes(), 0644)
		for _, f := range fails {
			fmt.Fprintf(&out, "obligation %s: %s (%s on %s, %s)\n", f.o.Result, f.o.Name, f.r.Con.Name, f.r.Con.TargetName, f.o.Pos)
		}
		for _, t := range bat.Failed {
			fmt.Fprintf(&out, "replay test failed: %s\n", t)
		}
		if len(bat.Failed) > 0 {
			fmt.Fprintf(&out, "VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Fprintf(&out, "VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
	}
	sort.Strings(known)
	for i, k := range known {
		if i == 0 || known[i-1] != k {
			fmt.Fprintf(&out, "KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}
	for _, u := range undecided {
		fmt.Fprintf(&out, "undecided by the verifier (bounded stand-in used): %s\n", u)
	}
	assumptions := []string{
		"sequential consistency of the Go memory model for the verified functions; goroutines are interleaved only at the points the contracts declare (locks, channels, volatile fields, spawned bodies)",
		"bodies of external functions are replaced by the contracts listed in coverage.trusted_base",
		"machine integers are exact bit vectors; slices are at most 2^40 bytes long; memory allocation succeeds",
	}
	if b, err := os.ReadFile(filepath.Join(verif, "contracts", "ASSUMPTIONS.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if p, t, ok := strings.Cut(l, ":"); ok && (p == prop || p == "all") {
				assumptions = append(assumptions, strings.TrimSpace(t))
			}
		}
	}
	var trusted []string
	for k := range ext2 {
		trusted = append(trusted, "external: "+k)
	}
	sort.Strings(trusted)
	trusted = append(trusted, "gover (verification condition generator in /verif/gover)", "golang.org/x/tools go/ssa", "Go type checker", "z3-new, z3 4.8.12, cvc5 1.1.2")
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": disc,
			"checker_cmd":               fmt.Sprintf("%s/check %s %s", verif, prop, tier),
			"trusted_base":              trusted,
			"functions_under_contract":  keys(fnSet),
			"functions_executed_inline": keys(inl),
			"spawned_bodies":            keys(spawn),
			"inductive_loops":           keys(loops),
			"bounded_contracts":         nBounded,
			"backends":                  backends,
			"solver_s":                  round3(solver),
			"per_contract":              rows,
			"undecided":                 undecided,
			"bounded_stand_in":          map[string]interface{}{"label": "bounded: concrete executions of the real code, never counted as proved", "tests": bat.Tests, "failed": bat.Failed, "built": bat.Built, "error": bat.Err, "wall_s": bat.Wall},
		},
		"assumptions": assumptions, "wall_s": round3(time.Since(t0).Seconds()), "violations": viol,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(j, '\n'), 0644)
	fmt.Print(out.String())
	fmt.Printf("%s: %d/%d obligations discharged over %d contracts, %d bounded tests, %.1fs\n", prop, disc, obl, len(results), len(bat.Tests), time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

// ---- bounded stand-in / replay on the real code ----

// runBattery overlays the test files of /verif/battery onto the repository (hiding the
// repository's own tests) and runs the ones of the property.
func runBattery(prop, tier, repo, verif string) *batteryResult {
	t0 := time.Now()
	res := &batteryResult{Tests: []string{}, Failed: []string{}, Built: true}
	defer func() { res.Wall = round3(time.Since(t0).Seconds()) }()
	bdir := filepath.Join(verif, "battery")
	re := regexp.MustCompile(`(?m)^func (TestVerif_` + prop + `\w*)\(`)
	type job struct {
		rel   string
		files []string
	}
	jobs := map[string]*job{}
	filepath.Walk(bdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(bdir, filepath.Dir(p))
		if rel == "root" {
			rel = ""
		}
		if re.Match(b) {
			if jobs[rel] == nil {
				jobs[rel] = &job{rel: rel}
			}
			jobs[rel].files = append(jobs[rel].files, p)
		}
		return nil
	})
	var rels []string
	for r := range jobs {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		for _, f := range jobs[r].files {
			runConfirmed(res, prop, tier, repo, bdir, r, f)
		}
	}
	sort.Strings(res.Tests)
	return res
}

// runConfirmed runs a file of the battery; a failure counts only when it comes back: two of three
// runs have to fail, so that a hiccup of the machine is not taken for a violation.
func runConfirmed(res *batteryResult, prop, tier, repo, bdir, rel, file string) {
	var runs []*batteryResult
	bad := 0
	for len(runs) < 3 && bad < 2 {
		r := &batteryResult{Built: true}
		runBatteryFile(r, prop, tier, repo, bdir, rel, file)
		runs = append(runs, r)
		if len(r.Failed) == 0 {
			if bad == 0 {
				break
			}
			continue
		}
		bad++
	}
	res.Tests = append(res.Tests, runs[0].Tests...)
	for _, r := range runs {
		if !r.Built {
			res.Built = false
			res.Err += r.Err
			return
		}
	}
	if bad >= 2 {
		last := runs[0]
		for _, r := range runs {
			if len(r.Failed) > 0 {
				last = r
			}
		}
		res.Failed = append(res.Failed, last.Failed...)
		res.Output += last.Output
	} else if bad == 1 {
		res.Err += fmt.Sprintf("%s: a failure of %s did not come back in two more runs; ", filepath.Base(file), strings.Join(runs[0].Failed, " "))
	}
}

func runBatteryFile(res *batteryResult, prop, tier, repo, bdir, rel, file string) {
	ov := map[string]string{}
	ents, _ := os.ReadDir(filepath.Join(repo, rel))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			ov[filepath.Join(repo, rel, e.Name())] = ""
		}
	}
	ov[filepath.Join(repo, rel, "zz_verif_battery_"+filepath.Base(file))] = file
	// shared helpers of the directory
	common := filepath.Join(filepath.Dir(file), "common.go")
	if _, err := os.Stat(common); err == nil {
		ov[filepath.Join(repo, rel, "zz_verif_battery_common_test.go")] = common
	}
	tmp, err := os.MkdirTemp("", "gover-battery-")
	if err != nil {
		res.Err = err.Error()
		res.Built = false
		return
	}
	defer os.RemoveAll(tmp)
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, j, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	count, limit := "-count=1", "150s"
	if tier == "thorough" {
		count, limit = "-count=3", "390s"
	}
	args := []string{"test", "-overlay", of, "-vet=off", count, "-timeout", limit, "-json", "-run", "^TestVerif_" + prop, "./" + rel}
	gobin := "/opt/veriftools/go1.23.12/bin/go"
	if _, err := os.Stat(gobin); err != nil {
		gobin = "go"
	}
	cmd := exec.CommandContext(ctx, gobin, args...)
	cmd.Dir = repo
	flags := "-mod=readonly"
	if !ownRels[rel] {
		flags += " -modfile=/opt/vp/arpc.mod"
	}
	cmd.Env = append(os.Environ(), "GOFLAGS="+flags, "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GO111MODULE=on", "GOTOOLCHAIN=local", "VERIF_TIER="+tier, "GOROOT=")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	var outp strings.Builder
	ran := 0
	passed := map[string]bool{}
	failed := map[string]bool{}
	started := map[string]bool{}
	pkgFail := false
	for _, l := range strings.Split(so.String(), "\n") {
		var ev struct{ Action, Test, Output string }
		if json.Unmarshal([]byte(l), &ev) != nil {
			continue
		}
		if ev.Output != "" {
			outp.WriteString(ev.Output)
		}
		if ev.Test == "" {
			if ev.Action == "fail" {
				pkgFail = true
			}
			continue
		}
		if strings.Contains(ev.Test, "/") {
			continue
		}
		switch ev.Action {
		case "run":
			started[ev.Test] = true
			ran++
		case "pass", "skip":
			passed[ev.Test] = true
		case "fail":
			failed[ev.Test] = true
		}
	}
	for t := range started {
		res.Tests = append(res.Tests, t)
		// a crashed or hung test never reports an end
		if failed[t] || (pkgFail && !passed[t]) {
			res.Failed = append(res.Failed, t)
		}
	}
	sort.Strings(res.Failed)
	if ran == 0 {
		res.Built = false
		res.Err += fmt.Sprintf("%s: battery did not build or run: %v %s", filepath.Base(file), err, tail(outp.String()+se.String(), 1500))
	}
	if len(failed) > 0 || pkgFail {
		res.Output += tail(outp.String()+se.String(), 12000)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var oblProp = regexp.MustCompile(`^(C[0-9][0-9])\.`)

// relevant: an obligation belongs to the property its name says, one without a name of its own to
// the first property of its contract. A contract that others of this property rely on counts whole.
func relevant(c *Contract, prop, name string, used bool) bool {
	listed := false
	for _, p := range c.Props {
		if p == prop {
			listed = true
		}
	}
	if !listed || used {
		return true
	}
	if m := oblProp.FindStringSubmatch(name); m != nil {
		return m[1] == prop
	}
	return c.Props[0] == prop
}
