package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 && (os.Args[1] == "check" || os.Args[1] == "battery") {
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		tier := fs.String("tier", "quick", "")
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		tmo := fs.Int("timeout", 20000, "")
		budget := fs.Duration("budget", 600*time.Second, "")
		fs.Parse(os.Args[2:])
		if os.Args[1] == "battery" {
			r := runBattery(*prop, *tier, *repo, *verif)
			fmt.Printf("tests %v failed %v built %v %s %.1fs\n%s\n", r.Tests, r.Failed, r.Built, r.Err, r.Wall, r.Output)
			if len(r.Failed) > 0 {
				os.Exit(1)
			}
			return
		}
		os.Exit(runCheck(*prop, *tier, *repo, *verif, *tmo, *budget))
	}
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	rels := flag.String("pkgs", ",extension/pubsub", "")
	run := flag.String("run", "", "regexp of contract names")
	tmo := flag.Int("timeout", 20000, "solver timeout ms")
	modfile := flag.String("modfile", "", "")
	flag.Parse()
	t0 := time.Now()
	if os.Getenv("GOVER_Q") != "" {
		dbgQ = func(d time.Duration, n int, e *Term) {
			fmt.Fprintf(os.Stderr, "Q %6.1fms n=%d %.160s\n", float64(d.Microseconds())/1000, n, fmt.Sprint(e))
		}
	}
	w, err := Load(LoadCfg{Repo: *repo, Contracts: *cdir, Modfile: *modfile, Rels: strings.Split(*rels, ",")})
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	for _, d := range w.dropped {
		fmt.Println("dropped", d)
	}
	fmt.Printf("loaded in %v, %d contracts\n", time.Since(t0), len(w.contracts))
	re := regexp.MustCompile(*run)
	for _, c := range w.contracts {
		if !re.MatchString(c.Name) {
			continue
		}
		r := VerifyContract(w, c, *tmo, 10*time.Minute)
		fmt.Printf("== %s (%s) %v solver %v q=%d paths=%d done=%d endsat=%v steps=%d %s err=%s\n", c.Name, c.TargetName, r.Elapsed, r.SolverTime, r.Queries, r.Paths, r.PathsDone, r.EndSat, r.Steps, r.Slow, r.Err)
		for _, o := range r.Obls {
			fmt.Printf("   %-10s %s (%d)\n", o.Result, o.Name, o.N)
			if o.Result != "discharged" {
				fmt.Printf("       at %s\n", o.Pos)
				if os.Getenv("GOVER_V") != "" {
					fmt.Printf("       %s\n       model %v\n", o.Detail, o.Model)
					for _, t := range o.Trace {
						fmt.Println("        ", t)
					}
				}
			}
		}
		fmt.Println("   externs", r.Externs, "used", r.Used, "spawn", r.Spawned, "covers", r.Covers)
	}
}
