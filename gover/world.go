package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Hook struct {
	Name     string
	Fn       *ssa.Function
	Theories map[string]bool
	NoOwner  bool
}

type Contract struct {
	Name         string
	Fn           *ssa.Function
	Target       *ssa.Function
	TargetName   string
	Props        []string
	Theories     map[string]bool
	Modular      bool
	Opt          Options
	HandlesPanic bool
	Bounded      int             // loops are executed for at most this many iterations (0: no bound)
	PanicFns     map[string]bool // functions whose run-time panics are obligations (empty: all repo functions)
	NoSpawn      map[string]bool
	Thorough     bool
	doubled      bool
	Wakes        []string // channel whose closing ends every wait, then channels on which waiting is allowed
	Err          string
	Volatile     map[string]bool
	UseNone      bool
	NoUse        map[string]bool
}

func (c *Contract) Prop() string {
	if len(c.Props) > 0 {
		return c.Props[0]
	}
	return c.Name
}

func (c *Contract) coversPanic(fn *ssa.Function) bool {
	if len(c.PanicFns) == 0 {
		return true
	}
	return c.PanicFns[fnKey(fn)] || c.PanicFns[fn.Name()]
}

type World struct {
	prog        *ssa.Program
	fset        *token.FileSet
	pkgs        []*packages.Package
	spec        map[*ssa.Function]bool
	specCache   map[*ssa.Function]bool
	hooks       map[string][]*Hook
	externs     map[string][]*Hook
	contracts   []*Contract
	byTarget    map[*ssa.Function][]*Contract
	volatile    map[string]bool
	guarded     map[string][]string
	lockInvs    map[string][]*Hook
	neverClosed map[string]bool
	hookOnce    sync.Once
	hookFields  map[string]bool
	ifaceDef    map[string]types.Type
	nosp        map[string]bool
	mayPan      map[string]bool
	inlineStd   map[string]bool
	opaquePkgs  map[string]bool
	gstores     map[*ssa.Global]*gstat
	constIDs    map[*ssa.Global]uint64
	dropped     []string
	missing     []string // contracts whose target does not exist
	loadErrs    []string
}

type gstat struct {
	stores int
	init   int
	other  int
	errNew bool
}

const specPrefix = "zz_verif_"

func (w *World) isSpecFn(fn *ssa.Function) bool {
	if r, ok := w.specCache[fn]; ok {
		return r
	}
	return w.isSpec0(fn)
}

func (w *World) isSpec0(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pos().IsValid() && f.Synthetic == "" {
			return strings.HasPrefix(filepath.Base(w.fset.Position(f.Pos()).Filename), specPrefix)
		}
	}
	return false
}

func (w *World) isVolatile(field string, con *Contract) bool {
	return w.volatile[field] || con.Volatile[field]
}

func (w *World) ifaceDefault(t types.Type) types.Type {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return w.ifaceDef[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
	}
	return nil
}

func (w *World) nospawn(name string, con *Contract) bool {
	return w.nosp[name] || con.NoSpawn[name]
}
func (w *World) mayPanic(name string) bool { return w.mayPan[name] }

func (w *World) useContract(fn *ssa.Function, cur *Contract) *Contract {
	if cur.UseNone || cur.NoUse[fnKey(fn)] {
		return nil
	}
	for _, c := range w.byTarget[fn] {
		if !c.Modular || c.Err != "" {
			continue
		}
		ok := true
		for t := range cur.Theories {
			if !c.Theories[t] {
				ok = false
			}
		}
		if ok {
			return c
		}
	}
	return nil
}

func pkgPathOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func (w *World) inlinable(fn *ssa.Function) bool {
	p := pkgPathOf(fn)
	if strings.HasPrefix(p, "github.com/lesismal/arpc") {
		return !strings.HasSuffix(p, "/arpc/log")
	}
	if p == "" && fn.Synthetic != "" {
		return true
	}
	switch p {
	case "errors", "encoding/binary", "math/bits", "internal/byteorder":
		return true
	}
	return false
}

func (w *World) opaqueOK(fn *ssa.Function) bool {
	p := pkgPathOf(fn)
	switch p {
	case "fmt", "time", "os", "runtime", "strconv", "strings", "net", "context", "github.com/lesismal/arpc/log", "runtime/debug", "sync", "math/rand", "path", "net/http", "errors", "bufio", "net/url", "crypto/tls":
		return true
	}
	return false
}

func (w *World) constGlobal(x *Exec, s *State, p *PtrV, t types.Type) Value {
	for g, st := range w.gstores {
		if p.Key != "G:"+g.Pkg.Pkg.Path()+"."+g.Name() {
			continue
		}
		if st.other > 0 {
			return nil
		}
		if st.stores == 0 {
			if strings.HasPrefix(filepath.Base(w.fset.Position(g.Pos()).Filename), specPrefix) {
				return nil // ghost state is arbitrary
			}
			return x.zero(t)
		}
		if st.stores == st.init && st.init == 1 && st.errNew {
			if _, ok := t.Underlying().(*types.Interface); ok {
				et := w.errorStringPtr()
				if et == nil {
					return nil
				}
				return &IfaceV{T: x.tagOf(et), P: x.c.BV(w.constIDs[g], 32)}
			}
		}
		return nil
	}
	return nil
}

func (w *World) errorStringPtr() types.Type {
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
				return types.NewPointer(o.Type())
			}
		}
	}
	return nil
}

func (w *World) scanGlobals() {
	w.gstores = map[*ssa.Global]*gstat{}
	w.constIDs = map[*ssa.Global]uint64{}
	for fn := range ssautil.AllFunctions(w.prog) {
		p := pkgPathOf(fn)
		mod := strings.HasPrefix(p, "github.com/lesismal/arpc") || p == "io"
		if !mod {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [8]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					gp := g.Pkg.Pkg.Path()
					if !(strings.HasPrefix(gp, "github.com/lesismal/arpc") || gp == "io") {
						continue
					}
					st := w.gstores[g]
					if st == nil {
						st = &gstat{}
						w.gstores[g] = st
					}
					switch i := in.(type) {
					case *ssa.UnOp:
					case *ssa.FieldAddr, *ssa.DebugRef:
						if _, ok := in.(*ssa.FieldAddr); ok {
							st.other++
						}
					case *ssa.Store:
						if i.Addr == *op {
							st.stores++
							if fn.Name() == "init" && fn.Parent() == nil {
								st.init++
								v := i.Val
								if mi, ok := v.(*ssa.MakeInterface); ok {
									v = mi.X
								}
								if c, ok := v.(*ssa.Call); ok {
									if f := c.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
										st.errNew = true
									}
								}
							}
						} else {
							st.other++
						}
					default:
						st.other++
					}
				}
			}
		}
	}
	var gs []*ssa.Global
	for g := range w.gstores {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for i, g := range gs {
		w.constIDs[g] = 0x28000000 + uint64(i)
	}
}

// ---- loading ----

const intrinsicsSrc = `
func vcRequires(bool) {}
func vcEnsures(string, bool) {}
func vcAssert(string, bool) {}
func vcAssume(bool) {}
func vcStop() {}
func vcCover(string) {}
func vcImp(a, b bool) bool { return !a || b }
func vcAnd(a, b bool) bool { return a && b }
func vcOr(a, b bool) bool { return a || b }
func vcIff(a, b bool) bool { return a == b }
func vcIteInt(c bool, a, b int) int { if c { return a }; return b }
func vcPanicked() bool { return false }
func vcChoice() bool { return false }
func vcInt() int { return 0 }
func vcHint(string, func() bool) {}
func vcModifies(interface{}) {}
func vcModifiesAll() {}
func vcHavoc(interface{}) {}
func vcFresh(interface{}) {}
func vcIsFresh(interface{}) bool { return false }
func vcBytesEq(a, b []byte) bool { return string(a) == string(b) }
func vcBytesStr(a []byte, b string) bool { return string(a) == b }
func vcStrImmutable(string) bool { return true }
func vcSameArray(a, b []byte) bool { return false }
func vcArrayOff(a []byte) int { return 0 }
func vcArrayId(a []byte) int { return 0 }
func vcStrArrayId(a string) int { return 0 }
func vcRaw(a []byte) []byte { return a }
func vcId(interface{}) int { return 0 }
func vcHeld(interface{}) bool { return false }
func vcHeldW(interface{}) bool { return false }
func vcLocks() int { return 0 }
func vcFork(func()) {}
func vcCall(func()) {}
func vcUF1(string, uint64) uint64 { return 0 }
func vcUF2(string, uint64, uint64) uint64 { return 0 }
func vcThread() int { return 0 }
func vcVisited(key interface{}) bool { return false }
`

type unit struct {
	rel   string // package dir relative to the repo
	files map[string]string
}

type LoadCfg struct {
	Repo      string
	Contracts string
	Modfile   string
	Rels      []string // package dirs to load (relative), "" = root
}

var verbose = os.Getenv("GOVER_V") != ""

func Load(cfg LoadCfg) (*World, error) {
	x0repo = cfg.Repo
	overlay := map[string][]byte{}
	type src struct{ path, text string }
	srcs := map[string]*src{}
	for _, rel := range cfg.Rels {
		cdir := filepath.Join(cfg.Contracts, rel)
		if rel == "" {
			cdir = filepath.Join(cfg.Contracts, "root")
		}
		ents, err := os.ReadDir(cdir)
		if err != nil {
			continue
		}
		pkgName := ""
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(cdir, e.Name()))
			if err != nil {
				return nil, err
			}
			dst := filepath.Join(cfg.Repo, rel, specPrefix+e.Name())
			srcs[dst] = &src{filepath.Join(cdir, e.Name()), string(b)}
			if m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b); m != nil {
				pkgName = string(m[1])
			}
		}
		if pkgName != "" {
			dst := filepath.Join(cfg.Repo, rel, specPrefix+"intrinsics.go")
			srcs[dst] = &src{dst, "package " + pkgName + "\n" + intrinsicsSrc}
		}
	}
	w := &World{}
	var pats []string
	for _, r := range cfg.Rels {
		pats = append(pats, "./"+r)
	}
	for round := 0; round < 12; round++ {
		for k, v := range srcs {
			overlay[k] = []byte(v.text)
		}
		fset := token.NewFileSet()
		pc := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: cfg.Repo, Fset: fset, Overlay: overlay, Tests: false,
			Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GO111MODULE=on")}
		if cfg.Modfile != "" {
			pc.BuildFlags = []string{"-modfile=" + cfg.Modfile}
		}
		pkgs, err := packages.Load(pc, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]map[int]string{}
		var other []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				parts := strings.SplitN(e.Pos, ":", 3)
				if len(parts) >= 2 && strings.HasPrefix(filepath.Base(parts[0]), specPrefix) {
					ln, _ := strconv.Atoi(parts[1])
					if bad[parts[0]] == nil {
						bad[parts[0]] = map[int]string{}
					}
					bad[parts[0]][ln] = e.Msg
				} else if strings.HasPrefix(p.PkgPath, "github.com/lesismal/arpc") {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) == 0 {
			if len(other) > 0 {
				w.loadErrs = other
				return w, fmt.Errorf("repository does not type-check: %s", strings.Join(other, "; "))
			}
			w.fset = fset
			w.pkgs = pkgs
			break
		}
		if round == 11 {
			return nil, fmt.Errorf("contracts do not type-check: %v", bad)
		}
		for file, lines := range bad {
			s := srcs[file]
			if s == nil {
				return nil, fmt.Errorf("unknown overlay %s", file)
			}
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, file, s.text, parser.ParseComments)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", s.path, err)
			}
			text := []byte(s.text)
			for ln, msg := range lines {
				hit := false
				for _, d := range af.Decls {
					from := d.Pos()
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
						from = fd.Doc.Pos()
					}
					if fs.Position(from).Line <= ln && ln <= fs.Position(d.End()).Line {
						if strings.Contains(msg, "imported and not used") {
							// drop the single import line
							lines := strings.Split(string(text), "\n")
							lines[ln-1] = ""
							text = []byte(strings.Join(lines, "\n"))
							hit = true
							break
						}
						name := "?"
						if fd, ok := d.(*ast.FuncDecl); ok {
							name = fd.Name.Name
							w.missing = append(w.missing, docDirectives(fd.Doc)...)
						}
						w.dropped = append(w.dropped, fmt.Sprintf("%s: %s (%s)", filepath.Base(s.path), name, msg))
						a, b := fs.Position(from).Offset, fs.Position(d.End()).Offset
						for k := a; k < b; k++ {
							if text[k] != '\n' {
								text[k] = ' '
							}
						}
						hit = true
						break
					}
				}
				if !hit {
					return nil, fmt.Errorf("%s:%d: %s", s.path, ln, msg)
				}
			}
			s.text = string(text)
		}
	}
	prog, _ := ssautil.AllPackages(w.pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.specCache = map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		w.specCache[fn] = w.isSpec0(fn)
	}
	w.hooks = map[string][]*Hook{}
	w.externs = map[string][]*Hook{}
	w.byTarget = map[*ssa.Function][]*Contract{}
	w.volatile = map[string]bool{}
	w.guarded = map[string][]string{}
	w.lockInvs = map[string][]*Hook{}
	w.neverClosed = map[string]bool{}
	w.ifaceDef = map[string]types.Type{}
	w.nosp = map[string]bool{}
	w.mayPan = map[string]bool{}
	w.scanGlobals()
	for _, p := range w.pkgs {
		if err := w.directives(p); err != nil {
			return nil, err
		}
	}
	return w, nil
}

func docDirectives(cg *ast.CommentGroup) []string {
	var out []string
	if cg == nil {
		return nil
	}
	for _, c := range cg.List {
		if strings.HasPrefix(c.Text, "//@ ") {
			out = append(out, strings.TrimSpace(strings.TrimPrefix(c.Text, "//@ ")))
		}
	}
	return out
}

func (w *World) directives(p *packages.Package) error {
	sp := w.prog.Package(p.Types)
	for _, f := range p.Syntax {
		fname := w.fset.Position(f.Pos()).Filename
		if !strings.HasPrefix(filepath.Base(fname), specPrefix) {
			continue
		}
		inDoc := map[*ast.Comment]bool{}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				inDoc[c] = true
			}
			fn := sp.Func(fd.Name.Name)
			if fn == nil {
				continue
			}
			if err := w.fnDirectives(sp, fn, docDirectives(fd.Doc), fd); err != nil {
				return fmt.Errorf("%s: %s: %v", fname, fd.Name.Name, err)
			}
		}
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if inDoc[c] || !strings.HasPrefix(c.Text, "//@ ") {
					continue
				}
				fl := strings.Fields(strings.TrimPrefix(c.Text, "//@ "))
				switch fl[0] {
				case "volatile":
					for _, v := range fl[1:] {
						w.volatile[v] = true
					}
				case "guarded":
					w.guarded[fl[1]] = append(w.guarded[fl[1]], fl[2:]...)
				case "neverclosed":
					for _, v := range fl[1:] {
						w.neverClosed[v] = true
					}
				case "nospawn":
					for _, v := range fl[1:] {
						w.nosp[v] = true
					}
				case "maypanic":
					for _, v := range fl[1:] {
						w.mayPan[v] = true
					}
				case "iface":
					t := w.lookupType(sp, fl[2])
					if t == nil {
						return fmt.Errorf("iface: unknown type %s", fl[2])
					}
					w.ifaceDef[fl[1]] = t
				default:
					return fmt.Errorf("unknown directive %q", c.Text)
				}
			}
		}
	}
	return nil
}

func (w *World) lookupType(sp *ssa.Package, name string) types.Type {
	ptr := strings.HasPrefix(name, "*")
	name = strings.TrimPrefix(name, "*")
	scope := sp.Pkg.Scope()
	if i := strings.LastIndex(name, "."); i >= 0 {
		for _, p := range w.prog.AllPackages() {
			if p.Pkg.Path() == name[:i] || p.Pkg.Name() == name[:i] {
				scope = p.Pkg.Scope()
				if scope.Lookup(name[i+1:]) != nil {
					break
				}
			}
		}
		name = name[i+1:]
	}
	o := scope.Lookup(name)
	if o == nil {
		return nil
	}
	if ptr {
		return types.NewPointer(o.Type())
	}
	return o.Type()
}

// lookupFn resolves "(*T).M", "T.M" or "F" in the package.
func (w *World) lookupFn(sp *ssa.Package, name string) *ssa.Function {
	re := regexp.MustCompile(`^\((\*?)(\w+)\)\.(\w+)$`)
	if m := re.FindStringSubmatch(name); m != nil {
		o := sp.Pkg.Scope().Lookup(m[2])
		if o == nil {
			return nil
		}
		t := o.Type()
		if m[1] == "*" {
			t = types.NewPointer(t)
		}
		sel := w.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, m[3])
		if sel == nil {
			return nil
		}
		return w.prog.MethodValue(sel)
	}
	return sp.Func(name)
}

func (w *World) fnDirectives(sp *ssa.Package, fn *ssa.Function, ds []string, fd *ast.FuncDecl) error {
	var con *Contract
	theories := map[string]bool{}
	for _, d := range ds {
		fl := strings.Fields(d)
		if fl[0] == "theory" {
			for _, t := range fl[1:] {
				theories[t] = true
			}
		}
	}
	for _, d := range ds {
		fl := strings.Fields(d)
		switch fl[0] {
		case "contract":
			con = &Contract{Name: fn.Name(), Fn: fn, TargetName: fl[1], Theories: theories, PanicFns: map[string]bool{}, NoSpawn: map[string]bool{}, Volatile: map[string]bool{}, NoUse: map[string]bool{}}
			con.Opt.maxSteps = 3000000
			con.Target = w.lookupFn(sp, fl[1])
			if con.Target == nil {
				con.Err = "target " + fl[1] + " does not exist"
			}
			w.contracts = append(w.contracts, con)
			if con.Target != nil {
				w.byTarget[con.Target] = append(w.byTarget[con.Target], con)
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && id.Name == "vcPanicked" {
					con.HandlesPanic = true
				}
				return true
			})
		case "extern":
			k := strings.Join(fl[1:], " ")
			w.externs[k] = append(w.externs[k], &Hook{Name: k, Fn: fn, Theories: theories})
		case "op":
			h := &Hook{Name: strings.Join(fl[1:], " "), Fn: fn, Theories: theories}
			if len(fl) > 3 && fl[3] == "noowner" {
				h.NoOwner = true
			}
			w.hooks[fl[1]+" "+fl[2]] = append(w.hooks[fl[1]+" "+fl[2]], h)
		case "lockinv":
			w.lockInvs[fl[1]] = append(w.lockInvs[fl[1]], &Hook{Name: fl[1], Fn: fn, Theories: theories})
		}
	}
	if con == nil {
		return nil
	}
	for _, d := range ds {
		fl := strings.Fields(d)
		switch fl[0] {
		case "property":
			con.Props = append(con.Props, fl[1:]...)
		case "modular":
			con.Modular = true
		case "thorough":
			con.Thorough = true
		case "nospawn":
			for _, v := range fl[1:] {
				con.NoSpawn[v] = true
			}
		case "volatile":
			for _, v := range fl[1:] {
				con.Volatile[v] = true
			}
		case "nouse":
			for _, v := range fl[1:] {
				if v == "*" {
					con.UseNone = true
				}
				con.NoUse[v] = true
			}
		case "panicfree":
			con.Opt.panics = true
			for _, v := range fl[1:] {
				con.PanicFns[v] = true
			}
		case "wakes":
			con.Wakes = fl[1:]
		case "bounded":
			if len(fl) != 2 {
				return fmt.Errorf("bounded needs an iteration count")
			}
			n, err := strconv.Atoi(fl[1])
			if err != nil || n < 1 {
				return fmt.Errorf("bad iteration count %q", fl[1])
			}
			con.Bounded = n
		case "opt":
			for _, v := range fl[1:] {
				switch v {
				case "panics":
					con.Opt.panics = true
				case "cbpanic":
					con.Opt.cbPanic = true
				case "locks":
					con.Opt.lockCheck = true
				case "seq":
					con.Opt.seq = true
				case "block":
					con.Opt.blockCheck = true
				default:
					return fmt.Errorf("unknown option %s", v)
				}
			}
		case "contract", "theory", "extern", "op", "lockinv":
		default:
			return fmt.Errorf("unknown directive %q", d)
		}
	}
	return nil
}

// hooked tells whether some hook is attached to a field.
func (w *World) hooked(field string) bool {
	if w.neverClosed[field] {
		return true
	}
	w.hookOnce.Do(func() {
		w.hookFields = map[string]bool{}
		for k := range w.hooks {
			_, f, _ := strings.Cut(k, " ")
			w.hookFields[f] = true
			w.hookFields[strings.TrimSuffix(f, "[]")] = true
			if i := strings.LastIndex(f, "."); i > 0 && strings.Count(f, ".") >= 3 {
				w.hookFields[f[:i]] = true
			}
		}
	})
	return w.hookFields[field]
}
