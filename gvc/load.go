package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bwesterb/go-xmssmt"

type contract struct {
	fn     *ssa.Function
	target string
	use    func(*Exec) bool
}

type harness struct {
	prop     string // property decided
	name     string // unique name
	fn       *ssa.Function
	thorough bool // only in the thorough tier
	bounded  string
	contr    bool // verifies a function against its contract
	noinline bool
	opts     map[string]string
}

type guardSpec struct {
	typ, field, mux string
}

type Loader struct {
	dir, cdir    string
	fset         *token.FileSet
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	xm           *ssa.Package
	models       map[string]*ssa.Function
	depends      map[string][]string // property -> properties whose contracts it relies on
	contracts    map[*ssa.Function]*contract
	harnesses    []*harness
	harnessFns   map[*ssa.Function]bool
	errType      types.Type
	nativeGlobal func(*Exec, *ssa.Global) (Value, bool)
	loopSpec     map[*ssa.Function][]*loopSpec
	guarded      []guardSpec
	monitors     []monitorSpec
	dropped      []string // contract declarations that no longer fit the code
	inlinePk     map[string]bool
	mu           sync.Mutex
	built        map[*ssa.Package]bool
	overlay      map[string][]byte
	skipInit     map[string]bool
}

type loopSpec struct {
	fn *ssa.Function // the invariant
	n  int           // which loop (source order)
}

type directive struct {
	kind string
	args []string
	fn   string
	pos  token.Position
}

// load type-checks /repo together with the contract files and builds SSA.
func load(dir, cdir string, only []string) (*Loader, error) {
	ld := &Loader{dir: dir, cdir: cdir, models: map[string]*ssa.Function{}, contracts: map[*ssa.Function]*contract{},
		harnessFns: map[*ssa.Function]bool{}, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, loopSpec: nil}
	files, err := filepath.Glob(filepath.Join(cdir, "*.go"))
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(dir, "gvc_"+filepath.Base(f))] = b
	}
	ld.overlay = overlay
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		ld.fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
				packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
			Dir: dir, Fset: ld.fset, Overlay: overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		}
		pkgs, err = packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		var bad []packages.Error
		for _, p := range pkgs {
			bad = append(bad, p.Errors...)
		}
		if len(bad) == 0 {
			break
		}
		if round > 12 {
			return nil, fmt.Errorf("contracts do not type-check: %v", bad[0])
		}
		n := 0
		type cut struct{ a, b int }
		cuts := map[string][]cut{}
		for _, e := range bad {
			f, line := splitPos(e.Pos)
			src, ok := overlay[f]
			if !ok {
				continue
			}
			fs := token.NewFileSet()
			af, perr := parser.ParseFile(fs, f, src, parser.ParseComments)
			if perr != nil {
				return nil, perr
			}
			for _, d := range af.Decls {
				a, b := fs.Position(d.Pos()), fs.Position(d.End())
				if line < a.Line || line > b.Line {
					continue
				}
				name := "?"
				start := a.Offset
				switch x := d.(type) {
				case *ast.FuncDecl:
					name = x.Name.Name
					if x.Doc != nil {
						start = fs.Position(x.Doc.Pos()).Offset
					}
				case *ast.GenDecl:
					if x.Tok == token.IMPORT {
						// unused import: blank it
						name = ""
						if strings.Contains(e.Msg, "imported and not used") {
							for _, s := range x.Specs {
								is := s.(*ast.ImportSpec)
								if fs.Position(is.Pos()).Line == line {
									cuts[f] = append(cuts[f], cut{fs.Position(is.Pos()).Offset, fs.Position(is.End()).Offset})
									n++
								}
							}
						}
						continue
					}
					name = "declaration at " + e.Pos
					if x.Doc != nil {
						start = fs.Position(x.Doc.Pos()).Offset
					}
				}
				dup := false
				for _, c := range cuts[f] {
					if c.a == start {
						dup = true
					}
				}
				if dup {
					continue
				}
				cuts[f] = append(cuts[f], cut{start, b.Offset})
				ld.dropped = append(ld.dropped, fmt.Sprintf("%s: %s", name, e.Msg))
				n++
			}
		}
		if n == 0 {
			return nil, fmt.Errorf("/repo does not type-check: %v", bad[0])
		}
		for f, cs := range cuts {
			src := append([]byte(nil), overlay[f]...)
			for _, c := range cs {
				for i := c.a; i < c.b; i++ {
					if src[i] != '\n' {
						src[i] = ' '
					}
				}
			}
			overlay[f] = src
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	ld.prog = prog
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
	}
	ld.xm = spkgs[0]
	if ld.xm == nil {
		return nil, fmt.Errorf("no package in %s", dir)
	}
	ld.build(ld.xm)
	// directives
	var dirs []directive
	isContract := map[string]bool{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			fname := ld.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fname), "gvc_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				nm := fd.Name.Name
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//gvc:") {
							w := directiveArgs(c.Text[6:])
							dirs = append(dirs, directive{w[0], w[1:], nm, ld.fset.Position(fd.Pos())})
							switch w[0] {
							case "contract", "model", "spec", "loop":
								isContract[nm] = true
							}
						}
					}
				}
				if fd.Recv == nil && !isContract[nm] {
					if fn := ld.xm.Func(nm); fn != nil {
						ld.harnessFns[fn] = true
					}
				}
			}
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//gvc:depends ") {
						w := directiveArgs(c.Text[14:])
						if ld.depends == nil {
							ld.depends = map[string][]string{}
						}
						ld.depends[w[0]] = append(ld.depends[w[0]], w[1:]...)
					}
					if strings.HasPrefix(c.Text, "//gvc:monitor ") {
						w := directiveArgs(c.Text[14:])
						tf := strings.SplitN(w[0], ".", 2)
						ld.monitors = append(ld.monitors, monitorSpec{tf[0], tf[1], w[1], w[2]})
					}
					if strings.HasPrefix(c.Text, "//gvc:guarded ") {
						w := directiveArgs(c.Text[14:])
						tf := strings.SplitN(w[0], ".", 2)
						ld.guarded = append(ld.guarded, guardSpec{tf[0], tf[1], w[1]})
					}
				}
			}
		}
	}
	for _, d := range dirs {
		fn := ld.xm.Func(d.fn)
		if fn == nil {
			continue
		}
		switch d.kind {
		case "contract":
			t := ld.find(d.args[0])
			if t == nil {
				ld.dropped = append(ld.dropped, "contract "+d.fn+": no function "+d.args[0])
				continue
			}
			if !sameSig(t, fn) {
				ld.dropped = append(ld.dropped, "contract "+d.fn+": signature of "+d.args[0]+" changed")
				continue
			}
			ld.contracts[t] = &contract{fn: fn, target: d.args[0]}
		case "model":
			ld.models[d.args[0]] = fn
		case "harness":
			h := &harness{prop: d.args[0], name: d.fn, fn: fn, opts: map[string]string{}}
			for _, a := range d.args[1:] {
				kv := strings.SplitN(a, "=", 2)
				v := ""
				if len(kv) == 2 {
					v = kv[1]
				}
				h.opts[kv[0]] = v
			}
			_, h.thorough = h.opts["thorough"]
			h.bounded = h.opts["bounded"]
			ld.harnesses = append(ld.harnesses, h)
		case "loop":
			t := ld.find(d.args[0])
			if t == nil {
				ld.dropped = append(ld.dropped, "loop invariant "+d.fn+": no function "+d.args[0])
				continue
			}
			n := 0
			if len(d.args) > 1 {
				fmt.Sscan(d.args[1], &n)
			}
			if ld.loopSpec == nil {
				ld.loopSpec = map[*ssa.Function][]*loopSpec{}
			}
			ld.loopSpec[t] = append(ld.loopSpec[t], &loopSpec{fn, n})
		}
	}
	sort.Slice(ld.harnesses, func(i, j int) bool { return ld.harnesses[i].name < ld.harnesses[j].name })
	if t := ld.xm.Type("gvcErr"); t != nil {
		ld.errType = t.Type()
	} else {
		return nil, fmt.Errorf("contracts: no type gvcErr")
	}
	ld.nativeGlobal = func(e *Exec, g *ssa.Global) (Value, bool) {
		t := g.Type().(*types.Pointer).Elem()
		if s, ok := t.Underlying().(*types.Struct); ok && (s.NumFields() == 0 || g.Pkg.Pkg.Path() == "golang.org/x/sys/cpu") {
			return e.zero(t), true
		}
		return nil, false
	}
	return ld, nil
}

func splitPos(p string) (string, int) {
	w := strings.Split(p, ":")
	if len(w) < 2 {
		return p, 0
	}
	line := 0
	fmt.Sscan(w[1], &line)
	return w[0], line
}

func sameSig(t, c *ssa.Function) bool {
	if len(t.Params) != len(c.Params) {
		return false
	}
	for i := range t.Params {
		if !types.Identical(t.Params[i].Type(), c.Params[i].Type()) {
			return false
		}
	}
	a, b := t.Signature.Results(), c.Signature.Results()
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !types.Identical(a.At(i).Type(), b.At(i).Type()) {
			return false
		}
	}
	return true
}

// find a function of the repository: "f", "(*T).m", "(T).m"
func (ld *Loader) find(name string) *ssa.Function {
	if !strings.HasPrefix(name, "(") {
		return ld.xm.Func(name)
	}
	i := strings.Index(name, ").")
	tn := name[1:i]
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	m := name[i+2:]
	mem, ok := ld.xm.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	var t types.Type = mem.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	ms := ld.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(ld.xm.Pkg, m)
	if sel == nil {
		return nil
	}
	return ld.prog.MethodValue(sel)
}

func (ld *Loader) build(p *ssa.Package) {
	if p == nil {
		return
	}
	ld.mu.Lock()
	defer ld.mu.Unlock()
	if !ld.built[p] {
		ld.built[p] = true
		p.Build()
	}
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil {
		return o.Pkg
	}
	return nil
}

func (ld *Loader) inRepo(fn *ssa.Function) bool {
	p := pkgOf(fn)
	if p == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) {
		return false
	}
	f := ld.fset.Position(fn.Pos()).Filename
	return !strings.HasPrefix(filepath.Base(f), "gvc_")
}

func (ld *Loader) initialised(p *ssa.Package) bool {
	return p != nil && (strings.HasPrefix(p.Pkg.Path(), modPath) || initLibs[p.Pkg.Path()])
}

// libraries whose package initialisers are executed
var initLibs = map[string]bool{}

var denyInline = []string{"runtime", "reflect", "os", "syscall", "sync", "time", "internal/", "crypto/", "golang.org/x/crypto", "golang.org/x/sys", "math/rand", "hash", "fmt", "unicode", "github.com/nightlyone", "github.com/edsrzf", "golang.org/x/"}

func (ld *Loader) mayInline(fn *ssa.Function) bool {
	p := pkgOf(fn)
	if p == nil {
		// wrappers, thunks, bound methods
		return true
	}
	path := p.Pkg.Path()
	if strings.HasPrefix(path, modPath) {
		return true
	}
	for _, d := range denyInline {
		if path == d || strings.HasPrefix(path, d) && (strings.HasSuffix(d, "/") || strings.HasPrefix(path, d+"/")) {
			return path == "crypto/subtle" || path == "internal/byteorder"
		}
	}
	ld.build(p)
	return len(fn.Blocks) > 0
}

func (ld *Loader) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := ld.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return ld.prog.MethodValue(sel)
}

// of reports whether the harness is needed for the property.
func (ld *Loader) needed(h *harness, prop string) bool {
	want := append([]string{prop}, ld.depends[prop]...)
	for _, p := range strings.Split(h.prop, ",") {
		for _, q := range want {
			if p == q {
				return true
			}
		}
	}
	return false
}

// directiveArgs splits the text of a directive at spaces outside double quotes, and drops the quotes.
func directiveArgs(s string) []string {
	var out []string
	cur, in, any := "", false, false
	for _, r := range s {
		switch {
		case r == '"':
			in, any = !in, true
		case (r == ' ' || r == '\t') && !in:
			if any {
				out = append(out, cur)
			}
			cur, any = "", false
		default:
			cur, any = cur+string(r), true
		}
	}
	if any {
		out = append(out, cur)
	}
	return out
}
