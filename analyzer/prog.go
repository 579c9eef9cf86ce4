package main

// Loading the program: type-checked syntax and SSA form of all packages of the repository.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the analysed program.
type Program struct {
	dir     string
	module  string
	pkgs    []*packages.Package
	byPath  map[string]*packages.Package
	ssa     *ssa.Program
	fset    *token.FileSet
	fnInfos map[*ssa.Function]*fnInfo
	allFns  map[*ssa.Function]bool

	globalInits map[*ssa.Global]*globalInit

	// per-analysis tables, see reset
	globals     map[*ssa.Global]ObjID
	strContents map[string]*RegContent
	assertVals  map[string]Value
	inputAtoms  map[Atom]bool
}

const modulePath = "github.com/dargueta/disko"

// loadError says why the program could not be analysed.
type loadError struct{ msg string }

func (e loadError) Error() string { return e.msg }

// followedStd lists the packages of the standard library whose functions are analysed from their source where no model
// exists, as far as followsStd has them.
var followedStd = []string{"slices"}

var followedFuncs = map[string]bool{
	"slices.Index": true, "slices.IndexFunc": true, "slices.Contains": true, "slices.ContainsFunc": true,
	"slices.DeleteFunc": true, "slices.Backward": true, "slices.All": true, "slices.Values": true,
}

// follows tells if a function is analysed from its source.
func (p *Program) follows(fn *ssa.Function) bool {
	if p.inModule(fn) {
		return true
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && followedFuncs[fn.Pkg.Pkg.Path()+"."+fn.Name()]
}

// restated has functions of package slices written in a way that is easier to follow but has the same effect.
var restated = map[string]string{
	"func DeleteFunc[S ~[]E, E any](s S, del func(E) bool) S {": `
	kept := make([]E, 0, len(s))
	for _, v := range s {
		if !del(v) {
			kept = append(kept, v)
		}
	}
	n := copy(s, kept)
	clear(s[n:])
	return s[:n]
}`,
}

func parseFile(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	if strings.HasSuffix(filepath.ToSlash(name), "/src/slices/slices.go") {
		text := string(src)
		for head, body := range restated {
			i := strings.Index(text, head)
			if i < 0 {
				continue
			}
			if n := strings.Index(text[i:], "\n}"); n >= 0 {
				text = text[:i+len(head)] + body + text[i+n+2:]
			}
		}
		src = []byte(text)
	}
	return parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
}

func LoadProgram(dir string) (*Program, error) {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOPROXY=") || strings.HasPrefix(kv, "GOWORK=") {
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedEmbedFiles,
		Dir: dir, Env: env, Tests: false, ParseFile: parseFile,
	}
	pkgs, err := packages.Load(cfg, append([]string{"./..."}, followedStd...)...)
	if err != nil {
		return nil, loadError{"cannot load the packages of the repository: " + err.Error()}
	}
	p := &Program{dir: dir, module: modulePath, pkgs: pkgs, byPath: map[string]*packages.Package{}, fnInfos: map[*ssa.Function]*fnInfo{}}
	var errs []string
	for _, pkg := range pkgs {
		p.byPath[pkg.PkgPath] = pkg
		if slices.Contains(followedStd, pkg.PkgPath) {
			continue
		}
		for _, e := range pkg.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, loadError{"the repository does not type-check: " + strings.Join(errs, "; ")}
	}
	if len(pkgs) == 0 {
		return nil, loadError{"no packages found"}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	p.fset = prog.Fset
	p.allFns = ssautil.AllFunctions(prog)
	p.reset()
	return p, nil
}

// reset prepares for a new root analysis.
func (p *Program) reset() {
	ResetAtoms()
	resetTerms()
	bitIndex = map[string]Poly{}
	bitInfo = map[Atom]bitOrigin{}
	bitAtoms = map[Atom]bool{}
	memoIndex = map[string]Poly{}
	memoDeps = map[Atom][]Atom{}
	p.globals = map[*ssa.Global]ObjID{}
	p.strContents = map[string]*RegContent{}
	p.assertVals = map[string]Value{}
	p.inputAtoms = map[Atom]bool{}
}

func (p *Program) position(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	rel, err := filepath.Rel(p.dir, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Program) inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), p.module)
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), p.module)
	}
	if fn.Parent() != nil {
		return p.inModule(fn.Parent())
	}
	// Wrappers and thunks: look at the wrapped function's object.
	if o := fn.Object(); o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), p.module) {
		return true
	}
	// Synthetic wrappers of promoted foreign methods have bodies too.
	return fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Signature.Recv() != nil
}

func (p *Program) globalObj(ip *Interp, g *ssa.Global) (ObjID, bool) {
	if o, ok := p.globals[g]; ok {
		return o, true
	}
	name := g.Name()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Name() + "." + g.Name()
	}
	o := ip.newObj(name, deref(g.Type()), false)
	ip.objs[o].param = true
	ip.objs[o].owner = "global"
	p.globals[g] = o
	p.constGlobal(ip, g, o)
	// Error sentinels.
	if t := deref(g.Type()); isErrorType(t) {
		full := name
		if g.Pkg != nil {
			full = g.Pkg.Pkg.Path() + "." + g.Name()
		}
		ip.initCells[cellKey{o, ""}] = ip.sentinel(full, t)
	}
	return o, true
}

// sentinel is the value of a package level error variable.
func (ip *Interp) sentinel(full string, t types.Type) *SymV {
	k := "sentinel/" + full
	if v, ok := ip.prog.assertVals[k]; ok {
		return v.(*SymV)
	}
	s := ip.newSym(t, full)
	s.nonnil = true
	s.err = &errInfo{sentinel: full}
	ip.prog.assertVals[k] = s
	return s
}

// methodOf finds the method a dynamic type has for an interface method.
func (p *Program) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

// Pkg gives the types package with a path relative to the module.
func (p *Program) Pkg(rel string) *types.Package {
	path := p.module
	if rel != "" {
		path += "/" + rel
	}
	if pk, ok := p.byPath[path]; ok {
		return pk.Types
	}
	return nil
}

// Type looks up a named type.
func (p *Program) Type(rel, name string) *types.Named {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Func looks up a package level function.
func (p *Program) Func(rel, name string) *ssa.Function {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	sp := p.ssa.Package(pk)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method looks up a method (also a promoted one) of a named type or its pointer type.
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	n := p.Type(rel, typ)
	if n == nil {
		return nil
	}
	ms := p.ssa.MethodSets.MethodSet(types.NewPointer(n))
	sel := ms.Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

// SrcFuncs lists all functions with source in the module, in a stable order.
func (p *Program) SrcFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range p.allFns {
		if fn.Synthetic == "" && len(fn.Blocks) > 0 && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), p.module) {
			out = append(out, fn)
		} else if fn.Parent() != nil && len(fn.Blocks) > 0 && p.inModule(fn) && fn.Pkg == nil {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// ValueMethod looks up a method of a named type, for a receiver that is not a pointer if possible.
func (p *Program) ValueMethod(rel, typ, name string) *ssa.Function {
	n := p.Type(rel, typ)
	if n == nil {
		return nil
	}
	if sel := p.ssa.MethodSets.MethodSet(n).Lookup(n.Obj().Pkg(), name); sel != nil {
		return p.ssa.MethodValue(sel)
	}
	return p.Method(rel, typ, name)
}
