package main

// C44: types implement the methods that the interfaces they are handed out as require.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// embeddedIfaces lists the interface fields embedded in a struct, as positions of fields.
func embeddedIfaces(st *types.Struct) []int {
	var out []int
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() && types.IsInterface(f.Type()) {
			out = append(out, i)
		}
	}
	return out
}

type fieldKey struct {
	typ *types.Named
	idx int
}

// methodFacts is what a pass over all instructions of the module collects.
type methodFacts struct {
	// set: an embedded field that is given a value somewhere.
	set map[fieldKey]bool
	// given: types that are constructed, converted to interfaces, or returned by exported functions.
	given map[*types.Named]ssa.Instruction
	// bare: an object handed out right where it is made without the field being set.
	bare map[fieldKey]ssa.Instruction
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (c *Checker) methodFacts() *methodFacts {
	f := &methodFacts{map[fieldKey]bool{}, map[*types.Named]ssa.Instruction{}, map[fieldKey]ssa.Instruction{}}
	for _, fn := range c.prog.SrcFuncs() {
		c.stats.Functions[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !isNilConst(x.Val) {
						if n := namedOf(fa.X.Type()); n != nil {
							f.set[fieldKey{n, fa.Field}] = true
						}
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if n := namedOf(fa.X.Type()); n != nil && f.given[n] == nil {
							f.given[n] = in
						}
					}
				case *ssa.MakeInterface:
					if n := namedOf(x.X.Type()); n != nil && f.given[n] == nil {
						f.given[n] = in
					}
					f.alloc(x.X, in)
				case *ssa.Return:
					o := fn.Object()
					for _, r := range x.Results {
						n := namedOf(r.Type())
						if n != nil && o != nil && o.Exported() && !types.IsInterface(n) && f.given[n] == nil {
							f.given[n] = in
						}
						f.alloc(r, in)
					}
				}
			}
		}
	}
	return f
}

// alloc notes the embedded fields that an object made in the same function lacks.
func (f *methodFacts) alloc(v ssa.Value, in ssa.Instruction) {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return
	}
	n := namedOf(a.Type())
	if n == nil {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	has := map[int]bool{}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			for _, q := range *x.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == x && !isNilConst(s.Val) {
					has[x.Field] = true
				} else if _, isLoad := q.(*ssa.UnOp); !isLoad && !ok {
					has[x.Field] = true
				}
			}
		case *ssa.Store:
			if x.Addr == a {
				if k, isC := x.Val.(*ssa.Const); !isC || k.Value != nil {
					return
				}
			} else {
				return
			}
		case *ssa.Call, *ssa.Defer, *ssa.Go, *ssa.MakeClosure:
			// May be filled in elsewhere, if it is passed by reference.
			return
		}
	}
	for _, i := range embeddedIfaces(st) {
		if !has[i] {
			k := fieldKey{n, i}
			if f.bare[k] == nil {
				f.bare[k] = in
			}
		}
	}
}

func (c *Checker) methodSets() {
	const rule = "C44"
	f := c.methodFacts()
	for _, rel := range append([]string{"file_systems/common", "testing"}, libPkgs...) {
		if c.prog.Pkg(rel) == nil {
			continue
		}
		for _, n := range c.prog.namedTypes(rel) {
			if st, ok := n.Underlying().(*types.Struct); ok {
				c.methodSet(rule, f, n, st)
			}
		}
	}
}

// methodSet checks one type with embedded interfaces.
func (c *Checker) methodSet(rule string, f *methodFacts, n *types.Named, st *types.Struct) {
	emb := embeddedIfaces(st)
	if len(emb) == 0 {
		return
	}
	c.stats.Counts["types"]++
	nilField := map[int]ssa.Instruction{}
	isNil := map[int]bool{}
	for _, i := range emb {
		k := fieldKey{n, i}
		f0 := st.Field(i)
		switch {
		case f.bare[k] != nil:
			nilField[i], isNil[i] = f.bare[k], true
		case !f.set[k] && f.given[n] != nil:
			nilField[i], isNil[i] = f.given[n], true
		case !f.set[k] && n.Obj().Exported() && !f0.Exported():
			// Nobody outside of the package can set it.
			isNil[i] = true
		}
	}
	reported := map[string]bool{}
	pos := func(p ssa.Instruction) string {
		if p != nil {
			if p.Pos().IsValid() {
				return c.prog.position(p.Pos())
			}
			return c.prog.position(p.Parent().Pos())
		}
		return c.prog.position(n.Obj().Pos())
	}
	for _, T := range []types.Type{n, types.NewPointer(n)} {
		ms := types.NewMethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			c.stats.Counts["methods"]++
			c.stats.Obligations[n.String()]++
			ix := s.Index()
			if len(ix) > 1 && isNil[ix[0]] {
				name := s.Obj().Name()
				if !reported[name] {
					reported[name] = true
					c.add(Finding{rule: rule, pos: pos(nilField[ix[0]]), fn: n.String(),
						msg: fmt.Sprintf("%s.%s is promoted from the embedded %s, which may be nil", n.Obj().Name(), name, types.TypeString(st.Field(ix[0]).Type(), nil))})
				}
				continue
			}
			if len(ix) == 1 {
				if fn := c.prog.ssa.MethodValue(s); fn != nil && fn.Synthetic == "" && !reported[s.Obj().Name()] {
					reported[s.Obj().Name()] = true
					c.runMethod(rule, n, fn, st, isNil)
				}
			}
		}
	}
	// What it is meant to be must be complete.
	for _, i := range emb {
		ifc := st.Field(i).Type().Underlying().(*types.Interface)
		if !types.Implements(types.NewPointer(n), ifc) {
			c.add(Finding{rule: rule, pos: pos(nil), fn: n.String(), msg: fmt.Sprintf("%s embeds %s but does not implement it", n.Obj().Name(), types.TypeString(st.Field(i).Type(), nil))})
		}
	}
}

// selfCall tells if every return of a function is preceded by a call of the function itself.
func selfCall(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(*ssa.Call); ok && k.Call.StaticCallee() == fn {
				all := true
				for _, r := range fn.Blocks {
					if _, ok := r.Instrs[len(r.Instrs)-1].(*ssa.Return); ok && !b.Dominates(r) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

var crashRules = []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"}

// runMethod looks for panics in a declared method whose receiver may lack the embedded interfaces.
func (c *Checker) runMethod(rule string, n *types.Named, fn *ssa.Function, st *types.Struct, isNil map[int]bool) {
	c.guard(fn.String(), func() {
		c.prog.reset()
		ip := c.newInterp()
		s := NewState()
		args := c.freshArgs(ip, s, fn)
		for i := range isNil {
			t := st.Field(i).Type()
			switch r := args[0].(type) {
			case PtrV:
				ip.store(s, PtrV{obj: r.obj, path: fieldPath(r.path, i)}, t, ip.zeroValue(t))
			case StructV:
				nf := append([]Value{}, r.f...)
				nf[i] = ip.zeroValue(t)
				args[0] = StructV{f: nf}
			}
		}
		rets := 0
		for _, o := range ip.Run(ip.rootOn(s, fn, args)) {
			if o.status != returned {
				continue
			}
			rets++
			ok, _ := ip.splitErr(fn, o)
			if ok == nil {
				continue
			}
			for i, r := range ok.results {
				t := fn.Signature.Results().At(i).Type()
				if it, isI := t.Underlying().(*types.Interface); isI && it.NumMethods() > 0 && !isErrorType(t) {
					ip.Obligations++
					if !ok.prove(ip.isNil(ok, r).Neg()) {
						ip.reportAt(ok, nil, rule, "what "+fn.Name()+" returns may be nil")
					}
				}
			}
		}
		ip.Obligations++
		if selfCall(fn) {
			ip.reportAt(s, nil, rule, fn.Name()+" always calls itself")
		} else if rets == 0 {
			ip.reportAt(s, nil, rule, "no call of "+fn.Name()+" returns")
		}
		var keep []Finding
		for _, x := range ip.findings {
			for _, r := range append([]string{rule}, crashRules...) {
				if x.rule == r {
					x.msg = strings.TrimSuffix(x.msg, ".")
					x.rule = rule
					keep = append(keep, x)
				}
			}
		}
		ip.findings = keep
		c.collect(ip)
	})
}

func init() {
	register(&check{id: "C44", explain: "Every type with an embedded interface was examined: where the library creates a value whose embedded interface stays nil, no method of the interfaces it is handed out as may be promoted from it. The methods such a type defines itself were interpreted on arbitrary receivers and must return without a panic.", title: "Public types implement every method they promise", run: func(c *Checker) {
		c.once("methods", func(c *Checker) { c.methodSets() })
	}, floors: map[string]int{"types": 5, "methods": 60}})
}
