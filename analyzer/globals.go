package main

// Package level variables that only the package initialiser assigns keep the values it gives them.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type globalInit struct {
	ok     bool
	stores map[string]ssa.Value // path -> value assigned
}

// scanGlobals finds, once per program, the variables that are only assigned during initialisation and whose
// contents nothing changes.
func (p *Program) scanGlobals() {
	if p.globalInits != nil {
		return
	}
	p.globalInits = map[*ssa.Global]*globalInit{}
	refs := map[*ssa.Global][]ssa.Instruction{}
	for fn := range p.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						refs[g] = append(refs[g], in)
					}
				}
			}
		}
	}
	for g, rs := range refs {
		gi := &globalInit{stores: map[string]ssa.Value{}}
		p.globalInits[g] = gi
		u := &readUses{p: p, seen: map[ssa.Value]bool{}}
		gi.ok = u.addr(g, rs, "", gi)
	}
}

// readUses checks that a value is only read.
type readUses struct {
	p    *Program
	seen map[ssa.Value]bool
}

func isInit(in ssa.Instruction) bool {
	return in.Parent() != nil && in.Parent().Synthetic == "package initializer"
}

// addr checks the uses of an address. Assignments during initialisation are noted in gi if it is given.
func (u *readUses) addr(v ssa.Value, refs []ssa.Instruction, path string, gi *globalInit) bool {
	for _, r := range refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.MUL || !u.value(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !u.addr(x, *x.Referrers(), fieldPath(path, x.Field), gi) {
				return false
			}
		case *ssa.IndexAddr:
			if isInit(x) {
				// Assignments of elements are looked for where the value is made.
				if k, ok := x.Index.(*ssa.Const); !ok || gi == nil {
					return false
				} else if !u.addr(x, *x.Referrers(), path+"["+k.Value.ExactString()+"]", gi) {
					return false
				}
				continue
			}
			if !u.addr(x, *x.Referrers(), path+"[?]", nil) {
				return false
			}
		case *ssa.Slice:
			if x.X != v || !u.value(x) {
				return false
			}
		case *ssa.Store:
			if x.Addr != v || gi == nil || !isInit(x) {
				return false
			}
			if _, twice := gi.stores[path]; twice {
				return false
			}
			gi.stores[path] = x.Val
		default:
			return false
		}
	}
	return true
}

// plainType reports whether values of a type share nothing with their copies.
func plainType(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Interface, *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if !plainType(x.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return plainType(x.Elem())
	}
	return false
}

// value checks the uses of a value that may share storage with the variable.
func (u *readUses) value(v ssa.Value) bool {
	if t, ok := v.Type().(*types.Tuple); ok {
		all := true
		for i := 0; i < t.Len(); i++ {
			all = all && (plainType(t.At(i).Type()) || t.At(i).Type() == types.Typ[types.Invalid])
		}
		if all {
			return true
		}
	} else if plainType(v.Type()) {
		return true
	}
	if u.seen[v] {
		return true
	}
	u.seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi, *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.ChangeType, *ssa.Slice:
			if !u.value(x.(ssa.Value)) {
				return false
			}
		case *ssa.Lookup:
			if x.X != v || !u.value(x) {
				return false
			}
		case *ssa.Range:
			if !u.value(x) {
				return false
			}
		case *ssa.Next:
			if !u.value(x) {
				return false
			}
		case *ssa.BinOp, *ssa.Convert:
		case *ssa.IndexAddr:
			if x.X != v || !u.addr(x, *x.Referrers(), "", nil) {
				return false
			}
		case *ssa.Call:
			if !u.call(x, v) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// call checks that a call only reads its argument.
func (u *readUses) call(c *ssa.Call, v ssa.Value) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			return true
		case "append", "copy":
			return c.Call.Args[0] != v
		}
		return false
	}
	fn := c.Call.StaticCallee()
	if fn == nil || c.Call.Value == v {
		return false
	}
	if len(fn.Blocks) > 0 {
		for i, a := range c.Call.Args {
			if a == v && (i >= len(fn.Params) || !u.value(fn.Params[i])) {
				return false
			}
		}
		return true
	}
	name := fn.String()
	if o, ok := fn.Object().(*types.Func); ok {
		name = o.FullName()
	}
	return pureCall(name) && plainType(c.Type())
}

// initEval computes the values of composite literals.
type initEval struct {
	ip *Interp
}

func (e *initEval) value(v ssa.Value) (Value, bool) {
	ip := e.ip
	switch x := v.(type) {
	case *ssa.Const:
		return ip.constVal(x), true
	case *ssa.Function:
		return FuncV{fn: x}, true
	case *ssa.ChangeType:
		return e.value(x.X)
	case *ssa.MakeInterface:
		w, ok := e.value(x.X)
		return IfaceV{dyn: x.X.Type(), v: w}, ok
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return e.built(a, a.Type().Underlying().(*types.Pointer).Elem(), x)
		case *ssa.Global:
			o, ok := ip.prog.globalObj(ip, a)
			if !ok {
				return nil, false
			}
			w, ok := ip.initCells[cellKey{o, ""}]
			return w, ok
		}
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil || x.Max != nil {
			return nil, false
		}
		w, ok := e.built(a, a.Type().Underlying().(*types.Pointer).Elem(), x)
		av, isA := w.(ArrayV)
		if !ok || !isA {
			return nil, false
		}
		ip.regions = append(ip.regions, RegInfo{elem: av.elem, name: "literal", zero: true})
		r := Region(len(ip.regions) - 1)
		ip.initRegs[r] = av.content
		return SliceV{reg: r, off: Const(0), len: Const(av.n), cap: Const(av.n)}, true
	case *ssa.MakeMap:
		m := &mapContent{zero: true}
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef, *ssa.Store:
			case *ssa.MapUpdate:
				k, ok1 := e.value(y.Key)
				w, ok2 := e.value(y.Value)
				if !ok1 || !ok2 || y.Map != ssa.Value(x) {
					return nil, false
				}
				m.entries = append(m.entries, mapEntry{k, w, 1})
			default:
				return nil, false
			}
		}
		o := ip.newObj("map", x.Type(), false)
		ip.objs[o].param = true
		ip.objs[o].owner = "global"
		ip.initMaps[o] = m
		return MapV{o}, true
	}
	return nil, false
}

// built gives the value stored part by part at an address. use is the one instruction reading it.
func (e *initEval) built(addr ssa.Value, t types.Type, use ssa.Instruction) (Value, bool) {
	v := e.ip.zeroValue(t)
	for _, r := range *addr.Referrers() {
		if r == use {
			continue
		}
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != addr {
				return nil, false
			}
			w, ok := e.value(x.Val)
			if !ok {
				return nil, false
			}
			v = w
		case *ssa.FieldAddr:
			s, isS := v.(StructV)
			if !isS {
				return nil, false
			}
			w, ok := e.built(x, x.Type().Underlying().(*types.Pointer).Elem(), nil)
			if !ok {
				return nil, false
			}
			s.f[x.Field] = w
		case *ssa.IndexAddr:
			a, isA := v.(ArrayV)
			k, isK := x.Index.(*ssa.Const)
			if !isA || !isK {
				return nil, false
			}
			w, ok := e.built(x, x.Type().Underlying().(*types.Pointer).Elem(), nil)
			if !ok {
				return nil, false
			}
			i := k.Int64()
			a.content = a.content.push(Write{lo: Const(i), hi: Const(i + 1), val: w})
			v = a
		default:
			return nil, false
		}
	}
	return v, true
}

// constGlobal gives a variable the value it is initialised with.
func (p *Program) constGlobal(ip *Interp, g *ssa.Global, o ObjID) {
	p.scanGlobals()
	gi := p.globalInits[g]
	if gi == nil || !gi.ok || len(gi.stores) > 4096 {
		return
	}
	if len(gi.stores) == 0 && g.Pkg != nil {
		for _, imp := range g.Pkg.Pkg.Imports() {
			if imp.Path() == "embed" {
				return
			}
		}
	}
	t := deref(g.Type())
	e := &initEval{ip}
	var v Value
	ok := true
	switch t.Underlying().(type) {
	case *types.Basic, *types.Struct, *types.Array, *types.Slice, *types.Map, *types.Signature:
		v, ok = e.paths(t, "", gi)
	default:
		return
	}
	if !ok {
		return
	}
	ip.objs[o].zero = true
	ip.initValue(o, "", t, v)
}

// paths gives the value of the variable from the assignments to its parts.
func (e *initEval) paths(t types.Type, path string, gi *globalInit) (Value, bool) {
	if w, ok := gi.stores[path]; ok {
		for k := range gi.stores {
			if k != path && strings.HasPrefix(k, path) {
				return nil, false
			}
		}
		return e.value(w)
	}
	v := e.ip.zeroValue(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := v.(StructV)
		for i := range s.f {
			w, ok := e.paths(u.Field(i).Type(), fieldPath(path, i), gi)
			if !ok {
				return nil, false
			}
			s.f[i] = w
		}
	case *types.Array:
		a := v.(ArrayV)
		any := false
		for k := range gi.stores {
			any = any || strings.HasPrefix(k, path+"[")
		}
		for i := int64(0); any && i < a.n && i < 1024; i++ {
			sub := fmt.Sprintf("%s[%d]", path, i)
			w, ok := e.paths(u.Elem(), sub, gi)
			if !ok {
				return nil, false
			}
			a.content = a.content.push(Write{lo: Const(i), hi: Const(i + 1), val: w})
		}
		return a, !any || a.n <= 1024
	}
	return v, true
}

// initValue makes a value the initial content of an object.
func (ip *Interp) initValue(o ObjID, path string, t types.Type, v Value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if s, ok := v.(StructV); ok {
			for i, f := range s.f {
				ip.initValue(o, fieldPath(path, i), u.Field(i).Type(), f)
			}
		}
		return
	case *types.Array:
		a, ok := v.(ArrayV)
		if !ok {
			return
		}
		k := cellKey{o, path}
		ip.regions = append(ip.regions, RegInfo{obj: o, path: path, elem: u.Elem(), name: ip.objs[o].name + path, zero: true})
		r := Region(len(ip.regions) - 1)
		ip.arrRegs[k] = r
		ip.initRegs[r] = a.content
		return
	}
	ip.initCells[cellKey{o, path}] = v
}
