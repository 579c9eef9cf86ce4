package main

// C40: errors keep their identity.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// subRun runs a function in a copy of a state, without its frames.
func (ip *Interp) subRun(st *State, fn *ssa.Function, args []Value) []*State {
	s := st.clone()
	s.frames = nil
	s.status = running
	root := ip.rootFn
	out := ip.Run(ip.rootOn(s, fn, args))
	ip.rootFn = root
	var ret []*State
	for _, o := range out {
		if o.status == returned {
			ret = append(ret, o)
		}
	}
	return ret
}

// joined is what an error made by errors.Join, fmt.Errorf and the like refers to.
type joined struct {
	parts []Value
	// flat: parts that are collections of errors are taken apart.
	flat bool
}

func (ip *Interp) joinErr(t types.Type, name string, j *joined) *SymV {
	s := ip.newSym(t, name)
	s.nonnil = true
	s.err = &errInfo{}
	s.data = j
	return s
}

type errIdent struct {
	c  *Checker
	ip *Interp
}

func (q *errIdent) models() {
	ip := q.ip
	for _, m := range []string{"(" + modulePath + ".DriverError).WithMessage", "(" + modulePath + ".DriverError).Wrap", modulePath + ".CastToDriverError"} {
		ip.Models[m] = func(ip *Interp, st *State, c *CallCtx) []*State { return ip.opaque(st, c) }
	}
	join := func(flat bool) Model {
		return func(ip *Interp, st *State, c *CallCtx) []*State {
			parts := append([]Value{}, c.args[:len(c.args)-1]...)
			es, ok := ip.elems(st, c.args[len(c.args)-1])
			if !ok {
				return ip.opaque(st, c)
			}
			var t types.Type = errorType
			if c.sig.Results().Len() == 1 {
				t = c.sig.Results().At(0).Type()
			}
			c.ret(ip, st, ip.joinErr(t, shortName(c.name), &joined{append(parts, es...), flat}))
			return []*State{st}
		}
	}
	ip.Models["errors.Join"] = join(false)
	ip.Models["github.com/hashicorp/go-multierror.Append"] = join(true)
	ip.Models["fmt.Errorf"] = func(ip *Interp, st *State, c *CallCtx) []*State {
		j := &joined{}
		f := strOf(c.args[0])
		es, ok := ip.elems(st, c.args[1])
		if f != nil && f.op == "const" && ok {
			for _, i := range wrapVerbs(f.c) {
				if i < len(es) {
					j.parts = append(j.parts, es[i])
				}
			}
		}
		c.ret(ip, st, ip.joinErr(errorType, "fmt.Errorf", j))
		return []*State{st}
	}
	delete(ip.Models, "errors.Is")
}

// matches tells if errors.Is(r, target) certainly holds.
func (q *errIdent) matches(st *State, r, target Value, depth int) bool {
	if depth > 6 || r == nil {
		return false
	}
	if i, ok := r.(IfaceV); ok {
		if s, isSym := i.v.(*SymV); isSym && s.data != nil {
			r = s
		}
	}
	if i, ok := r.(IfaceV); ok {
		if valueEq(r, target) && types.Comparable(i.dyn) {
			return true
		}
		if m := q.method(i.dyn, "Is"); m != nil && q.all(st, m, []Value{i.v, target}, func(s *State, v Value) bool {
			b, ok := v.(BoolV)
			return ok && s.prove(b.r)
		}) {
			return true
		}
		m := q.method(i.dyn, "Unwrap")
		return m != nil && q.all(st, m, []Value{i.v}, func(s *State, v Value) bool {
			if sl, ok := v.(SliceV); ok {
				es, ok := q.ip.elems(s, sl)
				if !ok {
					return false
				}
				for _, e := range es {
					if q.matches(s, e, target, depth+1) {
						return true
					}
				}
				return false
			}
			return q.matches(s, v, target, depth+1)
		})
	}
	if s, ok := r.(*SymV); ok {
		if valueEq(r, target) {
			return true
		}
		if j, ok := s.data.(*joined); ok {
			for _, p := range j.parts {
				if x, isSym := p.(*SymV); isSym && j.flat && x.data == nil {
					// It may be a collection itself, whose identity is lost.
					continue
				}
				if q.matches(st, p, target, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func (q *errIdent) method(t types.Type, name string) *ssa.Function {
	ms := q.c.prog.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return q.c.prog.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

// all runs a method and tests its first result on every path.
func (q *errIdent) all(st *State, m *ssa.Function, args []Value, f func(s *State, v Value) bool) bool {
	if len(m.Params) != len(args) || len(m.Blocks) == 0 {
		return false
	}
	n := 0
	for _, s := range q.ip.subRun(st, m, args) {
		n++
		if len(s.results) == 0 || !f(s, s.results[0]) {
			return false
		}
	}
	return n > 0
}

func (c *Checker) errIdentity() {
	const rule = "C40"
	de := c.prog.Type("", "DriverError")
	if de == nil {
		c.anchor("type disko.DriverError not found")
		return
	}
	iface := de.Underlying().(*types.Interface)
	newQ := func() *errIdent {
		c.prog.reset()
		q := &errIdent{c, c.newInterp()}
		q.models()
		for _, r := range []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"} {
			q.ip.noObl[r] = true
		}
		return q
	}
	c.sentinels(rule, de, newQ)

	// Annotating and wrapping.
	for _, rel := range append([]string{""}, libPkgs...) {
		for _, n := range c.prog.namedTypes(rel) {
			if types.IsInterface(n) || rel == "" && n == de {
				continue
			}
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if !types.Implements(t, iface) {
					continue
				}
				if _, isPtr := t.(*types.Pointer); isPtr && types.Implements(n, iface) {
					continue
				}
				c.annotate(rule, t, iface, newQ())
			}
		}
	}
	// Conversion.
	if fn := c.prog.Func("", "CastToDriverError"); fn == nil {
		c.anchor("function disko.CastToDriverError not found")
	} else {
		c.castRule(rule, fn, iface, newQ)
	}
}

func (c *Checker) annotate(rule string, t types.Type, iface *types.Interface, q *errIdent) {
	ip := q.ip
	for i := 0; i < iface.NumMethods(); i++ {
		im := iface.Method(i)
		sig := im.Type().(*types.Signature)
		if sig.Results().Len() != 1 || !isErrorType(sig.Results().At(0).Type()) || sig.Params().Len() == 0 {
			continue
		}
		fn := q.method(t, im.Name())
		if fn == nil {
			continue
		}
		c.guard(fn.String(), func() {
			st := NewState()
			args := c.freshArgs(ip, st, fn)
			e := IfaceV{t, args[0]}
			if len(fn.Blocks) == 0 {
				c.anchor("no source for " + fn.String())
				return
			}
			n := 0
			for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
				if s.status != returned {
					continue
				}
				n++
				c.stats.Counts["annotations"]++
				ip.Obligations++
				if !q.matches(s, s.results[0], e, 0) {
					ip.reportAt(s, nil, rule, "the result of "+im.Name()+" may not match the original error")
				}
				for j, p := range args[1:] {
					if !isErrorType(sig.Params().At(j).Type()) {
						continue
					}
					ip.Obligations++
					x := s.clone()
					if !x.assume(ip.isNil(x, p).Neg()) {
						continue
					}
					if !q.matches(x, s.results[0], p, 0) {
						ip.reportAt(s, nil, rule, "the result of "+im.Name()+" may not match the error wrapped")
					}
				}
			}
			if n == 0 {
				c.add(Finding{rule: rule, pos: fn.String(), msg: "no path returns"})
			}
		})
	}
	c.keepRule(ip, rule)
}

// keepRule takes over only the findings of one rule.
func (c *Checker) keepRule(ip *Interp, rules ...string) {
	var keep []Finding
	for _, x := range ip.findings {
		for _, r := range rules {
			if x.rule == r {
				keep = append(keep, x)
			}
		}
	}
	ip.findings = keep
	c.collect(ip)
}

func (c *Checker) castRule(rule string, fn *ssa.Function, iface *types.Interface, newQ func() *errIdent) {
	type cse struct {
		what string
		mk   func(q *errIdent, st *State) Value
		ok   func(q *errIdent, st *State, in, out Value) bool
	}
	var de types.Type
	for _, n := range c.prog.namedTypes("") {
		if !types.IsInterface(n) && types.Implements(n, iface) {
			de = n
		}
	}
	cases := []cse{
		{"nil does not stay nil", func(q *errIdent, st *State) Value { return NilV{} }, func(q *errIdent, st *State, in, out Value) bool {
			return st.prove(q.ip.isNil(st, out))
		}},
		{"an error that is no driver error may not be matched by the result", func(q *errIdent, st *State) Value {
			e := q.ip.unknownErr(errorType, "err")
			e.nonnil = true
			return e
		}, func(q *errIdent, st *State, in, out Value) bool {
			// Either the value itself, or a new error matching it.
			return valueEq(in, out) || q.matches(st, out, in, 0)
		}},
	}
	if de != nil {
		cases = append(cases, cse{"a driver error does not stay the same", func(q *errIdent, st *State) Value {
			return IfaceV{de, q.ip.fresh(st, "err", de)}
		}, func(q *errIdent, st *State, in, out Value) bool { return valueEq(in, out) }})
	}
	for _, k := range cases {
		q := newQ()
		c.guard(fn.String(), func() {
			st := NewState()
			in := k.mk(q, st)
			n := 0
			for _, s := range q.ip.Run(q.ip.rootOn(st, fn, []Value{in})) {
				if s.status != returned {
					continue
				}
				n++
				c.stats.Counts["annotations"]++
				q.ip.Obligations++
				if !k.ok(q, s, in, s.results[0]) {
					q.ip.reportAt(s, nil, rule, k.what)
				}
			}
			if n == 0 {
				c.add(Finding{rule: rule, pos: fn.String(), msg: "no path returns"})
			}
		})
		c.keepRule(q.ip, rule)
	}
}

// sentinels runs the initialiser of the package and compares the values of the exported error variables.
func (c *Checker) sentinels(rule string, de *types.Named, newQ func() *errIdent) {
	q := newQ()
	ip := q.ip
	pkg := c.prog.Pkg("")
	sp := c.prog.ssa.Package(pkg)
	init := sp.Func("init")
	if init == nil {
		c.anchor("package initialiser not found")
		return
	}
	ip.Cut = func(g *ssa.Function) bool {
		return g.Pkg != nil && g.Pkg != sp
	}
	c.guard(init.String(), func() {
		runs := ip.Run(ip.rootOn(ip.uninitialised(sp), init, nil))
		var names []string
		for _, n := range pkg.Scope().Names() {
			if v, ok := pkg.Scope().Lookup(n).(*types.Var); ok && v.Exported() && isErrorType(v.Type()) {
				names = append(names, n)
			}
		}
		c.stats.Counts["sentinels"] = len(names)
		for _, s := range runs {
			if s.status != returned {
				continue
			}
			vals := map[string]Value{}
			for _, n := range names {
				g, _ := sp.Members[n].(*ssa.Global)
				if g == nil {
					continue
				}
				o, ok := ip.prog.globals[g]
				if !ok {
					continue
				}
				if v, ok := s.cells[cellKey{o, ""}]; ok {
					vals[n] = v
				}
			}
			if len(vals) == 0 {
				continue // The package was initialised before.
			}
			for _, n := range names {
				v, ok := vals[n]
				ip.Obligations++
				if !ok || s.prove(ip.isNil(s, v)) || !s.prove(ip.isNil(s, v).Neg()) {
					ip.reportAt(s, nil, rule, "the error "+n+" may be nil")
					continue
				}
				if i, ok := v.(IfaceV); ok && !types.Comparable(i.dyn) {
					ip.reportAt(s, nil, rule, "errors.Is cannot find the error "+n+", its type is not comparable")
				}
				for _, m := range names {
					w, ok := vals[m]
					if m == n || !ok {
						continue
					}
					ip.Obligations++
					if !q.distinct(s, v, w, 0) {
						ip.reportAt(s, nil, rule, "the error "+n+" may match "+m)
					}
				}
			}
			c.stats.Counts["inits"]++
		}
		if c.stats.Counts["inits"] == 0 {
			c.anchor("the initialisation of the error variables was not understood")
		}
	})
	c.keepRule(ip, rule)
}

// distinct tells if errors.Is(v, w) certainly does not hold.
func (q *errIdent) distinct(st *State, v, w Value, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, sv := range q.ip.equal(st.clone(), v, w) {
		b, ok := sv.v.(BoolV)
		if !ok || !sv.st.prove(b.r.Neg()) {
			return false
		}
	}
	i, ok := v.(IfaceV)
	if !ok {
		s, isSym := v.(*SymV)
		if !isSym {
			return false
		}
		if j, ok := s.data.(*joined); ok {
			for _, p := range j.parts {
				if !q.distinct(st, p, w, depth+1) {
					return false
				}
			}
			return true
		}
		return s.err != nil && s.err.sentinel == "" && len(s.err.parts) == 0 && !s.err.unknown
	}
	if m := q.method(i.dyn, "Is"); m != nil && !q.all(st, m, []Value{i.v, w}, func(s *State, v Value) bool {
		b, ok := v.(BoolV)
		return ok && s.prove(b.r.Neg())
	}) {
		return false
	}
	if m := q.method(i.dyn, "Unwrap"); m != nil {
		return q.all(st, m, []Value{i.v}, func(s *State, v Value) bool {
			if s.prove(q.ip.isNil(s, v)) {
				return true
			}
			if sl, ok := v.(SliceV); ok {
				es, ok := q.ip.elems(s, sl)
				for _, e := range es {
					ok = ok && q.distinct(s, e, w, depth+1)
				}
				return ok
			}
			return q.distinct(s, v, w, depth+1)
		})
	}
	return true
}

// uninitialised is the state before a package is initialised.
func (ip *Interp) uninitialised(sp *ssa.Package) *State {
	st := NewState()
	if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
		if o, ok := ip.prog.globalObj(ip, g); ok {
			st.cells[cellKey{o, ""}] = boolConst(false)
		}
	}
	return st
}
