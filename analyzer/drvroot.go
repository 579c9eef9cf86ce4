package main

// Entry points of the driver checks: recursive functions are analysed once against the contract that their callers
// rely on, then every exported operation is analysed with those contracts.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const drvPkg = "driver"

// ------------------------------------------------------------------------ recursive functions

// drvGraph is the static call graph of the driver package.
func (c *Checker) drvGraph() ([]*ssa.Function, map[*ssa.Function][]*ssa.Function) {
	var fns []*ssa.Function
	in := map[*ssa.Function]bool{}
	for _, fn := range c.prog.SrcFuncs() {
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == modulePath+"/"+drvPkg {
			fns = append(fns, fn)
			in[fn] = true
		}
	}
	g := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil && in[f] {
						g[fn] = append(g[fn], f)
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			g[fn] = append(g[fn], a)
		}
	}
	return fns, g
}

// cycleFrom tells if a function reaches itself without passing through those left out.
func cycleFrom(g map[*ssa.Function][]*ssa.Function, fn *ssa.Function, out map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for _, n := range g[f] {
			if out[n] {
				continue
			}
			if n == fn {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if walk(n) {
					return true
				}
			}
		}
		return false
	}
	return !out[fn] && walk(fn)
}

// cutKind tells what contract a recursive function may be given.
func (c *Checker) cutKind(fn *ssa.Function, handle *types.Interface) string {
	strs, hs, res := 0, 0, fn.Signature.Results()
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			strs++
		}
		if types.IsInterface(t) && types.Implements(t, handle) {
			hs++
		}
	}
	switch {
	case fn.Parent() != nil || res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()):
		return ""
	case strs == 1 && hs == 0 && res.Len() == 2 && types.IsInterface(res.At(0).Type()) && types.Implements(res.At(0).Type(), handle):
		return "follow"
	case strs == 0 && hs == 1 && res.Len() == 1:
		return "empty"
	case strs == 1 && hs == 0 && fn.Object() != nil && fn.Object().Exported():
		return "op"
	}
	return ""
}

// ------------------------------------------------------------------------ one entry point

func (c *Checker) newDrv(kind, name string, fn *ssa.Function, cuts map[*ssa.Function]string, effects map[*ssa.Function]map[string]bool) *drv {
	c.prog.reset()
	ip := c.newInterp()
	d := &drv{c: c, ip: ip, root: fn, name: name, kind: kind, hs: map[int]*hnd{}, caches: map[ObjID][]Value{}, strms: map[ObjID]*drvStream{},
		texts: map[Region]*textRec{}, textOf: map[int]*SymV{}, lists: map[Region]*SymV{}, notes: map[int]*listNote{}, elemOf: map[int]*SymV{}, cuts: cuts, effects: effects,
		gained: map[string]bool{}, seenOp: map[string]int{}, notsym: true}
	d.statType = c.prog.Type("", "FileStat")
	bd := c.prog.Type(drvPkg, "BaseDriver")
	d.drvObj = ip.newObj("driver", bd, false)
	ip.objs[d.drvObj].param = true
	d.impl = ip.newSym(c.prog.Type("", "FileSystemImplementer"), "implementation")
	d.impl.nonnil = true
	d.flags = IntV{p: AtomPoly(NewAtomRange("mountFlags", 0, 1<<32-1))}
	d.wd = symTerm("working directory")
	kA := NewAtomRange("k", 0, 1<<40)
	jA := NewAtomRange("j", 0, 1<<40)
	d.k, d.j = AtomPoly(kA), AtomPoly(jA)
	ip.Skolems = []Atom{kA, jA}
	d.entryN = symTerm("name[k]")
	d.install()
	ip.OnEnter = d.onEnter
	ip.OnAppend = d.onAppend
	ip.Track = func(st *State, r Region) []Poly {
		if kind != "file" {
			return nil
		}
		if q, ok := st.ghost["queue"].(SliceV); ok && q.reg == r {
			return []Poly{q.off.Add(gPoly(st, "queuepos")).Add(d.j)}
		}
		return []Poly{d.j}
	}
	return d
}

func (d *drv) onEnter(ip *Interp, st *State, fn *ssa.Function, args []Value) {
	for i, p := range fn.Params {
		if i >= len(args) {
			break
		}
		if d.openFlags == nil && d.c.isNamed(p.Type(), "IOFlags") {
			d.openFlags = args[i]
		}
	}
}

// state makes the initial state.
func (d *drv) state() *State {
	st := NewState()
	for _, g := range []string{"#failed", "#entry", "#dot", "#unl", "#listed", "#created", "#wd", "#inV", "#sclosed", "#app"} {
		gSet(st, g, 0)
	}
	gSet(st, "napp", 0)
	// The working directory is a cleaned absolute path.
	st.assume(d.isAbs(d.wd))
	st.assume(Le(Const(1), d.wd.ln))
	return st
}

// handleParam makes the open handle of the caller.
func (d *drv) handleParam(st *State) *hnd {
	h := d.add(st, "handle", "param")
	h.borrow = true
	h.ext = symTerm("path of the handle")
	d.paramH = h.sym
	return h
}

// args makes the arguments of the root.
func (d *drv) args(st *State) []Value {
	ip := d.ip
	var out []Value
	hi := d.handleType().Underlying().(*types.Interface)
	for i, p := range d.root.Params {
		t := p.Type()
		if pt, ok := t.(*types.Pointer); ok {
			if n := namedOf(pt.Elem()); n != nil {
				switch n {
				case d.c.prog.Type(drvPkg, "BaseDriver"):
					out = append(out, PtrV{obj: d.drvObj})
					continue
				case d.c.prog.Type(drvPkg, "File"):
					d.fileObj = ip.newObj("file", n, false)
					ip.objs[d.fileObj].param = true
					out = append(out, PtrV{obj: d.fileObj})
					continue
				}
			}
		}
		if types.IsInterface(t) && types.Implements(t, hi) && d.paramH != nil {
			h := d.hs[d.paramH.id]
			out = append(out, d.wrap(st, h.sym, h.ext, t, d.wrapType(t)))
			continue
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && i > 0 {
			x := symTerm(p.Name())
			d.params = append(d.params, x)
			out = append(out, StrV{x})
			continue
		}
		v := ip.fresh(st, p.Name(), t)
		if s, ok := v.(*SymV); ok {
			s.nonnil = true
		}
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
			d.times = append(d.times, v)
		}
		if n := namedOf(t); n != nil && n.Obj().Name() == "FileMode" {
			// A mode is the sum of its bits.
			if m, ok := v.(IntV); ok {
				sum := Const(0)
				for k := uint(0); k < 32; k++ {
					sum = sum.Add(st.bitOf(m.p, k).Mul(Const(1 << k)))
				}
				v = IntV{p: sum}
			}
			d.mode = v
		}
		if s, ok := v.(SliceV); ok {
			d.data = s
		}
		if iv, ok := v.(IntV); ok && b64(t) {
			d.count = iv.p
			d.ints = append(d.ints, iv.p)
			limit(st, v, -(1 << 40), 1<<40)
		}
		out = append(out, v)
	}
	for i := 0; i < len(atoms); i++ {
		ip.prog.inputAtoms[Atom(i)] = true
	}
	return out
}

func b64(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Int
}

// finishAll checks the states a root ended in.
func (d *drv) finishAll(states []*State) {
	ip := d.ip
	n := 0
	for _, st := range states {
		switch st.status {
		case panicked:
			ip.report(st, d.crashRule(), "the operation may panic: "+st.note)
		case returned:
			n++
			d.finish(st, d.root)
		}
	}
	if n == 0 {
		ip.report(NewState(), "anchor", "no path through "+d.root.String()+" was analysed")
	} else if d.seenOp["success"] == 0 {
		ip.report(NewState(), "anchor", d.root.String()+" never succeeds")
	}
}

func (d *drv) crashRule() string {
	if d.kind == "file" {
		return "C23"
	}
	return "C17"
}

func (d *drv) noCrash(except ...string) {
	for _, r := range []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"} {
		keep := false
		for _, e := range except {
			keep = keep || e == r
		}
		if !keep {
			d.ip.noObl[r] = true
		}
	}
}

func (d *drv) collect() {
	d.c.collect(d.ip)
	for k, v := range d.seenOp {
		d.c.stats.Counts["driver "+k] += v
	}
}

// followRoot analyses a function that looks up a path and follows links.
func (c *Checker) followRoot(fn *ssa.Function, cuts map[*ssa.Function]string, effects map[*ssa.Function]map[string]bool) *drv {
	d := c.newDrv("follow", fn.Name(), fn, cuts, effects)
	ip := d.ip
	d.noCrash("nil")
	d.vstar = symTerm("V*")
	st := d.state()
	st.assume(d.isAbs(d.vstar))
	args := d.args(st)
	var starts []*State
	mi := -1
	for i, a := range args {
		if _, ok := a.(MapV); ok {
			mi = i
		} else if _, isMap := fn.Params[i].Type().Underlying().(*types.Map); isMap {
			o := ip.newObj("visited", fn.Params[i].Type(), false)
			args[i] = MapV{o}
			mi = i
		}
	}
	if mi < 0 {
		d.vstar = nil
		starts = append(starts, ip.rootOn(st, fn, args))
	} else {
		m := args[mi].(MapV)
		ip.objs[m.obj].param = true
		mt := fn.Params[mi].Type().Underlying().(*types.Map)
		with, without := st.clone(), st.clone()
		var val Value = ip.fresh(with, "visited[V*]", mt.Elem())
		if _, ok := val.(BoolV); ok {
			val = boolConst(true)
		}
		with.maps[m.obj] = &mapContent{entries: []mapEntry{{StrV{d.vstar}, val, 1}}}
		gSet(with, "#inV", 1)
		without.maps[m.obj] = &mapContent{entries: []mapEntry{{StrV{d.vstar}, nil, 0}}}
		nargs := append([]Value{}, args...)
		nargs[mi] = NilV{}
		starts = append(starts, ip.rootOn(with, fn, args), ip.rootOn(without, fn, args), ip.rootOn(st.clone(), fn, nargs))
	}
	d.finishAll(ip.Run(starts...))
	if d.slashArg && d.bareBase {
		ip.report(NewState(), "C18", fn.Name()+" takes apart a path that may end in a slash")
	}
	return d
}

// emptyRoot analyses the function that removes the contents of a directory.
func (c *Checker) emptyRoot(fn *ssa.Function, cuts map[*ssa.Function]string, effects map[*ssa.Function]map[string]bool) *drv {
	d := c.newDrv("empty", fn.Name(), fn, cuts, effects)
	d.noCrash("nil")
	d.wantList = true
	st := d.state()
	h := d.handleParam(st)
	st.assume(d.dirRel(st, h))
	args := d.args(st)
	d.finishAll(d.ip.Run(d.ip.rootOn(st, fn, args)))
	return d
}

// opRoot analyses an exported operation.
func (c *Checker) opRoot(kind string, fn *ssa.Function, cuts map[*ssa.Function]string, effects map[*ssa.Function]map[string]bool) *drv {
	d := c.newDrv(kind, fn.Name(), fn, cuts, effects)
	switch {
	case kind == "file" && strings.HasPrefix(strings.ToLower(fn.Name()), "readdir"):
		d.wantList = true
	case kind == "op" && (fn.Name() == "ReadDir" || fn.Name() == "Remove" || fn.Name() == "RemoveAll"):
		d.wantList = true
		d.noCrash("nil", "index", "slice", "makeslice")
	default:
		d.noCrash("nil")
	}
	st := d.state()
	if kind != "op" {
		d.handleParam(st)
	}
	args := d.args(st)
	starts := []*State{st}
	if kind == "file" {
		starts = d.fileState(st)
	}
	for i, s := range starts {
		starts[i] = d.ip.rootOn(s, fn, args)
	}
	d.finishAll(d.ip.Run(starts...))
	return d
}

// ------------------------------------------------------------------------ listings

// fileField finds the only field of the file with a property.
func (d *drv) fileField(ok func(t types.Type) bool) int {
	n := d.c.prog.Type(drvPkg, "File")
	s, isS := n.Underlying().(*types.Struct)
	if !isS {
		return -1
	}
	f := -1
	for i := 0; i < s.NumFields(); i++ {
		if ok(s.Field(i).Type()) {
			if f >= 0 {
				return -1
			}
			f = i
		}
	}
	return f
}

// fileState sets up the queue of directory entries of a file: nothing, or a list and a position in it.
func (d *drv) fileState(st *State) []*State {
	ip := d.ip
	n := d.c.prog.Type(drvPkg, "File").Underlying().(*types.Struct)
	lf := d.fileField(func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok })
	pf := d.fileField(b64)
	d.listF, d.ptrF = lf, pf
	hi := d.handleType().Underlying().(*types.Interface)
	for i := 0; i < n.NumFields(); i++ {
		if t := n.Field(i).Type(); types.IsInterface(t) && !isErrorType(t) && types.Implements(t, hi) {
			st.cells[cellKey{d.fileObj, fmt.Sprintf(".%d", i)}] = d.wrap(st, d.paramH, d.hs[d.paramH.id].ext, t, d.wrapType(t))
		}
	}
	if lf < 0 || pf < 0 || !d.wantList {
		if d.wantList {
			d.c.anchor("the list of directory entries of an open file, and the position in it, were not found")
		}
		return []*State{st}
	}
	list := ip.freshSlice(st, "entries", n.Field(lf).Type().Underlying().(*types.Slice).Elem())
	ptr := AtomPoly(NewAtomRange("next entry", 0, 1<<40))
	none, some := st.clone(), st
	set := func(s *State, f int, v Value) { s.cells[cellKey{d.fileObj, fmt.Sprintf(".%d", f)}] = v }
	set(none, lf, NilV{})
	set(none, pf, IntV{p: ptr})
	if list.hasNil {
		some.assume(Rel{AtomPoly(list.nilAtom), EQ})
	}
	some.assume(Le(ptr, list.len))
	set(some, lf, list)
	set(some, pf, IntV{p: ptr})
	some.ghost["queue"] = list
	d.queueReg = list.reg
	gPut(some, "queuepos", ptr)
	for i := 0; i < len(atoms); i++ {
		ip.prog.inputAtoms[Atom(i)] = true
	}
	return []*State{none, some}
}

// onAppend follows the entries put into a listing.
func (d *drv) onAppend(ip *Interp, st *State, dst, src, res SliceV) {
	if n, ok := src.len.IsConst(); !ok || n != 1 || src.reg == 0 || !d.wantList {
		return
	}
	for _, sv := range ip.readElem(st, src.reg, src.off) {
		h := d.entryOf(st, sv.v)
		if h == nil {
			continue
		}
		d.seenOp["listing entry"]++
		ip.Obligations += 3
		if f, ok := st.ghost["appfn"].(FuncV); ok && f.fn != st.top().fn {
			// Copying entries around.
			continue
		}
		st.ghost["appfn"] = FuncV{fn: st.top().fn}
		if d.listed0(st, h) == nil {
			ip.report(st, "C23", "a listing gets an entry for "+d.describe(h)+", which was not listed by the implementation")
			continue
		}
		if gInt(st, "#dot") == 1 && h.name == d.entryN {
			ip.report(st, "C23", "a listing may have an entry for \".\" or \"..\"")
		}
		if gInt(st, hkey(h.sym, "app")) == 1 || h.entry && gInt(st, "#app") == 1 {
			ip.report(st, "C23", "an entry is put into a listing twice")
		}
		gSet(st, hkey(h.sym, "app"), 1)
		if h.entry {
			gSet(st, "#app", 1)
		}
		if !st.proveEq(dst.len, gPoly(st, "napp")) {
			ip.report(st, "C23", "entries of a listing are lost, or it has others than those for the names listed")
		}
		gPut(st, "napp", gPoly(st, "napp").AddConst(1))
	}
}

// entryOf finds the handle that a directory entry describes.
func (d *drv) entryOf(st *State, v Value) *hnd {
	switch x := v.(type) {
	case IfaceV:
		return d.entryOf(st, x.v)
	case PtrV:
		if x.isElem || d.ip.objs[x.obj].typ == nil {
			return nil
		}
		s, ok := d.ip.objs[x.obj].typ.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		sv := StructV{}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, d.ip.loadCell(st, x.obj, fieldPath(x.path, i), s.Field(i).Type()))
		}
		return d.entryOf(st, sv)
	case StructV:
		for _, id := range d.handleIDs() {
			h := d.hs[id]
			if h.nameT == nil || h.stat == nil {
				continue
			}
			name, stat := false, false
			for _, f := range x.f {
				if t := strOf(f); t != nil && t == h.nameT {
					name = true
				}
				if s, ok := f.(StructV); ok && valueEq(s, h.stat) {
					stat = true
				}
			}
			if name && stat {
				return h
			}
		}
	}
	return nil
}

// listing checks a complete listing.
func (d *drv) listing(st *State, v Value, what string) {
	ip := d.ip
	ip.Obligations += 3
	s, ok := ip.asSlice(st, v)
	if !ok || !st.proveEq(s.len, gPoly(st, "napp")) {
		ip.report(st, "C23", what+" may lack entries, or have others than those for the names listed")
	}
	if gInt(st, "#listed") != 1 && gInt(st, "#entry") != 1 {
		ip.report(st, "C23", what+" does not come from the implementation")
	}
	if gInt(st, "#entry") == 1 && gInt(st, "#app") != 1 {
		ip.report(st, "C23", what+" may lack an entry for a name listed")
	}
	d.seenOp["listing"]++
}

func (d *drv) readDirResult(st *State) { d.listing(st, st.results[0], "the listing") }

// onQueue is told that the list of entries of a file is set.
func (d *drv) onQueue(st *State, v Value) {
	s, ok := d.ip.asSlice(st, v)
	if !ok || s.reg == 0 {
		if _, isNil := v.(NilV); !isNil {
			d.ip.report(st, "C23", "the entries of an open directory are set to something unknown")
		}
		return
	}
	if q, ok := st.ghost["queue"].(SliceV); ok && q.reg == s.reg {
		return
	}
	d.listing(st, v, "the list of entries of an open directory")
	st.ghost["queue"] = s
	gPut(st, "queuepos", Const(0))
}

// portion checks what reading a directory in portions gives.
func (d *drv) portion(st *State, failed bool, e Value) {
	ip := d.ip
	n := d.count
	if d.listF < 0 || d.ptrF < 0 {
		return
	}
	q, have := st.ghost["queue"].(SliceV)
	pos := gPoly(st, "queuepos")
	res, ok := ip.asSlice(st, st.results[0])
	ip.Obligations += 4
	if !ok {
		res = SliceV{}
	}
	if failed {
		// Running out of entries, or a failure of the implementation.
		if d.pastFailure(st) {
			return
		}
		if st.prove(d.dirRel(st, d.hs[d.paramH.id]).Neg()) {
			return
		}
		if !have {
			// No such functionality.
			return
		}
		eof := st.prove(ip.errMatches(st, e, "io.EOF").r)
		if !eof || !st.prove(Lt(Const(0), n)) || !st.proveLe(q.len, pos) || !st.proveEq(res.len, Const(0)) {
			if !d.infoError(st) {
				ip.report(st, "C23", d.name+" may fail although entries are left, or none were asked for")
			}
		}
		d.seenOp["end of directory"]++
		d.queueOK(st)
		return
	}
	if !have {
		ip.report(st, "C23", d.name+" may succeed without having listed the directory")
		return
	}
	lim, all := st.fork(Lt(Const(0), n))
	if lim != nil {
		d.seenOp["portion"]++
		if !lim.proveLe(Const(1), res.len) {
			ip.report(lim, "C23", d.name+" may give no entries and no io.EOF")
		}
		if !lim.proveLe(res.len, n) {
			ip.report(lim, "C23", d.name+" may give more entries than requested")
		}
		z := lim.clone()
		if z.assume(Lt(res.len, n)) && !z.proveEq(pos.Add(res.len), q.len) {
			ip.report(lim, "C23", d.name+" may give less entries than requested although more are left")
		}
	}
	if all != nil {
		d.seenOp["rest"]++
		if !all.proveEq(pos.Add(res.len), q.len) {
			ip.report(all, "C23", d.name+" may give others than all the entries that are left")
		}
	}
	d.queueOK(st)
	if v, ok := d.queue(st); ok && v.reg == q.reg {
		p, _ := ip.loadCell(st, d.fileObj, fmt.Sprintf(".%d", d.ptrF), types.Typ[types.Int]).(IntV)
		if !st.proveEq(p.p, pos.Add(res.len)) {
			ip.report(st, "C23", d.name+" does not continue behind the last entry given")
		}
	} else if !st.proveEq(pos.Add(res.len), q.len) {
		ip.report(st, "C23", d.name+" drops the entries that are left")
	}
	// Entry j of the result.
	x := st.clone()
	if res.reg == 0 || !x.assume(Lt(d.j, res.len)) {
		return
	}
	for _, a := range ip.readElem(x, res.reg, res.off.Add(d.j)) {
		for _, b := range ip.readElem(a.st, q.reg, q.off.Add(pos).Add(d.j)) {
			ip.Obligations++
			if !d.sameEntry(a.v, b.v) {
				ip.report(b.st, "C23", fmt.Sprintf("%s may give other entries than those that are next (%s, expected %s)", d.name, showVal(a.v), showVal(b.v)))
			}
		}
	}
}

// infoError tells if getting the information about an entry failed.
func (d *drv) infoError(st *State) bool {
	for _, u := range st.errs {
		if u.ev.fn != nil && u.ev.fn.Name() == "Info" {
			return true
		}
	}
	return false
}

func (d *drv) queue(st *State) (SliceV, bool) {
	n := d.c.prog.Type(drvPkg, "File").Underlying().(*types.Struct)
	v := d.ip.loadCell(st, d.fileObj, fmt.Sprintf(".%d", d.listF), n.Field(d.listF).Type())
	s, ok := v.(SliceV)
	return s, ok && s.reg != 0
}

// queueOK checks the state kept between portions.
func (d *drv) queueOK(st *State) {
	ip := d.ip
	s, ok := d.queue(st)
	if !ok {
		return
	}
	p, _ := ip.loadCell(st, d.fileObj, fmt.Sprintf(".%d", d.ptrF), types.Typ[types.Int]).(IntV)
	ip.Obligations++
	if !st.prove(Rel{p.p, GE}) || !st.proveLe(p.p, s.len) {
		ip.report(st, "C23", d.name+" leaves a position outside the list of entries")
	}
}

// sameEntry tells if a result is, or was made from, a directory entry.
func (d *drv) sameEntry(a, b Value) bool {
	if valueEq(a, b) {
		return true
	}
	if i, ok := a.(IfaceV); ok {
		if d.sameEntry(i.v, b) {
			return true
		}
	}
	if i, ok := b.(IfaceV); ok {
		return d.sameEntry(a, i.v)
	}
	if s, ok := b.(*SymV); ok {
		if t := strOf(a); t != nil && t == entryName(s) {
			return true
		}
		if r, ok := a.(*SymV); ok && r.origin != nil && r.origin.recv != nil && valueEq(r.origin.recv, s) {
			return true
		}
	}
	if s, ok := b.(StructV); ok {
		if t := strOf(a); t != nil {
			for _, f := range s.f {
				if strOf(f) == t {
					return true
				}
			}
		}
	}
	return false
}

func entryName(s *SymV) *Term { return symTerm(fmt.Sprintf("name of %d", s.id)) }

// ------------------------------------------------------------------------ open files

// newFileResult checks how an open file is connected with its object.
func (d *drv) newFileResult(st *State, fn *ssa.Function) {
	ip := d.ip
	ip.Obligations += 6
	s := d.streamIn(st, st.results[0])
	h := d.hs[d.paramH.id]
	if s == nil || s.h != d.paramH || len(s.args) < 5 {
		ip.report(st, "C24", "the file has no stream on the object it is made for")
		return
	}
	if !valueEq(s.flags, d.openFlags) {
		ip.report(st, "C24", "the stream gets other flags than the file")
	}
	held := map[int]bool{}
	d.reach(st, st.results[0], held, 0)
	if !held[h.sym.id] {
		ip.report(st, "C24", "the file does not keep the handle of its object")
	}
	want := func(v Value, field, what string) {
		a, ok := cast(v)
		f, ok2 := cast(d.statField(st, h, field))
		if !ok || !ok2 || !st.proveEq(a.p, f.p) {
			ip.report(st, "C24", fmt.Sprintf("the %s is not %s of the object (%s)", what, field, showVal(v)))
		}
	}
	want(s.args[0], "BlockSize", "block size of the cache")
	want(s.args[1], "NumBlocks", "number of blocks of the cache")
	want(s.size, "Size", "size of the stream")
	for i, what := range []string{"ReadBlocks", "WriteBlocks", "Resize"} {
		d.callback(st, h, s.args[2+i], what)
	}
}

// callback checks a function that the cache calls.
func (d *drv) callback(st *State, h *hnd, v Value, want string) {
	ip := d.ip
	f, ok := v.(FuncV)
	if !ok {
		ip.report(st, "C24", "a callback of the cache is not a function of the driver")
		return
	}
	x := st.clone()
	x.frames, x.status, x.results, x.events = nil, running, nil, nil
	var args []Value
	for _, p := range f.fn.Params {
		a := ip.fresh(x, p.Name(), p.Type())
		limit(x, a, 0, 1<<32)
		if s, ok := a.(SliceV); ok && s.hasNil {
			x.assume(Rel{AtomPoly(s.nilAtom), EQ})
		}
		args = append(args, a)
	}
	d.inCb = true
	root := ip.rootFn
	n := 0
	rets := func() []*State {
		defer func() { d.inCb = false; ip.rootFn = root }()
		ip.pushFrame(x, f.fn, args, f.bind, nil)
		return ip.Run(x)
	}()
	for _, r := range rets {
		if r.status != returned {
			continue
		}
		n++
		ip.Obligations += 3
		var ev *Event
		calls := 0
		for e := r.events; e != nil; e = e.prev {
			if e.ev.kind != "call" || e.ev.fn == nil {
				continue
			}
			switch e.ev.fn.Name() {
			case "ReadBlocks", "WriteBlocks", "Resize", "ZeroOutBlocks", "Unlink", "Close", "Read", "Write":
				ev = e.ev
				calls++
			}
		}
		what := map[string]string{"ReadBlocks": "to fetch a block", "WriteBlocks": "to write a block back", "Resize": "to resize the object"}[want]
		if calls != 1 || ev.fn.Name() != want || !valueEq(ev.recv, h.sym) {
			ip.report(r, "C24", fmt.Sprintf("the callback of the cache %s does not call %s of the object exactly once", what, want))
			continue
		}
		d.seenOp["callback"]++
		good := len(ev.args) > 0
		if want == "Resize" {
			a, ok := cast(ev.args[0])
			b, ok2 := cast(d.statField(r, h, "BlockSize"))
			k, ok3 := args[0].(IntV)
			good = ok && ok2 && ok3 && r.proveEq(a.p, k.p.Mul(b.p))
		} else {
			for i := range ev.args {
				if i >= len(args) || !valueEq(ev.args[i], args[i]) {
					good = false
				}
			}
		}
		if !good {
			ip.report(r, "C24", fmt.Sprintf("the callback of the cache %s passes other arguments than those it is called with", what))
		}
		e, has := errResult(f.fn, r)
		var ce Value
		if len(ev.res) > 0 {
			ce = ev.res[len(ev.res)-1]
		}
		if !has || ce == nil {
			ip.report(r, "C24", fmt.Sprintf("the callback of the cache %s has no error result", what))
			continue
		}
		y, no := r.fork(ip.isNil(r, ce))
		if y != nil && !y.prove(ip.isNil(y, e)) {
			ip.report(y, "C24", fmt.Sprintf("the callback of the cache %s may fail although the object does not", what))
		}
		if no != nil && !no.prove(ip.isNil(no, e).Neg()) {
			ip.report(no, "C24", fmt.Sprintf("the callback of the cache %s may succeed although the object fails", what))
		}
	}
	if n == 0 {
		ip.report(st, "C24", "a callback of the cache was not understood")
	}
}

// ------------------------------------------------------------------------ all entry points

func (c *Checker) newDriverRoot() {
	fn := c.prog.Func(drvPkg, "New")
	if fn == nil {
		c.anchor("driver.New not found")
		return
	}
	c.guard(fn.String(), func() {
		c.prog.reset()
		ip := c.newInterp()
		st := NewState()
		args := c.freshArgs(ip, st, fn)
		n := 0
		for _, r := range ip.Run(ip.rootOn(st, fn, args)) {
			if r.status != returned {
				continue
			}
			p, ok := r.results[0].(PtrV)
			if !ok {
				continue
			}
			s, ok := ip.objs[p.obj].typ.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			n++
			for i := 0; i < s.NumFields(); i++ {
				v := ip.loadCell(r, p.obj, fieldPath(p.path, i), s.Field(i).Type())
				ip.Obligations++
				if t := strOf(v); t != nil && (t.op != "const" || t.c != "/") {
					ip.report(r, "C21", fmt.Sprintf("the initial working directory is %s instead of the root", t))
				}
				if c.isNamed(s.Field(i).Type(), "MountFlags") {
					for j, q := range fn.Params {
						if types.Identical(q.Type(), s.Field(i).Type()) && !valueEq(v, args[j]) {
							ip.report(r, "C16", "the driver gets other mount flags than those given")
						}
					}
				}
			}
		}
		if n == 0 {
			ip.report(NewState(), "anchor", "driver.New was not understood")
		}
		c.collect(ip)
	})
}

func (c *Checker) driver() {
	bd, ft := c.prog.Type(drvPkg, "BaseDriver"), c.prog.Type(drvPkg, "File")
	if bd == nil || ft == nil || c.prog.Type("", "FileSystemImplementer") == nil || c.prog.Type("", "FileStat") == nil || c.prog.Type("", "ObjectHandle") == nil {
		c.anchor("types of the driver not found")
		return
	}
	c.newDriverRoot()
	handle := c.prog.Type("", "ObjectHandle").Underlying().(*types.Interface)
	_, g := c.drvGraph()
	fns, _ := c.drvGraph()
	cuts := map[*ssa.Function]string{}
	effects := map[*ssa.Function]map[string]bool{}

	// Cut the cycles of the call graph at functions that can be given a contract.
	for {
		out := map[*ssa.Function]bool{}
		for f := range cuts {
			out[f] = true
		}
		var first *ssa.Function
		for _, fn := range fns {
			if cycleFrom(g, fn, out) {
				first = fn
				break
			}
		}
		if first == nil {
			break
		}
		// The functions on cycles together with the first one.
		var cands []*ssa.Function
		for _, fn := range fns {
			if out[fn] || !cycleFrom(g, fn, out) || c.cutKind(fn, handle) == "" {
				continue
			}
			out[fn] = true
			if !cycleFrom(g, first, out) {
				cands = append(cands, fn)
			}
			delete(out, fn)
		}
		if len(cands) == 0 {
			c.anchor("the recursion of " + first.String() + " is not understood")
			return
		}
		sort.Slice(cands, func(i, j int) bool { return cands[i].Name() < cands[j].Name() })
		best := cands[0]
		for _, fn := range cands {
			if len(cands) == 1 || c.cutKind(fn, handle) != "follow" {
				continue
			}
			lost := true
			func() {
				defer func() { _ = recover() }()
				s := c.sub()
				t := map[*ssa.Function]string{fn: "follow"}
				for k, v := range cuts {
					t[k] = v
				}
				lost = s.followRoot(fn, t, effects).lost
			}()
			if !lost {
				best = fn
				break
			}
		}
		cuts[best] = c.cutKind(best, handle)
	}
	var cutFns []*ssa.Function
	for f := range cuts {
		cutFns = append(cutFns, f)
	}
	sort.Slice(cutFns, func(i, j int) bool { return cutFns[i].String() < cutFns[j].String() })

	// The permissions they need from their callers.
	var last map[*ssa.Function]*drv
	for round := 0; round < 6; round++ {
		changed := false
		last = map[*ssa.Function]*drv{}
		for _, fn := range cutFns {
			kind := cuts[fn]
			if kind == "op" {
				continue
			}
			var d *drv
			ok := false
			c.guard(fn.String(), func() {
				s := c
				if kind == "follow" {
					d = s.followRoot(fn, cuts, effects)
				} else {
					d = s.emptyRoot(fn, cuts, effects)
				}
				ok = true
			})
			if !ok {
				continue
			}
			last[fn] = d
			for e := range d.gained {
				if effects[fn] == nil {
					effects[fn] = map[string]bool{}
				}
				if !effects[fn][e] {
					effects[fn][e] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	for _, fn := range cutFns {
		if d := last[fn]; d != nil {
			d.collect()
			c.stats.Counts["driver contracts"]++
		}
	}

	seen := map[string]bool{}
	for _, fn := range c.prog.methodsOf(bd) {
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		seen[fn.Name()] = true
		fn := fn
		c.guard(fn.String(), func() { c.opRoot("op", fn, cuts, effects).collect() })
	}
	for _, n := range sortedKeys(drvOps) {
		if !seen[n] {
			c.anchor("method BaseDriver." + n + " not found")
		}
	}
	fseen := map[string]bool{}
	for _, fn := range c.prog.methodsOf(ft) {
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		fseen[fn.Name()] = true
		fn := fn
		c.guard(fn.String(), func() { c.opRoot("file", fn, cuts, effects).collect() })
	}
	for _, n := range []string{"Close", "ReadDir", "Readdir", "Readdirnames", "Chdir", "Chmod", "Chown"} {
		if !fseen[n] {
			c.anchor("method File." + n + " not found")
		}
	}
	nf := c.prog.Func(drvPkg, "NewFileFromObjectHandle")
	if nf == nil {
		c.anchor("driver.NewFileFromObjectHandle not found")
		return
	}
	c.guard(nf.String(), func() { c.opRoot("newfile", nf, cuts, effects).collect() })
}

func init() {
	run := func(c *Checker) { c.once("driver", func(s *Checker) { s.driver() }) }
	explain := "Every exported operation of the generic driver and its files was interpreted abstractly on an arbitrary file system implementation, any call of which may fail. Handles are followed with a typestate and with the lookup they come from, paths as terms over the parameters. Recursive functions were verified against the contract their callers rely on. Decided here: "
	def := func(id, title, what string, floors map[string]int, rules ...string) {
		floors["roots"] = 30
		register(&check{id: id, title: title, run: run, rules: rules, floors: floors, explain: explain + what,
			assumptions: []string{"the file system implementation keeps the promises documented for its interfaces; the stat information of a handle does not change while the handle is open; filepath.ToSlash is the identity"}})
	}
	crash := []string{"nil"}
	def("C16", "Nothing is modified without the matching mount permission", "the mount flags at every call that modifies the image.", map[string]int{"driver denied": 8, "obligations": 100})
	def("C17", "Every object handle the driver obtains is released exactly once", "the typestate of every handle at every use, at the end of loop iterations, and at every return.", map[string]int{"driver GetObject": 8, "driver Close": 20}, crash...)
	def("C18", "Symbolic links are followed, or not, as each operation requires", "which object each operation acts on, the directory links are resolved against, and the set of links passed on to nested lookups.", map[string]int{"driver link followed": 1, "driver cycle": 1, "driver nested lookup": 2})
	def("C19", "File system implementations get the guarantees promised to them", "the arguments of every call of the implementation.", map[string]int{"driver CreateObject": 1, "driver CreateHardLink": 1, "driver Chtimes": 1, "driver Chmod": 1})
	def("C20", "Opening, creating and truncating files honour the open flags", "when objects are created, and what is returned.", map[string]int{"driver stream": 5, "driver CreateObject": 2})
	def("C21", "Every path is normalised before use and stays inside the image", "the terms of all paths looked up, of the paths handles are known under, and of the working directory.", map[string]int{"driver lookup": 20, "driver chdir": 2})
	def("C22", "Removal never destroys the root or a non-empty directory", "the facts known at every call that removes an object.", map[string]int{"driver Unlink": 3, "driver empty": 2, "driver unlink empty": 1})
	def("C23", "Directory listings contain every real entry exactly once", "the listing made from an arbitrary list of names, and the portions of it given.", map[string]int{"driver listing": 2, "driver portion": 2, "driver rest": 2, "driver end of directory": 2}, "index", "slice", "makeslice")
	def("C24", "Open files move blocks and sizes between cache and object unscaled", "the callbacks of the block cache, and the order of flushing and releasing.", map[string]int{"driver callback": 6, "driver stream close": 2})
	def("C53", "Changes of metadata and modes are made exactly as requested", "that the implementation was asked to make the change on every successful return, and the permission bits of every mode passed on.", map[string]int{"driver change made": 7, "driver Chmod": 1})
}
