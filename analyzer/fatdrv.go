package main

// FAT drivers: clusters, chains of clusters, and files (C31, C33, C34).

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const corrupted = "github.com/dargueta/disko.ErrFileSystemCorrupted"

// fatRun is an analysis of a method of a FAT driver.
type fatRun struct {
	c         *Checker
	ip        *Interp
	recv      Value
	bps, spc  int64
	first, n  Poly
	boot      ObjID
	full      string // prefix of the methods of the file system below
	st        *State
	cluster   types.Type
	dirent    *types.Named
	succeeded bool
	// cases, if set, is decided beforehand.
	cases *Rel
	// known is the entry that is followed.
	known Value
}

// newFat sets up a driver with an arbitrary image whose clusters have a given size.
func (c *Checker) newFat(bps, spc int64) *fatRun {
	c.prog.reset()
	ip := c.newInterp()
	ip.Track = func(st *State, r Region) []Poly { return nil }
	q := &fatRun{c: c, ip: ip, bps: bps, spc: spc, st: NewState()}
	dt, bt := c.prog.Type(fatPkg, "FATDriver"), c.prog.Type(fatPkg, "FATBootSector")
	q.dirent = c.prog.Type(fatPkg, "Dirent")
	ct := c.prog.Type(fatPkg, "ClusterID")
	if dt == nil || bt == nil || q.dirent == nil || ct == nil {
		panic("types FATDriver, FATBootSector, Dirent or ClusterID not found")
	}
	q.cluster = ct
	q.full = "(" + c.prog.module + "/" + fatPkg + ".FATDriverCommon)."
	st := q.st
	q.first, q.n = AtomPoly(NewAtomRange("first data sector", 1, 1<<32-1)), AtomPoly(NewAtomRange("clusters", 0, 1<<28))
	st.assume(Le(q.first.Add(q.n.Mul(Const(spc))), Const(1<<32-1)))
	q.boot = ip.newObj("boot sector", bt, false)
	ip.objs[q.boot].param = true
	set := func(name string, p Poly) {
		path, ft := fieldAt(bt, name)
		if ft == nil {
			panic("field " + name + " not found")
		}
		ip.initCells[cellKey{q.boot, path}] = IntV{p: p}
	}
	set("BytesPerSector", Const(bps))
	set("SectorsPerCluster", Const(spc))
	set("BytesPerCluster", Const(bps*spc))
	set("DirentsPerCluster", Const(bps*spc/32))
	set("FirstDataSector", q.first)
	set("TotalClusters", q.n)
	drv := ip.newObj("driver", dt, false)
	ip.objs[drv].param = true
	s := dt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		it, ok := ft.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		file := c.prog.osFile()
		if isFat(ft, "FATDriverCommon") {
			v := ip.newSym(ft, "file system")
			v.nonnil = true
			ip.initCells[cellKey{drv, fieldPath("", i)}] = v
		} else if file != nil && types.Implements(file, it) {
			v := ip.newSym(file, "disk file")
			v.nonnil = true
			ip.initCells[cellKey{drv, fieldPath("", i)}] = IfaceV{dyn: file, v: v}
		}
	}
	q.recv = PtrV{obj: drv}
	ip.Models[q.full+"GetBootSector"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		cc.ret(ip, st, PtrV{obj: q.boot})
		return []*State{st}
	}
	return q
}

// osFile is the type of pointers to files.
func (p *Program) osFile() types.Type {
	pk := p.ssa.ImportedPackage("os")
	if pk == nil || pk.Type("File") == nil {
		return nil
	}
	return types.NewPointer(pk.Type("File").Type())
}

// fatMethods finds the methods of drivers with given parameters and results, and an error. Methods that are only used
// by others of them are left out.
func (c *Checker) fatMethods(par, res string) []*ssa.Function {
	dt := c.prog.Type(fatPkg, "FATDriver")
	if dt == nil {
		return nil
	}
	name := func(t types.Type) string {
		return types.TypeString(t, func(p *types.Package) string { return "" })
	}
	var out []*ssa.Function
	in := map[*ssa.Function]bool{}
	for _, fn := range c.prog.methodsOf(dt) {
		sig := fn.Signature
		if sig.Params().Len() == 1 && sig.Results().Len() == 2 && isErrorType(sig.Results().At(1).Type()) &&
			name(sig.Params().At(0).Type()) == par && name(sig.Results().At(0).Type()) == res {
			out = append(out, fn)
			in[fn] = true
		}
	}
	if len(out) < 2 {
		return out
	}
	used := map[*ssa.Function]bool{}
	for _, fn := range c.prog.SrcFuncs() {
		if in[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					used[call.Common().StaticCallee()] = true
				}
			}
		}
	}
	var top []*ssa.Function
	for _, fn := range out {
		if used[fn] || fn.Object() != nil && fn.Object().Exported() {
			top = append(top, fn)
		}
	}
	if len(top) == 0 {
		return out
	}
	return top
}

// failed is a state in which a call fails.
func (q *fatRun) failed(st *State, cc *CallCtx, name string) (*State, *SymV) {
	s := st.clone()
	e := q.ip.unknownErr(errorType, "err("+name+")")
	e.origin = &Event{kind: "call", name: cc.name, instr: cc.instr}
	s.assume(q.ip.isNil(s, e).Neg())
	gSet(s, "#failed", 1)
	return s, e
}

// each runs a method and hands over the states that return, with the error split.
func (q *fatRun) each(rule string, fn *ssa.Function, args []Value, good, bad func(s *State)) {
	q.eachArgs(rule, fn, append([]Value{q.recv}, args...), good, bad)
}

func (q *fatRun) eachArgs(rule string, fn *ssa.Function, args []Value, good, bad func(s *State)) {
	for i := range atoms {
		q.ip.prog.inputAtoms[Atom(i)] = true
	}
	starts := []*State{q.st}
	if q.cases != nil {
		starts = nil
		yes, no := q.st.fork(*q.cases)
		for _, s := range []*State{yes, no} {
			if s != nil {
				starts = append(starts, s)
			}
		}
	}
	var ends []*State
	for _, s := range starts {
		ends = append(ends, q.ip.Run(q.ip.rootOn(s, fn, args))...)
	}
	for _, s := range ends {
		if s.status == panicked {
			q.ip.report(s, "C31", fn.Name()+" may panic: "+s.note)
			continue
		}
		if s.status != returned {
			continue
		}
		g, b := q.ip.splitErr(fn, s)
		if g != nil && alive(g) {
			q.succeeded = true
			good(g)
		}
		if b != nil && alive(b) {
			bad(b)
		}
	}
	if !q.succeeded {
		q.c.anchor(fn.String() + " never succeeds")
	}
	q.c.collect(q.ip)
}

// fatClusters checks reading clusters.
func (c *Checker) fatClusters() {
	fns := c.fatMethods("ClusterID", "[]byte")
	if len(fns) == 0 {
		c.anchor("no method of FATDriver reads a cluster")
	}
	for _, fn := range fns {
		for bps := int64(512); bps <= 4096; bps *= 2 {
			for spc := int64(1); spc <= 128 && bps*spc <= 32768; spc *= 2 {
				fn, bps, spc := fn, bps, spc
				c.guard(fmt.Sprintf("FATDriver.%s %d %d", fn.Name(), bps, spc), func() { c.fatCluster(fn, bps, spc) })
			}
		}
	}
}

func (c *Checker) fatCluster(fn *ssa.Function, bps, spc int64) {
	const rule = "C34"
	q := c.newFat(bps, spc)
	ip, st := q.ip, q.st
	size := bps * spc
	cl, ra := AtomPoly(NewAtomRange("cluster", 0, 1<<32-1)), NewAtomRange("r", 0, size-1)
	r := AtomPoly(ra)
	ip.Skolems = []Atom{ra}
	disk := ip.newRegion(st, "disk", types.Typ[types.Byte], false)
	ip.initRegs[disk] = st.regs[disk]
	ip.Track = func(st *State, g Region) []Poly {
		if g != disk && isByteType(ip.regions[g].elem) {
			return []Poly{r}
		}
		return nil
	}
	gSet(st, "#failed", 0)
	read := func(buf Value, off Poly, st *State, cc *CallCtx) []*State {
		s, ok := ip.asSlice(st, buf)
		if !ok {
			ip.report(st, rule, "buffer not understood")
			return ip.opaque(st, cc)
		}
		ip.CallsSeen["ReadAt"]++
		bad, e := q.failed(st, cc, "ReadAt")
		n := AtomPoly(NewAtomMin("n(ReadAt)", 0))
		bad.addFact(Le(n, s.len))
		if s.reg != 0 {
			ip.havocRange(bad, s.reg, s.off, s.off.Add(s.len))
			ip.copyRange(st, s.reg, s.off, disk, off, s.len)
		}
		cc.ret(ip, bad, TupleV{IntV{p: n}, e})
		cc.ret(ip, st, TupleV{IntV{p: s.len}, NilV{}})
		return []*State{st, bad}
	}
	ip.Models["(*os.File).ReadAt"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		off, ok := cast(cc.args[2])
		if !ok || off.wrap {
			ip.report(st, rule, fn.Name()+" may read from an offset that overflowed")
			return ip.opaque(st, cc)
		}
		return read(cc.args[1], off.p, st, cc)
	}
	ip.Models["(*os.File).Seek"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		off, ok := cast(cc.args[1])
		w, ok2 := cast(cc.args[2])
		if !ok || !ok2 || off.wrap || !st.proveEq(w.p, Const(0)) {
			ip.report(st, rule, fn.Name()+" may seek to an unknown place")
			return ip.opaque(st, cc)
		}
		bad, e := q.failed(st, cc, "Seek")
		gPut(st, "pos", off.p)
		cc.ret(ip, bad, TupleV{IntV{p: Const(0)}, e})
		cc.ret(ip, st, TupleV{IntV{p: off.p}, NilV{}})
		return []*State{st, bad}
	}
	sequential := func(buf int) Model {
		return func(ip *Interp, st *State, cc *CallCtx) []*State {
			if _, ok := st.ghost["pos"]; !ok {
				ip.report(st, rule, fn.Name()+" reads from wherever the file was left")
				return ip.opaque(st, cc)
			}
			return read(cc.args[buf], gPoly(st, "pos"), st, cc)
		}
	}
	ip.Models["io.NewSectionReader"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		v := ip.newSym(cc.sig.Results().At(0).Type(), "section")
		v.nonnil, v.data = true, cc.args[1]
		cc.ret(ip, st, v)
		return []*State{st}
	}
	ip.Models["io.ReadFull"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		if i, ok := cc.args[0].(IfaceV); ok {
			if v, ok := i.v.(*SymV); ok {
				if off, ok := v.data.(IntV); ok && !off.wrap {
					return read(cc.args[1], off.p, st, cc)
				}
			}
		}
		return sequential(1)(ip, st, cc)
	}
	q.each(rule, fn, []Value{IntV{p: cl}}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") != 0 {
			ip.report(s, rule, fn.Name()+" may succeed though the image could not be read in full")
			return
		}
		c.proveRel(ip, s, rule, Le(Const(2), cl), fn.Name()+" may accept the number of a reserved cluster")
		c.proveRel(ip, s, rule, Lt(cl, q.n.AddConst(2)), fn.Name()+" may accept the number of a cluster past the end")
		res, ok := ip.asSlice(s, s.results[0])
		if !ok || res.reg == 0 {
			ip.report(s, rule, fn.Name()+" may give no data")
			return
		}
		c.proveEq(ip, s, rule, res.len, Const(size), fn.Name()+" may give other than the bytes of one cluster")
		at := q.first.Add(cl.AddConst(-2).Mul(Const(spc))).Mul(Const(bps)).Add(r)
		for _, x := range ip.readElem(s, res.reg, res.off.Add(r)) {
			for _, y := range ip.readElem(x.st, disk, at) {
				c.sameVal(ip, y.st, rule, x.v, y.v, fn.Name()+" may give bytes from another place of the image")
			}
		}
	}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") == 0 && s.feasible(Le(Const(2), cl)) {
			t := s.clone()
			if t.assume(Le(Const(2), cl)) && t.assume(Lt(cl, q.n.AddConst(2))) && alive(t) {
				ip.report(t, rule, fn.Name()+" may refuse a cluster that is there")
			}
		}
	})
	if ip.CallsSeen["ReadAt"] == 0 {
		c.anchor(fn.String() + " reads nothing")
	}
}

// isFat tells if a type is a given one of the package.
func isFat(t types.Type, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modulePath+"/"+fatPkg
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// What a link of a chain may be.
const (
	linkEnd = iota
	linkValid
	linkBad
)

// link tells what the link that was got last is.
func (q *fatRun) link(st *State, w Poly, f func(s *State)) {
	gPut(st, "W", w)
	for k := int64(linkEnd); k <= linkBad; k++ {
		s := st.clone()
		gSet(s, "#link", k)
		f(s)
	}
}

// predicates models the questions on cluster numbers.
func (q *fatRun) predicates() {
	ask := func(name string, mode int64) {
		q.ip.Models[q.full+name] = func(ip *Interp, st *State, cc *CallCtx) []*State {
			x, ok := cast(cc.args[len(cc.args)-1])
			if !ok || x.wrap {
				return ip.opaque(st, cc)
			}
			yes, no := st.fork(Eq(x.p, gPoly(st, "W")))
			var out []*State
			if yes != nil {
				cc.ret(ip, yes, boolConst(gInt(yes, "#link") == mode))
				out = append(out, yes)
			}
			if no != nil {
				cc.ret(ip, no, memoBool(name+" "+x.p.Key(), name))
				out = append(out, no)
			}
			return out
		}
	}
	ask("IsEndOfChain", linkEnd)
	ask("IsValidCluster", linkValid)
}

// fatChains checks walking chains of clusters.
func (c *Checker) fatChains() {
	fns := c.fatMethods("ClusterID", "[]ClusterID")
	if len(fns) == 0 {
		c.anchor("no method of FATDriver walks a chain of clusters")
	}
	for _, fn := range fns {
		fn := fn
		c.guard("FATDriver."+fn.Name(), func() { c.fatChain(fn) })
	}
}

func (c *Checker) fatChain(fn *ssa.Function) {
	const rule = "C33"
	q := c.newFat(512, 4)
	ip, st := q.ip, q.st
	start := AtomPoly(NewAtomRange("start", 0, 1<<32-1))
	qa, ka := NewAtomRange("q", 0, 1<<32-1), NewAtomRange("k", 0, 1<<48)
	any, k := AtomPoly(qa), AtomPoly(ka)
	ip.Skolems = []Atom{ka}
	ip.Track = func(st *State, r Region) []Poly {
		if types.Identical(ip.regions[r].elem, q.cluster) {
			return []Poly{k}
		}
		return nil
	}
	ip.Hooks = &LoopHooks{
		View: func(st *State, v Value) *HandleV { return nil },
		Back: func(st *State, entry *State, live map[*SymV]bool) {},
		Keys: func(st *State, m ObjID) []Value {
			if t := ip.objs[m].typ; t != nil {
				if mt, ok := t.Underlying().(*types.Map); ok && isInt(mt.Key()) {
					return []Value{IntV{p: any}}
				}
			}
			return nil
		},
	}
	q.predicates()
	next := func(ip *Interp, st *State, cc *CallCtx) []*State {
		x, ok := cast(cc.args[len(cc.args)-1])
		ip.CallsSeen["next cluster"]++
		if !ok || x.wrap {
			ip.report(st, rule, "cluster number not understood")
			return ip.opaque(st, cc)
		}
		ip.Obligations++
		if !st.proveEq(x.p, gPoly(st, "W")) {
			ip.report(st, rule, fn.Name()+" may follow a cluster that is not the next one of the chain")
		} else if gInt(st, "#link") != linkValid {
			ip.report(st, rule, fn.Name()+" may follow a cluster number that is not valid")
			return nil
		}
		bad, e := q.failed(st, cc, "next cluster")
		cc.ret(ip, bad, TupleV{ip.fresh(bad, "?", cc.sig.Results().At(0).Type()), e})
		out := []*State{bad}
		n := gPoly(st, "N")
		gPut(st, "N", n.AddConst(1))
		var step []*State
		at, other := st.fork(Eq(n, k))
		if at != nil {
			gPut(at, "V", x.p)
			step = append(step, at)
		}
		if other != nil {
			step = append(step, other)
		}
		for _, s := range step {
			is, not := s.fork(Eq(x.p, any))
			if is != nil {
				ip.Obligations++
				if gInt(is, "#asked") == 1 {
					ip.report(is, rule, fn.Name()+" may follow a chain that contains a cycle forever")
				} else {
					gSet(is, "#asked", 1)
					out = append(out, q.linked(is, cc)...)
				}
			}
			if not != nil {
				out = append(out, q.linked(not, cc)...)
			}
		}
		return out
	}
	ip.Models[q.full+"GetClusterAtIndex"] = next
	ip.Models[q.full+"GetNextClusterInChain"] = next
	for _, g := range []string{"#failed", "#asked", "N", "V"} {
		gSet(st, g, 0)
	}
	gPut(st, "V", AtomPoly(NewAtomRange("V", 0, 1<<32-1)))
	q.link(st, start, func(s *State) {
		zero, some := s.fork(Eq(start, Const(0)))
		if gInt(s, "#link") == linkBad && zero != nil {
			gSet(zero, "#empty", 1)
			q.chainFrom(fn, zero, start, any, k)
		}
		if some != nil {
			gSet(some, "#empty", 0)
			if gInt(s, "#link") == linkEnd {
				gSet(some, "#empty", 1)
			}
			q.chainFrom(fn, some, start, any, k)
		}
	})
	c.collect(ip)
	if ip.CallsSeen["next cluster"] == 0 {
		c.anchor(fn.String() + " follows no cluster")
	}
}

// linked gives the states after the next link of a chain was read.
func (q *fatRun) linked(st *State, cc *CallCtx) []*State {
	var out []*State
	w := AtomPoly(NewAtomRange("next", 0, 1<<32-1))
	q.link(st, w, func(s *State) {
		cc.ret(q.ip, s, TupleV{IntV{p: w}, NilV{}})
		out = append(out, s)
	})
	return out
}

func (q *fatRun) chainFrom(fn *ssa.Function, st *State, start, any, k Poly) {
	const rule = "C33"
	ip, c := q.ip, q.c
	q.st, q.succeeded = st, gInt(st, "#link") == linkBad && gInt(st, "#empty") == 0
	q.each(rule, fn, []Value{IntV{p: start}}, func(s *State) {
		ip.Obligations++
		res, ok := ip.asSlice(s, s.results[0])
		if !ok {
			ip.report(s, rule, fn.Name()+" gives an unknown result")
			return
		}
		if gInt(s, "#empty") == 1 {
			c.proveEq(ip, s, rule, res.len, Const(0), fn.Name()+" may give clusters for an empty file")
			return
		}
		if gInt(s, "#failed") != 0 {
			ip.report(s, rule, fn.Name()+" may succeed though a link could not be read")
			return
		}
		if gInt(s, "#link") != linkEnd {
			ip.report(s, rule, fn.Name()+" may succeed before the end of the chain")
			return
		}
		n := gPoly(s, "N")
		c.proveEq(ip, s, rule, res.len, n, fn.Name()+" may give more or fewer clusters than the chain has")
		if res.reg == 0 || !s.assume(Lt(k, n)) || !alive(s) {
			return
		}
		for _, x := range ip.readElem(s, res.reg, res.off.Add(k)) {
			c.sameVal(ip, x.st, rule, x.v, IntV{p: gPoly(x.st, "V")}, fn.Name()+" may give another cluster than the chain has at a place")
		}
	}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#empty") == 1 {
			ip.report(s, rule, fn.Name()+" may fail for an empty file")
			return
		}
		if gInt(s, "#failed") != 0 {
			return
		}
		e, _ := errResult(fn, s)
		zero := s.prove(Eq(gPoly(s, "N"), Const(0)))
		if gInt(s, "#link") == linkBad {
			if !zero && !s.prove(ip.errMatches(s, e, corrupted).r) {
				ip.report(s, rule, fn.Name()+" may report an invalid link as something else than a corrupted file system")
			}
			return
		}
		if gInt(s, "#link") == linkEnd {
			ip.report(s, rule, fn.Name()+" may fail though the chain is sound")
			return
		}
		is, _ := s.fork(Eq(gPoly(s, "W"), any))
		if is == nil || !alive(is) {
			return
		}
		if gInt(is, "#asked") != 1 {
			ip.report(is, rule, fn.Name()+" may fail at a cluster that was not visited before")
			return
		}
		if !is.prove(ip.errMatches(is, e, corrupted).r) {
			ip.report(is, rule, fn.Name()+" may report a cycle as something else than a corrupted file system")
		}
	})
}

// fatFile is an analysis of an operation on a file.
type fatFile struct {
	*fatRun
	rule       string
	fn         *ssa.Function
	path       Value
	k, r, J, V Poly
	vk, l      Poly
	chain      SliceV
}

// direntOf asks an exported method of a directory entry.
func (q *fatRun) direntOf(st *State, d Value, name string, f func(s *State, v Value)) {
	fn := q.c.prog.ValueMethod(fatPkg, "Dirent", name)
	if fn == nil {
		panic("directory entries have no method " + name)
	}
	arg := d
	if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
		obj := q.ip.newObj("entry", q.dirent, true)
		q.ip.storeCell(st, obj, "", q.dirent, d)
		arg = PtrV{obj: obj}
	}
	for _, s := range q.ip.subRun(st, fn, []Value{arg}) {
		v := s.results[0]
		// Back to where this was asked.
		s.frames, s.status, s.results = st.clone().frames, st.status, st.results
		f(s, v)
	}
}

// resolve models looking up a path.
func (q *fatFile) resolve(ip *Interp, st *State, cc *CallCtx) []*State {
	ip.CallsSeen["lookup"]++
	bad, e := q.failed(st, cc, "looking up a path")
	cc.ret(ip, bad, TupleV{ip.zeroValue(q.dirent), e})
	out := []*State{bad}
	d := ip.fresh(st, "entry", q.dirent)
	t := strOf(cc.args[len(cc.args)-1])
	key := "other"
	if t != nil && !t.uses("dir") && !t.uses("splitdir") && strOf(q.path) != nil && t.contains(strOf(q.path)) {
		key = "target"
	}
	q.direntOf(st, d, "Size", func(s *State, v Value) {
		n, ok := cast(v)
		if !ok {
			panic("size of a directory entry not understood")
		}
		s.addFact(Le(Const(0), n.p))
		s.addFact(Le(n.p, Const(1<<32-1)))
		q.direntOf(s, d, "IsDir", func(s *State, v Value) {
			b, ok := v.(BoolV)
			if !ok {
				panic("method IsDir not understood")
			}
			yes, no := s.fork(b.r)
			for i, x := range []*State{yes, no} {
				if x == nil {
					continue
				}
				x.ghost[key] = d
				if key == "target" {
					x.ghost["size"] = n
					gSet(x, "#dir", int64(1-i))
				}
				cc.ret(ip, x, TupleV{d, NilV{}})
				out = append(out, x)
			}
		})
	})
	return out
}

// walk models getting the chain of clusters of the file.
func (q *fatFile) walk(ip *Interp, st *State, cc *CallCtx) []*State {
	ip.CallsSeen["chain"]++
	d := st.ghost["target"]
	c, ok := cast(cc.args[len(cc.args)-1])
	path, _ := fieldAt(q.dirent, "FirstCluster")
	if d == nil || !ok || c.wrap || path == "" {
		ip.report(st, q.rule, q.fn.Name()+" may follow a chain other than the file's")
		return ip.opaque(st, cc)
	}
	ip.Obligations++
	if f, ok := cast(subValue(d, path)); !ok || !st.proveEq(f.p, c.p) {
		ip.report(st, q.rule, q.fn.Name()+" may follow a chain other than the file's")
	}
	bad, e := q.failed(st, cc, "walking a chain of clusters")
	cc.ret(ip, bad, TupleV{ip.fresh(bad, "?", cc.sig.Results().At(0).Type()), e})
	st.assume(Le(Const(0), q.l))
	st.ghost["#walked"] = IntV{p: Const(1)}
	out := []*State{bad}
	zero, some := st.fork(Eq(c.p, Const(0)))
	if zero != nil && zero.assume(Eq(q.l, Const(0))) {
		cc.ret(ip, zero, TupleV{q.chain, NilV{}})
		out = append(out, zero)
	}
	if some != nil {
		cc.ret(ip, some, TupleV{q.chain, NilV{}})
		out = append(out, some)
	}
	return out
}

// isK splits a state on whether a cluster is the one followed. A chain has each cluster once.
func (q *fatFile) isK(st *State, c Poly) (yes, no *State) {
	gen := q.ip.initRegs[q.chain.reg].gen
	for _, e := range q.ip.genIdx[gen] {
		if v, ok := q.ip.genVals[genKey{gen, e.Key()}].(IntV); ok && v.p.Equal(c) && st.proveNe(e, q.k) {
			return nil, st
		}
	}
	return st.fork(Eq(c, q.vk))
}

// readCluster models reading a cluster.
func (q *fatFile) readCluster(ip *Interp, st *State, cc *CallCtx) []*State {
	ip.CallsSeen["cluster"]++
	c, ok := cast(cc.args[len(cc.args)-1])
	if !ok || c.wrap {
		ip.report(st, q.rule, "cluster number not understood")
		return ip.opaque(st, cc)
	}
	bad, e := q.failed(st, cc, "reading a cluster")
	cc.ret(ip, bad, TupleV{ip.fresh(bad, "?", cc.sig.Results().At(0).Type()), e})
	out := []*State{bad}
	yes, no := q.isK(st, c.p)
	for i, s := range []*State{yes, no} {
		if s == nil {
			continue
		}
		size := Const(q.bps * q.spc)
		reg := ip.newRegion(s, "cluster", types.Typ[types.Byte], false)
		if i == 0 {
			ip.writeElem(s, reg, q.r, IntV{p: q.V})
		}
		cc.ret(ip, s, TupleV{SliceV{reg: reg, off: Const(0), len: size, cap: size}, NilV{}})
		out = append(out, s)
	}
	return out
}

// newFatFile sets up the analysis of an operation on a file.
func (c *Checker) newFatFile(rule string, fn *ssa.Function, bps, spc int64) *fatFile {
	q := &fatFile{fatRun: c.newFat(bps, spc), rule: rule, fn: fn}
	ip, st := q.ip, q.st
	ka, ra := NewAtomRange("K", 0, 1<<32-1), NewAtomRange("R", 0, bps*spc-1)
	ip.Skolems = []Atom{ka, ra}
	q.k, q.r = AtomPoly(ka), AtomPoly(ra)
	q.V = AtomPoly(NewAtomRange("V", 0, 255))
	q.J = q.k.Mul(Const(bps * spc)).Add(q.r)
	q.l = AtomPoly(NewAtomRange("clusters of the file", 0, 1<<28))
	reg := ip.newRegion(st, "chain", q.cluster, false)
	ip.initRegs[reg] = st.regs[reg]
	in := Lt(q.k, q.l)
	q.cases = &in
	q.chain = SliceV{reg: reg, off: Const(0), len: q.l, cap: q.l}
	for _, x := range ip.readElem(st, reg, q.k) {
		q.vk = x.v.(IntV).p
	}
	ip.SplitReads = true
	ip.Track = func(st *State, r Region) []Poly {
		if r == reg {
			return []Poly{q.k}
		}
		if isByteType(ip.regions[r].elem) {
			return []Poly{q.J}
		}
		return nil
	}
	bufferModels(ip)
	sum := func(par, res string, m Model) {
		for _, f := range c.fatMethods(par, res) {
			if f != fn {
				ip.Summaries[f] = m
			}
		}
	}
	sum("string", "Dirent", q.resolve)
	sum("ClusterID", "[]ClusterID", q.walk)
	sum("ClusterID", "[]byte", q.readCluster)
	for _, g := range []string{"#failed", "#dir", "#walked", "#deleted", "#freed", "F"} {
		gSet(st, g, 0)
	}
	q.path = ip.fresh(st, "path", types.Typ[types.String])
	return q
}

// fatReadFile checks reading files.
func (c *Checker) fatReadFile(bps, spc int64) {
	const rule = "C33"
	fn := c.prog.Method(fatPkg, "FATDriver", "ReadFile")
	if fn == nil {
		c.anchor("method FATDriver.ReadFile not found")
		return
	}
	q := c.newFatFile(rule, fn, bps, spc)
	ip := q.ip
	ip.ExitPreds, ip.SplitPreds = true, true
	size := Const(bps * spc)
	q.each(rule, fn, []Value{q.path}, func(s *State) {
		ip.Obligations++
		n, ok := cast(s.ghost["size"])
		if gInt(s, "#failed") != 0 || gInt(s, "#dir") != 0 || !ok {
			ip.report(s, rule, "ReadFile may succeed though something failed or the file is a directory")
			return
		}
		res, ok := ip.asSlice(s, s.results[0])
		if !ok {
			ip.report(s, rule, "ReadFile gives an unknown result")
			return
		}
		c.proveEq(ip, s, rule, res.len, n.p, "ReadFile may give more or fewer bytes than the file has")
		if !s.assume(Lt(q.J, n.p)) || !alive(s) {
			return
		}
		if res.reg == 0 {
			ip.report(s, rule, "ReadFile may give no data though the file has some")
			return
		}
		for _, x := range ip.readElem(s, res.reg, res.off.Add(q.J)) {
			c.sameVal(ip, x.st, rule, x.v, IntV{p: q.V}, "ReadFile may give a byte other than the one of the file at a place")
		}
	}, func(s *State) {
		ip.Obligations++
		n, ok := cast(s.ghost["size"])
		if gInt(s, "#failed") != 0 || gInt(s, "#dir") != 0 || !ok {
			return
		}
		if gInt(s, "#walked") == 0 {
			ip.report(s, rule, "ReadFile may fail for no reason")
			return
		}
		if s.assume(Le(n.p, q.l.Mul(size))) && s.assume(Lt(q.l.AddConst(-1).Mul(size), n.p)) && alive(s) {
			ip.report(s, rule, "ReadFile may fail though the file has as many clusters as it needs")
		}
	})
	for _, k := range []string{"lookup", "chain", "cluster"} {
		if ip.CallsSeen[k] == 0 {
			c.anchor("FATDriver.ReadFile does without: " + k)
		}
	}
}

func (c *Checker) fatFiles() {
	for bpc := int64(512); bpc <= 32768; bpc *= 2 {
		bpc := bpc
		c.guard("FATDriver.ReadFile", func() { c.fatReadFile(512, bpc/512) })
	}
	c.guard("FATDriver.Remove", c.fatRemove)
}

// fatRemove checks removing files.
func (c *Checker) fatRemove() {
	const rule = "C33"
	fn := c.prog.Method(fatPkg, "FATDriver", "Remove")
	if fn == nil {
		c.anchor("method FATDriver.Remove not found")
		return
	}
	q := c.newFatFile(rule, fn, 512, 4)
	ip := q.ip
	ip.SplitPreds = true
	ip.Models[q.full+"DeleteDirent"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["delete"]++
		ip.Obligations++
		var d [2]Value
		for i := range d {
			if p, ok := cc.args[len(cc.args)-2+i].(PtrV); ok {
				for _, x := range ip.load(st, p, q.dirent) {
					d[i] = x.v
				}
			}
		}
		if t := st.ghost["target"]; t == nil || d[0] == nil || !valueEq(d[0], t) {
			ip.report(st, rule, "Remove may delete another directory entry than the one at the path")
		}
		if t := st.ghost["other"]; t == nil || d[1] == nil || !valueEq(d[1], t) {
			ip.report(st, rule, "Remove may delete a directory entry from another directory than its own")
		}
		if gInt(st, "#dir") != 0 {
			ip.report(st, rule, "Remove may delete a directory")
		}
		if gInt(st, "#deleted") != 0 {
			ip.report(st, rule, "Remove may delete a directory entry twice")
		}
		bad, e := q.failed(st, cc, "DeleteDirent")
		gSet(bad, "#deleted", 2)
		gSet(st, "#deleted", 1)
		cc.ret(ip, bad, e)
		cc.ret(ip, st, NilV{})
		return []*State{st, bad}
	}
	ip.Models[q.full+"FreeCluster"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["free"]++
		ip.Obligations++
		x, ok := cast(cc.args[len(cc.args)-1])
		if !ok || x.wrap {
			ip.report(st, rule, "cluster number not understood")
			return ip.opaque(st, cc)
		}
		if gInt(st, "#deleted") != 1 {
			ip.report(st, rule, "Remove may free a cluster of a file whose directory entry is still there")
		}
		bad, e := q.failed(st, cc, "FreeCluster")
		cc.ret(ip, bad, e)
		out := []*State{bad}
		gPut(st, "F", gPoly(st, "F").AddConst(1))
		yes, no := q.isK(st, x.p)
		if yes != nil {
			if gInt(yes, "#freed") != 0 {
				ip.report(yes, rule, "Remove may free a cluster twice")
			}
			gSet(yes, "#freed", 1)
			cc.ret(ip, yes, NilV{})
			out = append(out, yes)
		}
		if no != nil {
			cc.ret(ip, no, NilV{})
			out = append(out, no)
		}
		return out
	}
	q.each(rule, fn, []Value{q.path}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") != 0 || gInt(s, "#dir") != 0 {
			ip.report(s, rule, "Remove may succeed though something failed or the file is a directory")
			return
		}
		if gInt(s, "#deleted") != 1 {
			ip.report(s, rule, "Remove may succeed without deleting the directory entry")
		}
		if gInt(s, "#walked") == 0 {
			first, _ := fieldAt(q.dirent, "FirstCluster")
			if v, ok := cast(subValue(s.ghost["target"], first)); !ok || !s.proveEq(v.p, Const(0)) {
				ip.report(s, rule, "Remove may succeed without freeing the clusters of the file")
			}
			return
		}
		c.proveEq(ip, s, rule, gPoly(s, "F"), q.l, "Remove may free more or fewer clusters than the file has")
		if s.assume(Lt(q.k, q.l)) && alive(s) && gInt(s, "#freed") != 1 {
			ip.report(s, rule, "Remove may leave a cluster of the file allocated")
		}
	}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") == 0 && gInt(s, "#dir") == 0 {
			ip.report(s, rule, "Remove may fail for no reason")
		}
	})
	for _, k := range []string{"lookup", "chain", "delete", "free"} {
		if ip.CallsSeen[k] == 0 {
			c.anchor("FATDriver.Remove does without: " + k)
		}
	}
}

func init() {
	crash := []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"}
	register(&check{id: "C33", title: "FAT cluster chains are walked completely and safely", rules: crash,
		run: func(c *Checker) {
			c.once("fatchain", func(s *Checker) { s.fatChains(); s.fatFiles() })
		},
		floors: map[string]int{"roots": 9, "obligations": 1000},
		explain: "The method of FATDriver that walks a chain was interpreted for an arbitrary first cluster and an arbitrary table: each link may be the end, " +
			"a valid cluster or an invalid one, and reading it may fail. Each cluster followed must be the link read last, following an arbitrary but fixed cluster " +
			"a second time is a violation, and an arbitrary but fixed element of the result is compared with the cluster followed at that place. ReadFile was " +
			"interpreted for all cluster sizes of 512 to 32768 bytes and Remove once, for an arbitrary entry and chain, with lookups, the walk of the chain and reads " +
			"of clusters (decided in C50, here and in C34) replaced by what they promise and every one of them able to fail.",
		assumptions: []string{"FATDriverCommon tells ends of chains and valid clusters apart consistently; a chain holds each cluster once (decided for the walk itself). The " +
			"size of a file is below 4 GiB, as in its directory entry."}})
	register(&check{id: "C34", title: "FAT clusters are read in full from the right place", rules: crash,
		run:    func(c *Checker) { c.once("fatcluster", func(s *Checker) { s.fatClusters() }) },
		floors: map[string]int{"roots": 22, "obligations": 200},
		explain: "The method of FATDriver that reads a cluster was interpreted for each of the 22 combinations of sector size (512 to 4096) and cluster size (up to " +
			"32 KiB), an arbitrary cluster number, position and size of the data area; an arbitrary but fixed byte of the result is compared with the byte of the " +
			"image at the place it belongs to. The read may fail, with any number of bytes read.",
		assumptions: []string{"The fields of the boot sector are consistent with one another (decided in C30), and the data area ends before sector 2^32."}})
}
