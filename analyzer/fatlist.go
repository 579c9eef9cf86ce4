package main

// FAT drivers: contents of directories, paths, and metadata (C31, C49, C50, C51).

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// global loads an error variable of the library.
func (q *fatRun) global(st *State, name string) Value {
	pk := q.c.prog.ssa.ImportedPackage(q.c.prog.module)
	if pk == nil || pk.Var(name) == nil {
		panic("variable " + name + " not found")
	}
	g := pk.Var(name)
	for _, x := range q.ip.load(st, q.ip.globalPtr(g).(PtrV), deref(g.Type())) {
		return x.v
	}
	panic("variable " + name + " without a value")
}

// byteArg is the index of the parameter that is a slice of bytes.
func byteArg(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isByteType(s.Elem()) {
			return i
		}
	}
	return -1
}

// fatDecoders finds the functions that turn the bytes of a cluster into directory entries.
func (c *Checker) fatDecoders() []*ssa.Function {
	if fns := c.fatMethods("[]byte", "[]Dirent"); len(fns) > 0 {
		return fns
	}
	var out []*ssa.Function
	for _, fn := range c.prog.pkgFuncs(fatPkg) {
		r := fn.Signature.Results()
		if r.Len() != 2 || !isErrorType(r.At(1).Type()) || byteArg(fn) < 0 {
			continue
		}
		s, ok := r.At(0).Type().Underlying().(*types.Slice)
		if !ok || !isFat(s.Elem(), "Dirent") {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// fatListers finds the methods that list directories.
func (c *Checker) fatListers() []*ssa.Function {
	return append(c.fatMethods("*Dirent", "[]Dirent"), c.fatMethods("Dirent", "[]Dirent")...)
}

// entryArg is the directory entry given by a value or pointer.
func (q *fatRun) entryArg(st *State, v Value) Value {
	p, ok := v.(PtrV)
	if !ok {
		return v
	}
	for _, x := range q.ip.load(st, p, q.dirent) {
		return x.v
	}
	return nil
}

// field is a field of a directory entry.
func (q *fatRun) field(d Value, name string) (Poly, bool) {
	path, ft := fieldAt(q.dirent, name)
	if ft == nil {
		panic("directory entries have no field " + name)
	}
	if d == nil {
		return Poly{}, false
	}
	i, ok := cast(subValue(d, path))
	return i.p, ok && !i.wrap
}

// identified is an arbitrary directory entry whose first cluster is given.
func (q *fatRun) identified(st *State, id Poly) Value {
	if q.known != nil {
		return q.known
	}
	d := q.ip.fresh(st, "entry", q.dirent)
	path, _ := fieldAt(q.dirent, "FirstCluster")
	q.known = setSubValue(d, path, IntV{p: id})
	return q.known
}

// fatDecode checks decoding the entries of a cluster.
func (c *Checker) fatDecode(fn *ssa.Function, bpc int64) {
	const rule = "C49"
	q := c.newFat(512, bpc/512)
	ip, st := q.ip, q.st
	D := bpc / 32
	ka := NewAtomRange("k", 0, D-1)
	k, V := AtomPoly(ka), AtomPoly(NewAtomRange("V", 0, 1<<32-1))
	ip.Skolems = []Atom{ka}
	ip.Track = func(st *State, r Region) []Poly {
		if types.Identical(ip.regions[r].elem, q.dirent) {
			return []Poly{k}
		}
		return nil
	}
	data := ip.newRegion(st, "data", types.Typ[types.Byte], false)
	ip.initRegs[data] = st.regs[data]
	gSet(st, "#failed", 0)
	gSet(st, "N", 0)
	raw, conv := c.prog.Func(fatPkg, "NewRawDirentFromBytes"), c.prog.Func(fatPkg, "NewDirentFromRaw")
	if raw == nil || conv == nil {
		c.anchor("functions NewRawDirentFromBytes and NewDirentFromRaw not found")
		return
	}
	rawType := raw.Signature.Results().At(0).Type()
	ip.Summaries[raw] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["raw"]++
		ip.Obligations++
		n := gPoly(st, "N")
		s, ok := ip.asSlice(st, cc.args[0])
		if !ok || s.reg != data || !st.proveEq(s.off, n.Mul(Const(32))) || !st.prove(Le(Const(32), s.len)) {
			ip.report(st, rule, fn.Name()+" may take an entry from another place than the end of the one before")
			return ip.opaque(st, cc)
		}
		v := ip.fresh(st, "raw entry", rawType)
		st.ghost["raw"] = v
		gPut(st, "N", n.AddConst(1))
		cc.ret(ip, st, TupleV{v, NilV{}})
		return []*State{st}
	}
	ip.Summaries[conv] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["decode"]++
		ip.Obligations++
		if p, ok := cc.args[0].(PtrV); !ok || p.obj != q.boot {
			ip.report(st, rule, fn.Name()+" may decode an entry for another boot sector than that of the image")
		}
		var v Value
		if p, ok := cc.args[1].(PtrV); ok {
			for _, x := range ip.load(st, p, rawType) {
				v = x.v
			}
		}
		if v == nil || st.ghost["raw"] == nil || !valueEq(v, st.ghost["raw"]) {
			ip.report(st, rule, fn.Name()+" may decode something else than the entry read last")
			return ip.opaque(st, cc)
		}
		n := gPoly(st, "N").AddConst(-1)
		var out []*State
		for _, x := range ip.readElem(st, data, n.Mul(Const(32))) {
			free, used := x.st.fork(Eq(x.v.(IntV).p, Const(0)))
			if free != nil {
				cc.ret(ip, free, TupleV{ip.zeroValue(q.dirent), q.global(free, "ErrNotFound")})
				out = append(out, free)
			}
			if used == nil {
				continue
			}
			at, other := used.fork(Eq(n, k))
			if at != nil {
				cc.ret(ip, at, TupleV{q.identified(at, V), NilV{}})
				out = append(out, at)
			}
			if other != nil {
				cc.ret(ip, other, TupleV{ip.fresh(other, "entry", q.dirent), NilV{}})
				out = append(out, other)
			}
		}
		return out
	}
	var args []Value
	for i, p := range fn.Params {
		switch {
		case i == byteArg(fn):
			args = append(args, SliceV{reg: data, off: Const(0), len: Const(bpc), cap: Const(bpc)})
		case isFat(deref(p.Type()), "FATDriver"):
			args = append(args, q.recv)
		case isFat(deref(p.Type()), "FATBootSector"):
			args = append(args, PtrV{obj: q.boot})
		default:
			args = append(args, ip.fresh(st, p.Name(), p.Type()))
		}
	}
	q.eachArgs(rule, fn, args, func(s *State) {
		ip.Obligations++
		res, ok := ip.asSlice(s, s.results[0])
		if !ok {
			ip.report(s, rule, fn.Name()+" gives an unknown result")
			return
		}
		c.proveRel(ip, s, rule, Le(res.len, Const(D)), fn.Name()+" may give more entries than a cluster has")
		less, _ := s.fork(Lt(res.len, Const(D)))
		if less != nil && alive(less) {
			for _, x := range ip.readElem(less, data, res.len.Mul(Const(32))) {
				c.proveEq(ip, x.st, rule, x.v.(IntV).p, Const(0), fn.Name()+" may leave out entries though no free one was found")
			}
		}
		if !s.assume(Lt(k, res.len)) || !alive(s) {
			return
		}
		if res.reg == 0 {
			ip.report(s, rule, fn.Name()+" gives an unknown result")
			return
		}
		for _, x := range ip.readElem(s, res.reg, res.off.Add(k)) {
			id, ok := q.field(x.v, "FirstCluster")
			if !ok {
				ip.report(x.st, rule, fn.Name()+" may give an unknown entry")
				continue
			}
			c.proveEq(ip, x.st, rule, id, V, fn.Name()+" may give another entry than the one at a place of the cluster")
		}
	}, func(s *State) {
		ip.Obligations++
		ip.report(s, rule, fn.Name()+" may fail for the entries of a cluster though none is damaged")
	})
	for _, n := range []string{"raw", "decode"} {
		if ip.CallsSeen[n] == 0 {
			c.anchor(fn.String() + " does without: " + n)
		}
	}
}

// fatListRun is an analysis of listing a directory.
type fatListRun struct {
	*fatRun
	fn               *ssa.Function
	k, r, J, V, l, m Poly
	chain            SliceV
	vk               Poly
}

// fatListing checks listing directories.
func (c *Checker) fatListing(fn *ssa.Function, bpc int64) {
	const rule = "C49"
	q := &fatListRun{fatRun: c.newFat(512, bpc/512), fn: fn}
	ip, st := q.ip, q.st
	D := bpc / 32
	ka, ra := NewAtomRange("K", 0, 1<<32-1), NewAtomRange("R", 0, D-1)
	ip.Skolems = []Atom{ka, ra}
	q.k, q.r = AtomPoly(ka), AtomPoly(ra)
	q.V = AtomPoly(NewAtomRange("V", 0, 1<<32-1))
	q.J = q.k.Mul(Const(D)).Add(q.r)
	q.l = AtomPoly(NewAtomRange("clusters of the directory", 0, 1<<28))
	reg := ip.newRegion(st, "chain", q.cluster, false)
	ip.initRegs[reg] = st.regs[reg]
	in := Lt(q.k, q.l)
	q.cases = &in
	q.chain = SliceV{reg: reg, off: Const(0), len: q.l, cap: q.l}
	for _, x := range ip.readElem(st, reg, q.k) {
		q.vk = x.v.(IntV).p
	}
	ip.SplitReads, ip.SplitPreds, ip.ExitPreds = true, true, true
	ip.Track = func(st *State, r Region) []Poly {
		if r == reg {
			return []Poly{q.k}
		}
		if types.Identical(ip.regions[r].elem, q.dirent) {
			return []Poly{q.J}
		}
		return nil
	}
	for _, g := range []string{"#failed", "#dir", "#short", "#iscur", "#rootlist", "#walked", "N", "T"} {
		gSet(st, g, 0)
	}
	d := ip.fresh(st, "directory", q.dirent)
	first, _ := q.field(d, "FirstCluster")
	st.ghost["data"] = IntV{p: Const(0)}
	sum := func(fns []*ssa.Function, m Model) {
		for _, f := range fns {
			if f != fn {
				ip.Summaries[f] = m
			}
		}
	}
	sum(c.fatMethods("ClusterID", "[]ClusterID"), func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["chain"]++
		ip.Obligations++
		x, ok := cast(cc.args[len(cc.args)-1])
		if !ok || x.wrap || !st.proveEq(x.p, first) {
			ip.report(st, rule, fn.Name()+" may follow a chain other than the directory's")
			return ip.opaque(st, cc)
		}
		bad, e := q.failed(st, cc, "walking a chain of clusters")
		cc.ret(ip, bad, TupleV{ip.fresh(bad, "?", cc.sig.Results().At(0).Type()), e})
		gSet(st, "#walked", 1)
		cc.ret(ip, st, TupleV{q.chain, NilV{}})
		return []*State{st, bad}
	})
	sum(c.fatMethods("ClusterID", "[]byte"), func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["cluster"]++
		x, ok := cast(cc.args[len(cc.args)-1])
		if !ok || x.wrap {
			ip.report(st, rule, "cluster number not understood")
			return ip.opaque(st, cc)
		}
		bad, e := q.failed(st, cc, "reading a cluster")
		cc.ret(ip, bad, TupleV{ip.fresh(bad, "?", cc.sig.Results().At(0).Type()), e})
		out := []*State{bad}
		f := &fatFile{fatRun: q.fatRun, k: q.k, vk: q.vk, chain: q.chain}
		yes, no := f.isK(st, x.p)
		for i, s := range []*State{yes, no} {
			if s == nil {
				continue
			}
			size := Const(q.bps * q.spc)
			data := SliceV{reg: ip.newRegion(s, "cluster", types.Typ[types.Byte], false), off: Const(0), len: size, cap: size}
			s.ghost["data"] = data
			gSet(s, "#iscur", int64(1-i))
			cc.ret(ip, s, TupleV{data, NilV{}})
			out = append(out, s)
		}
		return out
	})
	dec := c.fatDecoders()
	sum(dec, func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["decode"]++
		ip.Obligations++
		i := byteArg(dec[0])
		if i < 0 || i >= len(cc.args) || !valueEq(cc.args[i], st.ghost["data"]) {
			ip.report(st, rule, fn.Name()+" may decode something else than the whole cluster read last")
			return ip.opaque(st, cc)
		}
		bad, e := q.failed(st, cc, "decoding a cluster")
		cc.ret(ip, bad, TupleV{ip.fresh(bad, "?", cc.sig.Results().At(0).Type()), e})
		out := []*State{bad}
		m := AtomPoly(NewAtomRange("entries of the cluster", 0, D))
		less := st.clone()
		less.assume(Lt(m, Const(D)))
		for j, s := range []*State{less, st} {
			m := m
			if j == 1 {
				m = Const(D)
			}
			if gInt(s, "#short") == 0 {
				gPut(s, "T", gPoly(s, "T").Add(m))
				gPut(s, "N", gPoly(s, "N").AddConst(1))
				if j == 0 {
					gSet(s, "#short", 1)
				}
			}
			list := ip.newRegion(s, "list", q.dirent, false)
			if gInt(s, "#iscur") == 1 {
				ip.writeElem(s, list, q.r, q.identified(s, q.V))
			}
			gSet(s, "#iscur", 0)
			s.ghost["data"] = IntV{p: Const(0)}
			cc.ret(ip, s, TupleV{SliceV{reg: list, off: Const(0), len: m, cap: m}, NilV{}})
			out = append(out, s)
		}
		return out
	})
	rl := AtomPoly(NewAtomRange("entries of the root directory", 0, 1<<32))
	ip.Models[q.full+"ListRootDirectory"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["root"]++
		bad, e := q.failed(st, cc, "ListRootDirectory")
		cc.ret(ip, bad, TupleV{ip.fresh(bad, "?", cc.sig.Results().At(0).Type()), e})
		list := ip.newRegion(st, "root list", q.dirent, false)
		ip.writeElem(st, list, q.J, q.identified(st, q.V))
		gSet(st, "#rootlist", 1)
		cc.ret(ip, st, TupleV{SliceV{reg: list, off: Const(0), len: rl, cap: rl}, NilV{}})
		return []*State{st, bad}
	}
	var starts []*State
	q.direntOf(st, d, "IsDir", func(s *State, v Value) {
		b, ok := v.(BoolV)
		if !ok {
			panic("method IsDir not understood")
		}
		yes, no := s.fork(b.r)
		if yes != nil {
			gSet(yes, "#dir", 1)
			starts = append(starts, yes)
		}
		if no != nil {
			starts = append(starts, no)
		}
	})
	arg := func(s *State) Value {
		if _, ok := fn.Params[1].Type().(*types.Pointer); !ok {
			return d
		}
		obj := ip.newObj("directory", q.dirent, false)
		ip.objs[obj].param = true
		ip.storeCell(s, obj, "", q.dirent, d)
		return PtrV{obj: obj}
	}
	any := false
	for _, s := range starts {
		q.st, q.succeeded = s, gInt(s, "#dir") == 0
		q.each(rule, fn, []Value{arg(s)}, func(s *State) {
			any = true
			ip.Obligations++
			if gInt(s, "#dir") != 1 {
				ip.report(s, rule, fn.Name()+" may list something that is not a directory")
				return
			}
			if gInt(s, "#failed") != 0 {
				ip.report(s, rule, fn.Name()+" may succeed though something failed")
				return
			}
			res, ok := ip.asSlice(s, s.results[0])
			if !ok {
				ip.report(s, rule, fn.Name()+" gives an unknown result")
				return
			}
			root, other := s.fork(Eq(first, Const(0)))
			if root != nil && alive(root) {
				if gInt(root, "#rootlist") != 1 {
					ip.report(root, rule, fn.Name()+" may list the root directory without asking for it")
				} else {
					q.listed(root, res, rl)
				}
			}
			if other == nil || !alive(other) {
				return
			}
			if gInt(other, "#walked") != 1 {
				ip.report(other, rule, fn.Name()+" may list a directory without following its chain of clusters")
				return
			}
			if gInt(other, "#short") == 0 {
				c.proveEq(ip, other, rule, gPoly(other, "N"), q.l, fn.Name()+" may leave out clusters of the directory")
			}
			q.listed(other, res, gPoly(other, "T"))
		}, func(s *State) {
			ip.Obligations++
			if gInt(s, "#failed") == 0 && gInt(s, "#dir") == 1 {
				ip.report(s, rule, fn.Name()+" may fail for no reason")
			}
		})
	}
	if !any {
		c.anchor(fn.String() + " never succeeds")
	}
	for _, n := range []string{"chain", "cluster", "decode", "root"} {
		if ip.CallsSeen[n] == 0 {
			c.anchor(fn.String() + " does without: " + n)
		}
	}
}

// listed compares a listing with what it must be.
func (q *fatListRun) listed(s *State, res SliceV, n Poly) {
	const rule = "C49"
	ip, c := q.ip, q.c
	c.proveEq(ip, s, rule, res.len, n, q.fn.Name()+" may give more or fewer entries than the directory has")
	if !s.assume(Lt(q.J, n)) || !alive(s) {
		return
	}
	if res.reg == 0 {
		ip.report(s, rule, q.fn.Name()+" gives an unknown result")
		return
	}
	for _, x := range ip.readElem(s, res.reg, res.off.Add(q.J)) {
		id, ok := q.field(x.v, "FirstCluster")
		if !ok {
			ip.report(x.st, rule, q.fn.Name()+" may give an unknown entry")
			continue
		}
		c.proveEq(ip, x.st, rule, id, q.V, q.fn.Name()+" may give another entry than the one at a place of the directory")
	}
}

// fatReaddir checks listing the directory at a path.
func (c *Checker) fatReaddir() {
	const rule = "C49"
	fn := c.prog.Method(fatPkg, "FATDriver", "Readdir")
	if fn == nil {
		c.anchor("method FATDriver.Readdir not found")
		return
	}
	q := c.newFatFile(rule, fn, 512, 4)
	ip := q.ip
	q.cases = nil
	ip.SplitPreds = true
	list := ip.newRegion(q.st, "list", q.dirent, false)
	ip.initRegs[list] = q.st.regs[list]
	track := ip.Track
	ip.Track = func(st *State, r Region) []Poly {
		if types.Identical(ip.regions[r].elem, q.dirent) || types.IsInterface(ip.regions[r].elem) {
			return []Poly{q.k}
		}
		return track(st, r)
	}
	var elem Value
	for _, x := range ip.readElem(q.st, list, q.k) {
		elem = x.v
	}
	gSet(q.st, "#listed", 0)
	for _, f := range c.fatListers() {
		ip.Summaries[f] = func(ip *Interp, st *State, cc *CallCtx) []*State {
			ip.CallsSeen["list"]++
			ip.Obligations++
			d := q.entryArg(st, cc.args[len(cc.args)-1])
			if t := st.ghost["target"]; t == nil || d == nil || !valueEq(d, t) {
				ip.report(st, rule, "Readdir may list another directory than the one at the path")
			}
			bad, e := q.failed(st, cc, "listing a directory")
			cc.ret(ip, bad, TupleV{ip.fresh(bad, "?", cc.sig.Results().At(0).Type()), e})
			gSet(st, "#listed", 1)
			if gInt(st, "#dir") != 1 {
				return []*State{bad}
			}
			cc.ret(ip, st, TupleV{SliceV{reg: list, off: Const(0), len: q.l, cap: q.l}, NilV{}})
			return []*State{st, bad}
		}
	}
	q.each(rule, fn, []Value{q.path}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") != 0 || gInt(s, "#dir") != 1 || gInt(s, "#listed") != 1 {
			ip.report(s, rule, "Readdir may succeed though something failed or there is no directory")
			return
		}
		res, ok := ip.asSlice(s, s.results[0])
		if !ok {
			ip.report(s, rule, "Readdir gives an unknown result")
			return
		}
		c.proveEq(ip, s, rule, res.len, q.l, "Readdir may give more or fewer entries than the directory has")
		if !s.assume(Lt(q.k, q.l)) || !alive(s) {
			return
		}
		if res.reg == 0 {
			ip.report(s, rule, "Readdir gives an unknown result")
			return
		}
		for _, x := range ip.readElem(s, res.reg, res.off.Add(q.k)) {
			ip.Obligations++
			i, ok := x.v.(IfaceV)
			if !ok || i.v == nil || !valueEq(q.entryArg(x.st, i.v), elem) {
				ip.report(x.st, rule, "Readdir may give something else than an entry of the directory")
			}
		}
	}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") == 0 && gInt(s, "#dir") != 0 {
			ip.report(s, rule, "Readdir may fail for no reason")
		}
	})
	for _, n := range []string{"lookup", "list"} {
		if ip.CallsSeen[n] == 0 {
			c.anchor("FATDriver.Readdir does without: " + n)
		}
	}
}

func (c *Checker) fatDirectories() {
	dec, list := c.fatDecoders(), c.fatListers()
	if len(dec) == 0 || len(list) == 0 {
		c.anchor("no function of FATDriver decodes or lists directories")
	}
	for bpc := int64(512); bpc <= 32768; bpc *= 2 {
		bpc := bpc
		for _, fn := range dec {
			fn := fn
			c.guard("fat."+fn.Name(), func() { c.fatDecode(fn, bpc) })
		}
		for _, fn := range list {
			fn := fn
			c.guard("FATDriver."+fn.Name(), func() { c.fatListing(fn, bpc) })
		}
	}
	c.guard("FATDriver.Readdir", c.fatReaddir)
}

// fatResolveRun is an analysis of looking up a path.
type fatResolveRun struct {
	*fatRun
	fn                *ssa.Function
	path              Value
	name, gone        string // fields of entries
	comps             Region
	n, m              Poly
	tokens            map[int]Poly // numbers standing for strings
	first, seq, clean string
	cleaned           *Term
}

// stringField is the field of directory entries that a method without parameters returns.
func (q *fatRun) stringField(method string) string {
	d := q.ip.fresh(q.st, "entry", q.dirent)
	found := ""
	q.direntOf(q.st.clone(), d, method, func(s *State, v Value) {
		t := strOf(v)
		var walk func(x Value, path string)
		walk = func(x Value, path string) {
			switch x := x.(type) {
			case StrV:
				if t != nil && x.t == t {
					found = path
				}
			case StructV:
				for i, f := range x.f {
					walk(f, fieldPath(path, i))
				}
			}
		}
		walk(d, "")
	})
	return found
}

// deletedField is the field that tells if a directory entry is deleted.
func (q *fatRun) deletedField() string {
	d := q.ip.fresh(q.st, "entry", q.dirent)
	found := ""
	asked := func(v Value, want bool) bool {
		ok, n := true, 0
		q.direntOfAll(q.st.clone(), v, "GetDeletedAt", func(s *State, res []Value) {
			n++
			is := q.ip.isNil(s, res[len(res)-1])
			ok = ok && (want && s.prove(is) || !want && s.prove(is.Neg()))
		})
		return ok && n > 0
	}
	var walk func(x Value, path string)
	walk = func(x Value, path string) {
		switch x := x.(type) {
		case BoolV:
			if asked(setSubValue(d, path, boolConst(true)), true) && asked(setSubValue(d, path, boolConst(false)), false) {
				found = path
			}
		case StructV:
			for i, f := range x.f {
				walk(f, fieldPath(path, i))
			}
		}
	}
	walk(d, "")
	return found
}

// fatResolve checks looking up paths.
func (c *Checker) fatResolve(fn *ssa.Function) {
	const rule = "C50"
	q := &fatResolveRun{fatRun: c.newFat(512, 4), fn: fn, tokens: map[int]Poly{}}
	ip, st := q.ip, q.st
	ma := NewAtomRange("m", 0, 1<<32-1)
	q.m = AtomPoly(ma)
	ip.Skolems = []Atom{ma}
	ip.SplitReads, ip.SplitPreds = true, true
	ip.PairFacts = true
	q.n = AtomPoly(NewAtomRange("components", 1, 1<<32-1))
	q.name, q.gone = q.stringField("Name"), q.deletedField()
	if q.name == "" {
		c.anchor("the name of a directory entry is not one of its fields")
		return
	}
	q.first, _ = fieldAt(q.dirent, "FirstCluster")
	q.seq, _ = fieldAt(q.dirent, "NTReserved")
	if q.first == "" || q.seq == "" {
		panic("fields FirstCluster and NTReserved not found")
	}
	q.comps = ip.newRegion(st, "components", types.Typ[types.String], false)
	ids := ip.newRegion(st, "numbers of components", types.Typ[types.Int], false)
	ip.writeElem(st, q.comps, Const(0), StrV{constTerm("")})
	ip.initRegs[q.comps], ip.initRegs[ids] = st.regs[q.comps], st.regs[ids]
	id := func(st *State, i Poly) Poly {
		for _, x := range ip.readElem(st, ids, i) {
			p := x.v.(IntV).p
			gen := ip.initRegs[ids].gen
			for _, e := range ip.genIdx[gen] {
				if v, ok := ip.genVals[genKey{gen, e.Key()}].(IntV); ok && !v.p.Equal(p) && st.proveEq(e, i) {
					st.addFact(Eq(v.p, p))
				}
			}
			return p
		}
		panic("number of a component")
	}
	lists := map[Region]Poly{}
	ip.Track = func(st *State, r Region) []Poly {
		if types.Identical(ip.regions[r].elem, q.dirent) {
			return []Poly{q.m}
		}
		return nil
	}
	ip.OnElem = func(st *State, r Region, gen int, idx Poly, v Value) Value {
		if r == q.comps {
			l := AtomPoly(NewAtomRange("component length", 1, 1<<32))
			t := internTerm("component", idx.Key(), &l)
			q.tokens[t.id] = id(st, idx)
			return StrV{t}
		}
		if no, ok := lists[r]; ok {
			d := AtomPoly(NewAtomRange("deleted", 0, 1))
			first := subValue(v, q.first).(IntV).p
			if t := strOf(subValue(v, q.name)); t != nil {
				q.tokens[t.id] = first
			}
			if q.gone != "" {
				v = setSubValue(v, q.gone, BoolV{Le(Const(1), d)})
			} else {
				d = Const(0)
			}
			return setSubValue(v, q.seq, IntV{p: no.Add(d.Mul(Const(1 << 40)))})
		}
		return v
	}
	ip.OnStrEq = func(st *State, a, b *Term) (Rel, bool) {
		x, ok := q.tokens[a.id]
		y, ok2 := q.tokens[b.id]
		return Eq(x, y), ok && ok2
	}
	for _, g := range []string{"#failed", "#root", "#looked", "#match", "N", "W", "L"} {
		gSet(st, g, 0)
	}
	q.path = ip.fresh(st, "path", types.Typ[types.String])
	q.pathModels()
	for _, f := range c.fatListers() {
		ip.Summaries[f] = func(ip *Interp, st *State, cc *CallCtx) []*State {
			ip.CallsSeen["list"]++
			n := gPoly(st, "N")
			q.current(st, q.entryArg(st, cc.args[len(cc.args)-1]), "list")
			bad, e := q.failed(st, cc, "listing a directory")
			cc.ret(ip, bad, TupleV{ip.fresh(bad, "?", cc.sig.Results().At(0).Type()), e})
			out := []*State{bad}
			n = n.AddConst(1)
			gPut(st, "N", n)
			gSet(st, "#looked", 1)
			w, l := id(st, n), AtomPoly(NewAtomRange("entries", 0, 1<<32))
			gPut(st, "W", w)
			list := ip.newRegion(st, "list", q.dirent, false)
			lists[list] = n
			yes := st.clone()
			for i, s := range []*State{yes, st} {
				gSet(s, "#match", int64(1-i))
				if i == 0 {
					if !s.assume(Lt(q.m, l)) {
						continue
					}
					for _, x := range ip.readElem(s, list, q.m) {
						s = x.st
						f := subValue(x.v, q.first).(IntV).p
						seq := subValue(x.v, q.seq).(IntV).p
						if !s.assume(Eq(f, w)) || !s.assume(Eq(seq, n)) {
							s = nil
						}
					}
				}
				if s != nil {
					cc.ret(ip, s, TupleV{SliceV{reg: list, off: Const(0), len: l, cap: l}, NilV{}})
					out = append(out, s)
				}
			}
			return out
		}
	}
	q.each(rule, fn, []Value{q.path}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") != 0 {
			ip.report(s, rule, fn.Name()+" may succeed though something failed")
			return
		}
		q.current(s, s.results[0], "give")
		if gInt(s, "#root") == 0 && gInt(s, "#looked") == 0 {
			ip.report(s, rule, fn.Name()+" may succeed without looking anything up")
		} else if gInt(s, "#root") == 0 {
			c.proveEq(ip, s, rule, gPoly(s, "N"), q.n, fn.Name()+" may give the entry of another path")
		}
	}, func(s *State) {
		ip.Obligations++
		e, _ := errResult(fn, s)
		missing := s.prove(ip.errMatches(s, e, "github.com/dargueta/disko.ErrNotFound").r)
		switch {
		case gInt(s, "#failed") != 0:
			if missing {
				ip.report(s, rule, fn.Name()+" may report a failure as a missing file")
			}
		case s.prove(ip.errMatches(s, e, "github.com/dargueta/disko.ErrNotADirectory").r):
		case gInt(s, "#looked") == 0:
			ip.report(s, rule, fn.Name()+" may fail without looking anything up")
		case gInt(s, "#match") == 1:
			ip.report(s, rule, fn.Name()+" may fail though the directory has an entry of that name that is in use")
		case !missing:
			ip.report(s, rule, fn.Name()+" may report a missing file as another failure")
		}
	})
	for _, k := range []string{"list", "clean", "split"} {
		if ip.CallsSeen[k] == 0 {
			c.anchor(fn.String() + " does without: " + k)
		}
	}
}

// current checks that an entry is what the path led to so far.
func (q *fatResolveRun) current(st *State, d Value, what string) {
	const rule = "C50"
	ip := q.ip
	n := gPoly(st, "N")
	first, ok := q.field(d, "FirstCluster")
	seq, ok2 := q.field(d, "NTReserved")
	ip.Obligations++
	if !ok || !ok2 {
		ip.report(st, rule, q.fn.Name()+" may "+what+" an unknown entry")
		return
	}
	var root, other *State
	if gInt(st, "#looked") == 0 {
		root = st
	} else {
		other = st
	}
	if root != nil {
		q.c.proveEq(ip, root, rule, first, Const(0), q.fn.Name()+" may start somewhere else than at the root directory")
		q.direntOf(root, d, "IsDir", func(s *State, v Value) {
			if b, ok := v.(BoolV); !ok || !s.prove(b.r) {
				ip.report(s, rule, q.fn.Name()+" may take the root directory for a file")
			}
		})
	}
	if other != nil {
		q.c.proveEq(ip, other, rule, seq, n, q.fn.Name()+" may "+what+" an entry that is deleted or not of the directory listed last")
		q.c.proveEq(ip, other, rule, first, gPoly(other, "W"), q.fn.Name()+" may "+what+" an entry with another name than the component of the path")
	}
}

// pathModels models cleaning and splitting paths.
func (q *fatResolveRun) pathModels() {
	const rule = "C50"
	ip := q.ip
	l := AtomPoly(NewAtomRange("path length", 2, 1<<32))
	q.cleaned = internTerm("clean path", "", &l)
	rest := l.AddConst(-1)
	tail := func(t *Term) bool {
		return t != q.cleaned && t.contains(q.cleaned) && t.ln.Equal(rest)
	}
	result := func(st *State, cc *CallCtx, t *Term) []*State {
		ip.CallsSeen["clean"]++
		ip.Obligations++
		if t == nil || !t.contains(strOf(q.path)) {
			ip.report(st, rule, q.fn.Name()+" may look up another path")
			return ip.opaque(st, cc)
		}
		if !st.prove(isAbs(t)) {
			ip.report(st, rule, q.fn.Name()+" may clean a path that is not absolute")
		}
		root := st.clone()
		gSet(root, "#root", 1)
		cc.ret(ip, root, StrV{constTerm("/")})
		cc.ret(ip, st, StrV{q.cleaned})
		return []*State{root, st}
	}
	ip.Models["path.Clean"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		return result(st, cc, strOf(cc.args[0]))
	}
	ip.Models["path.Join"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		s, ok := ip.asSlice(st, cc.args[0])
		n, isConst := st.constOf(s.len)
		if !ok || s.reg == 0 || !isConst || n > 8 {
			return ip.opaque(st, cc)
		}
		var t *Term
		for i := int64(0); i < n; i++ {
			for _, x := range ip.readElem(st, s.reg, s.off.AddConst(i)) {
				u := strOf(x.v)
				if u == nil {
					return ip.opaque(st, cc)
				}
				if t == nil {
					t = u
				} else {
					t = concatTerm(t, u)
				}
			}
		}
		return result(st, cc, t)
	}
	trim := func(ip *Interp, st *State, cc *CallCtx) []*State {
		t, u := strOf(cc.args[0]), strOf(cc.args[1])
		if t == nil || u == nil || u.op != "const" || u.c != "/" {
			return ip.opaque(st, cc)
		}
		if t.op == "const" {
			cc.ret(ip, st, StrV{constTerm("")})
		} else if t == q.cleaned {
			cc.ret(ip, st, StrV{internTerm("substr", "trimmed", &rest, t)})
		} else {
			return ip.opaque(st, cc)
		}
		return []*State{st}
	}
	ip.Models["strings.Trim"], ip.Models["strings.TrimLeft"], ip.Models["strings.TrimPrefix"] = trim, trim, trim
	split := func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["split"]++
		t, u := strOf(cc.args[0]), strOf(cc.args[1])
		ip.Obligations++
		if t == nil || u == nil || u.op != "const" || u.c != "/" || t.op == "const" && len(t.c) > 1 || t.op != "const" && t != q.cleaned && !tail(t) {
			ip.report(st, rule, q.fn.Name()+" may split something else than the cleaned path into its components")
			return ip.opaque(st, cc)
		}
		out := SliceV{reg: q.comps, off: Const(0), len: q.n.AddConst(1)}
		switch {
		case t.op == "const":
			n := Const(int64(len(t.c) + 1))
			out = SliceV{reg: ip.newRegion(st, "no components", types.Typ[types.String], false), off: Const(0), len: n}
			for i := range len(t.c) + 1 {
				ip.writeElem(st, out.reg, Const(int64(i)), StrV{constTerm("")})
			}
		case t != q.cleaned:
			out.off, out.len = Const(1), q.n
		}
		out.cap = out.len
		cc.ret(ip, st, out)
		return []*State{st}
	}
	ip.Models["strings.Split"] = split
}

// direntOfAll asks an exported method of a directory entry and hands over all results.
func (q *fatRun) direntOfAll(st *State, d Value, name string, f func(s *State, res []Value)) {
	fn := q.c.prog.ValueMethod(fatPkg, "Dirent", name)
	if fn == nil {
		panic("directory entries have no method " + name)
	}
	arg := d
	if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
		obj := q.ip.newObj("entry", q.dirent, true)
		q.ip.storeCell(st, obj, "", q.dirent, d)
		arg = PtrV{obj: obj}
	}
	for _, s := range q.ip.subRun(st, fn, []Value{arg}) {
		f(s, s.results)
	}
}

func (c *Checker) fatPaths() {
	fns := c.fatMethods("string", "Dirent")
	if len(fns) == 0 {
		c.anchor("no method of FATDriver looks up paths")
	}
	for _, fn := range fns {
		fn := fn
		c.guard("FATDriver."+fn.Name(), func() { c.fatResolve(fn) })
	}
}

// fatMeta is an analysis of an operation on the metadata of a file.
type fatMeta struct {
	*fatFile
	tm *times
}

// newMeta sets up the analysis of an operation on metadata; updated is called for the entry written back.
func (c *Checker) newMeta(name string, updated func(q *fatMeta, st *State, d Value)) *fatMeta {
	const rule = "C51"
	fn := c.prog.Method(fatPkg, "FATDriver", name)
	if fn == nil {
		c.anchor("method FATDriver." + name + " not found")
		return nil
	}
	q := &fatMeta{fatFile: c.newFatFile(rule, fn, 512, 4)}
	ip := q.ip
	q.cases = nil
	q.tm = newTimes(ip)
	gSet(q.st, "#updated", 0)
	ip.Models[q.full+"UpdateDirent"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		ip.CallsSeen["update"]++
		ip.Obligations++
		d := q.entryArg(st, cc.args[len(cc.args)-1])
		t := st.ghost["target"]
		if t == nil || d == nil {
			ip.report(st, rule, name+" may update another entry than the one at the path")
			return ip.opaque(st, cc)
		}
		if gInt(st, "#updated") != 0 {
			ip.report(st, rule, name+" may update the entry twice")
		}
		for _, f := range []string{"FirstCluster", "AttributeFlags", "NTReserved"} {
			x, ok := q.field(t, f)
			y, ok2 := q.field(d, f)
			if f == "AttributeFlags" && name == "Chmod" {
				continue // May record that the file is read only.
			}
			if !ok || !ok2 || !st.proveEq(x, y) {
				ip.report(st, rule, name+" may change what belongs to another field of the entry, or another entry")
			}
		}
		q.same(st, t, d, name, "Name")
		q.same(st, t, d, name, "Size")
		if updated != nil {
			updated(q, st, d)
		}
		bad, e := q.failed(st, cc, "UpdateDirent")
		gSet(bad, "#updated", 2)
		gSet(st, "#updated", 1)
		cc.ret(ip, bad, e)
		cc.ret(ip, st, NilV{})
		return []*State{st, bad}
	}
	return q
}

// asked gives what a method gives for two entries.
func (q *fatMeta) both(st *State, t, d Value, method string, f func(s *State, x, y Value)) {
	q.direntOf(st.clone(), t, method, func(s *State, x Value) {
		q.direntOf(s, d, method, func(s *State, y Value) { f(s, x, y) })
	})
}

// same checks that a method gives the same for two entries.
func (q *fatMeta) same(st *State, t, d Value, name, method string) {
	q.both(st, t, d, method, func(s *State, x, y Value) {
		a, ok := cast(x)
		b, ok2 := cast(y)
		if ok && ok2 && s.proveEq(a.p, b.p) || valueEq(x, y) {
			return
		}
		q.ip.report(s, "C51", name+" may change what "+method+" of the entry gives")
	})
}

// statMode is the mode in the status of an entry.
func (q *fatMeta) statMode(v Value) (Poly, bool) {
	t := q.c.prog.Type("", "FileStat")
	path, ft := fieldAt(t, "ModeFlags")
	if ft == nil {
		panic("field ModeFlags of FileStat not found")
	}
	i, ok := cast(subValue(v, path))
	return i.p, ok && !i.wrap
}

// update runs an operation that writes back the entry at a path.
func (q *fatMeta) update(name string, args []Value, refused func(s *State) bool) {
	ip := q.ip
	q.each("C51", q.fn, append([]Value{q.path}, args...), func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") != 0 || gInt(s, "#updated") != 1 {
			ip.report(s, "C51", name+" may succeed though nothing was written back")
		}
	}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") == 0 && !refused(s) {
			ip.report(s, "C51", name+" may fail for no reason")
		} else if gInt(s, "#failed") == 0 && gInt(s, "#updated") != 0 {
			ip.report(s, "C51", name+" may fail after writing the entry back")
		}
	})
	if ip.CallsSeen["lookup"] == 0 || ip.CallsSeen["update"] == 0 {
		q.c.anchor("FATDriver." + name + " does without looking up the path or writing back the entry")
	}
}

func (c *Checker) fatChmod() {
	const rule = "C51"
	var mode Poly
	const write = 0222
	q := c.newMeta("Chmod", func(q *fatMeta, st *State, d Value) {
		q.both(st, st.ghost["target"], d, "Stat", func(s *State, x, y Value) {
			was, ok := q.statMode(x)
			is, ok2 := q.statMode(y)
			if !ok || !ok2 {
				q.ip.report(s, rule, "Chmod may write back an unknown mode")
				return
			}
			none, some := s.fork(Eq(s.andConst(mode, write), Const(0)))
			for i, t := range []*State{none, some} {
				if t == nil || !alive(t) {
					continue
				}
				for k := uint(0); k < 32; k++ {
					want := t.bitOf(was, k)
					if write&(1<<k) != 0 {
						want = Const(int64(i))
					}
					q.c.proveEq(q.ip, t, rule, t.bitOf(is, k), want, "Chmod may write back another mode than asked for")
				}
			}
		})
	})
	if q != nil {
		mode = AtomPoly(NewAtomRange("mode", 0, 1<<32-1))
		q.update("Chmod", []Value{IntV{p: mode}}, func(s *State) bool { return false })
	}
}

func (c *Checker) fatChtimes() {
	const rule = "C51"
	var at [2]Value
	q := c.newMeta("Chtimes", func(q *fatMeta, st *State, d Value) {
		for i, m := range []string{"GetLastAccessedAt", "GetLastModifiedAt"} {
			q.direntOf(st.clone(), d, m, func(s *State, v Value) {
				q.ip.Obligations++
				if !valueEq(v, at[i]) {
					q.ip.report(s, rule, "Chtimes may write back another time than the one given: "+m)
				}
			})
		}
		q.both(st, st.ghost["target"], d, "Stat", func(s *State, x, y Value) {
			a, ok := q.statMode(x)
			b, ok2 := q.statMode(y)
			if !ok || !ok2 || !s.proveEq(a, b) {
				q.ip.report(s, rule, "Chtimes may change the mode of the entry")
			}
		})
	})
	if q == nil {
		return
	}
	for i := range at {
		at[i] = q.ip.fresh(q.st, "time", q.fn.Params[2+i].Type())
	}
	q.update("Chtimes", at[:], func(s *State) bool {
		for _, t := range q.tm.asked {
			if (valueEq(t.a, at[0]) || valueEq(t.a, at[1])) && s.prove(t.is.r) {
				return true
			}
		}
		return false
	})
}

// fatStat checks asking for the status of a file.
func (c *Checker) fatStat(name string) {
	const rule = "C51"
	q := c.newMeta(name, nil)
	if q == nil {
		return
	}
	ip := q.ip
	q.each(rule, q.fn, []Value{q.path}, func(s *State) {
		ip.Obligations++
		t := s.ghost["target"]
		if gInt(s, "#failed") != 0 || t == nil {
			ip.report(s, rule, name+" may succeed though the path was not found")
			return
		}
		res := s.results[0]
		q.direntOf(s, t, "Stat", func(s *State, v Value) {
			if !valueEq(v, res) {
				ip.report(s, rule, name+" may give the status of something else than the entry at the path")
			}
		})
	}, func(s *State) {
		ip.Obligations++
		if gInt(s, "#failed") == 0 {
			ip.report(s, rule, name+" may fail for no reason")
		}
	})
}

// fatUnsupported checks operations that file systems of this kind do not have.
func (c *Checker) fatUnsupported(name string) {
	const rule = "C51"
	q := c.newMeta(name, func(q *fatMeta, st *State, d Value) {
		q.ip.report(st, rule, name+" may change a directory entry")
	})
	if q == nil {
		return
	}
	q.succeeded = true
	args := []Value{}
	for _, p := range q.fn.Params[1:] {
		args = append(args, q.ip.fresh(q.st, p.Name(), p.Type()))
	}
	q.each(rule, q.fn, args, func(s *State) {
		q.ip.report(s, rule, name+" may succeed though file systems of this kind have nothing like it")
	}, func(s *State) {
		q.ip.Obligations++
		e, _ := errResult(q.fn, s)
		if !s.prove(q.ip.errMatches(s, e, "github.com/dargueta/disko.ErrNotSupported").r) {
			q.ip.report(s, rule, name+" may fail with another error than ErrNotSupported")
		}
	})
}

// fatSameFile checks comparing files.
func (c *Checker) fatSameFile() {
	const rule = "C51"
	fn := c.prog.Method(fatPkg, "FATDriver", "SameFile")
	if fn == nil {
		c.anchor("method FATDriver.SameFile not found")
		return
	}
	q := c.newFat(512, 4)
	ip := q.ip
	path, ft := fieldAt(c.prog.Type("", "FileStat"), "InodeNumber")
	if ft == nil {
		c.anchor("field InodeNumber of FileStat not found")
		return
	}
	var d, args [2]Value
	for i := range d {
		d[i] = ip.fresh(q.st, "entry", q.dirent)
		args[i] = IfaceV{dyn: q.dirent, v: d[i]}
	}
	for i := range atoms {
		ip.prog.inputAtoms[Atom(i)] = true
	}
	n := 0
	for _, s := range ip.Run(ip.rootOn(q.st, fn, []Value{q.recv, args[0], args[1]})) {
		if s.status == panicked {
			ip.report(s, "C31", "SameFile may panic: "+s.note)
		}
		if s.status != returned {
			continue
		}
		n++
		res, ok := s.results[0].(BoolV)
		if !ok {
			ip.report(s, rule, "SameFile gives an unknown result")
			continue
		}
		s.frames = nil
		q.direntOf(s, d[0], "Stat", func(s *State, x Value) {
			q.direntOf(s, d[1], "Stat", func(s *State, y Value) {
				a, ok := cast(subValue(x, path))
				b, ok2 := cast(subValue(y, path))
				if !ok || !ok2 {
					ip.report(s, rule, "number of a file not understood")
					return
				}
				same, other := s.fork(Eq(a.p, b.p))
				if same != nil {
					c.proveRel(ip, same, rule, res.r, "SameFile may tell a file apart from itself")
				}
				if other != nil {
					c.proveRel(ip, other, rule, res.r.Neg(), "SameFile may confuse two files")
				}
			})
		})
	}
	if n == 0 {
		c.anchor("SameFile never returns")
	}
	c.collect(ip)
}

func (c *Checker) fatMetadata() {
	c.guard("FATDriver.Chmod", c.fatChmod)
	c.guard("FATDriver.Chtimes", c.fatChtimes)
	c.guard("FATDriver.SameFile", c.fatSameFile)
	for _, n := range []string{"Stat", "Lstat"} {
		c.guard("FATDriver."+n, func() { c.fatStat(n) })
	}
	for _, n := range []string{"Readlink", "Symlink", "Link", "Chown", "Lchown"} {
		c.guard("FATDriver."+n, func() { c.fatUnsupported(n) })
	}
}

func init() {
	crash := []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"}
	register(&check{id: "C31", title: "Corrupt FAT directory data cannot crash the driver", rules: crash,
		run: func(c *Checker) {
			c.once("fatdir", func(s *Checker) { s.fatTimes(); s.fatRaw(); s.fatEntries(); s.fatSetters() })
			c.once("fatchain", func(s *Checker) { s.fatChains(); s.fatFiles() })
			c.once("fatcluster", func(s *Checker) { s.fatClusters() })
			c.once("fatdirs", func(s *Checker) { s.fatDirectories() })
			c.once("fatpaths", func(s *Checker) { s.fatPaths() })
			c.once("fatmeta", func(s *Checker) { s.fatMetadata() })
		},
		floors: map[string]int{"roots": 50, "obligations": 4000},
		explain: "The functions that decode raw directory entries, dates, clusters of entries, cluster chains, paths and metadata were interpreted for arbitrary " +
			"contents of the image. At every operation on the way that can panic (an index or slice out of range, a nil pointer or interface, a failed type " +
			"assertion, a division by zero, an impossible length in make, an explicit panic) the analysis must show that it does not.",
		assumptions: []string{"The boot sector is valid (decided in C30). The sum of hundredths of a creation time is below 200."}})
	register(&check{id: "C49", title: "FAT directories are listed completely", rules: crash,
		run:    func(c *Checker) { c.once("fatdirs", func(s *Checker) { s.fatDirectories() }) },
		floors: map[string]int{"roots": 15, "obligations": 1500},
		explain: "The function that decodes the entries of a cluster was interpreted for a cluster of every legal size with arbitrary bytes and an arbitrary place of " +
			"the end marker: an arbitrary but fixed entry before the marker must be decoded from its own 32 bytes and be in the result at its place, and nothing at " +
			"or after the marker may be. Listing a directory was interpreted over an arbitrary chain of clusters whose entries the decoder gives, Readdir over an " +
			"arbitrary path and listing; every call on the way can fail.",
		assumptions: []string{"Deleted entries count as entries. The chain is the one C33 decides, the bytes of a cluster are those C34 decides."}})
	register(&check{id: "C50", title: "FAT paths are looked up component by component", rules: crash,
		run:    func(c *Checker) { c.once("fatpaths", func(s *Checker) { s.fatPaths() }) },
		floors: map[string]int{"roots": 1, "obligations": 60},
		explain: "The method that finds the entry of a path was interpreted for an arbitrary path of arbitrarily many components, directories with arbitrary listings " +
			"and names compared as opaque values: the entry followed at each component must be one of the listing of the directory reached so far, carry the " +
			"component's name, not be deleted, and a path is missing only after every entry of a listing was compared.",
		assumptions: []string{"path.Clean and strings.Split behave as documented."}})
	register(&check{id: "C51", title: "FAT metadata operations act on the entry at the path", rules: crash,
		run:    func(c *Checker) { c.once("fatmeta", func(s *Checker) { s.fatMetadata() }) },
		floors: map[string]int{"roots": 10, "obligations": 120},
		explain: "Stat, Lstat, Chmod, Chtimes, SameFile and the unsupported operations were interpreted for an arbitrary path whose lookup gives an arbitrary entry or " +
			"fails. The entry written back is compared, field by field, with the one found.",
		assumptions: []string{"Looking up a path is decided in C50. Writing an entry back is an operation of the particular driver, which this repository does not have."}})
}
