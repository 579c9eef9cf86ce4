package main

// C52: file information and directory entries report what the implementation recorded.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type infoRun struct {
	c     *Checker
	ip    *Interp
	stat  Value // status of the object
	statT *types.Named
	names map[int]bool // terms that are the name of the object
	count int
}

const infoRule = "C52"

// field is a field of the status.
func (q *infoRun) field(name string) Value {
	p, ft := fieldAt(q.statT, name)
	if ft == nil {
		panic("field " + name + " of FileStat not found")
	}
	return inPath(q.stat, p)
}

func (q *infoRun) same(st *State, v Value, name, msg string) {
	q.c.sameVal(q.ip, st, infoRule, v, q.field(name), msg)
}

func (q *infoRun) isName(st *State, v Value, msg string) {
	q.ip.Obligations++
	if t := strOf(v); t == nil || !q.names[t.id] {
		q.ip.report(st, infoRule, msg)
	}
}

// methods checks what the methods of a value tell.
func (q *infoRun) methods(st *State, recv Value, t types.Type, depth int) {
	ip := q.ip
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if pv, isPtr := recv.(PtrV); isPtr {
			q.methodsOf(st, pv, p.Elem(), depth)
			return
		}
		ip.report(st, infoRule, "an object of type "+types.TypeString(t, nil)+" is not understood")
		return
	}
	obj := ip.newObj("info", t, true)
	s := st.clone()
	ip.storeCell(s, obj, "", t, recv)
	q.methodsOf(s, PtrV{obj: obj}, t, depth)
}

func (q *infoRun) methodsOf(st *State, ptr PtrV, t types.Type, depth int) {
	ip, c := q.ip, q.c
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return
	}
	ms := c.prog.ssa.MethodSets.MethodSet(types.NewPointer(n))
	vs := c.prog.ssa.MethodSets.MethodSet(n)
	for _, name := range []string{"Size", "Mode", "Type", "ModTime", "IsDir", "Stat", "Name", "Sys", "Info"} {
		sel := vs.Lookup(n.Obj().Pkg(), name)
		if sel == nil {
			sel = ms.Lookup(n.Obj().Pkg(), name)
		}
		if sel == nil {
			continue
		}
		fn := c.prog.ssa.MethodValue(sel)
		if fn == nil || fn.Signature.Params().Len() != 0 {
			continue
		}
		arg := Value(ptr)
		if _, isPtr := fn.Params[0].Type().Underlying().(*types.Pointer); !isPtr {
			arg = ip.loadCell(st, ptr.obj, ptr.path, n)
		}
		out := ip.subRun(st, fn, []Value{arg})
		what := n.Obj().Name() + "." + name
		if len(out) == 0 {
			ip.report(st, infoRule, what+" never returns")
		}
		for _, s := range out {
			q.count++
			r := s.results[0]
			switch name {
			case "Size":
				q.same(s, r, "Size", what+" is not the size recorded")
			case "Mode":
				q.same(s, r, "ModeFlags", what+" is not the mode recorded")
			case "Type":
				x, ok := r.(IntV)
				y, ok2 := q.field("ModeFlags").(IntV)
				ip.Obligations++
				if !ok || !ok2 {
					ip.report(s, infoRule, what+" is not understood")
					break
				}
				for _, k := range modeTypeBits {
					if !s.proveEq(s.bitOf(x.p, k), s.bitOf(y.p, k)) {
						ip.report(s, infoRule, what+" is not the type recorded")
						break
					}
				}
			case "ModTime":
				q.same(s, r, "LastModified", what+" is not the time of modification recorded")
			case "IsDir":
				b, ok := r.(BoolV)
				m, ok2 := q.field("ModeFlags").(IntV)
				ip.Obligations++
				if !ok || !ok2 {
					ip.report(s, infoRule, what+" is not understood")
					break
				}
				yes, no := s.fork(b.r)
				if yes != nil && !yes.proveEq(yes.bitOf(m.p, modeDir), Const(1)) {
					ip.report(yes, infoRule, what+" may be true for something that is not a directory")
				}
				if no != nil && !no.proveEq(no.bitOf(m.p, modeDir), Const(0)) {
					ip.report(no, infoRule, what+" may be false for a directory")
				}
			case "Stat":
				c.sameVal(ip, s, infoRule, r, q.stat, what+" is not the status recorded")
			case "Sys":
				i, ok := r.(IfaceV)
				ip.Obligations++
				if !ok || namedOf(i.dyn) != q.statT {
					ip.report(s, infoRule, what+" is not the status recorded")
					break
				}
				c.sameVal(ip, s, infoRule, i.v, q.stat, what+" is not the status recorded")
			case "Name":
				q.isName(s, r, what+" is not the name of the object")
			case "Info":
				good, bad := s.fork(ip.isNil(s, s.results[1]))
				ip.Obligations++
				if bad != nil {
					ip.report(bad, infoRule, what+" may fail")
				}
				if good == nil {
					break
				}
				i, ok := r.(IfaceV)
				if !ok {
					ip.report(good, infoRule, what+" is not understood")
					break
				}
				if depth == 0 {
					q.methods(good, i.v, i.dyn, 1)
				}
			}
		}
	}
}

// setup makes an object with an arbitrary status and name.
func (c *Checker) newInfo(st *State) *infoRun {
	ip := c.newInterp()
	q := &infoRun{c: c, ip: ip, names: map[int]bool{}}
	q.statT = c.prog.Type("", "FileStat")
	if q.statT == nil {
		c.anchor("type disko.FileStat not found")
		return nil
	}
	q.stat = ip.fresh(st, "stat", q.statT)
	name := ip.fresh(st, "name", types.Typ[types.String])
	path := ip.fresh(st, "path", types.Typ[types.String])
	if t := strOf(name); t != nil {
		q.names[t.id] = true
	}
	for a := range atoms {
		ip.prog.inputAtoms[Atom(a)] = true
	}
	give := func(v Value) Model {
		return func(ip *Interp, st *State, cc *CallCtx) []*State {
			cc.ret(ip, st, v)
			return []*State{st}
		}
	}
	full := "(" + modulePath + ".ObjectHandle)."
	ip.Models[full+"Stat"] = give(q.stat)
	ip.Models[full+"Name"] = give(name)
	base := ip.Models["path.Base"]
	if base == nil {
		base = stdModels["path.Base"]
	}
	ip.Models["path.Base"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		out := base(ip, st, cc)
		if cc.val != nil && valueEq(cc.args[0], path) {
			for _, s := range out {
				if t := strOf(s.top().env[s.top().info.index[cc.val]]); t != nil {
					q.names[t.id] = true
				}
			}
		}
		return out
	}
	q.pathModels(path, give)
	return q
}

// pathModels makes every method of a handle that tells a path tell the same.
func (q *infoRun) pathModels(path Value, give func(Value) Model) {
	pk := q.c.prog.Pkg("driver")
	h := q.c.prog.Type("", "ObjectHandle")
	if pk == nil || h == nil {
		return
	}
	hi := h.Underlying().(*types.Interface)
	for _, n := range pk.Scope().Names() {
		t, ok := pk.Scope().Lookup(n).Type().(*types.Named)
		if !ok {
			continue
		}
		i, ok := t.Underlying().(*types.Interface)
		if !ok || !types.Implements(t, hi) {
			continue
		}
		for k := 0; k < i.NumExplicitMethods(); k++ {
			m := i.ExplicitMethod(k)
			sig := m.Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
				q.ip.Models["("+modulePath+"/driver."+n+")."+m.Name()] = give(path)
			}
		}
	}
}

func (c *Checker) fileInfo() {
	run := func(fn *ssa.Function, what string, then func(q *infoRun, s *State, args []Value)) {
		if fn == nil {
			c.anchor(what + " not found")
			return
		}
		c.guard(what, func() {
			c.prog.reset()
			st := NewState()
			q := c.newInfo(st)
			if q == nil {
				return
			}
			args := c.freshArgs(q.ip, st, fn)
			ok := 0
			for _, s := range q.ip.Run(q.ip.rootOn(st, fn, args)) {
				if s.status != returned {
					continue
				}
				if good, _ := q.ip.splitErr(fn, s); good != nil {
					ok++
					then(q, good, args)
				}
			}
			if ok == 0 {
				c.anchor(what + " never succeeds")
			}
			c.stats.Counts["methods"] += q.count
			var keep []Finding
			for _, f := range q.ip.findings {
				if f.rule == infoRule || strings.HasPrefix(f.rule, "nil") || f.rule == "panic" || f.rule == "assert" {
					f.rule = infoRule
					keep = append(keep, f)
				}
			}
			q.ip.findings = keep
			c.collect(q.ip)
		})
	}
	run(c.prog.Func("driver", "NewDirectoryEntryFromHandle"), "driver.NewDirectoryEntryFromHandle", func(q *infoRun, s *State, args []Value) {
		r := s.results[0]
		if i, ok := r.(IfaceV); ok {
			q.methods(s, i.v, i.dyn, 0)
			return
		}
		q.methods(s, r, c.prog.Func("driver", "NewDirectoryEntryFromHandle").Signature.Results().At(0).Type(), 0)
	})
	nf := c.prog.Func("driver", "NewFileFromObjectHandle")
	run(nf, "driver.NewFileFromObjectHandle", func(q *infoRun, s *State, args []Value) {
		ft := nf.Signature.Results().At(0).Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		ptr, ok := s.results[0].(PtrV)
		if !ok {
			obj := q.ip.newObj("file", ft, true)
			q.ip.storeCell(s, obj, "", ft, s.results[0])
			ptr = PtrV{obj: obj}
		}
		for _, name := range []string{"Stat", "Name"} {
			fn := c.prog.Method("driver", "File", name)
			if fn == nil {
				c.anchor("method File." + name + " not found")
				continue
			}
			for _, o := range q.ip.subRun(s, fn, []Value{ptr}) {
				if name == "Name" {
					q.count++
					q.isName(o, o.results[0], "File.Name is not the name of the object")
					continue
				}
				good, bad := o.fork(q.ip.isNil(o, o.results[1]))
				if bad != nil {
					q.ip.report(bad, infoRule, "File.Stat may fail")
				}
				if good == nil {
					continue
				}
				if i, ok := good.results[0].(IfaceV); ok {
					q.methods(good, i.v, i.dyn, 0)
				} else {
					q.ip.report(good, infoRule, "what File.Stat returns is not understood")
				}
			}
		}
	})
	c.sameFile()
	// The size of a file system.
	fs := c.prog.ValueMethod("", "FSStat", "TotalSizeBytes")
	if fs == nil {
		c.anchor("method FSStat.TotalSizeBytes not found")
		return
	}
	c.guard("FSStat.TotalSizeBytes", func() {
		c.prog.reset()
		ip := c.newInterp()
		st := NewState()
		args := c.freshArgs(ip, st, fs)
		v := args[0]
		if p, ok := v.(PtrV); ok {
			v = ip.loadCell(st, p.obj, p.path, c.prog.Type("", "FSStat"))
		}
		t := c.prog.Type("", "FSStat")
		num := func(name string) Poly {
			p, ft := fieldAt(t, name)
			if ft == nil {
				panic("field " + name + " of FSStat not found")
			}
			return inPath(v, p).(IntV).p
		}
		want := num("BlockSize").Mul(num("TotalBlocks"))
		for _, s := range ip.Run(ip.rootOn(st, fs, args)) {
			if s.status != returned {
				continue
			}
			c.stats.Counts["methods"]++
			if x, ok := s.results[0].(IntV); ok {
				c.proveEq(ip, s, infoRule, x.p, want, "FSStat.TotalSizeBytes is not the number of blocks times their size")
			} else {
				ip.report(s, infoRule, "FSStat.TotalSizeBytes is not understood")
			}
		}
		c.keepRule(ip, infoRule)
	})
}

// sameFile checks which files are told to be the same.
func (c *Checker) sameFile() {
	fn, t := c.prog.Method("driver", "BaseDriver", "SameFile"), c.prog.Type("", "FileStat")
	if fn == nil || t == nil || fn.Signature.Params().Len() != 2 {
		c.anchor("method BaseDriver.SameFile not found")
		return
	}
	c.guard("BaseDriver.SameFile", func() {
		c.prog.reset()
		ip := c.newInterp()
		st := NewState()
		args := c.freshArgs(ip, st, fn)
		var inode []Poly
		stats := map[*SymV]Value{}
		for _, a := range args[len(args)-2:] {
			s, ok := a.(*SymV)
			if !ok {
				c.anchor("the arguments of BaseDriver.SameFile are not understood")
				return
			}
			s.nonnil = true
			v := ip.fresh(st, "stat", t)
			p, _ := fieldAt(t, "InodeNumber")
			inode = append(inode, inPath(v, p).(IntV).p)
			stats[s] = v
		}
		ip.Models["(io/fs.FileInfo).Sys"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
			if s, ok := cc.recv.(*SymV); ok && stats[s] != nil {
				cc.ret(ip, st, IfaceV{dyn: t, v: stats[s]})
				return []*State{st}
			}
			return ip.opaque(st, cc)
		}
		for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
			if s.status != returned {
				continue
			}
			c.stats.Counts["methods"]++
			ip.Obligations += 2
			b, ok := s.results[0].(BoolV)
			if !ok {
				ip.report(s, infoRule, "the result of SameFile is not understood")
				continue
			}
			yes, no := s.fork(b.r)
			if yes != nil && !yes.proveEq(inode[0], inode[1]) {
				ip.report(yes, infoRule, "files with different inode numbers may be told to be the same")
			}
			if no != nil && !no.proveNe(inode[0], inode[1]) {
				ip.report(no, infoRule, "files with the same inode number may be told to be different")
			}
		}
		c.keepRule(ip, infoRule)
	})
}

func init() {
	register(&check{id: "C52", title: "File information tells what the implementation recorded", run: func(c *Checker) {
		c.once("info", func(c *Checker) { c.fileInfo() })
	}, floors: map[string]int{"roots": 3, "methods": 20, "obligations": 20},
		explain: "NewDirectoryEntryFromHandle and NewFileFromObjectHandle were interpreted for a handle with an arbitrary status, name and path; " +
			"every method of the entries and of the information they give (also of what Info returns) is compared with the status. FSStat.TotalSizeBytes was interpreted for arbitrary numbers."})
}
