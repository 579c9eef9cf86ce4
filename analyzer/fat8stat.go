package main

// The status of FAT8 files (C54).

import (
	"fmt"
	"go/types"
)

const f8StatRule = "C54"

// f8Entry tells which field of a directory entry is what.
type f8Entry struct {
	t                              *types.Named
	clusters, binary, unused, numb int
	files                          int // field of the driver with the entries
}

func (c *Checker) f8Entries(sh *f8Shape) (*f8Entry, error) {
	e := &f8Entry{t: c.prog.Type(f8Pkg, "DirectoryEntry"), clusters: -1, binary: -1, unused: -1, numb: -1, files: -1}
	pc := c.prog.Type(f8Pkg, "PhysicalCluster")
	if e.t == nil || pc == nil {
		return nil, fmt.Errorf("types fat8.DirectoryEntry and PhysicalCluster not found")
	}
	s, ok := e.t.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("fat8.DirectoryEntry is no struct")
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		sl, isSlice := f.Type().Underlying().(*types.Slice)
		_, signed, isInt := intKind(f.Type())
		switch {
		case f.Name() == "IsBinary":
			e.binary = i
		case f.Name() == "UnusedSectorsInLastCluster":
			e.unused = i
		case isSlice && namedOf(sl.Elem()) == pc:
			e.clusters = i
		case isInt && !f.Exported() && !signed:
			if e.numb >= 0 {
				return nil, fmt.Errorf("two fields of fat8.DirectoryEntry may be its number")
			}
			e.numb = i
		}
	}
	for i := 0; i < sh.st.NumFields(); i++ {
		if m, ok := sh.st.Field(i).Type().Underlying().(*types.Map); ok && namedOf(m.Elem()) == e.t {
			e.files = i
		}
	}
	if e.clusters < 0 || e.binary < 0 || e.unused < 0 || e.numb < 0 || e.files < 0 {
		return nil, fmt.Errorf("the fields of FAT8 directory entries were not recognised")
	}
	return e, nil
}

// f8Paths models what is done with a path: known is a string that does not begin with a slash.
func f8Paths(ip *Interp, sb *strBytes, known *Term) func(*Term) *Term {
	m := ip.Models
	upper := m["strings.ToUpper"]
	cat := func(t *Term) bool {
		return t != nil && t.op == "cat" && t.args[0].op == "const" && t.args[0].c == "/"
	}
	up := func(t *Term) *Term {
		l := t.ln
		return internTerm("upper", "", &l, t)
	}
	m["strings.ToUpper"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		if t := strOf(cc.args[0]); cat(t) {
			cc.ret(ip, st, StrV{concatTerm(t.args[0], up(t.args[1]))})
			return []*State{st}
		}
		return upper(ip, st, cc)
	}
	// parts gives the string without the slash, and if it had one.
	parts := func(cc *CallCtx) (*Term, bool, bool) {
		t, p := strOf(cc.args[0]), strOf(cc.args[1])
		if t == nil || p == nil || p.op != "const" || p.c != "/" {
			return nil, false, false
		}
		b := t
		if b.op == "upper" {
			b = b.args[0]
		}
		switch {
		case cat(t):
			return t.args[1], true, true
		case b == known || t.op == "const" && (t.c == "" || t.c[0] != '/'):
			return t, false, true
		case t.op == "const":
			return constTerm(t.c[1:]), true, true
		}
		return nil, false, false
	}
	trim := func(ip *Interp, st *State, cc *CallCtx) []*State {
		t, _, ok := parts(cc)
		if !ok {
			return ip.opaque(st, cc)
		}
		cc.ret(ip, st, StrV{t})
		return []*State{st}
	}
	m["strings.TrimPrefix"], m["strings.TrimLeft"] = trim, trim
	m["strings.HasPrefix"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		_, had, ok := parts(cc)
		if !ok {
			return ip.opaque(st, cc)
		}
		cc.ret(ip, st, boolConst(had))
		return []*State{st}
	}
	m["strings.CutPrefix"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		t, had, ok := parts(cc)
		if !ok {
			return ip.opaque(st, cc)
		}
		cc.ret(ip, st, TupleV{StrV{t}, boolConst(had)})
		return []*State{st}
	}
	return up
}

func (c *Checker) f8Stat(sh *f8Shape, e *f8Entry, l f8Layout, slash, empty bool) {
	const rule = f8StatRule
	statT := c.prog.Type("", "FileStat")
	c.f8Method(sh, "Stat", func(q *f8Run) {
		ip := q.ip
		st := q.mount(l)
		sb := newStrBytes(ip)
		name := symTerm("name")
		r := sb.region(st, name)
		sb.ascii[st.regs[r].gen] = true
		up := f8Paths(ip, sb, name)
		if empty {
			st.assume(Rel{name.ln, EQ})
		} else {
			st.assume(Lt(Const(0), name.ln))
			for _, x := range sb.at(st, name, Const(0)) {
				b, _ := cast(x.v)
				x.st.assume(Rel{b.p.AddConst(-'/'), NE})
				st = x.st
				break
			}
		}
		path, key := name, up(name)
		if slash {
			path = concatTerm(constTerm("/"), name)
		}
		files := ip.newObj("entries", sh.st.Field(e.files).Type(), false)
		q.set(st, e.files, MapV{files})
		args := q.params(st)
		args[len(args)-1] = StrV{path}
		c.stats.Counts["files"]++
		// The clusters of a file are at most those of the volume, its unused sectors at most those of a cluster.
		spc, max := Const(l.f("SectorsPerCluster")), Const(l.f("TotalClusters"))
		found := func(s *State) (StructV, bool, bool) {
			ct := ip.mapOf(s, files)
			if ct == nil || len(ct.entries) != 1 || strOf(ct.entries[0].key) == nil {
				return StructV{}, false, false
			}
			en := ct.entries[0]
			if k := strOf(en.key); k != key && !(empty && s.prove(Rel{k.ln, EQ})) {
				return StructV{}, false, false
			}
			v, _ := en.val.(StructV)
			return v, en.present == 1, true
		}
		q.run(st, rule, args, func(s *State, ok bool) {
			q.untouched(s, rule, "changes the image")
			v, there, known := found(s)
			ip.Obligations += 3
			if !known {
				ip.report(s, rule, "Stat may look up a file by another name than the path in upper case without its slash")
				return
			}
			if !there {
				if ok {
					ip.report(s, rule, "Stat may succeed for a file that does not exist")
				} else if !s.prove(ip.errMatches(s, s.results[1], modulePath+".ErrNotFound").r) {
					ip.report(s, rule, "Stat may report another error than ErrNotFound for a file that does not exist")
				}
				return
			}
			list, isSlice := q.buffer(v.f[e.clusters])
			unused, isInt := cast(v.f[e.unused])
			num, isNum := cast(v.f[e.numb])
			binary, isBool := v.f[e.binary].(BoolV)
			if !isSlice || !isInt || !isNum || !isBool {
				panic("the fields of a FAT8 directory entry are not understood")
			}
			sectors := list.len.Mul(spc)
			for _, r := range []Rel{{list.len, GE}, Le(list.len, max), {unused.p, GE}, Le(unused.p, spc), Le(unused.p, sectors)} {
				if !s.assume(r) {
					return
				}
			}
			bin, text := s.fork(binary.r)
			if text != nil && ok {
				ip.report(text, rule, "Stat may tell a size for a text file")
			}
			if bin == nil {
				return
			}
			if !ok {
				ip.report(bin, rule, "Stat may fail for a binary file that exists")
				return
			}
			used := sectors.Sub(unused.p)
			for n, want := range map[string]Poly{"Size": used.Mul(Const(128)), "NumBlocks": used, "BlockSize": Const(128),
				"InodeNumber": num.p, "Nlinks": Const(1), "ModeFlags": Const(0o777), "DeviceID": Const(0)} {
				p, ft := fieldAt(statT, n)
				if ft == nil {
					panic("field " + n + " of FileStat not found")
				}
				c.sameVal(ip, bin.clone(), rule, subValue(bin.results[0], p), IntV{p: want}, "Stat of a FAT8 file: field "+n)
			}
		})
	})
}

// f8SameFile checks that files are compared by name.
func (c *Checker) f8SameFile(sh *f8Shape) {
	const rule = f8StatRule
	c.f8Method(sh, "SameFile", func(q *f8Run) {
		ip := q.ip
		st := q.mount(f8Layouts()[0])
		args := q.params(st)
		names := map[*SymV]*Term{}
		for i, a := range args[1:] {
			s, ok := a.(*SymV)
			if !ok {
				panic("the arguments of SameFile are not understood")
			}
			names[s] = symTerm(fmt.Sprint("name of file ", i+1))
		}
		ip.Models["(io/fs.FileInfo).Name"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
			if s, ok := cc.recv.(*SymV); ok && names[s] != nil {
				cc.ret(ip, st, StrV{names[s]})
				return []*State{st}
			}
			return ip.opaque(st, cc)
		}
		same := freshBool("same name")
		base := func(v Value) *Term {
			t := strOf(v)
			for t != nil && len(t.args) == 1 && (t.op == "upper" || t.op == "lower") {
				t = t.args[0]
			}
			return t
		}
		ip.Models["strings.EqualFold"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
			a, b := base(cc.args[0]), base(cc.args[1])
			seen := map[*Term]bool{a: true, b: true}
			n := 0
			for _, t := range names {
				if seen[t] {
					n++
				}
			}
			switch {
			case n == 2:
				cc.ret(ip, st, same)
			case n == 1 && a == b:
				cc.ret(ip, st, boolConst(true))
			default:
				return ip.opaque(st, cc)
			}
			return []*State{st}
		}
		q.run(st, rule, args, func(s *State, ok bool) {
			ip.Obligations++
			b, isBool := s.results[0].(BoolV)
			if !isBool {
				ip.report(s, rule, "the result of SameFile is not understood")
				return
			}
			yes, no := s.fork(b.r)
			if yes != nil && !yes.prove(same.r) {
				ip.report(yes, rule, "files with different names may be told to be the same")
			}
			if no != nil && !no.prove(same.r.Neg()) {
				ip.report(no, rule, "files with the same name may be told to be different")
			}
		})
	})
}

func (c *Checker) fat8Stats() {
	sh, err := f8Roles(c.prog)
	if err != nil {
		c.anchor(err.Error())
		return
	}
	e, err := c.f8Entries(sh)
	if err != nil {
		c.anchor(err.Error())
		return
	}
	for _, l := range f8Layouts() {
		for _, slash := range []bool{false, true} {
			for _, empty := range []bool{false, true} {
				c.f8Stat(sh, e, l, slash, empty)
			}
		}
	}
	c.f8SameFile(sh)
}

func init() {
	register(&check{id: f8StatRule, title: "The status of a FAT8 file is that of the entry with its name",
		run:    func(c *Checker) { c.once("fat8stat", func(s *Checker) { s.fat8Stats() }) },
		rules:  []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"},
		floors: map[string]int{"roots": 2, "files": 12, "obligations": 60},
		explain: "Stat was interpreted for each supported layout and an arbitrary path of ASCII characters, with and without a slash, and an arbitrary directory entry; " +
			"SameFile for two arbitrary files.",
	})
}
