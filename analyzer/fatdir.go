package main

// FAT directory entries (C31, C32).

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fatRawDirent is the layout of a directory entry: name, offset, width of each number, how many.
var fatRawDirent = []struct {
	name         string
	off, n, many int64
}{
	{"Name", 0, 1, 8}, {"Extension", 8, 1, 3}, {"AttributeFlags", 11, 1, 0}, {"NTReserved", 12, 1, 0},
	{"CreatedTimeMillis", 13, 1, 0}, {"CreatedTime", 14, 2, 0}, {"CreatedDate", 16, 2, 0}, {"LastAccessedDate", 18, 2, 0},
	{"FirstClusterHigh", 20, 2, 0}, {"LastModifiedTime", 22, 2, 0}, {"LastModifiedDate", 24, 2, 0},
	{"FirstClusterLow", 26, 2, 0}, {"FileSize", 28, 4, 0},
}

// times gives points in time an identity: what they were made of.
type times struct {
	ip    *Interp
	asked []timeQuestion
	parts map[Atom][]Value
}

// timeQuestion is whether a time is before another.
type timeQuestion struct {
	a, b Value
	is   BoolV
}

func newTimes(ip *Interp) *times {
	t := &times{ip: ip, parts: map[Atom][]Value{}}
	ip.Models["time.Date"] = func(ip *Interp, st *State, c *CallCtx) []*State {
		a := NewAtomMin("date", 0)
		t.parts[a] = append([]Value(nil), c.args...)
		c.ret(ip, st, StructV{[]Value{IntV{p: Const(0)}, IntV{p: AtomPoly(a)}, NilV{}}})
		return []*State{st}
	}
	before := func(st *State, a, b Value) BoolV {
		v := memoBool("before "+t.key(a)+"/"+t.key(b), "before")
		t.asked = append(t.asked, timeQuestion{a, b, v})
		return v
	}
	ip.Models["(time.Time).Before"] = func(ip *Interp, st *State, c *CallCtx) []*State {
		c.ret(ip, st, before(st, c.args[0], c.args[1]))
		return []*State{st}
	}
	ip.Models["(time.Time).After"] = func(ip *Interp, st *State, c *CallCtx) []*State {
		c.ret(ip, st, before(st, c.args[1], c.args[0]))
		return []*State{st}
	}
	return t
}

func (t *times) key(v Value) string {
	if s, ok := v.(StructV); ok {
		k := ""
		for _, f := range s.f {
			if i, ok := f.(IntV); ok {
				k += i.p.Key() + ";"
			}
		}
		return k
	}
	return "?"
}

// of gives the parts of a time made by time.Date.
func (t *times) of(v Value) []Value {
	s, ok := v.(StructV)
	if !ok || len(s.f) != 3 {
		return nil
	}
	i, ok := s.f[1].(IntV)
	if !ok {
		return nil
	}
	a, ok := i.p.SingleAtom()
	if !ok {
		return nil
	}
	return t.parts[a]
}

// fatDirRun is an analysis of a function on directory entries.
type fatDirRun struct {
	c  *Checker
	ip *Interp
	tm *times
}

func (c *Checker) newFatDir() *fatDirRun {
	c.prog.reset()
	ip := c.newInterp()
	ip.Track = func(st *State, r Region) []Poly { return nil }
	return &fatDirRun{c: c, ip: ip, tm: newTimes(ip)}
}

func (q *fatDirRun) fix() {
	for i := range atoms {
		q.ip.prog.inputAtoms[Atom(i)] = true
	}
}

// each runs a function and hands over the states that return.
func (q *fatDirRun) each(st *State, fn *ssa.Function, args []Value, f func(s *State)) {
	n := 0
	q.fix()
	for _, s := range q.ip.Run(q.ip.rootOn(st, fn, args)) {
		if s.status == panicked {
			q.ip.report(s, "C31", "decoding a directory entry may panic: "+s.note)
		}
		if s.status == returned {
			n++
			f(s)
		}
	}
	if n == 0 {
		q.c.anchor(fn.String() + " never returns")
	}
	q.c.collect(q.ip)
}

// time checks that a time is a given one.
func (q *fatDirRun) time(st *State, v Value, date, clock, hundredths Poly, msg string) {
	ip, c := q.ip, q.c
	p := q.tm.of(v)
	ip.Obligations++
	if len(p) != 8 {
		ip.report(st, "C32", msg+" is not made of the date and time stored")
		return
	}
	n := func(i int) Poly {
		v, ok := cast(p[i])
		if !ok || v.wrap {
			ip.report(st, "C32", msg+" is not understood")
			return Const(0)
		}
		return v.p
	}
	for _, f := range []struct {
		w         Poly
		lo, width uint
	}{{date, 0, 5}, {date, 5, 4}, {date, 9, 7}, {clock, 0, 5}, {clock, 5, 6}, {clock, 11, 5}} {
		bitField(st, f.w, f.lo, f.width)
	}
	d5, d9 := st.floorDiv(date, Const(32)), st.floorDiv(date, Const(512))
	t5, t11 := st.floorDiv(clock, Const(32)), st.floorDiv(clock, Const(2048))
	c.proveEq(ip, st, "C32", n(0), d9.AddConst(1980), "year of "+msg)
	c.proveEq(ip, st, "C32", n(1), d5.Sub(d9.Mul(Const(16))), "month of "+msg)
	c.proveEq(ip, st, "C32", n(2), date.Sub(d5.Mul(Const(32))), "day of "+msg)
	c.proveEq(ip, st, "C32", n(3), t11, "hour of "+msg)
	c.proveEq(ip, st, "C32", n(4), t5.Sub(t11.Mul(Const(64))), "minute of "+msg)
	const sec = 1000000000
	want := clock.Sub(t5.Mul(Const(32))).Mul(Const(2 * sec)).Add(hundredths.Mul(Const(sec / 100)))
	c.proveEq(ip, st, "C32", n(5).Mul(Const(sec)).Add(n(6)), want, "seconds of "+msg)
	if !q.local(st, p[7]) {
		ip.report(st, "C32", msg+" is not in local time")
	}
}

// bitField makes known that the ways of taking some bits of a number give the same.
func bitField(st *State, w Poly, lo, width uint) {
	if _, ok := w.IsConst(); ok {
		return
	}
	m := int64(1)<<width - 1
	q := st.floorDiv(w, Const(1<<lo))
	r := q.Sub(st.floorDiv(w, Const(1<<(lo+width))).Mul(Const(m + 1)))
	st.addFact(Eq(st.andConst(q, m), r))
	st.addFact(Eq(st.andConst(w, m<<lo), r.Mul(Const(1<<lo))))
	st.addFact(Eq(st.floorDiv(q, Const(m+1)), st.floorDiv(w, Const(1<<(lo+width)))))
}

// local tells if a location is time.Local.
func (q *fatDirRun) local(st *State, v Value) bool {
	pkg := q.ip.prog.ssa.ImportedPackage("time")
	if pkg == nil {
		return false
	}
	g := pkg.Var("Local")
	if g == nil {
		return false
	}
	p, ok := q.ip.globalPtr(g).(PtrV)
	if !ok {
		return false
	}
	for _, sv := range q.ip.load(st, p, deref(g.Type())) {
		if valueEq(sv.v, v) {
			return true
		}
	}
	return false
}

func (q *fatDirRun) num(st *State, v Value, want Poly, msg string) {
	i, ok := cast(v)
	q.ip.Obligations++
	if !ok || i.wrap {
		q.ip.report(st, "C32", msg+" is not understood")
		return
	}
	q.c.proveEq(q.ip, st, "C32", i.p, want, msg)
}

func (c *Checker) fatFunc(name string, f func(q *fatDirRun, fn *ssa.Function)) {
	fn := c.prog.Func(fatPkg, name)
	if fn == nil {
		c.anchor("function fat." + name + " not found")
		return
	}
	c.guard("fat."+name, func() { f(c.newFatDir(), fn) })
}

func word(name string, bits uint) Poly { return AtomPoly(NewAtomRange(name, 0, 1<<bits-1)) }

func (c *Checker) fatTimes() {
	c.fatFunc("DateFromInt", func(q *fatDirRun, fn *ssa.Function) {
		d := word("date", 16)
		q.each(NewState(), fn, []Value{IntV{p: d}}, func(s *State) {
			q.time(s, s.results[0], d, Const(0), Const(0), "a date")
		})
	})
	c.fatFunc("TimestampFromParts", func(q *fatDirRun, fn *ssa.Function) {
		d, t, h := word("date", 16), word("time", 16), word("hundredths", 8)
		st := NewState()
		st.assume(Lt(h, Const(200)))
		q.each(st, fn, []Value{IntV{p: d}, IntV{p: t}, IntV{p: h}}, func(s *State) {
			q.time(s, s.results[0], d, t, h, "a timestamp")
		})
	})
	c.fatFunc("AttrFlagsToFileMode", func(q *fatDirRun, fn *ssa.Function) {
		f := word("flags", 8)
		q.each(NewState(), fn, []Value{IntV{p: f}}, func(s *State) {
			q.modes(s, f, func(s *State, m int64) { q.num(s, s.results[0], Const(m), "file mode") })
		})
	})
}

// modes tells the file mode for attribute flags.
func (q *fatDirRun) modes(st *State, flags Poly, f func(s *State, mode int64)) {
	bit := func(st *State, k uint) (on, off *State) { return st.fork(Eq(st.bitOf(flags, k), Const(1))) }
	perm := func(s *State, m int64) {
		if s == nil {
			return
		}
		dir, rest := bit(s, 4)
		if dir != nil {
			f(dir, m|1<<modeDir)
		}
		if rest == nil {
			return
		}
		dev, file := bit(rest, 6)
		if dev != nil {
			f(dev, m|1<<modeDevice|1<<modeChar)
		}
		if file != nil {
			f(file, m)
		}
	}
	ro, rw := bit(st, 0)
	perm(ro, 0555)
	perm(rw, 0777)
}

// fatRaw checks the function that decodes the bytes of an entry.
func (c *Checker) fatRaw() {
	c.fatFunc("NewRawDirentFromBytes", func(q *fatDirRun, fn *ssa.Function) {
		ip := q.ip
		t := c.prog.Type(fatPkg, "RawDirent")
		if t == nil {
			c.anchor("type fat.RawDirent not found")
			return
		}
		st := NewState()
		r := ip.newRegion(st, "data", types.Typ[types.Byte], false)
		ip.initRegs[r] = st.regs[r]
		n := AtomPoly(NewAtomRange("length of the data", 0, 1<<30))
		data := SliceV{reg: r, off: Const(0), len: n, cap: AtomPoly(NewAtomMin("cap", 0))}
		st.assume(Le(n, data.cap))
		b := &byteSource{c: c, ip: ip, n: 32, rule: "C32", reg: r}
		for i := int64(0); i < 32; i++ {
			for _, sv := range ip.readElem(st, r, Const(i)) {
				b.bytes = append(b.bytes, sv.v.(IntV).p)
			}
		}
		gSet(st, "#pos", -1)
		b.decoding()
		succ := false
		q.each(st, fn, []Value{data}, func(s *State) {
			good, bad := s.fork(ip.isNil(s, s.results[1]))
			if bad != nil {
				c.proveRel(ip, bad, "C32", Lt(n, Const(32)), "a whole directory entry is refused")
			}
			if good == nil {
				return
			}
			succ = true
			c.proveRel(ip, good, "C32", Le(Const(32), n), "less than a directory entry is decoded")
			for _, f := range fatRawDirent {
				path, ft := fieldAt(t, f.name)
				if ft == nil {
					panic("field " + f.name + " of a raw directory entry not found")
				}
				v := inPath(s.results[0], path)
				msg := "field " + f.name + " of a raw directory entry"
				if f.many == 0 {
					q.num(good, v, b.le(f.off, f.n), msg)
					continue
				}
				a, ok := v.(ArrayV)
				if !ok || a.n != f.many {
					ip.report(good, "C32", msg+" is not understood")
					continue
				}
				for i := int64(0); i < f.many; i++ {
					for _, sv := range ip.readContent(good, a.content, r, Const(i)) {
						q.num(sv.st, sv.v, b.bytes[f.off+i], msg)
					}
				}
			}
		})
		if !succ {
			c.anchor("fat.NewRawDirentFromBytes never succeeds")
		}
	})
}

// fatEntry is a raw directory entry with arbitrary fields.
type fatEntry struct {
	ptr       PtrV
	f         map[string]Poly
	name, ext Region
	stem, xt  Poly // lengths without padding
	n0        Poly // first character of the name
}

func (q *fatDirRun) entry(st *State, sb *strBytes) *fatEntry {
	ip := q.ip
	t := q.c.prog.Type(fatPkg, "RawDirent")
	e := &fatEntry{f: map[string]Poly{}}
	obj := ip.newObj("raw entry", t, false)
	ip.objs[obj].param = true
	e.ptr = PtrV{obj: obj}
	for _, f := range fatRawDirent {
		path, ft := fieldAt(t, f.name)
		if ft == nil {
			panic("field " + f.name + " of a raw directory entry not found")
		}
		if f.many == 0 {
			v, ok := cast(ip.loadCell(st, obj, path, ft))
			if !ok {
				panic("field " + f.name + " of a raw directory entry is no number")
			}
			e.f[f.name] = v.p
			continue
		}
		a, ok := ft.Underlying().(*types.Array)
		if !ok || a.Len() != f.many {
			panic("field " + f.name + " of a raw directory entry has another size")
		}
		r := ip.arrayRegion(st, obj, path, a)
		ip.content(st, r)
		ip.initRegs[r] = st.regs[r]
		if f.name == "Name" {
			e.name = r
		} else {
			e.ext = r
		}
	}
	for _, sv := range ip.readElem(st, e.name, Const(0)) {
		e.n0 = sv.v.(IntV).p
	}
	e.stem, _ = sb.trimmed(st, st.regs[e.name], e.name, Const(0), Const(8), ' ')
	e.xt, _ = sb.trimmed(st, st.regs[e.ext], e.ext, Const(0), Const(3), ' ')
	return e
}

// call runs a method of a directory entry.
func (q *fatDirRun) call(st *State, recv Value, t *types.Named, name string, f func(s *State)) {
	fn := q.c.prog.ValueMethod(fatPkg, "Dirent", name)
	if fn == nil {
		q.ip.report(st, "C32", "directory entries have no method "+name)
		return
	}
	arg := recv
	s := st
	if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
		s = st.clone()
		obj := q.ip.newObj("entry", t, true)
		q.ip.storeCell(s, obj, "", t, recv)
		arg = PtrV{obj: obj}
	}
	out := q.ip.subRun(s, fn, []Value{arg})
	if len(out) == 0 {
		q.ip.report(st, "C31", "method "+name+" of a directory entry never returns")
	}
	for _, o := range out {
		f(o)
	}
}

func (c *Checker) fatEntries() {
	for _, bpc := range []int64{512, 1024, 2048, 4096, 8192, 16384, 32768} {
		for kind := 0; kind < 4; kind++ {
			bpc, kind := bpc, kind
			if bpc != 2048 && kind != 3 {
				continue
			}
			c.fatFunc("NewDirentFromRaw", func(q *fatDirRun, fn *ssa.Function) { q.decode(fn, bpc, kind) })
		}
	}
}

// decode checks the decoding of entries: free ones (0), deleted ones (1), ones that begin with 0x05 (2) and others (3).
func (q *fatDirRun) decode(fn *ssa.Function, bpc int64, kind int) {
	ip, c := q.ip, q.c
	dt, bt := c.prog.Type(fatPkg, "Dirent"), c.prog.Type(fatPkg, "FATBootSector")
	if dt == nil || bt == nil {
		c.anchor("types fat.Dirent or fat.FATBootSector not found")
		return
	}
	ya := NewAtomRange("y", 0, 20)
	y := AtomPoly(ya)
	ip.Skolems = []Atom{ya}
	ip.SplitReads, ip.SplitPreds = true, true
	sb := newStrBytes(ip)
	ip.Track = func(st *State, r Region) []Poly {
		if b, ok := ip.regions[r].elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return []Poly{y}
		}
		return nil
	}
	st := NewState()
	e := q.entry(st, sb)
	boot := ip.newObj("boot sector", bt, false)
	ip.objs[boot].param = true
	path, ft := fieldAt(bt, "BytesPerCluster")
	if ft == nil {
		panic("field BytesPerCluster not found")
	}
	ip.storeCell(st, boot, path, ft, IntV{p: Const(bpc)})
	st.assume(Lt(e.f["CreatedTimeMillis"], Const(200)))
	ok := true
	switch kind {
	case 0:
		ok = st.assume(Rel{e.n0, EQ})
	case 1:
		ok = st.assume(Eq(e.n0, Const(0xE5)))
	case 2:
		ok = st.assume(Eq(e.n0, Const(5)))
	case 3:
		ok = st.assume(Le(Const(1), e.n0)) && st.assume(Rel{e.n0.AddConst(-5), NE}) && st.assume(Rel{e.n0.AddConst(-0xE5), NE})
	}
	if !ok {
		panic("the first character of an entry is not arbitrary")
	}
	succ := false
	q.each(st, fn, []Value{PtrV{obj: boot}, e.ptr}, func(s *State) {
		good, bad := s.fork(ip.isNil(s, s.results[1]))
		if bad != nil {
			ip.Obligations++
			if kind != 0 {
				ip.report(bad, "C32", "a directory entry that is in use or deleted may be refused")
			} else if !bad.prove(ip.errMatches(bad, s.results[1], "github.com/dargueta/disko.ErrNotFound").r) {
				ip.report(bad, "C32", "a free directory entry may be refused with another error than ErrNotFound")
			}
		}
		if good == nil {
			return
		}
		succ = true
		ip.Obligations++
		if kind == 0 {
			ip.report(good, "C32", "a free directory entry may be decoded")
			return
		}
		q.decoded(good, s.results[0], e, dt, sb, y, bpc, kind)
	})
	if !succ && kind != 0 {
		c.anchor("fat.NewDirentFromRaw never succeeds")
	}
}

func (q *fatDirRun) decoded(st *State, d Value, e *fatEntry, dt *types.Named, sb *strBytes, y Poly, bpc int64, kind int) {
	ip, c := q.ip, q.c
	field := func(v Value, t types.Type, name string) Value {
		path, ft := fieldAt(t, name)
		if ft == nil {
			panic("field " + name + " not found")
		}
		return inPath(v, path)
	}
	first := e.f["FirstClusterHigh"].Mul(Const(1 << 16)).Add(e.f["FirstClusterLow"])
	q.num(st, field(d, dt, "AttributeFlags"), e.f["AttributeFlags"], "attribute flags of an entry")
	q.num(st, field(d, dt, "NTReserved"), e.f["NTReserved"], "reserved field of an entry")
	q.num(st, field(d, dt, "FirstCluster"), first, "first cluster of an entry")
	size := e.f["FileSize"]
	q.call(st, d, dt, "Size", func(s *State) { q.num(s, s.results[0], size, "size of an entry") })
	q.modes(st, e.f["AttributeFlags"], func(s *State, m int64) {
		q.call(s, d, dt, "Mode", func(s *State) { q.num(s, s.results[0], Const(m), "mode of an entry") })
		q.call(s, d, dt, "Type", func(s *State) { q.num(s, s.results[0], Const(m&^0777), "type of an entry") })
		q.call(s, d, dt, "IsDir", func(s *State) {
			b, ok := s.results[0].(BoolV)
			ip.Obligations++
			if !ok || m&(1<<modeDir) != 0 && !s.prove(b.r) || m&(1<<modeDir) == 0 && !s.prove(b.r.Neg()) {
				ip.report(s, "C32", "a file may be taken for a directory or the reverse")
			}
		})
		q.call(s, d, dt, "Stat", func(s *State) {
			q.num(s, field(s.results[0], c.prog.Type("", "FileStat"), "ModeFlags"), Const(m), "mode of an entry")
		})
	})
	q.call(st, d, dt, "ModTime", func(s *State) {
		q.time(s, s.results[0], e.f["LastModifiedDate"], e.f["LastModifiedTime"], Const(0), "modification time")
	})
	q.call(st, d, dt, "GetLastModifiedAt", func(s *State) {
		q.time(s, s.results[0], e.f["LastModifiedDate"], e.f["LastModifiedTime"], Const(0), "modification time")
	})
	q.call(st, d, dt, "GetLastAccessedAt", func(s *State) {
		q.time(s, s.results[0], e.f["LastAccessedDate"], Const(0), Const(0), "access date")
	})
	q.call(st, d, dt, "GetCreatedAt", func(s *State) {
		live, deleted := s.fork(ip.isNil(s, s.results[1]))
		ip.Obligations++
		if deleted != nil && kind != 1 {
			ip.report(s, "C32", "an entry in use may be taken for deleted")
		}
		if live == nil {
			return
		}
		if kind == 1 {
			ip.report(s, "C32", "a deleted entry may be taken for one in use")
			return
		}
		q.time(live, s.results[0], e.f["CreatedDate"], e.f["CreatedTime"], e.f["CreatedTimeMillis"], "creation time")
	})
	q.call(st, d, dt, "GetDeletedAt", func(s *State) {
		deleted, live := s.fork(ip.isNil(s, s.results[1]))
		ip.Obligations++
		if deleted != nil && kind != 1 || live != nil && kind == 1 {
			ip.report(s, "C32", "an entry in use may be taken for deleted or the reverse")
		}
	})
	stat := func(s *State, v Value) {
		fs := c.prog.Type("", "FileStat")
		get := func(n string) Value { return field(v, fs, n) }
		q.num(s, get("InodeNumber"), first, "file number of an entry")
		q.num(s, get("Nlinks"), Const(1), "link count of an entry")
		q.num(s, get("Size"), size, "size of an entry")
		q.num(s, get("BlockSize"), Const(bpc), "block size of an entry")
		q.num(s, get("NumBlocks"), s.floorDiv(size.AddConst(bpc-1), Const(bpc)), "block count of an entry")
		q.time(s, get("LastAccessed"), e.f["LastAccessedDate"], Const(0), Const(0), "access date")
		q.time(s, get("LastModified"), e.f["LastModifiedDate"], e.f["LastModifiedTime"], Const(0), "modification time")
		if kind != 1 {
			q.time(s, get("CreatedAt"), e.f["CreatedDate"], e.f["CreatedTime"], e.f["CreatedTimeMillis"], "creation time")
		}
	}
	q.call(st, d, dt, "Stat", func(s *State) { stat(s, s.results[0]) })
	q.call(st, d, dt, "Sys", func(s *State) {
		iv, ok := s.results[0].(IfaceV)
		ip.Obligations++
		if !ok || namedOf(iv.dyn) != c.prog.Type("", "FileStat") {
			ip.report(s, "C32", "Sys of an entry is no FileStat")
			return
		}
		v := iv.v
		if p, isP := v.(PtrV); isP {
			v = ip.loadCell(s, p.obj, p.path, iv.dyn)
		}
		stat(s, v)
	})
	q.call(st, d, dt, "Info", func(s *State) {
		ip.Obligations++
		iv, ok := s.results[0].(IfaceV)
		if !ok || namedOf(iv.dyn) != dt {
			ip.report(s, "C32", "Info of an entry is not the entry")
		}
	})
	q.call(st, d, dt, "Name", func(s *State) { q.fileName(s, strOf(s.results[0]), e, sb, y, kind) })
}

// fileName checks one arbitrary byte of the name, and its length.
func (q *fatDirRun) fileName(st *State, t *Term, e *fatEntry, sb *strBytes, y Poly, kind int) {
	ip, c := q.ip, q.c
	if t == nil {
		ip.report(st, "C32", "the name of an entry is not understood")
		return
	}
	none, some := st.fork(Rel{e.xt, EQ})
	for i, s := range []*State{none, some} {
		if s == nil {
			continue
		}
		total := e.stem
		if i == 1 {
			total = e.stem.AddConst(1).Add(e.xt)
		}
		c.proveEq(ip, s, "C32", t.ln, total, "length of the name of an entry")
		if !s.assume(Lt(y, total)) {
			continue
		}
		check := func(s *State, want Value, msg string) {
			for _, sv := range sb.at(s, t, y) {
				c.sameVal(ip, sv.st, "C32", sv.v, want, msg)
			}
		}
		in, rest := s.fork(Lt(y, e.stem))
		if in != nil {
			zero, more := in.fork(Rel{y, EQ})
			if zero != nil {
				want := e.n0
				switch kind {
				case 1:
					want = e.f["CreatedTimeMillis"]
				case 2:
					want = Const(0xE5)
				}
				for _, sv := range ip.readElem(zero, e.name, y) {
					if v, ok := cast(sv.v); ok {
						sv.st.addFact(Eq(v.p, e.n0))
					}
					zero = sv.st
				}
				check(zero, IntV{p: want}, "first character of the name of an entry")
			}
			if more != nil {
				for _, sv := range ip.readElem(more, e.name, y) {
					check(sv.st, sv.v, "a character of the name of an entry")
				}
			}
		}
		if rest == nil {
			continue
		}
		dot, after := rest.fork(Eq(y, e.stem))
		if dot != nil {
			check(dot, IntV{p: Const('.')}, "the period in the name of an entry")
		}
		if after != nil {
			for _, sv := range ip.readElem(after, e.ext, y.Sub(e.stem).AddConst(-1)) {
				check(sv.st, sv.v, "a character of the extension of an entry")
			}
		}
	}
}

// fatSetters checks that a timestamp set is the one found afterwards, and that no other one changes.
func (c *Checker) fatSetters() {
	dt := c.prog.Type(fatPkg, "Dirent")
	if dt == nil {
		c.anchor("type fat.Dirent not found")
		return
	}
	names := []string{"LastAccessedAt", "LastModifiedAt", "CreatedAt", "DeletedAt"}
	for _, n := range names {
		n := n
		fn := c.prog.Method(fatPkg, "Dirent", "Set"+n)
		if fn == nil {
			c.anchor("method Set" + n + " not found")
			continue
		}
		c.guard("fat.Dirent.Set"+n, func() {
			q := c.newFatDir()
			ip := q.ip
			st := NewState()
			obj := ip.newObj("entry", dt, false)
			ip.objs[obj].param = true
			tt := fn.Params[1].Type()
			at := ip.fresh(st, "t", tt)
			getter := func(s *State, g string, f func(s *State)) {
				m := c.prog.Method(fatPkg, "Dirent", "Get"+g)
				if m == nil {
					ip.report(s, "C32", "method Get"+g+" not found")
					return
				}
				args := []Value{PtrV{obj: obj}}
				if _, ok := m.Params[0].Type().(*types.Pointer); !ok {
					args[0] = ip.loadCell(s, obj, "", dt)
				}
				for _, o := range ip.subRun(s, m, args) {
					f(o)
				}
			}
			old := map[string]Value{}
			for _, g := range names {
				if g != n {
					getter(st, g, func(s *State) {
						if g[0] == 'L' || s.prove(ip.isNil(s, s.results[1])) {
							old[g] = s.results[0]
						}
					})
				}
			}
			succ := false
			q.each(st, fn, []Value{PtrV{obj: obj}, at}, func(s *State) {
				good, bad := s.fork(ip.isNil(s, s.results[0]))
				ip.Obligations++
				if bad != nil {
					early := false
					for _, t := range q.tm.asked {
						early = early || valueEq(t.a, at) && bad.prove(t.is.r)
					}
					if !early && n == "CreatedAt" {
						// Entries that are deleted have no time of creation.
						early = true
						getter(bad.clone(), "DeletedAt", func(s *State) {
							early = early && s.prove(ip.isNil(s, s.results[1]))
						})
					}
					if !early {
						ip.report(bad, "C32", fmt.Sprintf("Set%s may refuse a time that can be stored", n))
					}
				}
				if good == nil {
					return
				}
				succ = true
				late := false
				for _, t := range q.tm.asked {
					if valueEq(t.a, at) && good.prove(t.is.r.Neg()) {
						late = true
						if !q.isEpoch(good, t.b) {
							ip.report(good, "C32", fmt.Sprintf("Set%s does not compare with the earliest time that can be stored, the beginning of 1980 local time", n))
						}
					}
				}
				if !late {
					ip.report(good, "C32", fmt.Sprintf("Set%s may accept a time before the earliest one that can be stored", n))
				}
				getter(good, n, func(s *State) {
					ok := s
					if len(s.results) > 1 {
						var no *State
						ok, no = s.fork(ip.isNil(s, s.results[1]))
						if no != nil {
							ip.report(no, "C32", fmt.Sprintf("Get%s may fail after Set%s", n, n))
						}
					}
					if ok != nil && !valueEq(s.results[0], at) {
						ip.report(ok, "C32", fmt.Sprintf("Get%s does not give what Set%s was given", n, n))
					}
				})
				for g, was := range old {
					getter(good, g, func(s *State) {
						if g[0] != 'L' {
							s, _ = s.fork(ip.isNil(s, s.results[1]))
						}
						if s != nil && !valueEq(s.results[0], was) {
							ip.report(s, "C32", fmt.Sprintf("Set%s changes what Get%s gives", n, g))
						}
					})
				}
			})
			if !succ {
				c.anchor("Set" + n + " never succeeds")
			}
		})
	}
}

// isEpoch tells if a time is the beginning of 1980, local time: either made so, or that of a variable initialised so.
func (q *fatDirRun) isEpoch(st *State, v Value) bool {
	want := []int64{1980, 1, 1, 0, 0, 0, 0}
	if parts := q.tm.of(v); len(parts) == 8 {
		for i, w := range want {
			if x, ok := cast(parts[i]); !ok || !st.proveEq(x.p, Const(w)) {
				return false
			}
		}
		local := q.c.prog.ssa.ImportedPackage("time").Var("Local")
		for _, x := range q.ip.load(st.clone(), q.ip.globalPtr(local).(PtrV), deref(local.Type())) {
			if !valueEq(x.v, parts[7]) {
				return false
			}
		}
		return true
	}
	q.c.prog.scanGlobals()
	for g, gi := range q.c.prog.globalInits {
		call, ok := gi.stores[""].(*ssa.Call)
		if !gi.ok || !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "time.Date" {
			continue
		}
		is := false
		for _, x := range q.ip.load(st.clone(), q.ip.globalPtr(g).(PtrV), deref(g.Type())) {
			is = valueEq(x.v, v)
		}
		if !is {
			continue
		}
		for i, w := range want {
			k, isConst := call.Call.Args[i].(*ssa.Const)
			if !isConst || k.Int64() != w {
				return false
			}
		}
		l, ok := call.Call.Args[7].(*ssa.UnOp)
		if !ok {
			return false
		}
		lg, ok := l.X.(*ssa.Global)
		return ok && lg.String() == "time.Local"
	}
	return false
}

// attributes compares the constants for attributes with the format.
func (c *Checker) fatAttributes() {
	pkg := c.prog.Pkg(fatPkg)
	if pkg == nil {
		return
	}
	for n, want := range map[string]int64{"AttrReadOnly": 1, "AttrHidden": 2, "AttrSystem": 4, "AttrVolumeLabel": 8, "AttrDirectory": 16,
		"AttrArchived": 32, "AttrDevice": 64, "AttrReserved": 128} {
		k, ok := pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		c.stats.Counts["constants"]++
		if v, exact := constant.Int64Val(constant.ToInt(k.Val())); !exact || v != want {
			c.add(Finding{rule: "C32", pos: c.prog.position(k.Pos()), fn: n, msg: fmt.Sprintf("the value of %s is %s, in the format it is %d", n, k.Val(), want)})
		}
	}
}

func init() {
	crash := []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"}
	run := func(c *Checker) {
		c.once("fatdir", func(s *Checker) { s.fatTimes(); s.fatRaw(); s.fatEntries(); s.fatSetters(); s.fatAttributes() })
	}
	register(&check{id: "C32", title: "FAT directory entries are decoded from the specified fields", run: run, rules: crash,
		floors: map[string]int{"roots": 15, "obligations": 500},
		explain: "NewRawDirentFromBytes, NewDirentFromRaw and the functions on times and attributes were interpreted for arbitrary fields; " +
			"what every exported field and method of the result gives was compared with the layout of the FAT specification.",
		assumptions: []string{"the boot sector is a valid one; hundredths of seconds are below 200"}})
}
