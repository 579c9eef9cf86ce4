package main

// FAT: boot sectors (C30).

import (
	"fmt"
	"go/types"
	"strings"
)

const fatPkg = "file_systems/fat"

// fieldAt finds a field of a struct, looking into embedded structs as well, and gives its path and type.
func fieldAt(t types.Type, name string) (string, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldPath("", i), s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if p, ft := fieldAt(s.Field(i).Type(), name); ft != nil {
				return fieldPath("", i) + p, ft
			}
		}
	}
	return "", nil
}

// inPath is the value at a path within a value.
func inPath(v Value, path string) Value { return subValue(v, path) }

// byteSource is a stream of known bytes.
type byteSource struct {
	c     *Checker
	ip    *Interp
	reg   Region
	n     int64
	rule  string
	bytes []Poly
}

// source makes a stream of n bytes; reading any of it may fail.
func (c *Checker) source(ip *Interp, st *State, n int64, rule string) *byteSource {
	b := &byteSource{c: c, ip: ip, n: n, rule: rule}
	b.reg = ip.newRegion(st, "stream", types.Typ[types.Byte], false)
	ip.initRegs[b.reg] = st.regs[b.reg]
	for i := int64(0); i < n; i++ {
		for _, sv := range ip.readElem(st, b.reg, Const(i)) {
			b.bytes = append(b.bytes, sv.v.(IntV).p)
		}
	}
	gSet(st, "#pos", 0)
	gSet(st, "#failed", 0)
	b.decoding()
	ip.Models["io.ReadFull"] = b.readFull
	ip.Models["io.ReadAtLeast"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		s, ok := ip.asSlice(st, cc.args[1])
		min, ok2 := cast(cc.args[2])
		if !ok || !ok2 || !st.proveEq(s.len, min.p) {
			return ip.opaque(st, cc)
		}
		return b.readFull(ip, st, cc)
	}
	ip.Models["(io.Reader).Read"] = b.read
	return b
}

// decoding models reading structures from slices.
func (b *byteSource) decoding() {
	ip := b.ip
	ip.Models["encoding/binary.Read"] = b.binaryRead
	ip.Models["bytes.NewReader"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		s, ok := ip.asSlice(st, cc.args[0])
		if !ok {
			return ip.opaque(st, cc)
		}
		r := ip.newSym(cc.sig.Results().At(0).Type(), "reader of bytes")
		r.nonnil = true
		r.data = s
		gSet(st, fmt.Sprintf("#r%d", r.id), 0)
		cc.ret(ip, st, r)
		return []*State{st}
	}
}

// le is the value of bytes stored with the least significant first.
func (b *byteSource) le(off, n int64) Poly {
	p := Const(0)
	for i := int64(0); i < n; i++ {
		p = p.Add(b.bytes[off+i].Mul(Const(int64(1) << (8 * i))))
	}
	return p
}

func (b *byteSource) fail(st *State, cc *CallCtx) (*State, *SymV) {
	s := st.clone()
	e := b.ip.unknownErr(errorType, "err("+shortName(cc.name)+")")
	e.origin = &Event{kind: "call", name: cc.name, instr: cc.instr}
	s.assume(b.ip.isNil(s, e).Neg())
	gSet(s, "#failed", 1)
	return s, e
}

func fixedSize(t types.Type) (int64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return 1, true
		}
		if u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return 0, false
		}
		n, _, ok := intKind(t)
		return int64(n) / 8, ok
	case *types.Array:
		n, ok := fixedSize(u.Elem())
		return n * u.Len(), ok
	case *types.Struct:
		var sum int64
		for i := 0; i < u.NumFields(); i++ {
			n, ok := fixedSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			sum += n
		}
		return sum, true
	}
	return 0, false
}

// fill stores what the bytes from a place on stand for.
func (b *byteSource) fill(st *State, obj ObjID, path string, t types.Type, off int64, big bool) int64 {
	switch u := t.Underlying().(type) {
	case *types.Array:
		r := b.ip.arrayRegion(st, obj, path, u)
		n, _ := fixedSize(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			if bk, ok := u.Elem().Underlying().(*types.Basic); !ok || bk.Info()&types.IsInteger == 0 {
				b.ip.writeElem(st, r, Const(i), nil)
			} else {
				b.ip.writeElem(st, r, Const(i), b.num(st, off, n, u.Elem(), big))
			}
			off += n
		}
		return off
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n, _ := fixedSize(u.Field(i).Type())
			if u.Field(i).Name() == "_" {
				off += n
				continue
			}
			off = b.fill(st, obj, fieldPath(path, i), u.Field(i).Type(), off, big)
		}
		return off
	}
	n, _ := fixedSize(t)
	b.ip.storeCell(st, obj, path, t, b.num(st, off, n, t, big))
	return off + n
}

func (b *byteSource) num(st *State, off, n int64, t types.Type, big bool) Value {
	_, signed, ok := intKind(t)
	if !ok || signed && n > 1 || off+n > b.n {
		return b.ip.fresh(st, "?", t)
	}
	p := b.le(off, n)
	if big {
		p = Const(0)
		for i := int64(0); i < n; i++ {
			p = p.Add(b.bytes[off+i].Mul(Const(int64(1) << (8 * (n - 1 - i)))))
		}
	}
	return IntV{p: p}
}

func (b *byteSource) binaryRead(ip *Interp, st *State, cc *CallCtx) []*State {
	iv, ok := cc.args[2].(IfaceV)
	var p PtrV
	var size int64
	if ok {
		if p, ok = iv.v.(PtrV); ok && !p.isElem {
			size, ok = fixedSize(deref(iv.dyn))
		}
	}
	order, ok2 := cc.args[1].(IfaceV)
	if rd, isI := cc.args[0].(IfaceV); isI && ok && ok2 {
		if r, isSym := rd.v.(*SymV); isSym {
			if s, isSlice := r.data.(SliceV); isSlice {
				return b.fromSlice(st, cc, r, s, p, deref(iv.dyn), size, bigOrder(order))
			}
		}
	}
	at := gInt(st, "#pos")
	if !ok || !ok2 || at < 0 {
		ip.report(st, b.rule, "what is read from the stream is not understood")
		return ip.opaque(st, cc)
	}
	bad, e := b.fail(st, cc)
	gSet(bad, "#pos", -1)
	cc.ret(ip, bad, e)
	b.fill(st, p.obj, p.path, deref(iv.dyn), at, bigOrder(order))
	gSet(st, "#pos", at+size)
	cc.ret(ip, st, NilV{})
	return []*State{st, bad}
}

func bigOrder(order IfaceV) bool {
	return strings.Contains(types.TypeString(order.dyn, nil), "bigEndian")
}

// fromSlice decodes bytes of a slice.
func (b *byteSource) fromSlice(st *State, cc *CallCtx, r *SymV, s SliceV, p PtrV, t types.Type, size int64, big bool) []*State {
	ip := b.ip
	key := fmt.Sprintf("#r%d", r.id)
	at := gInt(st, key)
	enough, short := st.fork(Le(Const(at+size), s.len))
	var out []*State
	if short != nil {
		e := ip.unknownErr(errorType, "err("+shortName(cc.name)+")")
		short.assume(ip.isNil(short, e).Neg())
		cc.ret(ip, short, e)
		out = append(out, short)
	}
	if enough != nil {
		src := &byteSource{c: b.c, ip: ip, n: size, rule: b.rule}
		for i := int64(0); i < size; i++ {
			for _, sv := range ip.readElem(enough, s.reg, s.off.AddConst(at+i)) {
				v, _ := cast(sv.v)
				src.bytes = append(src.bytes, v.p)
			}
		}
		if int64(len(src.bytes)) != size {
			ip.report(enough, b.rule, "what is decoded is not understood")
			return append(out, ip.opaque(enough, cc)...)
		}
		src.fill(enough, p.obj, p.path, t, 0, big)
		gSet(enough, key, at+size)
		cc.ret(ip, enough, NilV{})
		out = append(out, enough)
	}
	return out
}

func (b *byteSource) readFull(ip *Interp, st *State, cc *CallCtx) []*State {
	s, ok := ip.asSlice(st, cc.args[1])
	at := gInt(st, "#pos")
	n, isc := st.constOf(s.len)
	if !ok || !isc || at < 0 {
		ip.report(st, b.rule, "what is read from the stream is not understood")
		return ip.opaque(st, cc)
	}
	bad, e := b.fail(st, cc)
	gSet(bad, "#pos", -1)
	got := AtomPoly(NewAtomRange("read", 0, 1<<40))
	bad.assume(Lt(got, s.len))
	if s.reg != 0 {
		ip.havocRange(bad, s.reg, s.off, s.off.Add(s.len))
		ip.copyRange(st, s.reg, s.off, b.reg, Const(at), s.len)
	}
	cc.ret(ip, bad, TupleV{IntV{p: got}, e})
	gSet(st, "#pos", at+n)
	cc.ret(ip, st, TupleV{IntV{p: s.len}, NilV{}})
	return []*State{st, bad}
}

// read may give less than what was asked for.
func (b *byteSource) read(ip *Interp, st *State, cc *CallCtx) []*State {
	s, ok := ip.asSlice(st, cc.args[len(cc.args)-1])
	at := gInt(st, "#pos")
	if !ok || at < 0 {
		ip.report(st, b.rule, "what is read from the stream is not understood")
		return ip.opaque(st, cc)
	}
	cc2 := *cc
	cc2.args = []Value{nil, cc.args[len(cc.args)-1]}
	short := st.clone()
	out := b.readFull(ip, st, &cc2)
	got := AtomPoly(NewAtomRange("read", 0, 1<<40))
	if short.assume(Lt(got, s.len)) {
		if s.reg != 0 {
			ip.copyRange(short, s.reg, s.off, b.reg, Const(at), got)
		}
		gSet(short, "#pos", -1)
		cc.ret(ip, short, TupleV{IntV{p: got}, NilV{}})
		out = append(out, short)
	}
	return out
}

// fatBPB is the layout of the header: name, offset, width.
var fatBPB = []struct {
	name   string
	off, n int64
}{
	{"BytesPerSector", 11, 2}, {"SectorsPerCluster", 13, 1}, {"ReservedSectors", 14, 2}, {"NumFATs", 16, 1},
	{"RootEntryCount", 17, 2}, {"TotalSectors16", 19, 2}, {"Media", 21, 1}, {"SectorsPerFAT16", 22, 2},
	{"SectorsPerTrack", 24, 2}, {"NumHeads", 26, 2}, {"HiddenSectors", 28, 4}, {"TotalSectors32", 32, 4},
}

// pick is the choice between two numbers: the first unless it is zero.
func pick(st *State, a, b Poly, f func(st *State, v Poly)) {
	zero, some := st.fork(Rel{a, EQ})
	if zero != nil {
		f(zero, b)
	}
	if some != nil {
		f(some, a)
	}
}

func (c *Checker) fatBoot() {
	const rule = "C30"
	fn := c.prog.Func(fatPkg, "NewFATBootSectorFromStream")
	t := c.prog.Type(fatPkg, "FATBootSector")
	if fn == nil || t == nil {
		c.anchor("NewFATBootSectorFromStream or FATBootSector not found")
		return
	}
	c.guard("fat.NewFATBootSectorFromStream", func() {
		c.prog.reset()
		ip := c.newInterp()
		st := NewState()
		ip.Track = func(st *State, r Region) []Poly { return nil }
		b := c.source(ip, st, 40, rule)
		args := c.freshArgs(ip, st, fn)
		for i := range atoms {
			ip.prog.inputAtoms[Atom(i)] = true
		}
		seen := map[int64]bool{}
		for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
			if s.status == panicked {
				ip.report(s, rule, "reading a boot sector may panic: "+s.note)
			}
			if s.status != returned {
				continue
			}
			good, bad := s.fork(ip.isNil(s, s.results[1]))
			if bad != nil {
				c.fatRefused(ip, bad, b)
			}
			if good == nil {
				continue
			}
			ip.Obligations++
			if gInt(good, "#failed") != 0 {
				ip.report(good, rule, "a boot sector that could not be read is accepted")
				continue
			}
			p, ok := s.results[0].(PtrV)
			if !ok || p.isElem {
				ip.report(good, rule, "the boot sector is not understood")
				continue
			}
			c.fatAccepted(ip, good, b, t, p, seen)
		}
		for _, v := range []int64{12, 16, 32} {
			if !seen[v] {
				c.anchor(fmt.Sprintf("no boot sector of FAT%d is accepted", v))
			}
		}
		c.collect(ip)
	})
}

// fatLegal calls f for every state in which the sector and cluster sizes are legal.
func fatLegal(st *State, b *byteSource, f func(st *State, bps, spc int64)) {
	for bps := int64(512); bps <= 4096; bps *= 2 {
		s := st.clone()
		if !s.assume(Eq(b.le(11, 2), Const(bps))) {
			continue
		}
		for spc := int64(1); spc <= 128; spc *= 2 {
			u := s.clone()
			if bps*spc <= 32768 && u.assume(Eq(b.le(13, 1), Const(spc))) && alive(u) {
				f(u, bps, spc)
			}
		}
	}
}

type fatLayout struct {
	spf, total, root, fats, first, data, clusters Poly
}

// layouts derives the layout as specified, in every case.
func (b *byteSource) layouts(st *State, bps, spc int64, f func(st *State, l fatLayout)) {
	pick(st, b.le(22, 2), b.le(36, 4), func(st *State, spf Poly) {
		pick(st, b.le(19, 2), b.le(32, 4), func(st *State, total Poly) {
			l := fatLayout{spf: spf, total: total}
			l.root = st.floorDiv(b.le(17, 2).Mul(Const(32)).AddConst(bps-1), Const(bps))
			l.fats = b.le(16, 1).Mul(spf)
			l.first = b.le(14, 2).Add(l.fats).Add(l.root)
			l.data = total.Sub(l.first)
			l.clusters = st.floorDiv(l.data, Const(spc))
			f(st, l)
		})
	})
}

// fatRefused checks that a header that could be read is refused only if it is invalid.
func (c *Checker) fatRefused(ip *Interp, st *State, b *byteSource) {
	if gInt(st, "#failed") != 0 {
		return
	}
	ip.Obligations++
	fatLegal(st, b, func(st *State, bps, spc int64) {
		b.layouts(st, bps, spc, func(st *State, l fatLayout) {
			if !st.assume(Rel{l.data, GE}) || !alive(st) {
				return
			}
			small, large := st.fork(Lt(l.clusters, Const(65525)))
			if small != nil && alive(small) {
				ip.report(small, "C30", "a valid header may be refused")
			}
			if large != nil && large.assume(Rel{l.root, EQ}) && alive(large) {
				ip.report(large, "C30", "a valid FAT32 header may be refused")
			}
		})
	})
}

func (c *Checker) fatAccepted(ip *Interp, st *State, b *byteSource, t types.Type, p PtrV, seen map[int64]bool) {
	const rule = "C30"
	field := func(s *State, name string) Poly {
		path, ft := fieldAt(t, name)
		if ft == nil {
			panic("field " + name + " of the boot sector not found")
		}
		v, ok := cast(ip.loadCell(s, p.obj, p.path+path, ft))
		if !ok || v.wrap {
			ip.report(s, rule, "field "+name+" of the boot sector is not understood")
			return Const(-1)
		}
		return v.p
	}
	same := func(s *State, name string, want Poly) {
		c.proveEq(ip, s, rule, field(s, name), want, "field "+name+" of the boot sector")
	}
	found := false
	rest := []*State{st}
	_ = rest
	fatLegal(st, b, func(s *State, bps, spc int64) {
		found = true
		for _, f := range fatBPB {
			same(s, f.name, b.le(f.off, f.n))
		}
		for _, a := range []struct {
			name   string
			off, n int64
		}{{"JmpBoot", 0, 3}, {"OEMName", 3, 8}} {
			path, ft := fieldAt(t, a.name)
			at, ok := ft.Underlying().(*types.Array)
			if !ok || at.Len() != a.n {
				ip.report(s, rule, "field "+a.name+" has another size")
				continue
			}
			r := ip.arrayRegion(s, p.obj, p.path+path, at)
			for i := int64(0); i < a.n; i++ {
				for _, sv := range ip.readElem(s, r, Const(i)) {
					c.sameVal(ip, sv.st, rule, sv.v, IntV{p: b.bytes[a.off+i]}, "field "+a.name)
				}
			}
		}
		same(s, "BytesPerCluster", Const(bps*spc))
		same(s, "DirentsPerCluster", Const(bps*spc/32))
		b.layouts(s, bps, spc, func(s *State, l fatLayout) {
			if !alive(s) {
				return
			}
			c.proveRel(ip, s, rule, Le(l.first, l.total), "the data area may start beyond the end of the volume")
			same(s, "SectorsPerFAT", l.spf)
			same(s, "TotalFATSectors", l.fats)
			same(s, "RootDirSectors", l.root)
			same(s, "FirstDataSector", l.first)
			same(s, "TotalDataSectors", l.data)
			same(s, "TotalClusters", l.clusters)
			version := func(s *State, v int64) {
				if s == nil || !alive(s) {
					return
				}
				seen[v] = true
				same(s, "FATVersion", Const(v))
				if v == 32 {
					c.proveEq(ip, s, rule, l.root, Const(0), "sectors of the root directory of a FAT32 volume")
				}
			}
			small, large := s.fork(Lt(l.clusters, Const(4085)))
			version(small, 12)
			if large != nil {
				small, large = large.fork(Lt(l.clusters, Const(65525)))
				version(small, 16)
				version(large, 32)
			}
		})
	})
	// Nothing but the legal sizes.
	ip.Obligations++
	if !found {
		ip.report(st, rule, "an illegal sector or cluster size may be accepted")
		return
	}
	for _, lim := range []Rel{Le(b.le(11, 2), Const(4096)), Le(Const(512), b.le(11, 2)), Le(b.le(13, 1), Const(128)), Le(Const(1), b.le(13, 1))} {
		c.proveRel(ip, st, rule, lim, "an illegal sector or cluster size may be accepted")
	}
	if !fatPower(st, b.le(11, 2), 512, 4096) || !fatPower(st, b.le(13, 1), 1, 128) {
		ip.report(st, rule, "a sector or cluster size that is no power of two may be accepted")
	}
	s := st.clone()
	bps, spc, ok := fatSizes(s, b)
	if ok && bps*spc > 32768 || !ok && !s.prove(Le(b.le(11, 2).Mul(b.le(13, 1)), Const(32768))) {
		ip.report(st, rule, "a cluster of more than 32,768 bytes may be accepted")
	}
}

func fatSizes(st *State, b *byteSource) (int64, int64, bool) {
	bps, ok := st.constOf(b.le(11, 2))
	spc, ok2 := st.constOf(b.le(13, 1))
	return bps, spc, ok && ok2
}

// fatPower tells if a number is known to be a power of two within limits.
func fatPower(st *State, p Poly, lo, hi int64) bool {
	for x := lo; x < hi; x *= 2 {
		s := st.clone()
		if s.assume(Lt(Const(x), p)) && s.assume(Lt(p, Const(2*x))) && alive(s) {
			return false
		}
	}
	return true
}

func (c *Checker) fatVersion() {
	fn := c.prog.Func(fatPkg, "DetermineFATVersion")
	if fn == nil {
		c.anchor("DetermineFATVersion not found")
		return
	}
	c.guard("fat.DetermineFATVersion", func() {
		c.prog.reset()
		ip := c.newInterp()
		st := NewState()
		n := AtomPoly(NewAtomRange("clusters", 0, 1<<40))
		ip.prog.inputAtoms[0] = true
		for _, s := range ip.Run(ip.rootOn(st, fn, []Value{IntV{p: n}})) {
			if s.status != returned {
				ip.report(s, "C30", "DetermineFATVersion may panic")
				continue
			}
			v, _ := cast(s.results[0])
			is := func(s *State, want int64) {
				if s != nil {
					c.proveEq(ip, s, "C30", v.p, Const(want), "FAT version")
				}
			}
			small, large := s.fork(Lt(n, Const(4085)))
			is(small, 12)
			if large != nil {
				small, large = large.fork(Lt(n, Const(65525)))
				is(small, 16)
				is(large, 32)
			}
		}
		c.collect(ip)
	})
}

func init() {
	crash := []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"}
	register(&check{id: "C30", title: "A FAT boot sector is validated and its layout derived correctly",
		run: func(c *Checker) {
			c.once("fatboot", func(s *Checker) { s.fatBoot(); s.fatVersion() })
		},
		rules:  crash,
		floors: map[string]int{"roots": 2, "obligations": 200},
		explain: "NewFATBootSectorFromStream was interpreted for an arbitrary header, any read of which may fail; every field of the result " +
			"was compared with the value the FAT specification derives from the bytes.",
	})
}

// alive tells if a state is not known to be empty.
func alive(st *State) bool { return !infeasible(st.cons, nil) }
