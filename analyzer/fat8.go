package main

// FAT8 images: sectors and clusters (C25), allocation tables (C26), geometry and formatting (C27), mounting (C28).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const f8Pkg = "file_systems/fat8"

// f8Layout is the layout of a FAT8 image as documented: tracks of 26 or 16 sectors of 128 bytes, two clusters per
// track, the directory in the middle track, which ends with an information sector and three allocation tables.
type f8Layout struct {
	blocks int64
	fields map[string]int64
}

func (l f8Layout) f(n string) int64 { return l.fields[n] }

func f8Layouts() []f8Layout {
	mk := func(blocks, tracks, all, spt, dir int64) f8Layout {
		clusters := 2 * tracks
		spf := (clusters + 127) / 128
		start := (dir - 1) * spt
		fats := start + spt - 3*spf
		return f8Layout{blocks, map[string]int64{
			"TotalTracks": tracks, "TrueTotalTracks": all, "TotalClusters": clusters, "SectorsPerTrack": spt,
			"SectorsPerFAT": spf, "SectorsPerCluster": spt / 2, "BytesPerCluster": spt / 2 * 128,
			"DirectoryTrackNumber": dir, "DirectoryTrackStart": start, "InfoSectorStart": fats - 1, "FATsStart": fats,
		}}
	}
	return []f8Layout{mk(640, 40, 40, 16, 18), mk(1898, 73, 73, 26, 35), mk(2002, 73, 77, 26, 35)}
}

// f8Shape tells which field of the driver is what.
type f8Shape struct {
	named   *types.Named
	st      *types.Struct
	geoT    *types.Named
	image   int
	geo     int
	stat    int
	mounted int
	bytes   []int // fields that are byte slices
	u8      []int // fields that are single bytes
	fat     int   // the table, found by analysing Mount
}

func f8Roles(p *Program) (*f8Shape, error) {
	sh := &f8Shape{named: p.Type(f8Pkg, "FAT8Driver"), geoT: p.Type(f8Pkg, "Geometry"), image: -1, geo: -1, stat: -1, mounted: -1, fat: -1}
	if sh.named == nil || sh.geoT == nil {
		return nil, fmt.Errorf("types FAT8Driver and Geometry not found")
	}
	s, ok := sh.named.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("FAT8Driver is no struct")
	}
	sh.st = s
	one := func(p *int, i int) error {
		if *p >= 0 {
			return fmt.Errorf("FAT8Driver: fields %s and %s may have the same role", s.Field(*p).Name(), s.Field(i).Name())
		}
		*p = i
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		var err error
		switch {
		case types.TypeString(t, nil) == "*os.File":
			err = one(&sh.image, i)
		case namedOf(t) == sh.geoT:
			err = one(&sh.geo, i)
		case namedOf(t) == p.Type("", "FSStat"):
			err = one(&sh.stat, i)
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Bool {
				err = one(&sh.mounted, i)
			}
			if u.Kind() == types.Uint8 {
				sh.u8 = append(sh.u8, i)
			}
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				sh.bytes = append(sh.bytes, i)
			}
		}
		if err != nil {
			return nil, err
		}
	}
	if sh.image < 0 || sh.geo < 0 || sh.stat < 0 || sh.mounted < 0 || len(sh.bytes) == 0 {
		return nil, fmt.Errorf("fields of FAT8Driver not recognised")
	}
	return sh, nil
}

type f8Run struct {
	c     *Checker
	ip    *Interp
	sh    *f8Shape
	name  string
	fn    *ssa.Function
	obj   ObjID
	img   Region
	k     Poly   // an arbitrary byte of the image
	j     Poly   // an arbitrary byte of a buffer
	js    []Poly // where else it may be
	d0    Value  // the byte k before
	size0 Poly   // size of the image
	args  []Value
	opt   Poly // size given to format
}

func (c *Checker) newF8(sh *f8Shape, name string, fn *ssa.Function) *f8Run {
	c.prog.reset()
	ip := c.newInterp()
	q := &f8Run{c: c, ip: ip, sh: sh, name: name, fn: fn}
	q.obj = ip.newObj("driver", sh.named, false)
	ip.objs[q.obj].param = true
	ka := NewAtomRange("k", 0, 1<<30)
	ja := NewAtomRange("j", 0, 1<<30)
	q.k, q.j = AtomPoly(ka), AtomPoly(ja)
	ip.Skolems = []Atom{ka, ja}
	ip.SplitReads = true
	ip.SplitPreds = true
	ip.Track = func(st *State, r Region) []Poly {
		if r == q.img {
			return []Poly{q.k}
		}
		if b, ok := ip.regions[r].elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return append([]Poly{q.j}, q.js...)
		}
		return nil
	}
	f := "(*os.File)."
	ip.Models[f+"ReadAt"] = q.at(false)
	ip.Models[f+"WriteAt"] = q.at(true)
	ip.Models[f+"Read"] = q.here(false)
	ip.Models[f+"Write"] = q.here(true)
	ip.Models["io.ReadFull"] = q.here(false)
	ip.Models[f+"Seek"] = q.seek
	ip.Models[f+"Truncate"] = q.truncate
	ip.Models[f+"Stat"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		bad, e := q.fail(st, cc)
		cc.ret(ip, bad, TupleV{NilV{}, e})
		s := ip.newSym(cc.sig.Results().At(0).Type(), "information on the image")
		s.nonnil = true
		cc.ret(ip, st, TupleV{s, NilV{}})
		return []*State{st, bad}
	}
	ip.Models["(io/fs.FileInfo).Size"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		cc.ret(ip, st, IntV{p: gPoly(st, "S")})
		return []*State{st}
	}
	ip.Models["("+modulePath+"/disks.BasicFormatterOptions).TotalSizeBytes"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		cc.ret(ip, st, IntV{p: q.opt})
		return []*State{st}
	}
	ip.Models["bytes.Equal"] = q.equal
	ip.Models["slices.Equal"] = q.equal
	return q
}

func (q *f8Run) fail(st *State, c *CallCtx) (*State, *SymV) {
	ip := q.ip
	s := st.clone()
	e := ip.unknownErr(errorType, "err("+shortName(c.name)+")")
	e.origin = &Event{kind: "call", name: c.name, instr: c.instr}
	s.assume(ip.isNil(s, e).Neg())
	gSet(s, "#failed", 1)
	return s, e
}

// transfer moves bytes between a buffer and the image.
func (q *f8Run) transfer(st *State, c *CallCtx, buf SliceV, off Poly, write bool) []*State {
	ip := q.ip
	what := "read"
	if write {
		what = "written"
	}
	ip.CallsSeen["image "+what]++
	ip.Obligations += 2
	if !st.prove(Rel{off, GE}) || !st.prove(Le(off.Add(buf.len), gPoly(st, "S"))) {
		ip.report(st, "C25", "bytes outside of the image may be "+what)
	}
	if write {
		gSet(st, "#wrote", 1)
	} else {
		gSet(st, "#read", 1)
	}
	bad, e := q.fail(st, c)
	if write {
		ip.havocRange(bad, q.img, off, off.Add(buf.len))
	} else if buf.reg != 0 {
		ip.havocRange(bad, buf.reg, buf.off, buf.off.Add(buf.len))
	}
	n := NewAtomRange("transferred", 0, 1<<40)
	bad.assume(Le(AtomPoly(n), buf.len))
	c.ret(ip, bad, TupleV{IntV{p: AtomPoly(n)}, e})
	if buf.reg != 0 {
		if write {
			ip.copyRange(st, q.img, off, buf.reg, buf.off, buf.len)
		} else {
			ip.copyRange(st, buf.reg, buf.off, q.img, off, buf.len)
		}
	}
	c.ret(ip, st, TupleV{IntV{p: buf.len}, NilV{}})
	return []*State{st, bad}
}

func (q *f8Run) buffer(v Value) (SliceV, bool) {
	switch x := v.(type) {
	case SliceV:
		return x, true
	case NilV:
		return SliceV{off: Const(0), len: Const(0), cap: Const(0)}, true
	}
	return SliceV{}, false
}

func (q *f8Run) at(write bool) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		buf, ok := q.buffer(c.args[1])
		off, ok2 := cast(c.args[2])
		if !ok || !ok2 || off.wrap {
			ip.report(st, "C25", "the place of an access to the image is not understood")
			return ip.opaque(st, c)
		}
		return q.transfer(st, c, buf, off.p, write)
	}
}

// here transfers at the current position of the file.
func (q *f8Run) here(write bool) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		buf, ok := q.buffer(c.args[1])
		if !ok || gInt(st, "#pos") != 1 {
			ip.report(st, "C25", "the place of an access to the image is not understood")
			return ip.opaque(st, c)
		}
		p := gPoly(st, "pos")
		if !write && shortName(c.name) == "File.Read" {
			// May read less than asked for.
			ip.report(st, "C25", "a read may be short")
		}
		out := q.transfer(st, c, buf, p, write)
		for _, s := range out {
			if gInt(s, "#failed") == 1 {
				gSet(s, "#pos", 0)
			} else {
				gPut(s, "pos", p.Add(buf.len))
			}
		}
		return out
	}
}

func (q *f8Run) seek(ip *Interp, st *State, c *CallCtx) []*State {
	off, ok := cast(c.args[1])
	wh, ok2 := cast(c.args[2])
	if !ok || !ok2 {
		return ip.opaque(st, c)
	}
	bad, e := q.fail(st, c)
	c.ret(ip, bad, TupleV{IntV{p: Const(0)}, e})
	gSet(bad, "#pos", 0)
	at := off.p
	k, isc := wh.p.IsConst()
	switch {
	case isc && k == 0:
	case isc && k == 1 && gInt(st, "#pos") == 1:
		at = gPoly(st, "pos").Add(off.p)
	case isc && k == 2:
		at = gPoly(st, "S").Add(off.p)
	default:
		gSet(st, "#pos", 0)
		c.ret(ip, st, TupleV{IntV{p: AtomPoly(NewAtomRange("offset", 0, 1<<40))}, NilV{}})
		return []*State{st, bad}
	}
	gSet(st, "#pos", 1)
	gPut(st, "pos", at)
	c.ret(ip, st, TupleV{IntV{p: at}, NilV{}})
	return []*State{st, bad}
}

func (q *f8Run) truncate(ip *Interp, st *State, c *CallCtx) []*State {
	n, ok := cast(c.args[1])
	if !ok || n.wrap {
		return ip.opaque(st, c)
	}
	gSet(st, "#wrote", 1)
	ip.Obligations++
	if !st.proveEq(n.p, q.opt) {
		ip.report(st, "C27", "the image is given another size than the one asked for")
	}
	bad, e := q.fail(st, c)
	c.ret(ip, bad, e)
	gPut(st, "S", n.p)
	c.ret(ip, st, NilV{})
	return []*State{st, bad}
}

// equal models bytes.Equal: where it holds, all elements followed are equal; it must hold if an arbitrary element
// is the same in both.
func (q *f8Run) equal(ip *Interp, st *State, c *CallCtx) []*State {
	a, ok := q.buffer(c.args[0])
	b, ok2 := q.buffer(c.args[1])
	if !ok || !ok2 {
		return ip.opaque(st, c)
	}
	var out []*State
	yes, no := st.clone(), st
	if yes.assume(Eq(a.len, b.len)) {
		ys := []*State{yes}
		for _, k := range []Poly{q.j} {
			var next []*State
			for _, y := range ys {
				in, rest := y.fork(Lt(k, a.len))
				if rest != nil {
					next = append(next, rest)
				}
				if in == nil {
					continue
				}
				for _, x := range ip.readElem(in, a.reg, a.off.Add(k)) {
					for _, z := range ip.readElem(x.st, b.reg, b.off.Add(k)) {
						u, ok := cast(x.v)
						w, ok2 := cast(z.v)
						if ok && ok2 && !z.st.assume(Eq(u.p, w.p)) {
							continue
						}
						next = append(next, z.st)
					}
				}
			}
			ys = next
		}
		for _, y := range ys {
			c.ret(ip, y, boolConst(true))
			out = append(out, y)
		}
	}
	same := st.proveEq(a.len, b.len)
	if same {
		x := AtomPoly(NewAtomRange("x", 0, 1<<40))
		z := st.clone()
		if z.assume(Lt(x, a.len)) {
			for _, u := range ip.readElem(z, a.reg, a.off.Add(x)) {
				for _, w := range ip.readElem(u.st, b.reg, b.off.Add(x)) {
					p, ok := cast(u.v)
					r, ok2 := cast(w.v)
					if !ok || !ok2 || !w.st.proveEq(p.p, r.p) {
						same = false
					}
				}
			}
		}
	}
	if !same {
		gSet(no, "#differ", 1)
		c.ret(ip, no, boolConst(false))
		out = append(out, no)
	}
	return out
}

func (q *f8Run) cell(st *State, f int) Value {
	return q.ip.loadCell(st, q.obj, fmt.Sprintf(".%d", f), q.sh.st.Field(f).Type())
}

func (q *f8Run) set(st *State, f int, v Value) {
	q.ip.storeCell(st, q.obj, fmt.Sprintf(".%d", f), q.sh.st.Field(f).Type(), v)
}

// base makes a state with an image of a size.
func (q *f8Run) base(size Poly) *State {
	ip := q.ip
	st := NewState()
	for _, g := range []string{"#failed", "#read", "#wrote", "#differ", "#pos"} {
		gSet(st, g, 0)
	}
	q.img = ip.newRegion(st, "image", types.Typ[types.Byte], false)
	ip.initRegs[q.img] = st.regs[q.img]
	ip.prog.inputAtoms[st.regs[q.img].atom] = true
	q.size0 = size
	gPut(st, "S", size)
	s := ip.newSym(q.sh.st.Field(q.sh.image).Type(), "image")
	s.nonnil = true
	q.set(st, q.sh.image, s)
	st.assume(Rel{size, GE})
	return st
}

// geoVal is the geometry of a layout as a value.
func (q *f8Run) geoVal(st *State, l f8Layout) Value {
	s := q.sh.geoT.Underlying().(*types.Struct)
	v := StructV{}
	for i := 0; i < s.NumFields(); i++ {
		if n, ok := l.fields[s.Field(i).Name()]; ok {
			v.f = append(v.f, IntV{p: Const(n)})
		} else {
			v.f = append(v.f, q.ip.fresh(st, s.Field(i).Name(), s.Field(i).Type()))
		}
	}
	return v
}

// mount makes the state of a mounted image with a layout.
func (q *f8Run) mount(l f8Layout) *State {
	ip := q.ip
	size := AtomPoly(NewAtomRange("size of the image", 0, 1<<30))
	st := q.base(size)
	st.assume(Le(Const(l.blocks*128), size))
	st.assume(Lt(size, Const((l.blocks+1)*128)))
	q.set(st, q.sh.geo, q.geoVal(st, l))
	t := q.sh.st.Field(q.sh.stat).Type().Underlying().(*types.Struct)
	sv := StructV{}
	for i := 0; i < t.NumFields(); i++ {
		switch t.Field(i).Name() {
		case "TotalBlocks":
			sv.f = append(sv.f, IntV{p: Const(l.blocks)})
		case "BlockSize":
			sv.f = append(sv.f, IntV{p: Const(128)})
		default:
			sv.f = append(sv.f, ip.fresh(st, t.Field(i).Name(), t.Field(i).Type()))
		}
	}
	q.set(st, q.sh.stat, sv)
	q.set(st, q.sh.mounted, boolConst(true))
	return st
}

// params makes the arguments of a method.
func (q *f8Run) params(st *State) []Value {
	ip := q.ip
	var out []Value
	for i, p := range q.fn.Params {
		if i == 0 && q.fn.Signature.Recv() != nil {
			out = append(out, PtrV{obj: q.obj})
			continue
		}
		v := ip.fresh(st, p.Name(), p.Type())
		switch x := v.(type) {
		case IntV:
			if _, _, ok := intKind(p.Type()); ok && namedOf(p.Type()) != q.c.prog.Type("", "MountFlags") {
				limit(st, v, 0, 1<<30)
			}
		case *SymV:
			x.nonnil = true
		case SliceV:
			st.assume(Le(x.len, Const(1<<30)))
		}
		out = append(out, v)
	}
	return out
}

func (q *f8Run) inputs() {
	for i := 0; i < len(atoms); i++ {
		q.ip.prog.inputAtoms[Atom(i)] = true
	}
}

// run analyses the root from a state and gives the states it ends in.
func (q *f8Run) run(st *State, rule string, args []Value, post func(s *State, ok bool)) {
	ip := q.ip
	q.args = args
	q.inputs()
	d := ip.readElem(st, q.img, q.k)
	q.d0 = d[0].v
	q.inputs()
	succ := false
	ei := hasErrIndex(q.fn)
	for _, s := range ip.Run(ip.rootOn(st, q.fn, args)) {
		switch s.status {
		case panicked:
			ip.report(s, rule, "the operation may panic: "+s.note)
		case returned:
			if ei < 0 {
				succ = true
				post(s, true)
				continue
			}
			good, bad := s.fork(ip.isNil(s, s.results[ei]))
			if good != nil {
				succ = true
				ip.Obligations++
				if gInt(good, "#failed") == 1 {
					ip.report(good, rule, q.name+" may succeed although an access to the image failed")
				} else {
					post(good, true)
				}
			}
			if bad != nil {
				post(bad, false)
			}
		}
	}
	if !succ {
		ip.report(&State{}, "anchor", q.name+" never succeeds")
	}
}

func hasErrIndex(fn *ssa.Function) int {
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if isErrorType(r.At(i).Type()) || types.IsInterface(r.At(i).Type()) && types.Implements(r.At(i).Type(), errorType.Underlying().(*types.Interface)) {
			return i
		}
	}
	return -1
}

// is checks that the byte k of the image has a value now.
func (q *f8Run) is(st *State, rule string, want Value, msg string) {
	for _, sv := range q.ip.readElem(st, q.img, q.k) {
		q.c.sameVal(q.ip, sv.st, rule, sv.v, want, q.name+": "+msg)
	}
}

// unjustified reports an error without a failure of the image where the arguments are valid.
func (q *f8Run) unjustified(st *State, rule string, msg string, valid ...Rel) {
	ip := q.ip
	if gInt(st, "#failed") == 1 {
		return
	}
	ip.Obligations += 2
	if gInt(st, "#wrote") == 1 {
		ip.report(st, rule, q.name+" fails on its own account after the image was changed")
	}
	z := st.clone()
	for _, r := range valid {
		if !z.assume(r) {
			return
		}
	}
	ip.report(z, rule, q.name+" "+msg)
}

// read checks the bytes returned by a read.
func (q *f8Run) gives(st *State, v Value, from, n Poly) {
	ip := q.ip
	s, ok := q.buffer(v)
	if !ok {
		ip.report(st, "C25", q.name+": the bytes returned are not understood")
		return
	}
	q.c.proveEq(ip, st, "C25", s.len, n, q.name+": number of bytes returned")
	in := st.clone()
	if !in.assume(Lt(q.j, n)) {
		return
	}
	for _, a := range ip.readElem(in, s.reg, s.off.Add(q.j)) {
		for _, b := range ip.readElem(a.st, q.img, from.Add(q.j)) {
			q.c.sameVal(ip, b.st, "C25", a.v, b.v, q.name+": a byte returned is not that of the image")
		}
	}
}

// takes checks the bytes of the image after a write.
func (q *f8Run) takes(st *State, data SliceV, at Poly) {
	ip := q.ip
	ge, lt := st.fork(Le(at, q.k))
	if lt != nil {
		q.is(lt, "C25", q.d0, "another byte of the image changes")
	}
	if ge == nil {
		return
	}
	in, out := ge.fork(Lt(q.k, at.Add(data.len)))
	if out != nil {
		q.is(out, "C25", q.d0, "another byte of the image changes")
	}
	if in == nil {
		return
	}
	for _, a := range ip.readElem(in, data.reg, data.off.Add(q.k.Sub(at))) {
		q.is(a.st, "C25", a.v, "a byte of the image is not the one written there")
	}
}

func (q *f8Run) untouched(st *State, rule string, why string) {
	q.ip.Obligations++
	if gInt(st, "#wrote") == 1 {
		q.ip.report(st, rule, q.name+" "+why)
	}
}

// ------------------------------------------------------------------------ C25

func (c *Checker) f8Method(sh *f8Shape, name string, body func(q *f8Run)) {
	fn := c.prog.Method(f8Pkg, "FAT8Driver", name)
	if fn == nil {
		c.anchor("method FAT8Driver." + name + " not found")
		return
	}
	c.guard("FAT8Driver."+name, func() {
		q := c.newF8(sh, name, fn)
		body(q)
		c.collect(q.ip)
	})
}

func (q *f8Run) argInt(i int) Poly {
	if i < len(q.args) {
		if v, ok := cast(q.args[i]); ok {
			return v.p
		}
	}
	panic("argument of " + q.name + " not understood")
}

func (q *f8Run) argSlice(i int) SliceV {
	if i < len(q.args) {
		if v, ok := q.args[i].(SliceV); ok {
			return v
		}
	}
	panic("argument of " + q.name + " not understood")
}

// whole is the condition that a number of bytes is a whole number of sectors, and that number.
func whole(st *State, n Poly) (Rel, Poly) {
	d := st.floorDiv(n, Const(128))
	return Eq(n, d.Mul(Const(128))), d
}

func (c *Checker) f8Sectors(sh *f8Shape) {
	S := Const(128)
	for _, l := range f8Layouts() {
		l := l
		total, clusters, bpc := Const(l.blocks), Const(l.f("TotalClusters")), Const(l.f("BytesPerCluster"))
		c.f8Method(sh, "ReadDiskBlocks", func(q *f8Run) {
			st := q.mount(l)
			q.run(st, "C25", q.params(st), func(s *State, ok bool) {
				start, n := q.argInt(1), q.argInt(2)
				q.untouched(s, "C25", "changes the image")
				valid := Le(start.Add(n), total)
				if !ok {
					q.unjustified(s, "C25", "refuses to read sectors of the image", valid)
					return
				}
				q.c.proveRel(q.ip, s, "C25", valid, "sectors beyond the end of the image are read")
				q.gives(s, s.results[0], start.Mul(S), n.Mul(S))
			})
		})
		c.f8Method(sh, "WriteDiskBlocks", func(q *f8Run) {
			st := q.mount(l)
			q.run(st, "C25", q.params(st), func(s *State, ok bool) {
				start, data := q.argInt(1), q.argSlice(2)
				even, n := whole(s, data.len)
				valid := Le(start.Add(n), total)
				if !ok {
					q.unjustified(s, "C25", "refuses to write sectors of the image", even, valid)
					return
				}
				q.c.proveRel(q.ip, s, "C25", even, "part of a sector is written")
				q.c.proveRel(q.ip, s, "C25", valid, "sectors beyond the end of the image are written")
				q.takes(s, data, start.Mul(S))
			})
		})
		c.f8Method(sh, "IsValidCluster", func(q *f8Run) {
			st := q.mount(l)
			q.run(st, "C25", q.params(st), func(s *State, ok bool) {
				n := q.argInt(1)
				b, isB := s.results[0].(BoolV)
				if !isB {
					q.ip.report(s, "C25", "result of IsValidCluster not understood")
					return
				}
				yes, no := s.fork(b.r)
				if yes != nil {
					q.c.proveRel(q.ip, yes, "C25", Le(Const(1), n), "cluster 0 is valid")
					q.c.proveRel(q.ip, yes, "C25", Le(n, clusters), "a cluster beyond the last one is valid")
				}
				if no != nil {
					q.unjustified(no, "C25", "refuses a cluster of the image", Le(Const(1), n), Le(n, clusters))
				}
			})
		})
		valid := func(n Poly) []Rel { return []Rel{Le(Const(1), n), Le(n, clusters)} }
		check := func(q *f8Run, s *State, n Poly) {
			for _, r := range valid(n) {
				q.c.proveRel(q.ip, s, "C25", r, "a cluster that does not exist is used")
			}
		}
		c.f8Method(sh, "ReadAbsoluteCluster", func(q *f8Run) {
			st := q.mount(l)
			q.run(st, "C25", q.params(st), func(s *State, ok bool) {
				n := q.argInt(1)
				q.untouched(s, "C25", "changes the image")
				if !ok {
					q.unjustified(s, "C25", "refuses to read a cluster of the image", valid(n)...)
					return
				}
				check(q, s, n)
				q.gives(s, s.results[0], n.AddConst(-1).Mul(bpc), bpc)
			})
		})
		c.f8Method(sh, "WriteAbsoluteCluster", func(q *f8Run) {
			st := q.mount(l)
			q.run(st, "C25", q.params(st), func(s *State, ok bool) {
				n, data := q.argInt(1), q.argSlice(2)
				if !ok {
					q.unjustified(s, "C25", "refuses to write a cluster of the image", append(valid(n), Eq(data.len, bpc))...)
					return
				}
				check(q, s, n)
				q.c.proveEq(q.ip, s, "C25", data.len, bpc, "bytes written to a cluster")
				q.takes(s, data, n.AddConst(-1).Mul(bpc))
			})
		})
		for _, write := range []bool{false, true} {
			write := write
			name := "ReadFileCluster"
			if write {
				name = "WriteFileCluster"
			}
			c.f8Method(sh, name, func(q *f8Run) {
				st := q.mount(l)
				args := q.params(st)
				list, ok := q.clusterList(st, args[1])
				if !ok {
					q.ip.report(st, "anchor", "the clusters of a directory entry were not found")
					return
				}
				idx := args[2].(IntV).p
				var num Poly
				for _, sv := range q.ip.readElem(st, list.reg, list.off.Add(idx)) {
					iv, _ := cast(sv.v)
					num = iv.p
				}
				st.assume(Le(num, Const(1<<30)))
				st.assume(Rel{num, GE})
				q.run(st, "C25", args, func(s *State, ok bool) {
					exists := append(valid(num), Lt(idx, list.len))
					if !ok {
						if write {
							exists = append(exists, Eq(q.argSlice(3).len, bpc))
						}
						q.unjustified(s, "C25", "refuses a cluster of the file", exists...)
						return
					}
					q.c.proveRel(q.ip, s, "C25", Lt(idx, list.len), "a cluster beyond those of the file is used")
					check(q, s, num)
					if write {
						q.takes(s, q.argSlice(3), num.AddConst(-1).Mul(bpc))
					} else {
						q.untouched(s, "C25", "changes the image")
						q.gives(s, s.results[0], num.AddConst(-1).Mul(bpc), bpc)
					}
				})
			})
		}
	}
}

// clusterList finds the list of clusters of a directory entry.
func (q *f8Run) clusterList(st *State, v Value) (SliceV, bool) {
	p, ok := v.(PtrV)
	if !ok {
		return SliceV{}, false
	}
	t := q.c.prog.Type(f8Pkg, "DirectoryEntry")
	pc := q.c.prog.Type(f8Pkg, "PhysicalCluster")
	if t == nil || pc == nil {
		return SliceV{}, false
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && namedOf(sl.Elem()) == pc {
			l, ok := q.ip.loadCell(st, p.obj, fieldPath(p.path, i), s.Field(i).Type()).(SliceV)
			return l, ok
		}
	}
	return SliceV{}, false
}

// ------------------------------------------------------------------------ C26

// copies makes the second and third table copies of the first.
func (q *f8Run) copies(st *State, l f8Layout) {
	n := Const(l.f("SectorsPerFAT") * 128)
	f := Const(l.f("FATsStart") * 128)
	for m := int64(1); m <= 2; m++ {
		q.ip.copyRange(st, q.img, f.Add(n.Mul(Const(m))), q.img, f, n)
	}
}

// identical checks that the tables are identical, and that a slice is one of them.
func (q *f8Run) identical(st *State, l f8Layout, v Value) {
	ip := q.ip
	n := Const(l.f("SectorsPerFAT") * 128)
	f := Const(l.f("FATsStart") * 128)
	s, ok := q.buffer(v)
	if !ok {
		ip.report(st, "C26", q.name+": the table is not understood")
		return
	}
	q.c.proveEq(ip, st, "C26", s.len, n, q.name+": size of the table")
	in := st.clone()
	if !in.assume(Lt(q.j, n)) {
		return
	}
	for _, a := range ip.readElem(in, s.reg, s.off.Add(q.j)) {
		for m := int64(0); m < 3; m++ {
			for _, b := range ip.readElem(a.st.clone(), q.img, f.Add(n.Mul(Const(m))).Add(q.j)) {
				q.c.sameVal(ip, b.st, "C26", a.v, b.v, fmt.Sprintf("%s: an entry of the table loaded may differ from copy %d", q.name, m+1))
			}
		}
	}
}

func (c *Checker) f8Tables(sh *f8Shape) {
	for _, l := range f8Layouts() {
		l := l
		for _, same := range []bool{false, true} {
			same := same
			c.f8Method(sh, "GetFAT", func(q *f8Run) {
				st := q.mount(l)
				if same {
					q.copies(st, l)
				}
				q.run(st, "C26", q.params(st), func(s *State, ok bool) {
					q.untouched(s, "C26", "changes the image")
					if ok {
						q.identical(s, l, s.results[0])
					} else if same {
						q.unjustified(s, "C26", "refuses identical tables")
					}
				})
			})
		}
		if sh.fat < 0 {
			continue
		}
		c.f8Method(sh, "Flush", func(q *f8Run) {
			st := q.mount(l)
			n := Const(l.f("SectorsPerFAT") * 128)
			f := Const(l.f("FATsStart") * 128)
			fat := q.ip.freshSlice(st, "table", types.Typ[types.Byte])
			fat.hasNil = false
			st.assume(Eq(fat.len, n))
			q.set(st, sh.fat, fat)
			q.run(st, "C26", q.params(st), func(s *State, ok bool) {
				if !ok {
					q.unjustified(s, "C26", "fails without a failure of the image")
					return
				}
				ge, lt := s.fork(Le(f, q.k))
				if lt != nil {
					q.is(lt, "C26", q.d0, "a byte before the tables changes")
				}
				for m := int64(0); m < 3 && ge != nil; m++ {
					lo := f.Add(n.Mul(Const(m)))
					in, out := ge.fork(Lt(q.k, lo.Add(n)))
					if in != nil {
						for _, a := range q.ip.readElem(in, fat.reg, fat.off.Add(q.k.Sub(lo))) {
							q.is(a.st, "C26", a.v, fmt.Sprintf("copy %d of the table on the image is not the table", m+1))
						}
					}
					ge = out
				}
				if ge != nil {
					q.is(ge, "C26", q.d0, "a byte after the tables changes")
				}
			})
		})
	}
}

// ------------------------------------------------------------------------ C27

func (c *Checker) f8Geometry(sh *f8Shape) {
	fn := c.prog.Func(f8Pkg, "GetGeometry")
	if fn == nil {
		c.anchor("function fat8.GetGeometry not found")
		return
	}
	c.guard("fat8.GetGeometry", func() {
		q := c.newF8(sh, "GetGeometry", fn)
		ip := q.ip
		st := q.base(Const(0))
		args := q.params(st)
		seen := map[int64]bool{}
		q.run(st, "C27", args, func(s *State, ok bool) {
			n := q.argInt(0)
			if !ok {
				for _, l := range f8Layouts() {
					q.unjustified(s, "C27", fmt.Sprintf("refuses a supported size (%d blocks)", l.blocks), Eq(n, Const(l.blocks)))
				}
				return
			}
			rest := s
			for _, l := range f8Layouts() {
				if rest == nil {
					break
				}
				var is *State
				is, rest = rest.fork(Eq(n, Const(l.blocks)))
				if is != nil {
					seen[l.blocks] = true
					q.layout(is, "C27", l, is.results[0])
				}
			}
			ip.Obligations++
			if rest != nil {
				ip.report(rest, "C27", "GetGeometry may accept a size that is not supported")
			}
		})
		if len(seen) != 3 {
			ip.report(st, "anchor", "GetGeometry does not accept every supported size")
		}
		c.collect(ip)
	})
}

// layout compares a geometry with a layout.
func (q *f8Run) layout(st *State, rule string, l f8Layout, v Value) {
	ip := q.ip
	sv, ok := v.(StructV)
	if !ok {
		ip.report(st, rule, q.name+": the geometry is not understood")
		return
	}
	names := []string{}
	for n := range l.fields {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		i := fieldIndex(q.sh.geoT, n)
		if i < 0 || i >= len(sv.f) {
			ip.report(st, "anchor", "Geometry has no field "+n)
			continue
		}
		q.c.sameVal(ip, st, rule, sv.f[i], IntV{p: Const(l.fields[n])}, fmt.Sprintf("%s: %s of an image of %d blocks", q.name, n, l.blocks))
	}
}

func (c *Checker) f8Format(sh *f8Shape) {
	layouts := f8Layouts()
	type job struct {
		i    int
		part int
	}
	jobs := []job{{-2, 0}, {-1, 0}}
	for i := range layouts {
		for part := 0; part < f8Parts; part++ {
			jobs = append(jobs, job{i, part})
		}
	}
	for _, jb := range jobs {
		i, part := jb.i, jb.part
		c.f8Method(sh, "FormatImage", func(q *f8Run) {
			ip := q.ip
			size := AtomPoly(NewAtomRange("size of the image", 0, 1<<30))
			st := q.base(size)
			q.opt = AtomPoly(NewAtomRange("size asked for", 0, 1<<30))
			q.set(st, sh.mounted, boolConst(i == -2))
			name := "a mounted image"
			switch {
			case i == -1:
				name = "an image of an unsupported size"
				for _, l := range layouts {
					st.assume(Rel{q.opt.AddConst(-l.blocks * 128), NE})
				}
			case i >= 0:
				q.opt = Const(layouts[i].blocks * 128)
			}
			args := q.params(st)
			if i < 0 {
				q.inputs()
				for _, s := range ip.Run(ip.rootOn(st, q.fn, args)) {
					switch s.status {
					case panicked:
						ip.report(s, "C27", "formatting may panic: "+s.note)
					case returned:
						ip.Obligations += 2
						q.untouched(s, "C27", "changes "+name)
						if good, _ := s.fork(ip.isNil(s, s.results[0])); good != nil {
							ip.report(good, "C27", "FormatImage may accept "+name)
						}
					}
				}
				return
			}
			l := layouts[i]
			q.within(st, l, part)
			q.run(st, "C27", args, func(s *State, ok bool) {
				if !ok {
					q.unjustified(s, "C27", "refuses a supported size")
					return
				}
				q.c.proveEq(ip, s, "C27", gPoly(s, "S"), q.opt, "size of the image after formatting")
				avail := Const(2*l.f("TotalTracks") - 2).Mul(Const(l.f("SectorsPerCluster")))
				q.reports(s, "C27", l, map[string]Poly{"BlocksFree": avail, "BlocksAvailable": avail, "Files": Const(0),
					"FilesFree": Const(8 * (l.f("InfoSectorStart") - l.f("DirectoryTrackStart")))}, "formatting")
				q.formatted(s, l)
			})
		})
	}
}

// f8Parts is the number of parts of an image within follows: what is before the directory, the directory, the
// information sector, the tables, and the rest.
const f8Parts = 7

// within makes the byte followed one of a part of the image; in a buffer it is expected at the same distance from the
// start of the part.
func (q *f8Run) within(st *State, l f8Layout, part int) {
	n := l.f("SectorsPerFAT") * 128
	dir, info, fats := l.f("DirectoryTrackStart")*128, l.f("InfoSectorStart")*128, l.f("FATsStart")*128
	bounds := []int64{0, dir, info, fats, fats + n, fats + 2*n, fats + 3*n}
	st.assume(Le(Const(bounds[part]), q.k))
	if part+1 < len(bounds) {
		st.assume(Lt(q.k, Const(bounds[part+1])))
	}
	q.j = q.k.AddConst(-bounds[part])
	// Or from the start of the directory, of the tables, or of the image.
	q.js = nil
	for _, b := range []int64{dir, fats, 0} {
		if b <= bounds[part] && b != bounds[part] {
			q.js = append(q.js, q.k.AddConst(-b))
		}
	}
}

// formatted checks an arbitrary byte of a formatted image.
func (q *f8Run) formatted(st *State, l f8Layout) {
	n := l.f("SectorsPerFAT") * 128
	dir, info, fats := l.f("DirectoryTrackStart")*128, l.f("InfoSectorStart")*128, l.f("FATsStart")*128
	dc := l.f("DirectoryTrackStart") / l.f("SectorsPerCluster")
	type part struct {
		end  int64
		want Value
		msg  string
	}
	b := func(x int64) Value { return IntV{p: Const(x)} }
	parts := []part{
		{dir, q.d0, "a byte before the directory changes"},
		{info, b(0xff), "a byte of the directory"},
		{fats, b(0), "a byte of the information sector"},
	}
	for m := int64(0); m < 3; m++ {
		f := fats + m*n
		name := fmt.Sprintf("an entry of table %d", m+1)
		parts = append(parts, part{f + dc, b(0xff), name}, part{f + dc + 2, b(0xfe), name + " for the directory track"}, part{f + n, b(0xff), name})
	}
	for _, p := range parts {
		var in *State
		if st == nil {
			return
		}
		in, st = st.fork(Lt(q.k, Const(p.end)))
		if in != nil {
			q.is(in, "C27", p.want, p.msg)
		}
	}
	if st != nil {
		q.is(st, "C27", q.d0, "a byte after the directory track changes")
	}
}

// ------------------------------------------------------------------------ C28

func (c *Checker) f8Mount(sh *f8Shape) {
	layouts := f8Layouts()
	fatOK := map[int]int{}
	runs := 0
	for i := -2; i < len(layouts); i++ {
		for v := 0; v < 4; v++ {
			i, v := i, v
			if i < 0 && v > 0 {
				continue
			}
			c.f8Method(sh, "Mount", func(q *f8Run) {
				ip := q.ip
				size := AtomPoly(NewAtomRange("size of the image", 0, 1<<30))
				st := q.base(size)
				q.set(st, sh.mounted, boolConst(i == -2))
				if i == -1 {
					for _, l := range layouts {
						d := st.floorDiv(size, Const(128))
						st.assume(Rel{d.AddConst(-l.blocks), NE})
					}
				}
				if i < 0 {
					what := []string{"a mounted image", "an image of an unsupported size"}[i+2]
					args := q.params(st)
					before := q.snapshot(st)
					q.inputs()
					for _, s := range ip.Run(ip.rootOn(st, q.fn, args)) {
						switch s.status {
						case panicked:
							ip.report(s, "C28", "mounting may panic: "+s.note)
						case returned:
							ip.Obligations += 2
							q.untouched(s, "C28", "changes "+what)
							if good, _ := s.fork(ip.isNil(s, s.results[0])); good != nil {
								ip.report(good, "C28", "Mount may accept "+what)
							}
							if i == -2 {
								q.unchanged(s, before)
							} else {
								q.isMounted(s, false)
							}
						}
					}
					return
				}
				l := layouts[i]
				st.assume(Le(Const(l.blocks*128), size))
				st.assume(Lt(size, Const((l.blocks+1)*128)))
				// Entry j of the table: free or not.
				f := Const(l.f("FATsStart") * 128)
				clusters := Const(l.f("TotalClusters"))
				same := v&1 == 1
				if same {
					q.copies(st, l)
				}
				st.assume(Lt(q.j, clusters))
				free := v&2 == 2
				q.k = f.Add(q.j)
				track := ip.Track
				ip.Track = func(st *State, r Region) []Poly {
					// Numbers put into lists are followed by onAppend.
					if strings.HasPrefix(ip.regions[r].name, "append") {
						return nil
					}
					return track(st, r)
				}
				for _, sv := range ip.readElem(st, q.img, q.k) {
					st = sv.st
					e, _ := cast(sv.v)
					if free {
						st.assume(Eq(e.p, Const(0xff)))
					} else {
						st.assume(Rel{e.p.AddConst(-0xff), NE})
					}
				}
				gSet(st, "#in", 0)
				gSet(st, "napp", 0)
				gSet(st, "applist", 0)
				ip.OnAppend = func(ip *Interp, st *State, dst, src, res SliceV) { q.onAppend(st, dst, src) }
				q.run(st, "C28", q.params(st), func(s *State, ok bool) {
					q.untouched(s, "C28", "changes the image")
					q.isMounted(s, ok)
					if !ok {
						if same {
							q.unjustified(s, "C28", "refuses an image with identical tables")
						}
						return
					}
					runs++
					q.layout(s, "C28", l, q.cell(s, sh.geo))
					q.mountedState(s, l, free, fatOK)
				})
			})
		}
	}
	for _, f := range sh.bytes {
		if fatOK[f] == runs && runs > 0 {
			sh.fat = f
		}
	}
	for _, l := range layouts {
		l := l
		c.f8Method(sh, "Unmount", func(q *f8Run) {
			st := q.mount(l)
			q.run(st, "C28", q.params(st), func(s *State, ok bool) {
				if ok {
					q.ip.Obligations++
					if b, isB := q.cell(s, sh.mounted).(BoolV); !isB || !s.prove(b.r.Neg()) {
						q.ip.report(s, "C28", "the image is considered mounted after unmounting it")
					}
				} else {
					q.unjustified(s, "C28", "refuses to unmount")
				}
			})
		})
	}
}

// snapshot reads all fields.
func (q *f8Run) snapshot(st *State) []Value {
	var out []Value
	for i := 0; i < q.sh.st.NumFields(); i++ {
		out = append(out, q.cell(st, i))
	}
	return out
}

func (q *f8Run) unchanged(st *State, before []Value) {
	for i, v := range before {
		q.ip.Obligations++
		if w := q.cell(st, i); !valueEq(v, w) {
			q.ip.report(st, "C28", "a refused Mount changes "+q.sh.st.Field(i).Name())
		}
	}
}

func (q *f8Run) isMounted(st *State, want bool) {
	q.ip.Obligations++
	b, ok := q.cell(st, q.sh.mounted).(BoolV)
	if !ok {
		q.ip.report(st, "C28", "whether the image is mounted is not understood")
		return
	}
	r := b.r
	if !want {
		r = r.Neg()
	}
	if !st.prove(r) {
		msg := "the image is considered mounted although mounting it failed"
		if want {
			msg = "the image is not considered mounted after mounting it"
		}
		q.ip.report(st, "C28", msg)
	}
}

// onAppend follows the cluster j+1 in lists of clusters.
func (q *f8Run) onAppend(st *State, dst, src SliceV) {
	n, ok := src.len.IsConst()
	if !ok || n != 1 || src.reg == 0 {
		return
	}
	if b, ok := q.ip.regions[src.reg].elem.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return
	}
	ip := q.ip
	ip.Obligations++
	for _, sv := range ip.readElem(st, src.reg, src.off) {
		v, ok := cast(sv.v)
		if !ok {
			continue
		}
		if st.proveEq(v.p, q.j.AddConst(1)) {
			if gInt(st, "#in") == 1 {
				ip.report(st, "C28", "a cluster is put into the list of free clusters twice")
			}
			gSet(st, "#in", 1)
		} else if !st.prove(Rel{v.p.Sub(q.j).AddConst(-1), NE}) {
			// Which cluster it is, is not known: as bad as not being the right one.
			ip.report(st, "C28", "the number put into the list of free clusters is not that of the entry looked at")
		}
	}
	gPut(st, "napp", gPoly(st, "napp").AddConst(1))
}

// mountedState checks the state derived from a valid image.
func (q *f8Run) mountedState(st *State, l f8Layout, free bool, fatOK map[int]int) {
	ip := q.ip
	n := Const(l.f("SectorsPerFAT") * 128)
	var lists []int
	found := false
	for _, f := range q.sh.bytes {
		s, ok := q.buffer(q.cell(st, f))
		if ok && st.proveEq(s.len, n) && !found && q.isTable(st, l, s) {
			found = true
			fatOK[f]++
			q.identical(st, l, s)
			continue
		}
		lists = append(lists, f)
	}
	ip.Obligations++
	if !found {
		ip.report(st, "C26", "the table of the image is not kept by Mount")
	}
	info := Const(l.f("InfoSectorStart") * 128)
	for _, f := range q.sh.u8 {
		for _, sv := range ip.readElem(st.clone(), q.img, info) {
			q.c.sameVal(ip, sv.st, "C28", q.cell(sv.st, f), sv.v, "the default attributes are not those of the information sector")
		}
	}
	// The list of free clusters.
	napp := gPoly(st, "napp")
	ok := false
	for _, f := range lists {
		s, isS := q.buffer(q.cell(st, f))
		ok = ok || isS && st.proveEq(s.len, napp)
	}
	ip.Obligations += 2
	if !ok {
		ip.report(st, "C28", "the list of free clusters has others than those found free by Mount")
	}
	if got := gInt(st, "#in") == 1; got != free {
		if free {
			ip.report(st, "C28", "a free cluster may be missing in the list of free clusters")
		} else {
			ip.report(st, "C28", "a cluster in use may be in the list of free clusters")
		}
	}
	left := napp.Mul(Const(l.f("SectorsPerCluster")))
	q.reports(st, "C28", l, map[string]Poly{"BlocksFree": left, "BlocksAvailable": left}, "mounting")
}

// reports checks the status of the file system the driver keeps.
func (q *f8Run) reports(st *State, rule string, l f8Layout, want map[string]Poly, after string) {
	t := q.sh.st.Field(q.sh.stat).Type().Underlying().(*types.Struct)
	sv, _ := q.cell(st, q.sh.stat).(StructV)
	want["BlockSize"], want["TotalBlocks"] = Const(128), Const(l.blocks)
	// Six characters, a period and three more.
	want["MaxNameLength"] = Const(10)
	for i := 0; i < t.NumFields() && i < len(sv.f); i++ {
		if w, ok := want[t.Field(i).Name()]; ok {
			q.c.sameVal(q.ip, st, rule, sv.f[i], IntV{p: w}, "FSStat."+t.Field(i).Name()+" after "+after)
		}
	}
}

// isTable tells if a slice holds the entry followed of the first table.
func (q *f8Run) isTable(st *State, l f8Layout, s SliceV) bool {
	ip := q.ip
	if s.reg == 0 {
		return false
	}
	for _, a := range ip.readElem(st.clone(), s.reg, s.off.Add(q.j)) {
		for _, b := range ip.readElem(a.st, q.img, Const(l.f("FATsStart")*128).Add(q.j)) {
			x, ok := cast(a.v)
			y, ok2 := cast(b.v)
			if !ok || !ok2 || !b.st.proveEq(x.p, y.p) {
				return false
			}
		}
	}
	return true
}

// ------------------------------------------------------------------------

func (c *Checker) fat8() {
	sh, err := f8Roles(c.prog)
	if err != nil {
		c.anchor(err.Error())
		return
	}
	c.f8Sectors(sh)
	c.f8Geometry(sh)
	c.f8Mount(sh)
	c.f8Tables(sh)
	c.f8Format(sh)
	if sh.fat < 0 {
		found := false
		for _, f := range c.findings {
			found = found || strings.HasPrefix(f.rule, "C2")
		}
		if !found {
			c.anchor("the field of FAT8Driver with the allocation table was not found")
		}
	}
}

func init() {
	crash := []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"}
	f8 := func(c *Checker) { c.once("fat8", func(s *Checker) { s.fat8() }) }
	def := func(id, title, explain string, rules ...string) {
		register(&check{id: id, title: title, run: f8, rules: rules, floors: map[string]int{"roots": 40, "obligations": 200}, explain: explain})
	}
	def("C25", "FAT8 clusters and sectors are addressed exactly", "Every exported method that reads or writes sectors or clusters was interpreted for each supported layout with arbitrary arguments, following one arbitrary byte of the image and one of the buffer.", crash...)
	def("C26", "FAT8 keeps three identical FAT copies and rejects differing ones", "GetFAT, Mount and Flush were interpreted for each supported layout on an arbitrary image, following one arbitrary entry.")
	def("C27", "FAT8 geometry and formatting follow the disk layout", "GetGeometry was interpreted for an arbitrary size, FormatImage for every size and state, following one arbitrary byte of the image.")
	def("C28", "Mounting a FAT8 image derives its state only from a valid image", "Mount was interpreted for every size and state and an arbitrary image, following one arbitrary cluster.")
}
