package main

// Checks of the block cache (C01 to C07): every exported operation is analysed from an arbitrary cache that
// satisfies the cache's invariant, following one arbitrary block k and one arbitrary byte r of it.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	bcPkg   = "file_systems/common/blockcache"
	oorName = "github.com/dargueta/disko.ErrArgumentOutOfRange"
)

// bcShape says which field of the cache plays which role.
type bcShape struct {
	named                *types.Named
	st                   *types.Struct
	fetch, flush, resize int
	data                 int
	bits                 []int
	dirty, loaded        int
	block, total         int
}

// bcFieldRoles finds the fields by their types and by what the getters return.
func bcFieldRoles(p *Program) (*bcShape, error) {
	n := p.Type(bcPkg, "BlockCache")
	if n == nil {
		return nil, fmt.Errorf("type BlockCache not found")
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("BlockCache is not a struct")
	}
	sh := &bcShape{named: n, st: s, fetch: -1, flush: -1, resize: -1, data: -1, block: -1, total: -1}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch shortName(t.String()) {
		case "FetchBlockCallback":
			sh.fetch = i
			continue
		case "FlushBlockCallback":
			sh.flush = i
			continue
		case "ResizeCallback":
			sh.resize = i
			continue
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
				if _, isn := t.(*types.Named); b.Kind() == types.Bool || isn {
					sh.bits = append(sh.bits, i)
				} else if b.Kind() == types.Uint8 {
					if sh.data >= 0 {
						return nil, fmt.Errorf("several byte slices in BlockCache")
					}
					sh.data = i
				}
			}
		}
	}
	if sh.fetch < 0 || sh.flush < 0 || sh.resize < 0 || sh.data < 0 || len(sh.bits) != 2 {
		return nil, fmt.Errorf("cannot identify the fields of BlockCache")
	}
	for _, g := range []struct {
		name string
		f    *int
	}{{"BytesPerBlock", &sh.block}, {"TotalBlocks", &sh.total}} {
		fn := p.Method(bcPkg, "BlockCache", g.name)
		if fn == nil {
			return nil, fmt.Errorf("method %s not found", g.name)
		}
		p.reset()
		ip := NewInterp(p)
		o := ip.newObj("cache", n, false)
		ip.objs[o].param = true
		for _, st := range ip.Run(ip.Root(fn, []Value{PtrV{obj: o}})) {
			if len(st.results) == 1 {
				for k, v := range ip.initCells {
					iv, ok := v.(IntV)
					rv, ok2 := st.results[0].(IntV)
					if ok && ok2 && k.obj == o && iv.p.Equal(rv.p) {
						fmt.Sscanf(k.path, ".%d", g.f)
					}
				}
			}
		}
		if *g.f < 0 {
			return nil, fmt.Errorf("method %s does not return a field", g.name)
		}
	}
	return sh, nil
}

type bcRun struct {
	loads  *bcLoads
	c      *Checker
	ip     *Interp
	sh     *bcShape
	obj    ObjID
	k, r   Poly
	b, t   Poly // initial block size and number of blocks
	kAtom  Atom
	bitReg [2]Region // initial bit regions: dirty, loaded
	dReg   Region
	d0, l0 BoolV
	D0, F  Value // byte r of block k in the cache at first, and in the storage
	W0     Value // byte of the buffer that WriteAt writes to byte r of block k
	method string
	fn     *ssa.Function
	args   []Value
}

func (q *bcRun) path(f int) string { return fmt.Sprintf(".%d", f) }

// cell reads a field of the cache.
func (q *bcRun) cell(st *State, f int) Value {
	return q.ip.loadCell(st, q.obj, q.path(f), q.sh.st.Field(f).Type())
}

func (q *bcRun) intCell(st *State, f int) Poly {
	if v, ok := q.cell(st, f).(IntV); ok {
		return v.p
	}
	return AtomPoly(NewAtom("?"))
}

func (q *bcRun) slice(st *State, f int) SliceV {
	s, _ := q.ip.asSlice(st, q.cell(st, f))
	return s
}

// isBoolSlice tells if a state field is a slice of booleans and not a bitmap.
func (q *bcRun) isBoolSlice(f int) bool {
	b, ok := q.sh.st.Field(f).Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// bit reads a state bit of a block.
func (q *bcRun) bit(st *State, f int, k Poly) []stVal {
	s := q.slice(st, f)
	if s.reg == 0 {
		return []stVal{{st, boolConst(false)}}
	}
	if q.isBoolSlice(f) {
		return q.ip.readElem(st, s.reg, s.off.Add(k))
	}
	return q.ip.readElem(st, q.ip.bitRegion(st, s.reg), s.off.Mul(Const(8)).Add(k))
}

// byteAt reads a byte of the cache's data.
func (q *bcRun) byteAt(st *State, idx Poly) []stVal {
	s := q.slice(st, q.sh.data)
	if s.reg == 0 {
		return nil
	}
	return q.ip.readElem(st, s.reg, s.off.Add(idx))
}

func gInt(st *State, k string) int64 {
	v, ok := st.ghost[k].(IntV)
	if !ok {
		return 0
	}
	c, ok := v.p.IsConst()
	if !ok {
		// Decide from the facts.
		for i := int64(0); i < 4; i++ {
			if st.proveEq(v.p, Const(i)) {
				return i
			}
		}
		return -1
	}
	return c
}

func gSet(st *State, k string, n int64) { st.ghost[k] = IntV{p: Const(n)} }

func cast(v Value) (IntV, bool) { i, ok := v.(IntV); return i, ok }

// storageCallback models a call of the fetch or flush callback.
func (q *bcRun) storageCallback(fetch bool) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		what := "write-back"
		if fetch {
			what = "fetch"
		}
		idx, ok := cast(c.args[0])
		buf, ok2 := ip.asSlice(st, c.args[1])
		if !ok || !ok2 || idx.wrap || buf.reg == 0 {
			ip.report(st, "C05", what+" callback: block index or buffer not understood")
			return ip.opaque(st, c)
		}
		ip.CallsSeen["callback "+what]++
		total, bs := q.intCell(st, q.sh.total), q.intCell(st, q.sh.block)
		ip.oblige(st, "C05", Le(Const(0), idx.p), what+" callback: block index")
		ip.oblige(st, "C05", Lt(idx.p, total), what+" callback: block index below the number of blocks")
		ip.oblige(st, "C05", Eq(buf.len, bs), what+" callback: buffer of one block")
		if st.status == dead {
			return nil
		}
		var out []*State
		isk, notk := st.fork(Eq(idx.p, q.k))
		finish := func(s *State, k bool) {
			if !fetch && k {
				// The buffer must hold the block's bytes.
				for _, x := range ip.readElem(s, buf.reg, buf.off.Add(q.r)) {
					for _, y := range q.byteAt(x.st, q.k.Mul(bs).Add(q.r)) {
						q.c.sameVal(ip, y.st, "C05", x.v, y.v, "the buffer given to the write-back callback does not hold the bytes of the block")
					}
				}
			}
			if fetch {
				if k {
					for _, x := range q.bit(s, q.sh.loaded, q.k) {
						if b, ok := x.v.(BoolV); !ok || !x.st.prove(b.r.Neg()) {
							ip.report(x.st, "C03", "a block may be fetched although it is already in the cache")
						}
					}
				}
				ip.havocRange(s, buf.reg, buf.off, buf.off.Add(buf.len))
			}
			e := ip.unknownErr(errorType, "err("+what+")")
			e.origin = &Event{kind: "call", name: what, instr: c.instr}
			good, bad := s.fork(Rel{AtomPoly(e.nilAtom).AddConst(-1), EQ})
			if good != nil {
				if k {
					if fetch {
						if gInt(good, "has") != 0 {
							ip.report(good, "C03", "a block is fetched twice")
						}
						gSet(good, "has", 1)
						ip.writeElem(good, buf.reg, buf.off.Add(q.r), q.F)
					} else {
						gSet(good, "flushed", 1)
					}
				}
				c.ret(ip, good, NilV{})
				ip.event(good, &Event{kind: "call", name: what, instr: c.instr, args: c.args})
				out = append(out, good)
			}
			if bad != nil {
				gSet(bad, "failed", 1)
				bad.ghost["cberr"] = e
				if k && fetch {
					gSet(bad, "fetchfail", 1)
				}
				c.ret(ip, bad, e)
				ip.event(bad, &Event{kind: "call", name: what + " (fails)", instr: c.instr, args: c.args})
				out = append(out, bad)
			}
		}
		if isk != nil {
			finish(isk, true)
		}
		if notk != nil {
			finish(notk, false)
		}
		return out
	}
}

func (q *bcRun) resizeCallback(ip *Interp, st *State, c *CallCtx) []*State {
	n, ok := cast(c.args[0])
	if !ok || n.wrap {
		ip.report(st, "C06", "resize callback: new size not understood")
		return ip.opaque(st, c)
	}
	ip.CallsSeen["callback resize"]++
	if gInt(st, "resized") != 0 {
		ip.report(st, "C06", "the resize callback may be called more than once")
	}
	if q.method == "Resize" {
		if a, ok := cast(q.args[1]); ok {
			ip.oblige(st, "C06", Eq(n.p, a.p), "resize callback gets the requested number of blocks")
		}
	}
	// Nothing may have changed before.
	q.unchanged(st, "C06", "before the resize callback was called")
	e := ip.unknownErr(errorType, "err(resize)")
	e.origin = &Event{kind: "call", name: "resize", instr: c.instr}
	good, bad := st.fork(Rel{AtomPoly(e.nilAtom).AddConst(-1), EQ})
	var out []*State
	if good != nil {
		gSet(good, "resized", 1)
		c.ret(ip, good, NilV{})
		out = append(out, good)
	}
	if bad != nil {
		gSet(bad, "failed", 1)
		bad.ghost["cberr"] = e
		c.ret(ip, bad, e)
		out = append(out, bad)
	}
	return out
}

// boolIs checks that a boolean has a value.
func (q *bcRun) boolIs(st *State, rule string, v Value, want bool, msg string) {
	b, ok := v.(BoolV)
	q.ip.Obligations++
	if ok {
		r := b.r
		if !want {
			r = r.Neg()
		}
		if st.prove(r) {
			return
		}
	}
	q.ip.report(st, rule, msg)
}

func (q *bcRun) boolSame(st *State, rule string, v, w Value, msg string) {
	b, ok := v.(BoolV)
	c, ok2 := w.(BoolV)
	q.ip.Obligations++
	if ok && ok2 {
		y, n := st.clone().fork(c.r)
		if (y == nil || y.prove(b.r)) && (n == nil || n.prove(b.r.Neg())) {
			return
		}
	}
	q.ip.report(st, rule, msg)
}

// unchanged checks that the cache is in its initial state.
func (q *bcRun) unchanged(st0 *State, rule, when string) {
	st := st0.clone()
	ip := q.ip
	q.c.proveEq(ip, st, rule, q.intCell(st, q.sh.total), q.t, "number of blocks changed "+when)
	q.c.proveEq(ip, st, rule, q.intCell(st, q.sh.block), q.b, "block size changed "+when)
	if !st.assume(Lt(q.k, q.t)) {
		return
	}
	for _, x := range q.bit(st, q.sh.dirty, q.k) {
		q.boolSame(x.st, rule, x.v, q.d0, "a block's pending mark changed "+when)
		for _, y := range q.bit(x.st, q.sh.loaded, q.k) {
			q.boolSame(y.st, rule, y.v, q.l0, "a block's presence mark changed "+when)
			if y.st.prove(q.l0.r) {
				for _, z := range q.byteAt(y.st, q.k.Mul(q.b).Add(q.r)) {
					q.c.sameVal(ip, z.st, rule, z.v, q.D0, "the contents of a block changed "+when)
				}
			}
		}
	}
}

// newRun prepares the analysis of a method.
func (c *Checker) newBC(sh *bcShape, method string, fn *ssa.Function) *bcRun {
	p := c.prog
	p.reset()
	ip := c.newInterp()
	q := &bcRun{c: c, ip: ip, sh: sh, method: method, fn: fn}
	q.obj = ip.newObj("cache", sh.named, false)
	ip.objs[q.obj].param = true
	q.b = AtomPoly(NewAtomRange("blockSize", 1, 1<<20))
	q.t = AtomPoly(NewAtomRange("totalBlocks", 0, 1<<32))
	q.kAtom = NewAtomRange("k", 0, 1<<40)
	q.k = AtomPoly(q.kAtom)
	q.r = AtomPoly(NewAtomRange("r", 0, 1<<20))
	q.F = IntV{p: AtomPoly(NewAtomRange("F", 0, 255))}
	ip.Skolems = []Atom{q.kAtom}
	ip.Models["github.com/dargueta/disko/"+bcPkg+".FetchBlockCallback"] = q.storageCallback(true)
	ip.Models["github.com/dargueta/disko/"+bcPkg+".FlushBlockCallback"] = q.storageCallback(false)
	ip.Models["github.com/dargueta/disko/"+bcPkg+".ResizeCallback"] = q.resizeCallback
	ip.Track = func(st *State, r Region) []Poly {
		switch {
		case ip.regions[r].elem == types.Typ[types.Bool]:
			return []Poly{q.k}
		case q.isData(r):
			return []Poly{q.k.Mul(q.b).Add(q.r)}
		}
		return nil
	}
	return q
}

func (q *bcRun) isData(r Region) bool {
	if r == q.dReg {
		return true
	}
	b, ok := q.ip.regions[r].elem.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8 && q.ip.regions[r].name == "make"
}

// start makes the initial states.
func (q *bcRun) start() []*State {
	ip := q.ip
	st := NewState()
	n := atoms[len(atoms)-1]
	_ = n
	set := func(f int, v Value) { ip.initCells[cellKey{q.obj, q.path(f)}] = v }
	set(q.sh.block, IntV{p: q.b})
	set(q.sh.total, IntV{p: q.t})
	q.dReg = ip.newRegion(st, "data", types.Typ[types.Byte], false)
	ip.initRegs[q.dReg] = st.regs[q.dReg]
	ip.prog.inputAtoms[st.regs[q.dReg].atom] = true
	dl := q.b.Mul(q.t)
	set(q.sh.data, SliceV{reg: q.dReg, off: Const(0), len: dl, cap: dl})
	for i, f := range []int{q.sh.dirty, q.sh.loaded} {
		elem := q.sh.st.Field(f).Type().Underlying().(*types.Slice).Elem()
		r := ip.newRegion(st, q.sh.st.Field(f).Name(), elem, false)
		ip.initRegs[r] = st.regs[r]
		l := AtomPoly(NewAtomRange("len("+q.sh.st.Field(f).Name()+")", 0, 1<<40))
		m := Const(8)
		if q.isBoolSlice(f) {
			m = Const(1)
			q.bitReg[i] = r
		} else {
			b := ip.bitRegion(st, r)
			q.bitReg[i] = b
			ip.content(st, b)
		}
		st.assume(Le(q.t, l.Mul(m)))
		set(f, SliceV{reg: r, off: Const(0), len: l, cap: l})
	}
	for _, f := range []int{q.sh.fetch, q.sh.flush, q.sh.resize} {
		s := ip.newSym(q.sh.st.Field(f).Type(), q.sh.st.Field(f).Name())
		s.nonnil = true
		set(f, s)
	}
	st.assume(Lt(q.r, q.b))
	q.d0 = q.bit(st, q.sh.dirty, q.k)[0].v.(BoolV)
	q.l0 = q.bit(st, q.sh.loaded, q.k)[0].v.(BoolV)
	q.D0 = q.byteAt(st, q.k.Mul(q.b).Add(q.r))[0].v
	for i := 0; i < len(atoms); i++ {
		ip.prog.inputAtoms[Atom(i)] = true
	}
	// Arguments.
	args := []Value{PtrV{obj: q.obj}}
	for _, p := range q.fn.Params[1:] {
		v := ip.fresh(st, p.Name(), p.Type())
		if iv, ok := v.(IntV); ok {
			st.assume(Le(Const(0), iv.p))
			st.assume(Le(iv.p, Const(1<<40)))
			if a, ok := iv.p.SingleAtom(); ok {
				atoms[a].Lo, atoms[a].HasLo = 0, true
				atoms[a].Hi, atoms[a].HasHi = 1<<40, true
			}
		}
		args = append(args, v)
	}
	q.args = args
	if buf, ok := q.byteParam(); ok && q.method == "WriteAt" && len(q.intParams()) == 1 {
		// The byte of the buffer that is written to byte r of block k.
		off := q.k.Sub(q.intParams()[0]).Mul(q.b).Add(q.r)
		q.W0 = ip.readElem(st, buf.reg, buf.off.Add(off))[0].v
		ip.initRegs[buf.reg] = st.regs[buf.reg]
		track := ip.Track
		ip.Track = func(st *State, r Region) []Poly {
			if r == buf.reg {
				return []Poly{buf.off.Add(off)}
			}
			return track(st, r)
		}
		ip.SplitReads = true
	}
	for i := 0; i < len(atoms); i++ {
		ip.prog.inputAtoms[Atom(i)] = true
	}
	gSet(st, "has", 0)
	gSet(st, "flushed", 0)
	gSet(st, "failed", 0)
	gSet(st, "fetchfail", 0)
	gSet(st, "resized", 0)
	// Cases: the block exists or not, and its initial marks.
	var out []*State
	add := func(s *State, rs ...Rel) {
		s = s.clone()
		for _, r := range rs {
			if !s.assume(r) {
				return
			}
		}
		out = append(out, s)
	}
	in := Lt(q.k, q.t)
	add(st, in, q.d0.r.Neg(), q.l0.r.Neg())
	add(st, in, q.d0.r.Neg(), q.l0.r)
	add(st, in, q.d0.r, q.l0.r)
	add(st, in.Neg())
	for _, s := range out {
		ip.rootOn(s, q.fn, args)
	}
	return out
}

// run analyses the method.
func (q *bcRun) run() {
	ip := q.ip
	states := ip.Run(q.start()...)
	for _, st := range states {
		switch st.status {
		case panicked:
			ip.report(st, "C04", "the operation may panic: "+st.note)
			continue
		case returned:
		default:
			continue
		}
		q.post(st)
	}
	if len(states) == 0 {
		ip.report(&State{}, "anchor", "no path through the method was analysed")
	}
}

func (q *bcRun) byteParam() (SliceV, bool) {
	for i, a := range q.args {
		if s, ok := a.(SliceV); ok && i > 0 {
			return s, true
		}
	}
	return SliceV{}, false
}

func (q *bcRun) intParams() []Poly {
	var out []Poly
	for _, a := range q.args[1:] {
		if i, ok := a.(IntV); ok {
			out = append(out, i.p)
		}
	}
	return out
}

// post checks what must hold when the method returns.
func (q *bcRun) post(st *State) {
	ip, c, sh := q.ip, q.c, q.sh
	var errv Value
	res := st.results
	hasErr := len(res) > 0 && isErrorType(q.fn.Signature.Results().At(len(res)-1).Type())
	if hasErr {
		errv = res[len(res)-1]
	}
	var ok, bad *State
	if hasErr {
		ok, bad = st.fork(ip.isNil(st, errv))
	} else {
		ok = st
	}
	total := func(s *State) Poly { return q.intCell(s, sh.total) }

	// Which range of blocks does the operation concern?
	var start, bytes Poly
	ranged := false
	ints := q.intParams()
	buf, hasBuf := q.byteParam()
	switch q.method {
	case "ReadAt", "WriteAt":
		if hasBuf && len(ints) == 1 {
			start, bytes, ranged = ints[0], buf.len, true
		}
	case "GetSlice", "MarkBlockRangeDirty":
		if len(ints) == 2 {
			start, bytes, ranged = ints[0], ints[1].Mul(q.b), true
		}
	case "CheckBounds":
		if len(ints) == 2 {
			start, bytes, ranged = ints[0], ints[1], true
		}
	}
	switch q.method {
	case "ReadAt", "WriteAt", "GetSlice", "MarkBlockRangeDirty", "CheckBounds":
		if !ranged {
			ip.report(st, "anchor", "parameters of "+q.method+" not understood")
			return
		}
	}

	if ok != nil {
		s := ok
		if hasErr && gInt(s, "failed") != 0 {
			ip.report(s, "C02", q.method+" may report success although a storage callback failed")
		}
		if ranged {
			c.proveRel(ip, s, "C04", Lt(start, q.t), q.method+" may succeed although the first block is outside of the cache")
			c.proveRel(ip, s, "C04", Le(bytes, q.t.Sub(start).Mul(q.b)), q.method+" may succeed although the range is not inside the cache")
		}
	}
	if bad != nil {
		s := bad
		if gInt(s, "failed") != 0 {
			e, isSym := s.ghost["cberr"].(*SymV)
			if !isSym || !errContains(errv, e) {
				ip.report(s, "C02", q.method+": the error returned does not wrap the error of the storage callback")
			}
			ip.Obligations++
		} else if ranged {
			m := ip.errMatches(s, errv, oorName)
			c.proveRel(ip, s, "C04", m.r, q.method+" fails with an error other than out-of-range although no callback failed")
			// The range must really be invalid.
			t := s.clone()
			ip.Obligations++
			if t.assume(Lt(start, q.t)) && t.assume(Le(bytes, q.t.Sub(start).Mul(q.b))) {
				ip.report(t, "C04", q.method+" may refuse a range that is inside the cache")
			}
			if gInt(s, "has") != 0 || gInt(s, "flushed") != 0 {
				ip.report(s, "C04", q.method+" calls storage callbacks before refusing an invalid range")
			}
			if hasBuf {
				q.bufUnchanged(s, buf, "C04")
			}
		} else if q.method == "Flush" || q.method == "LoadAll" || q.method == "Data" || q.method == "Resize" {
			ip.report(s, "C04", q.method+" may fail although no storage callback failed")
		}
	}

	check := func(s *State, success bool) {
		if q.method == "Resize" && success {
			q.postResize(s)
			return
		}
		if q.method == "Resize" && !success {
			q.unchanged(s, "C02", "although resizing failed")
			return
		}
		c.proveEq(ip, s, "C06", total(s), q.t, q.method+" changes the number of blocks")
		c.proveEq(ip, s, "C06", q.intCell(s, sh.block), q.b, q.method+" changes the block size")
		if !s.assume(Lt(q.k, q.t)) {
			return
		}
		// Is k in the range that is modified?
		parts := []*State{s}
		inRange := map[*State]bool{}
		if success && (q.method == "WriteAt" || q.method == "MarkBlockRangeDirty") {
			parts = nil
			lo, below := s.fork(Le(start, q.k))
			if below != nil {
				parts = append(parts, below)
			}
			if lo != nil {
				in, above := lo.fork(Lt(q.k.Sub(start).Mul(q.b), bytes))
				if in != nil {
					inRange[in] = true
					parts = append(parts, in)
				}
				if above != nil {
					parts = append(parts, above)
				}
			}
		}
		for _, s := range parts {
			mod := inRange[s]
			for _, x := range q.bit(s, sh.dirty, q.k) {
				for _, y := range q.bit(x.st, sh.loaded, q.k) {
					q.postBlock(y.st, success, mod, start, buf, x.v, y.v)
				}
			}
		}
	}
	if ok != nil {
		check(ok.clone(), true)
		q.postResult(ok, start, buf)
	}
	if bad != nil {
		check(bad.clone(), false)
		if q.method == "ReadAt" || q.method == "WriteAt" {
			if n, ok := cast(res[0]); ok {
				c.proveEq(ip, bad, "C07", n.p, Const(0), q.method+" reports bytes although it fails")
			}
		}
	}
	if q.method == "WriteAt" {
		ip.Obligations++
		if ip.content(st, buf.reg) != ip.initRegs[buf.reg] {
			ip.report(st, "C07", "WriteAt modifies the caller's buffer")
		}
	}
}

// postBlock checks the state of block k.
func (q *bcRun) postBlock(s *State, success, mod bool, start Poly, buf SliceV, dirty, loaded Value) {
	ip, c := q.ip, q.c
	has, flushed := gInt(s, "has"), gInt(s, "flushed")
	name := q.method
	// Presence.
	l0 := s.prove(q.l0.r)
	present := l0 || has == 1
	if mod {
		q.boolIs(s, "C01", dirty, true, name+": a modified block is not marked as pending")
		q.boolIs(s, "C03", loaded, true, name+": a modified block is not marked as present")
		if q.method == "MarkBlockRangeDirty" && !present {
			ip.report(s, "C03", name+": a block is marked as pending although its contents were never loaded")
		}
	} else {
		if flushed == 0 {
			q.boolSame(s, "C01", dirty, q.d0, name+": the pending mark of a block changes although it was neither modified nor written back")
		}
		if success && q.method == "Flush" {
			q.boolIs(s, "C01", dirty, false, name+": a block is still marked as pending after a successful flush")
			if s.prove(q.d0.r) && flushed != 1 {
				ip.report(s, "C01", name+": a pending block may not be written back by a successful flush")
			}
		}
		if flushed != 0 && s.prove(q.d0.r.Neg()) {
			ip.report(s, "C01", name+": a block that is not pending is written back")
		}
		if present {
			q.boolIs(s, "C03", loaded, true, name+": a block that is present is not marked as such")
		} else {
			rule := "C03"
			if gInt(s, "fetchfail") == 1 {
				rule = "C02"
			}
			q.boolIs(s, rule, loaded, false, name+": a block that was not loaded is marked as present")
		}
	}
	if flushed != 0 && q.method != "Flush" {
		ip.report(s, "C01", name+" writes back blocks")
	}
	// Everything in the range must be present after a successful access.
	if success && !mod && !present {
		switch q.method {
		case "Data", "LoadAll":
			ip.report(s, "C03", name+" succeeds although a block is not in the cache")
		case "GetSlice", "ReadAt":
			t := s.clone()
			n := buf.len
			if q.method == "GetSlice" {
				n = q.intParams()[1].Mul(q.b)
			}
			if t.assume(Le(start, q.k)) && t.assume(Lt(q.k.Sub(start).Mul(q.b), n)) {
				ip.report(t, "C03", name+" succeeds although a block of the range is not in the cache")
			}
		}
	}
	// Contents.
	for _, z := range q.byteAt(s, q.k.Mul(q.b).Add(q.r)) {
		st := z.st
		if q.method == "WriteAt" && mod {
			off := q.k.Sub(start).Mul(q.b).Add(q.r)
			in, out := st.fork(Lt(off, buf.len))
			if in != nil {
				c.sameVal(ip, in, "C07", z.v, q.W0, "WriteAt: a byte of the block is not the byte of the buffer")
			}
			if out != nil {
				q.oldByte(out, z.v, present, l0, "C07", "WriteAt: a byte after the end of the buffer changes")
			}
			continue
		}
		q.oldByte(st, z.v, present, l0, "C03", name+": the contents of a block change")
	}
}

func (q *bcRun) oldByte(st *State, v Value, present, l0 bool, rule, msg string) {
	switch {
	case l0:
		q.c.sameVal(q.ip, st, rule, v, q.D0, msg)
	case present:
		q.c.sameVal(q.ip, st, rule, v, q.F, msg+" (they are not what was fetched)")
	}
	// The contents of blocks that are not present do not matter.
}

// bufUnchanged checks that the caller's buffer was not written to.
func (q *bcRun) bufUnchanged(st *State, buf SliceV, rule string) {
	c := q.ip.content(st, buf.reg)
	if c != q.ip.initRegs[buf.reg] {
		q.ip.report(st, rule, q.method+" modifies the caller's buffer before refusing an invalid range")
	}
}

// postResult checks the values returned on success.
func (q *bcRun) postResult(st *State, start Poly, buf SliceV) {
	ip, c := q.ip, q.c
	res := st.results
	count := func() {
		if n, ok := cast(res[0]); ok {
			c.proveEq(ip, st, "C07", n.p, buf.len, q.method+" does not report the length of the buffer")
		} else {
			ip.report(st, "C07", q.method+": result not understood")
		}
	}
	switch q.method {
	case "ReadAt":
		count()
		j := AtomPoly(NewAtomMin("j", 0))
		// Byte r of block k, if that is inside the buffer.
		s := st.clone()
		off := q.k.Sub(start).Mul(q.b).Add(q.r)
		_ = j
		if !s.assume(Le(start, q.k)) || !s.assume(Lt(off, buf.len)) || !s.assume(Lt(q.k, q.t)) {
			return
		}
		for _, x := range ip.readElem(s, buf.reg, buf.off.Add(off)) {
			for _, y := range q.byteAt(x.st, q.k.Mul(q.b).Add(q.r)) {
				c.sameVal(ip, y.st, "C07", x.v, y.v, "ReadAt: a byte of the buffer is not the byte of the cache")
			}
		}
	case "WriteAt":
		count()
	case "GetSlice", "Data":
		s, ok := ip.asSlice(st, res[0])
		if !ok {
			ip.report(st, "C07", q.method+": result not understood")
			return
		}
		d := q.slice(st, q.sh.data)
		off, n := Const(0), q.b.Mul(q.t)
		if q.method == "GetSlice" {
			off, n = start.Mul(q.b), q.intParams()[1].Mul(q.b)
		}
		c.proveEq(ip, st, "C07", s.len, n, q.method+": length of the slice")
		if st.prove(Eq(n, Const(0))) {
			return
		}
		ip.Obligations++
		if s.reg != d.reg {
			ip.report(st, "C07", q.method+": the slice is not the cache's own storage")
			return
		}
		c.proveEq(ip, st, "C07", s.off, d.off.Add(off), q.method+": the slice does not begin at the requested block")
	case "Size":
		if n, ok := cast(res[0]); ok {
			c.proveEq(ip, st, "C06", n.p, q.b.Mul(q.t), "Size is not the number of blocks times their size")
		}
	case "GetMinBlocksForSize":
		if n, ok := cast(res[0]); ok && len(q.intParams()) == 1 {
			x := q.intParams()[0]
			c.proveRel(ip, st, "C04", Le(x, n.p.Mul(q.b)), "GetMinBlocksForSize: the blocks do not hold that many bytes")
			c.proveRel(ip, st, "C04", Lt(n.p.AddConst(-1).Mul(q.b), x), "GetMinBlocksForSize: fewer blocks would do")
		}
	}
}

func (q *bcRun) postResize(st *State) {
	ip, c, sh := q.ip, q.c, q.sh
	want := q.intParams()[0]
	if gInt(st, "resized") != 1 {
		ip.report(st, "C06", "Resize succeeds without asking the storage")
	}
	c.proveEq(ip, st, "C06", q.intCell(st, sh.total), want, "Resize: number of blocks afterwards")
	c.proveEq(ip, st, "C06", q.intCell(st, sh.block), q.b, "Resize changes the block size")
	d := q.slice(st, sh.data)
	c.proveEq(ip, st, "C06", d.len, want.Mul(q.b), "Resize: size of the storage afterwards")
	for _, f := range sh.bits {
		s := q.slice(st, f)
		n := s.len
		if !q.isBoolSlice(f) {
			n = n.Mul(Const(8))
		}
		c.proveRel(ip, st, "C06", Le(want, n), "Resize: size of "+sh.st.Field(f).Name())
	}
	if !st.assume(Lt(q.k, want)) {
		return
	}
	old, added := st.fork(Lt(q.k, q.t))
	if old != nil {
		for _, x := range q.bit(old, sh.dirty, q.k) {
			q.boolSame(x.st, "C06", x.v, q.d0, "Resize: pending mark of a kept block")
			for _, y := range q.bit(x.st, sh.loaded, q.k) {
				q.boolSame(y.st, "C06", y.v, q.l0, "Resize: presence mark of a kept block")
				if y.st.prove(q.l0.r) {
					for _, z := range q.byteAt(y.st, q.k.Mul(q.b).Add(q.r)) {
						c.sameVal(ip, z.st, "C06", z.v, q.D0, "Resize: contents of a kept block")
					}
				}
			}
		}
	}
	if added != nil {
		for _, x := range q.bit(added, sh.dirty, q.k) {
			q.boolIs(x.st, "C01", x.v, true, "Resize: an added block is not pending")
			q.boolIs(x.st, "C06", x.v, true, "Resize: an added block is not pending")
			for _, y := range q.bit(x.st, sh.loaded, q.k) {
				q.boolIs(y.st, "C06", y.v, true, "Resize: an added block is not present")
				for _, z := range q.byteAt(y.st, q.k.Mul(q.b).Add(q.r)) {
					c.sameVal(ip, z.st, "C06", z.v, IntV{p: Const(0)}, "Resize: an added block is not zero-filled")
				}
			}
		}
	}
}

// bcMethods are the operations analysed.
var bcMethods = []string{"BytesPerBlock", "TotalBlocks", "Size", "GetMinBlocksForSize", "CheckBounds", "GetSlice", "Data", "LoadAll",
	"Flush", "ReadAt", "WriteAt", "Resize", "MarkBlockRangeDirty"}

// checkBlockCache analyses the block cache; the roles of the two bitmaps are whatever makes more sense.
func (c *Checker) checkBlockCache() {
	sh, err := bcFieldRoles(c.prog)
	if err != nil {
		c.anchor(err.Error())
		return
	}
	type result struct {
		n  int
		fs []Finding
	}
	var best *Checker
	for i := 0; i < 2; i++ {
		s := *sh
		s.dirty, s.loaded = sh.bits[1], sh.bits[0]
		if i == 1 {
			s.dirty, s.loaded = sh.bits[0], sh.bits[1]
		}
		// The names give a first guess.
		if i == 0 && strings.Contains(strings.ToLower(sh.st.Field(s.loaded).Name()), "dirty") {
			s.dirty, s.loaded = s.loaded, s.dirty
		}
		sub := c.sub()
		sub.bcAll(&s)
		if best == nil || len(sub.findings) < len(best.findings) {
			best = sub
		}
		if len(sub.findings) == 0 {
			break
		}
	}
	c.merge(best)
}

func (c *Checker) bcAll(sh *bcShape) {
	for _, m := range bcMethods {
		if f := os.Getenv("BCM"); f != "" && f != m {
			continue
		}
		fn := c.prog.Method(bcPkg, "BlockCache", m)
		if fn == nil {
			c.anchor("method BlockCache." + m + " not found")
			continue
		}
		c.guard("BlockCache."+m, func() {
			q := c.newBC(sh, m, fn)
			q.watchLoads(nil)
			q.run()
			if proven := q.loads.proven(); len(q.ip.findings) > 0 && len(proven) > 0 {
				// Once more, knowing that these functions leave all blocks they are asked for in the cache.
				q = c.newBC(sh, m, fn)
				q.watchLoads(proven)
				q.run()
			}
			c.collect(q.ip)
		})
	}
	c.bcNew(sh)
}

// bcNew checks that New establishes the invariant.
func (c *Checker) bcNew(sh *bcShape) {
	fn := c.prog.Func(bcPkg, "New")
	if fn == nil {
		c.anchor("blockcache.New not found")
		return
	}
	c.guard("blockcache.New", func() {
		q := c.newBC(sh, "New", fn)
		ip := q.ip
		st := NewState()
		var args []Value
		var ints []Poly
		cbs := map[string]Value{}
		for _, p := range fn.Params {
			var v Value
			switch {
			case isInt(p.Type()):
				x := q.b
				if len(ints) == 1 {
					x = q.t
				}
				ints = append(ints, x)
				v = IntV{p: x}
			default:
				s := ip.newSym(p.Type(), p.Name())
				s.nonnil = true
				if shortName(p.Type().String()) == "ResizeCallback" {
					s = ip.maybeNil(p.Type(), p.Name())
				}
				cbs[shortName(p.Type().String())] = s
				v = s
			}
			args = append(args, v)
		}
		st.assume(Lt(q.r, q.b))
		for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
			if s.status != returned || len(s.results) != 1 {
				ip.report(s, "C04", "New may panic")
				continue
			}
			pv, ok := s.results[0].(PtrV)
			if !ok || pv.isElem {
				ip.report(s, "anchor", "result of New not understood")
				continue
			}
			q.obj = pv.obj
			c.proveEq(ip, s, "C06", q.intCell(s, sh.block), q.b, "New: block size")
			c.proveEq(ip, s, "C06", q.intCell(s, sh.total), q.t, "New: number of blocks")
			c.proveEq(ip, s, "C06", q.slice(s, sh.data).len, q.b.Mul(q.t), "New: size of the storage")
			for _, f := range sh.bits {
				n := q.slice(s, f).len
				if !q.isBoolSlice(f) {
					n = n.Mul(Const(8))
				}
				c.proveRel(ip, s, "C06", Le(q.t, n), "New: size of "+sh.st.Field(f).Name())
			}
			if q.slice(s, sh.dirty).reg == q.slice(s, sh.loaded).reg {
				ip.report(s, "C03", "New: both marks share their storage")
			}
			in := s.clone()
			if in.assume(Lt(q.k, q.t)) {
				for _, x := range q.bit(in, sh.dirty, q.k) {
					q.boolIs(x.st, "C03", x.v, false, "New: a block is pending in a new cache")
					for _, y := range q.bit(x.st, sh.loaded, q.k) {
						q.boolIs(y.st, "C03", y.v, false, "New: a block is present in a new cache")
					}
				}
			}
			for f, n := range map[int]string{sh.fetch: "FetchBlockCallback", sh.flush: "FlushBlockCallback", sh.resize: "ResizeCallback"} {
				v := q.cell(s, f)
				want, _ := cbs[n].(*SymV)
				got, isSym := v.(*SymV)
				ip.Obligations++
				if isSym && got == want {
					if got.nilAtom >= 0 && !s.prove(Rel{AtomPoly(got.nilAtom), EQ}) {
						ip.report(s, "C02", "New: the resize callback may be nil")
					}
					continue
				}
				if n == "ResizeCallback" && s.prove(ip.isNil(s, want)) {
					if fv, ok := v.(FuncV); ok {
						c.rootRefuses(fv, s.clone(), ip)
						continue
					}
				}
				ip.report(s, "C05", "New: "+n+" is not stored")
			}
		}
		c.collect(ip)
	})
}

// rootRefuses checks that a default resize callback always fails.
func (c *Checker) rootRefuses(fv FuncV, st *State, ip *Interp) {
	var args []Value
	for _, p := range fv.fn.Params {
		args = append(args, ip.fresh(st, p.Name(), p.Type()))
	}
	st.status = running
	st.frames = nil
	ip.pushFrame(st, fv.fn, args, fv.bind, nil)
	for _, s := range ip.Run(st) {
		if s.status != returned || len(s.results) != 1 {
			continue
		}
		ip.Obligations++
		if !s.prove(ip.errMatches(s, s.results[0], "github.com/dargueta/disko.ErrNotSupported").r) {
			ip.report(s, "C06", "New: resizing a cache that was given no resize callback does not fail with ErrNotSupported")
		}
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// errContains tells if an error is or wraps another.
func errContains(v Value, e *SymV) bool {
	x, ok := v.(*SymV)
	if !ok {
		return false
	}
	if x.id == e.id {
		return true
	}
	if x.err != nil {
		for _, p := range x.err.parts {
			if errContains(p, e) {
				return true
			}
		}
	}
	return false
}

var _ = sort.Strings
