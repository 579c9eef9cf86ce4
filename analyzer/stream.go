package main

// Checks of BasicStream (C09 to C15). Its operations are analysed from an arbitrary stream on top of an arbitrary
// block cache; the cache is what its own contract says (that contract is decided by C01 to C07). One arbitrary byte
// of the cache, at index x in block k, is followed through all paths.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	bsPkg        = "file_systems/common/basicstream"
	bcFull       = "github.com/dargueta/disko/" + bcPkg
	notPermitted = "github.com/dargueta/disko.ErrNotPermitted"
	bsCRules     = "C09,C10,C11,C12,C13,C14,C15"
)

type bsShape struct {
	named                   *types.Named
	st                      *types.Struct
	size, pos, cache, flags int
}

// bsFieldRoles finds the fields of the stream by type and by what the getters return.
func bsFieldRoles(p *Program) (*bsShape, error) {
	n := p.Type(bsPkg, "BasicStream")
	if n == nil {
		return nil, fmt.Errorf("type BasicStream not found")
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("BasicStream is not a struct")
	}
	sh := &bsShape{named: n, st: s, size: -1, pos: -1, cache: -1, flags: -1}
	for i := 0; i < s.NumFields(); i++ {
		switch types.TypeString(s.Field(i).Type(), nil) {
		case "*" + bcFull + ".BlockCache":
			sh.cache = i
		case "github.com/dargueta/disko.IOFlags":
			sh.flags = i
		}
	}
	if sh.cache < 0 || sh.flags < 0 {
		return nil, fmt.Errorf("cannot identify the fields of BasicStream")
	}
	for _, g := range []struct {
		name string
		f    *int
	}{{"Size", &sh.size}, {"Tell", &sh.pos}} {
		fn := p.Method(bsPkg, "BasicStream", g.name)
		if fn == nil {
			return nil, fmt.Errorf("method %s not found", g.name)
		}
		p.reset()
		ip := NewInterp(p)
		o := ip.newObj("stream", n, false)
		ip.objs[o].param = true
		for _, st := range ip.Run(ip.Root(fn, []Value{PtrV{obj: o}})) {
			if len(st.results) == 1 {
				for k, v := range ip.initCells {
					iv, ok := v.(IntV)
					rv, ok2 := st.results[0].(IntV)
					if ok && ok2 && k.obj == o && iv.p.Equal(rv.p) {
						fmt.Sscanf(k.path, ".%d", g.f)
					}
				}
			}
		}
		if *g.f < 0 {
			return nil, fmt.Errorf("method %s does not return a field", g.name)
		}
	}
	return sh, nil
}

type bsRun struct {
	query      string // the only flag that is distinguished, if not empty
	c          *Checker
	ip         *Interp
	sh         *bsShape
	obj, cache ObjID
	method     string
	fn         *ssa.Function
	args       []Value
	b, t       Poly // block size, initial number of blocks
	size, pos  Poly
	flags      Poly
	k, r, x    Poly // the byte followed
	D0         Value
	dirty0     BoolV
	reg        Region
	src        SliceV // the buffer written or read
	srcAt      Poly   // and where in the stream it belongs, for operations at explicit offsets
	stale      Value  // what the storage holds for the byte if the block is pending at first
}

func (q *bsRun) data(st *State) SliceV { s, _ := st.ghost["data"].(SliceV); return s }

func (q *bsRun) total(st *State) Poly { return gPoly(st, "T") }

func (q *bsRun) cell(st *State, f int) Poly {
	if v, ok := q.ip.loadCell(st, q.obj, fmt.Sprintf(".%d", f), q.sh.st.Field(f).Type()).(IntV); ok && !v.wrap {
		return v.p
	}
	return AtomPoly(NewAtom("?"))
}

// mine tells if a method is called on the cache of the stream.
func (q *bsRun) mine(c *CallCtx) bool {
	p, ok := c.args[0].(PtrV)
	return ok && !p.isElem && p.obj == q.cache && p.path == ""
}

// cacheErr makes the error of a failed cache operation, in the state where it fails.
func (q *bsRun) cacheFail(st *State, c *CallCtx, zero ...Value) *State {
	ip := q.ip
	s := st.clone()
	e := ip.unknownErr(errorType, "err("+shortName(c.name)+")")
	e.origin = &Event{kind: "call", name: c.name, instr: c.instr}
	s.assume(ip.isNil(s, e).Neg())
	s.ghost["cberr"] = e
	gSet(s, "#failed", 1)
	q.result(s, c, append(zero, Value(e))...)
	return s
}

func (q *bsRun) result(st *State, c *CallCtx, vs ...Value) {
	if len(vs) == 1 {
		c.ret(q.ip, st, vs[0])
		return
	}
	c.ret(q.ip, st, TupleV(vs))
}

// inRange splits a state by whether a range of blocks is inside the cache, the cache operation being able to fail in
// either case.
func (q *bsRun) inRange(st *State, c *CallCtx, start, bytes Value, cnt *Poly, zero ...Value) (ok *State, fails []*State) {
	s, ok1 := cast(start)
	n, ok2 := cast(bytes)
	if !ok1 || !ok2 || n.wrap {
		q.ip.report(st, "C11", "block range given to the cache not understood")
		return nil, []*State{q.cacheFail(st, c, zero...)}
	}
	refuse := func(s *State) {
		if s == nil {
			return
		}
		q.ip.Obligations++
		if !strings.HasSuffix(c.name, "CheckBounds") {
			rule := "C12"
			switch q.method {
			case "Read", "ReadAt":
				rule = "C11"
			case "Truncate":
				rule = "C14"
			}
			q.ip.report(s, rule, q.method+" may access blocks that are not in the cache")
		}
		e := q.ip.unknownErr(errorType, "err(out of range)")
		s.assume(q.ip.isNil(s, e).Neg())
		s.assume(q.ip.errMatches(s, e, oorName).r)
		if !strings.HasSuffix(c.name, "CheckBounds") {
			s.ghost["cberr"] = e
			gSet(s, "#failed", 1)
		}
		q.result(s, c, append(append([]Value{}, zero...), Value(e))...)
		fails = append(fails, s)
	}
	if s.wrap {
		// A start below zero is a very large block number.
		pos, neg := st.fork(Rel{s.p, GE})
		refuse(neg)
		if pos == nil {
			return nil, fails
		}
		st = pos
	}
	lo, hi := st.fork(Lt(s.p, q.total(st)))
	refuse(hi)
	if lo == nil {
		return nil, fails
	}
	// In blocks if possible.
	room := Le(n.p, q.total(st).Sub(s.p).Mul(q.b))
	if cnt != nil {
		room = Le(*cnt, q.total(st).Sub(s.p))
	}
	in, out := lo.fork(room)
	refuse(out)
	if in == nil {
		return nil, fails
	}
	in.addFact(Le(n.p, q.total(st).Sub(s.p).Mul(q.b)))
	return in, fails
}

// mark makes blocks pending.
func (q *bsRun) mark(st *State, start, count Poly) []*State {
	gSet(st, "#unflushed", 1)
	lo, below := st.fork(Le(start, q.k))
	var out []*State
	if below != nil {
		out = append(out, below)
	}
	if lo != nil {
		in, above := lo.fork(Lt(q.k, start.Add(count)))
		if in != nil {
			gSet(in, "#dirty", 1)
			out = append(out, in)
		}
		if above != nil {
			out = append(out, above)
		}
	}
	return out
}

// fetched is what every operation reading blocks does: it fails if a block cannot be fetched.
func (q *bsRun) models() map[string]Model {
	ip := q.ip
	m := map[string]Model{}
	def := func(name string, f func(st *State, c *CallCtx) []*State) {
		m["(*"+bcFull+".BlockCache)."+name] = func(ip *Interp, st *State, c *CallCtx) []*State {
			ip.CallsSeen["BlockCache."+name]++
			if !q.mine(c) {
				switch name {
				case "BytesPerBlock":
					c.ret(ip, st, IntV{p: AtomPoly(NewAtomRange("otherBlockSize", 1, 1<<20))})
					return []*State{st}
				}
				return ip.opaque(st, c)
			}
			return f(st, c)
		}
	}
	def("BytesPerBlock", func(st *State, c *CallCtx) []*State { c.ret(ip, st, IntV{p: q.b}); return []*State{st} })
	def("TotalBlocks", func(st *State, c *CallCtx) []*State { c.ret(ip, st, IntV{p: q.total(st)}); return []*State{st} })
	def("Size", func(st *State, c *CallCtx) []*State {
		c.ret(ip, st, IntV{p: q.total(st).Mul(q.b)})
		return []*State{st}
	})
	def("GetMinBlocksForSize", func(st *State, c *CallCtx) []*State {
		n, ok := cast(c.args[1])
		if !ok || n.wrap || !st.prove(Rel{n.p, GE}) {
			return ip.opaque(st, c)
		}
		c.ret(ip, st, IntV{p: st.floorDiv(n.p.Add(q.b).AddConst(-1), q.b)})
		return []*State{st}
	})
	def("CheckBounds", func(st *State, c *CallCtx) []*State {
		ok, out := q.inRange(st, c, c.args[1], c.args[2], nil)
		if ok != nil {
			c.ret(ip, ok, NilV{})
			out = append(out, ok)
		}
		return out
	})
	slice := func(st *State, start, n Poly) SliceV {
		d := q.data(st)
		// What lies behind the blocks asked for may not be loaded: it must not be reached through the capacity.
		return SliceV{reg: d.reg, off: d.off.Add(start), len: n, cap: n}
	}
	def("GetSlice", func(st *State, c *CallCtx) []*State {
		cnt, ok1 := cast(c.args[2])
		start, ok2 := cast(c.args[1])
		if !ok1 || !ok2 {
			return ip.opaque(st, c)
		}
		ok, out := q.inRange(st, c, start, IntV{p: cnt.p.Mul(q.b), wrap: cnt.wrap}, &cnt.p, NilV{})
		if ok != nil {
			out = append(out, q.cacheFail(ok, c, NilV{}))
			q.result(ok, c, slice(ok, start.p.Mul(q.b), cnt.p.Mul(q.b)), NilV{})
			out = append(out, ok)
		}
		return out
	})
	def("Data", func(st *State, c *CallCtx) []*State {
		bad := q.cacheFail(st, c, NilV{})
		q.result(st, c, slice(st, Const(0), q.data(st).len), NilV{})
		return []*State{bad, st}
	})
	def("LoadAll", func(st *State, c *CallCtx) []*State {
		bad := q.cacheFail(st, c)
		q.result(st, c, NilV{})
		return []*State{bad, st}
	})
	def("MarkBlockRangeDirty", func(st *State, c *CallCtx) []*State {
		cnt, ok1 := cast(c.args[2])
		start, ok2 := cast(c.args[1])
		if !ok1 || !ok2 {
			return ip.opaque(st, c)
		}
		ok, out := q.inRange(st, c, start, IntV{p: cnt.p.Mul(q.b), wrap: cnt.wrap}, &cnt.p)
		if ok != nil {
			out = append(out, q.cacheFail(ok, c))
			q.result(ok, c, NilV{})
			out = append(out, q.mark(ok, start.p, cnt.p)...)
		}
		return out
	})
	def("ReadAt", func(st *State, c *CallCtx) []*State {
		buf, ok1 := ip.asSlice(st, c.args[1])
		start, ok2 := cast(c.args[2])
		if !ok1 || !ok2 {
			return ip.opaque(st, c)
		}
		ok, out := q.inRange(st, c, start, IntV{p: buf.len}, nil, IntV{p: Const(0)})
		if ok != nil {
			out = append(out, q.cacheFail(ok, c, IntV{p: Const(0)}))
			d := q.data(ok)
			ip.copyRange(ok, buf.reg, buf.off, d.reg, d.off.Add(start.p.Mul(q.b)), buf.len)
			q.result(ok, c, IntV{p: buf.len}, NilV{})
			out = append(out, ok)
		}
		return out
	})
	def("WriteAt", func(st *State, c *CallCtx) []*State {
		buf, ok1 := ip.asSlice(st, c.args[1])
		start, ok2 := cast(c.args[2])
		if !ok1 || !ok2 {
			return ip.opaque(st, c)
		}
		ok, out := q.inRange(st, c, start, IntV{p: buf.len}, nil, IntV{p: Const(0)})
		if ok != nil {
			out = append(out, q.cacheFail(ok, c, IntV{p: Const(0)}))
			d := q.data(ok)
			ip.copyRange(ok, d.reg, d.off.Add(start.p.Mul(q.b)), buf.reg, buf.off, buf.len)
			q.result(ok, c, IntV{p: buf.len}, NilV{})
			out = append(out, q.mark(ok, start.p, ok.floorDiv(buf.len.Add(q.b).AddConst(-1), q.b))...)
		}
		return out
	})
	def("Resize", func(st *State, c *CallCtx) []*State {
		n, ok := cast(c.args[1])
		if !ok {
			return ip.opaque(st, c)
		}
		var out []*State
		if n.wrap {
			pos, neg := st.fork(Rel{n.p, GE})
			if neg != nil {
				out = append(out, q.cacheFail(neg, c))
			}
			if st = pos; st == nil {
				return out
			}
		}
		out = append(out, q.cacheFail(st, c))
		q.result(st, c, NilV{})
		gSet(st, "#unflushed", 1)
		t := q.total(st)
		shrink, grow := st.fork(Le(n.p, t))
		for i, s := range []*State{shrink, grow} {
			if s == nil {
				continue
			}
			keep := n.p
			if i == 1 {
				keep = t
			}
			d := q.data(s)
			r := ip.newRegion(s, "data", types.Typ[types.Byte], true)
			ip.copyRange(s, r, Const(0), d.reg, d.off, keep.Mul(q.b))
			l := n.p.Mul(q.b)
			s.ghost["data"] = SliceV{reg: r, off: Const(0), len: l, cap: l}
			gPut(s, "T", n.p)
			if i == 0 {
				out = append(out, s)
				continue
			}
			added, old := s.fork(Le(t, q.k))
			if added != nil {
				gSet(added, "#dirty", 1)
				added.ghost["S"] = q.stale
				out = append(out, added)
			}
			if old != nil {
				out = append(out, old)
			}
		}
		return out
	})
	def("Flush", func(st *State, c *CallCtx) []*State {
		bad := q.cacheFail(st, c)
		q.result(st, c, NilV{})
		gSet(st, "#unflushed", 0)
		gSet(st, "#flushes", 1)
		out := []*State{bad}
		// What is stored now?
		ms := modes(st, "#dirty", 1)
		for _, m := range sortedModes(ms) {
			s := ms[m]
			in, no := s.fork(Lt(q.k, q.total(s)))
			if no != nil {
				out = append(out, no)
			}
			if in == nil {
				continue
			}
			if m == 0 {
				out = append(out, in)
				continue
			}
			for _, y := range q.byteAt(in, q.x) {
				gSet(y.st, "#dirty", 0)
				y.st.ghost["S"] = y.v
				out = append(out, y.st)
			}
		}
		return out
	})
	return m
}

func (q *bsRun) byteAt(st *State, idx Poly) []stVal {
	d := q.data(st)
	return q.ip.readElem(st, d.reg, d.off.Add(idx))
}

func (c *Checker) newBS(sh *bsShape, method string, fn *ssa.Function) *bsRun {
	c.prog.reset()
	ip := c.newInterp()
	q := &bsRun{c: c, ip: ip, sh: sh, method: method, fn: fn}
	q.cache = ip.newObj("cache", c.prog.Type(bcPkg, "BlockCache"), false)
	ip.objs[q.cache].param = true
	q.b = AtomPoly(NewAtomRange("blockSize", 1, 1<<20))
	q.t = AtomPoly(NewAtomRange("totalBlocks", 0, 1<<32))
	kA := NewAtomRange("k", 0, 1<<40)
	q.k = AtomPoly(kA)
	q.r = AtomPoly(NewAtomRange("r", 0, 1<<20))
	q.x = q.k.Mul(q.b).Add(q.r)
	q.stale = IntV{p: AtomPoly(NewAtomRange("stored", -1, -1))}
	ip.Skolems = []Atom{kA}
	for n, m := range q.models() {
		ip.Models[n] = m
	}
	ip.Track = func(st *State, r Region) []Poly {
		if d := q.data(st); d.reg == r {
			return []Poly{d.off.Add(q.x)}
		}
		if q.src.reg == r && r != 0 {
			at := q.srcAt
			if q.method != "WriteAt" && gInt(st, "fAppend") == 1 && gInt(st, "fWrite") == 1 {
				at = q.size
			}
			return []Poly{q.src.off.Add(q.x).Sub(at)}
		}
		return nil
	}
	ip.SplitReads = true
	return q
}

// limit bounds an input.
func limit(st *State, v Value, lo, hi int64) {
	if iv, ok := v.(IntV); ok {
		st.assume(Le(Const(lo), iv.p))
		st.assume(Le(iv.p, Const(hi)))
		if a, ok := iv.p.SingleAtom(); ok {
			atoms[a].Lo, atoms[a].HasLo = lo, true
			atoms[a].Hi, atoms[a].HasHi = hi, true
		}
	}
}

// cacheState sets up the cache.
func (q *bsRun) cacheState(st *State) {
	ip := q.ip
	q.reg = ip.newRegion(st, "data", types.Typ[types.Byte], false)
	ip.initRegs[q.reg] = st.regs[q.reg]
	dl := q.b.Mul(q.t)
	st.ghost["data"] = SliceV{reg: q.reg, off: Const(0), len: dl, cap: dl}
	gPut(st, "T", q.t)
	gSet(st, "#failed", 0)
	gSet(st, "#unflushed", 0)
	gSet(st, "#flushes", 0)
	st.assume(Lt(q.r, q.b))
	q.D0 = q.byteAt(st, q.x)[0].v
}

// cases splits a state by whether the followed block is pending at first.
func (q *bsRun) cases(st *State) []*State {
	a, b := st.clone(), st.clone()
	gSet(a, "#dirty", 0)
	a.ghost["S"] = q.D0
	gSet(b, "#dirty", 1)
	b.ghost["S"] = q.stale
	return []*State{a, b}
}

var ioQueries = []string{"Read", "Write", "Append", "Synchronous", "Truncate"}

// flagCases splits states by what the flags say.
func (q *bsRun) flagCases(sts []*State, flags Value) []*State {
	ip := q.ip
	queries := ioQueries
	if q.query != "" {
		queries = []string{q.query}
	}
	for _, n := range queries {
		fn := q.c.prog.ValueMethod("", "IOFlags", n)
		if fn == nil {
			q.c.anchor("method IOFlags." + n + " not found")
			return nil
		}
		var next []*State
		for _, st := range sts {
			for _, s := range ip.Run(ip.rootOn(st.clone(), fn, []Value{flags})) {
				if s.status != returned || len(s.results) != 1 {
					continue
				}
				b, ok := s.results[0].(BoolV)
				if !ok {
					q.c.anchor("result of IOFlags." + n + " not understood")
					return nil
				}
				y, no := s.fork(b.r)
				for i, z := range []*State{no, y} {
					if z != nil {
						z.status = running
						z.frames = nil
						z.results = nil
						gSet(z, "f"+n, int64(i))
						next = append(next, z)
					}
				}
			}
		}
		sts = next
	}
	return sts
}

func (q *bsRun) start() []*State {
	ip, sh := q.ip, q.sh
	st := NewState()
	q.obj = ip.newObj("stream", sh.named, false)
	ip.objs[q.obj].param = true
	set := func(f int, v Value) { ip.initCells[cellKey{q.obj, fmt.Sprintf(".%d", f)}] = v }
	q.size = AtomPoly(NewAtomRange("size", 0, 1<<52))
	q.pos = AtomPoly(NewAtomRange("position", 0, 1<<48))
	fl := ip.fresh(st, "flags", sh.st.Field(sh.flags).Type())
	if iv, ok := fl.(IntV); ok {
		q.flags = iv.p
	}
	set(sh.size, IntV{p: q.size})
	set(sh.pos, IntV{p: q.pos})
	set(sh.cache, PtrV{obj: q.cache})
	set(sh.flags, fl)
	q.cacheState(st)
	st.assume(Le(q.size, q.t.Mul(q.b)))
	args := []Value{PtrV{obj: q.obj}}
	for _, p := range q.fn.Params[1:] {
		v := ip.fresh(st, p.Name(), p.Type())
		limit(st, v, -(1 << 48), 1<<48)
		if s, ok := v.(*SymV); ok {
			s.nonnil = true
		}
		args = append(args, v)
	}
	q.args = args
	if len(args) > 1 {
		q.src, _ = args[1].(SliceV)
		q.srcAt = q.pos
		if len(args) > 2 {
			if o, ok := cast(args[2]); ok {
				q.srcAt = o.p
			}
		}
	}
	for i := 0; i < len(atoms); i++ {
		ip.prog.inputAtoms[Atom(i)] = true
	}
	if q.query != "" {
		return q.flagCases(q.cases(st)[:1], fl)
	}
	return q.flagCases(q.cases(st), fl)
}

// fault reports if a cache failure is not passed on.
func (q *bsRun) fault(st *State, rule string, e Value) {
	ip := q.ip
	if gInt(st, "#failed") != 1 {
		return
	}
	ip.Obligations++
	want, ok := st.ghost["cberr"].(*SymV)
	if !ok || !errContains(e, want) {
		ip.report(st, rule, q.method+" may not report the failure of a cache operation")
	}
}

// same checks that nothing changed.
func (q *bsRun) same(st *State, rule, when string) {
	c, ip := q.c, q.ip
	c.proveEq(ip, st, rule, q.cell(st, q.sh.size), q.size, q.method+": the size changes "+when)
	q.untouched(st, rule, when)
}

// untouched checks that the cache did not change.
func (q *bsRun) untouched(st *State, rule, when string) {
	ip := q.ip
	d := q.data(st)
	ip.Obligations++
	if d.reg != q.reg {
		ip.report(st, rule, q.method+": the cache is resized "+when)
		return
	}
	if ip.content(st, d.reg) != ip.initRegs[d.reg] {
		s := st.clone()
		if s.assume(Lt(q.k, q.t)) {
			for _, y := range q.byteAt(s, q.x) {
				q.c.sameVal(ip, y.st, rule, y.v, q.D0, q.method+": the contents of the cache change "+when)
			}
		}
	}
	if gInt(st, "#unflushed") != 0 {
		ip.report(st, rule, q.method+": blocks are marked or added "+when)
	}
}

// stored checks that a byte's value is in the storage, or will be.
func (q *bsRun) stored(st *State, rule string, v Value, msg string) {
	ip := q.ip
	ip.Obligations++
	if gInt(st, "#dirty") == 1 {
		return
	}
	s, ok := st.ghost["S"].(IntV)
	x, ok2 := v.(IntV)
	if ok && ok2 && st.proveEq(s.p, x.p) {
		return
	}
	ip.report(st, rule, msg)
}

// invariant checks what holds after every operation.
func (q *bsRun) invariant(st *State) {
	c, ip := q.c, q.ip
	c.proveRel(ip, st, "C10", Rel{q.cell(st, q.sh.pos), GE}, q.method+": the position may become negative")
	c.proveRel(ip, st, "C11", Rel{q.cell(st, q.sh.size), GE}, q.method+": the size may become negative")
	c.proveRel(ip, st, "C11", Le(q.cell(st, q.sh.size), q.total(st).Mul(q.b)), q.method+": the stream may end beyond its blocks")
	if p, ok := ip.loadCell(st, q.obj, fmt.Sprintf(".%d", q.sh.cache), q.sh.st.Field(q.sh.cache).Type()).(PtrV); !ok || p.obj != q.cache {
		ip.report(st, "C12", q.method+": the stream's cache changes")
	}
	c.proveEq(ip, st, "C09", q.cell(st, q.sh.flags), q.flags, q.method+": the stream's flags change")
}

func (q *bsRun) run() {
	ip := q.ip
	states := ip.Run(func() []*State {
		var out []*State
		for _, s := range q.start() {
			out = append(out, ip.rootOn(s, q.fn, q.args))
		}
		return out
	}()...)
	okPaths := 0
	for _, st := range states {
		switch st.status {
		case panicked:
			ip.report(st, "C11", "the operation may panic: "+st.note)
			continue
		case returned:
		default:
			continue
		}
		okPaths++
		q.post(st)
	}
	if okPaths == 0 {
		ip.report(&State{}, "anchor", "no path through "+q.method+" was analysed")
	}
}

func (q *bsRun) post(st *State) {
	ip, c := q.ip, q.c
	q.invariant(st.clone())
	res := st.results
	pos := q.cell(st, q.sh.pos)
	var errv Value
	if e, has := errResult(q.fn, st); has {
		errv = e
	}
	count := func() Poly {
		if v, ok := cast(res[0]); ok && !v.wrap {
			return v.p
		}
		return AtomPoly(NewAtom("?"))
	}
	switch q.method {
	case "Size", "Tell":
		q.same(st, "C10", "in "+q.method)
		c.proveEq(ip, st, "C10", pos, q.pos, q.method+" moves the position")
		return
	case "Sync", "Close":
		c.proveEq(ip, st, "C10", pos, q.pos, q.method+" moves the position")
		c.proveEq(ip, st, "C12", q.cell(st, q.sh.size), q.size, q.method+" changes the size")
		q.fault(st, "C13", errv)
		if ok, _ := st.fork(ip.isNil(st, errv)); ok != nil {
			ip.Obligations++
			if gInt(ok, "#flushes") != 1 || gInt(ok, "#unflushed") != 0 {
				ip.report(ok, "C13", q.method+" may succeed without flushing the cache")
			}
		}
		return
	case "Seek":
		q.same(st, "C10", "in Seek")
		q.postSeek(st, errv)
		return
	case "ReadAt":
		off, _ := cast(q.args[2])
		c.proveEq(ip, st, "C10", pos, q.pos, "ReadAt moves the position")
		q.postRead(st, off.p, count(), errv)
		return
	case "Read":
		c.proveEq(ip, st, "C10", pos, q.pos.Add(count()), "Read does not advance the position by the bytes read")
		q.postRead(st, q.pos, count(), errv)
		return
	case "Truncate":
		c.proveEq(ip, st, "C10", pos, q.pos, "Truncate moves the position")
		n, _ := cast(q.args[1])
		q.postTruncate(st, n.p, errv)
		return
	case "Write", "WriteAt", "WriteString":
		q.postWrite(st, pos, count(), errv)
		return
	}
}

func (q *bsRun) postSeek(st *State, errv Value) {
	ip, c := q.ip, q.c
	off, ok1 := cast(q.args[1])
	wh, ok2 := cast(q.args[2])
	ret, ok3 := cast(st.results[0])
	if !ok1 || !ok2 || !ok3 {
		ip.report(st, "anchor", "Seek not understood")
		return
	}
	pos := q.cell(st, q.sh.pos)
	rest := st
	check := func(s *State, target Poly, valid bool) {
		good, bad := s.fork(ip.isNil(s, errv))
		if bad != nil {
			c.proveEq(ip, bad, "C10", q.cell(bad, q.sh.pos), q.pos, "a failing Seek moves the position")
			if valid {
				c.proveRel(ip, bad, "C10", Lt(target, Const(0)), "Seek may fail for a valid target")
			}
		}
		if good != nil {
			ip.Obligations++
			if !valid {
				ip.report(good, "C10", "Seek may succeed with an invalid origin")
				return
			}
			c.proveRel(ip, good, "C10", Rel{target, GE}, "Seek may succeed with a negative target")
			c.proveEq(ip, good, "C10", pos, target, "Seek does not move to the origin plus the offset")
			c.proveEq(ip, good, "C10", ret.p, target, "Seek does not return the new position")
		}
	}
	for i, base := range []Poly{Const(0), q.pos, q.size} {
		if rest == nil {
			return
		}
		var at *State
		at, rest = rest.fork(Eq(wh.p, Const(int64(i))))
		if at != nil {
			check(at, base.Add(off.p), true)
		}
	}
	if rest != nil {
		check(rest, Const(0), false)
	}
}

// refused checks an operation without permission.
func (q *bsRun) refused(st *State, errv Value, n *Poly) {
	ip, c := q.ip, q.c
	c.proveRel(ip, st, "C09", ip.errMatches(st, errv, notPermitted).r, q.method+" does not fail with ErrNotPermitted although the stream was not opened for it")
	c.proveRel(ip, st, "C09", ip.isNil(st, errv).Neg(), q.method+" may succeed although the stream was not opened for it")
	if n != nil {
		c.proveEq(ip, st, "C09", *n, Const(0), q.method+" transfers bytes although the stream was not opened for it")
	}
	c.proveEq(ip, st, "C09", q.cell(st, q.sh.pos), q.pos, q.method+" moves the position although the stream was not opened for it")
	q.same(st, "C09", "although the stream was not opened for it")
}

func (q *bsRun) postRead(st *State, off, n Poly, errv Value) {
	ip, c := q.ip, q.c
	buf, ok := q.args[1].(SliceV)
	if !ok {
		ip.report(st, "anchor", q.method+" not understood")
		return
	}
	if gInt(st, "fRead") == 0 {
		if ip.content(st, buf.reg) != ip.initRegs[buf.reg] {
			ip.report(st, "C09", q.method+" returns data although the stream was not opened for reading")
		}
		q.refused(st, errv, &n)
		return
	}
	q.same(st, "C11", "in "+q.method)
	q.fault(st, "C11", errv)
	c.proveRel(ip, st, "C11", Rel{n, GE}, q.method+" reports a negative count")
	c.proveRel(ip, st, "C11", Le(n, buf.len), q.method+" reports more bytes than the buffer holds")
	some := st.clone()
	if some.assume(Lt(Const(0), n)) {
		c.proveRel(ip, some, "C11", Le(off.Add(n), q.size), q.method+" reads beyond the end of the stream")
	}
	neg, pos := st.fork(Lt(off, Const(0)))
	if neg != nil {
		c.proveRel(ip, neg, "C11", ip.isNil(neg, errv).Neg(), q.method+" accepts a negative offset")
		c.proveEq(ip, neg, "C11", n, Const(0), q.method+" reads at a negative offset")
	}
	if pos == nil {
		return
	}
	good, bad := pos.fork(ip.isNil(pos, errv))
	if good != nil {
		c.proveEq(ip, good, "C11", n, buf.len, q.method+" returns fewer bytes than requested without an error")
	}
	if bad != nil && gInt(bad, "#failed") != 1 {
		c.proveRel(ip, bad, "C11", ip.errMatches(bad, errv, ioEOF).r, q.method+" fails with an error other than io.EOF although the cache did not fail")
		// As many bytes as there are.
		in, past := bad.fork(Lt(off, q.size))
		if past != nil {
			c.proveEq(ip, past, "C11", n, Const(0), q.method+" returns bytes past the end")
		}
		if in != nil {
			fits, cut := in.fork(Le(buf.len, q.size.Sub(off)))
			if fits != nil {
				c.proveEq(ip, fits, "C11", n, buf.len, q.method+" returns fewer bytes than available")
			}
			if cut != nil {
				c.proveEq(ip, cut, "C11", n, q.size.Sub(off), q.method+" returns fewer bytes than available")
			}
		}
	} else if bad != nil {
		// A failing cache delivers nothing.
		c.proveEq(ip, bad, "C11", n, Const(0), q.method+" reports bytes although the cache failed")
	}
	// The bytes returned.
	s := pos.clone()
	j := q.x.Sub(off)
	if s.assume(Le(Const(0), j)) && s.assume(Lt(j, n)) && s.assume(Lt(q.k, q.t)) {
		for _, y := range ip.readElem(s, buf.reg, buf.off.Add(j)) {
			c.sameVal(ip, y.st, "C11", y.v, q.D0, q.method+" returns a byte that is not the one at that offset")
		}
	}
}

// tail checks size, contents and marks when the stream may have been changed from lo on.
func (q *bsRun) contents(st *State, size Poly, lo, n Poly, src *SliceV, srcStr bool) {
	ip, c := q.ip, q.c
	s := st.clone()
	if !s.assume(Lt(q.x, size)) {
		return
	}
	c.proveRel(ip, s, "C11", Lt(q.k, q.total(s)), q.method+": a byte of the stream is in no block")
	written := func(s *State, j Poly) {
		for _, y := range q.byteAt(s, q.x) {
			if src != nil && !srcStr {
				for _, w := range ip.readElem(y.st, src.reg, src.off.Add(j)) {
					c.sameVal(ip, w.st, "C12", y.v, w.v, q.method+": a byte written is not stored at its offset")
					q.stored(w.st, "C12", y.v, q.method+": a block that was written to is not marked as pending")
				}
			} else {
				q.stored(y.st, "C12", y.v, q.method+": a block that was written to is not marked as pending")
			}
		}
	}
	in, out := s.fork(Le(lo, q.x))
	rest := []*State{}
	if out != nil {
		rest = append(rest, out)
	}
	if in != nil {
		w, after := in.fork(Lt(q.x, lo.Add(n)))
		if w != nil {
			written(w, q.x.Sub(lo))
		}
		if after != nil {
			rest = append(rest, after)
		}
	}
	for _, s := range rest {
		old, gap := s.fork(Lt(q.x, q.size))
		if old != nil {
			for _, y := range q.byteAt(old, q.x) {
				c.sameVal(ip, y.st, "C12", y.v, q.D0, q.method+": a byte outside of the range written changes")
				q.stored(y.st, "C12", y.v, q.method+": a modified block is no longer pending")
			}
		}
		if gap != nil {
			for _, y := range q.byteAt(gap, q.x) {
				c.sameVal(ip, y.st, "C14", y.v, IntV{p: Const(0)}, q.method+": a byte added to the stream without being written is not null")
				q.stored(y.st, "C14", y.v, q.method+": a block with null bytes added to the stream is not marked as pending")
			}
		}
	}
}

func (q *bsRun) flushed(st *State) {
	ip := q.ip
	if gInt(st, "fSynchronous") != 1 {
		return
	}
	ip.Obligations++
	if gInt(st, "#unflushed") != 0 {
		ip.report(st, "C13", q.method+" may succeed on a synchronous stream without flushing")
		return
	}
}

func (q *bsRun) postTruncate(st *State, n Poly, errv Value) {
	ip, c := q.ip, q.c
	if gInt(st, "fWrite") == 0 {
		q.refused(st, errv, nil)
		return
	}
	q.fault(st, "C13", errv)
	good, bad := st.fork(ip.isNil(st, errv))
	size := q.cell(st, q.sh.size)
	if good != nil {
		c.proveRel(ip, good, "C14", Rel{n, GE}, "Truncate accepts a negative size")
		c.proveEq(ip, good, "C14", size, n, "Truncate does not set the size requested")
		t := q.total(good)
		c.proveRel(ip, good, "C14", Le(n, t.Mul(q.b)), "Truncate: too few blocks")
		c.proveRel(ip, good, "C14", Lt(t.AddConst(-1).Mul(q.b), n), "Truncate: more blocks than needed")
		q.flushed(good)
		q.contents(good, n, n, Const(0), nil, false)
	}
	if bad != nil {
		if gInt(bad, "#failed") != 1 {
			c.proveRel(ip, bad, "C14", Lt(n, Const(0)), "Truncate may refuse a valid size")
			q.same(bad, "C14", "although the size was refused")
		} else if q.data(bad).reg == q.reg {
			q.same(bad, "C14", "although the cache could not be resized")
		}
	}
}

func (q *bsRun) postWrite(st *State, pos, n Poly, errv Value) {
	ip, c := q.ip, q.c
	at := q.method == "WriteAt"
	if gInt(st, "fWrite") == 0 || (at && gInt(st, "fAppend") == 1) {
		q.refused(st, errv, &n)
		return
	}
	var src SliceV
	var l Poly
	isStr := false
	if b, ok := q.args[1].(SliceV); ok {
		src, l = b, b.len
	} else if t := strOf(q.args[1]); t != nil {
		l, isStr = t.ln, true
	} else {
		ip.report(st, "anchor", q.method+" not understood")
		return
	}
	off := q.pos
	if at {
		o, _ := cast(q.args[2])
		off = o.p
		c.proveEq(ip, st, "C10", pos, q.pos, "WriteAt moves the position")
	} else if gInt(st, "fAppend") == 1 {
		off = q.size
	}
	size := q.cell(st, q.sh.size)
	q.fault(st, "C13", errv)
	c.proveRel(ip, st, "C12", Rel{n, GE}, q.method+" reports a negative count")
	c.proveRel(ip, st, "C12", Le(n, l), q.method+" reports more bytes than it was given")
	good, bad := st.fork(ip.isNil(st, errv))
	if !at {
		if good != nil {
			c.proveEq(ip, good, "C10", pos, off.Add(n), q.method+" does not advance the position by the bytes written")
		}
		if bad != nil {
			// In append mode the position may already have moved to the end.
			ip.Obligations++
			if !bad.proveEq(pos, off.Add(n)) && !bad.proveEq(pos, q.pos.Add(n)) && !bad.proveEq(pos, size.Add(n)) {
				ip.report(bad, "C10", q.method+" does not advance the position by the bytes written when it fails")
			}
		}
	}
	if good != nil {
		c.proveRel(ip, good, "C12", Rel{off, GE}, q.method+" accepts a negative offset")
		c.proveEq(ip, good, "C12", n, l, q.method+" succeeds without reporting all bytes")
		none, some := good.fork(Eq(l, Const(0)))
		if none != nil {
			c.proveEq(ip, none, "C12", size, q.size, q.method+" of nothing changes the size")
			q.contents(none, size, off, Const(0), nil, false)
		}
		if some != nil {
			within, grows := some.fork(Le(off.Add(l), q.size))
			for i, s := range []*State{within, grows} {
				if s == nil {
					continue
				}
				end := q.size
				if i == 1 {
					end = off.Add(l)
				}
				c.proveEq(ip, s, "C12", size, end, q.method+": the stream does not end at the later of its old end and the end of the data")
				q.flushed(s)
				q.contents(s, size, off, l, &src, isStr)
			}
		}
	}
	if bad != nil {
		if gInt(bad, "#failed") != 1 {
			c.proveRel(ip, bad, "C12", Lt(off, Const(0)), q.method+" may fail although the cache did not fail")
			q.same(bad, "C12", "although the offset was refused")
			c.proveEq(ip, bad, "C12", n, Const(0), q.method+" reports bytes although the offset was refused")
		} else {
			// What lies outside of the range to be written stays as it is.
			s := bad.clone()
			if s.assume(Lt(q.x, size)) && s.assume(Lt(q.x, q.size)) {
				l1, r1 := s.fork(Lt(q.x, off))
				var r2 *State
				if r1 != nil && r1.assume(Le(off.Add(l), q.x)) {
					r2 = r1
				}
				for _, z := range []*State{l1, r2} {
					if z == nil {
						continue
					}
					for _, y := range q.byteAt(z, q.x) {
						c.sameVal(ip, y.st, "C12", y.v, q.D0, q.method+": a byte outside of the range to be written changes")
						q.stored(y.st, "C12", y.v, q.method+": a modified block is no longer pending")
					}
				}
			}
		}
	}
}

// bsNew checks the constructor.
func (c *Checker) bsNew(sh *bsShape) {
	fn := c.prog.Func(bsPkg, "New")
	if fn == nil {
		c.anchor("basicstream.New not found")
		return
	}
	c.guard("basicstream.New", func() {
		q := c.newBS(sh, "New", fn)
		ip := q.ip
		st := NewState()
		q.cacheState(st)
		// Contents beyond the end of the stream do not matter here.
		q.size = Const(0)
		var args []Value
		var fl Value
		for _, p := range fn.Params {
			switch types.TypeString(p.Type(), nil) {
			case "*" + bcFull + ".BlockCache":
				args = append(args, PtrV{obj: q.cache})
			case "github.com/dargueta/disko.IOFlags":
				fl = ip.fresh(st, "flags", p.Type())
				args = append(args, fl)
			default:
				v := ip.fresh(st, p.Name(), p.Type())
				limit(st, v, -(1 << 48), 1<<48)
				if iv, ok := v.(IntV); ok {
					q.size = iv.p
				}
				args = append(args, v)
			}
		}
		q.args = args
		fv, _ := fl.(IntV)
		q.flags = fv.p
		for i := 0; i < len(atoms); i++ {
			ip.prog.inputAtoms[Atom(i)] = true
		}
		var starts []*State
		for _, s := range q.flagCases(q.cases(st), fl) {
			starts = append(starts, ip.rootOn(s, fn, args))
		}
		okSeen := false
		for _, s := range ip.Run(starts...) {
			if s.status == panicked {
				ip.report(s, "C11", "New may panic: "+s.note)
			}
			if s.status != returned || len(s.results) != 2 {
				continue
			}
			errv := s.results[1]
			q.fault(s, "C13", errv)
			good, bad := s.fork(ip.isNil(s, errv))
			trunc := gInt(s, "fTruncate") == 1
			valid := func(z *State) bool {
				return z.assume(Rel{q.size, GE}) && z.assume(Le(q.size, q.t.Mul(q.b)))
			}
			if good != nil {
				okSeen = true
				pv, ok := good.results[0].(PtrV)
				if !ok || pv.isElem {
					ip.report(good, "anchor", "result of New not understood")
					continue
				}
				q.obj = pv.obj
				c.proveRel(ip, good, "C11", Rel{q.size, GE}, "New accepts a negative size")
				c.proveRel(ip, good, "C11", Le(q.size, q.t.Mul(q.b)), "New accepts a size beyond the blocks of the cache")
				q.invariant(good)
				c.proveEq(ip, good, "C10", q.cell(good, sh.pos), Const(0), "New: initial position")
				if trunc {
					c.proveEq(ip, good, "C13", q.cell(good, sh.size), Const(0), "New with the truncate flag does not truncate the stream")
					c.proveEq(ip, good, "C13", q.total(good), Const(0), "New with the truncate flag leaves blocks")
				} else {
					c.proveEq(ip, good, "C11", q.cell(good, sh.size), q.size, "New: initial size")
					q.untouched(good, "C12", "when the stream is opened")
				}
			}
			if bad != nil && gInt(bad, "#failed") != 1 {
				// Only invalid sizes and truncating what may not be written are refused.
				ip.Obligations++
				z := bad.clone()
				if valid(z) && !(trunc && gInt(z, "fWrite") == 0) {
					ip.report(z, "C11", "New may refuse a valid size")
				}
				q.untouched(bad, "C14", "although New fails")
			}
		}
		if !okSeen {
			ip.report(&State{}, "anchor", "New never succeeds")
		}
		c.collect(ip)
	})
}

var bsMethods = []string{"Size", "Tell", "Sync", "Close", "Seek", "ReadAt", "Read", "Truncate", "Write", "WriteAt", "WriteString"}

func (c *Checker) stream() {
	sh, err := bsFieldRoles(c.prog)
	if err != nil {
		c.anchor(err.Error())
		return
	}
	for _, m := range bsMethods {
		fn := c.prog.Method(bsPkg, "BasicStream", m)
		if fn == nil {
			c.anchor("method BasicStream." + m + " not found")
			continue
		}
		c.guard("BasicStream."+m, func() {
			q := c.newBS(sh, m, fn)
			q.run()
			c.collect(q.ip)
		})
	}
	c.bsNew(sh)
}

func init() {
	crash := []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"}
	bs := func(c *Checker) { c.once("stream", func(s *Checker) { s.stream() }) }
	def := func(id, title, explain string, rules ...string) {
		register(&check{id: id, title: title, run: bs, rules: rules, floors: map[string]int{"roots": 12, "obligations": 200}, explain: explain})
	}
	def("C09", "Stream access modes are enforced", "Decided here: what every operation does on streams without the permission it needs.")
	def("C10", "The stream position moves exactly by what was transferred", "Decided here: the position after every operation.")
	def("C11", "Stream reads return exactly the bytes available", "Decided here: counts, errors and bytes returned by reads, and the stream's size against its blocks.", crash...)
	def("C12", "Stream writes store every byte and mark it pending", "Decided here: the byte followed, after every write.", crash...)
	def("C13", "Synchronous streams have flushed", "Decided here: whether the cache was flushed after the last change.")
	def("C14", "Bytes added to a stream read as null", "Decided here: bytes between the old and the new end.", crash...)
}
