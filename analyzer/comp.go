package main

// Checks of the compression package (C36 to C39, C37): the functions are run against monitors that decode
// what is written, or encode what should be written, token by token.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const compPkg = "utilities/compression"
const ioEOF = "io.EOF"

// structFields finds fields of a struct type by name.
func structFields(t types.Type, names ...string) ([]int, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	var out []int
	for _, n := range names {
		found := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				found = i
			}
		}
		if found < 0 {
			return nil, false
		}
		out = append(out, found)
	}
	return out, true
}

type compRun struct {
	c         *Checker
	ip        *Interp
	fn        *ssa.Function
	rule      string
	recursive bool
	runT      types.Type
	byteF     int
	lenF      int
	k         Poly
}

func (c *Checker) newComp(name, rule string, recursive bool) *compRun {
	fn := c.prog.Func(compPkg, name)
	if fn == nil {
		c.anchor("function compression." + name + " not found")
		return nil
	}
	c.prog.reset()
	q := &compRun{c: c, ip: c.newInterp(), fn: fn, rule: rule, recursive: recursive}
	rt := c.prog.Type(compPkg, "ByteRun")
	if rt == nil {
		c.anchor("type compression.ByteRun not found")
		return nil
	}
	fs, ok := structFields(rt, "Byte", "RunLength")
	if !ok {
		c.anchor("compression.ByteRun has no fields Byte and RunLength")
		return nil
	}
	q.runT, q.byteF, q.lenF = rt, fs[0], fs[1]
	return q
}

// twoErrs makes an error that is io.EOF and one that is not, in clones of a state.
func (q *compRun) failures(st *State, name string, c *CallCtx) (eof, other *State, e1, e2 *SymV) {
	ip := q.ip
	mk := func(isEOF bool) (*State, *SymV) {
		s := st.clone()
		e := ip.unknownErr(errorType, "err("+name+")")
		e.origin = &Event{kind: "call", name: name, instr: c.instr}
		s.assume(ip.isNil(s, e).Neg())
		m := ip.errMatches(s, e, ioEOF).r
		if !isEOF {
			m = m.Neg()
			gSet(s, "#failed", 1)
		}
		s.assume(m)
		if isEOF {
			// Readers report their end with io.EOF itself.
			s.assume(ip.symEq(s, e, ip.sentinelSym(ioEOF)).r)
		}
		return s, e
	}
	eof, e1 = mk(true)
	other, e2 = mk(false)
	return
}

func (q *compRun) runValue(b, n Poly) Value {
	s := StructV{make([]Value, 2)}
	s.f[q.byteF] = IntV{p: b}
	s.f[q.lenF] = IntV{p: n}
	return s
}

// ---------------------------------------------------------------------------- compression

// nextRun models RLEGrouper.GetNextRun.
func (q *compRun) nextRun(ip *Interp, st0 *State, c *CallCtx) []*State {
	var out []*State
	ms := modes(st0, "#dst", 2)
	for _, m := range sortedModes(ms) {
		st := ms[m]
		q.runDone(st, m, "when the next run is read")
		q.ended(st, "#eof", "a run")
		eof, other, e1, e2 := q.failures(st, "GetNextRun", c)
		b := AtomPoly(NewAtomRange("byte", 0, 255))
		set := func(s *State, n Poly, e Value) {
			gPut(s, "B", b)
			gPut(s, "L", n)
			gPut(s, "rep", Const(0))
			gSet(s, "#dst", 0)
			v := TupleV{q.runValue(b, n), e}
			c.ret(ip, s, v)
			ip.record(s, c, v)
			out = append(out, s)
		}
		set(st, AtomPoly(NewAtomMin("runLength", 1)), NilV{})
		gSet(eof, "#eof", 1)
		set(eof, AtomPoly(NewAtomMin("runLength", 0)), e1)
		gSet(other, "#eof", 1)
		set(other, AtomPoly(NewAtomMin("runLength", 0)), e2)
	}
	return out
}

// ended checks that nothing is asked of an input that has ended or failed.
func (q *compRun) ended(st *State, ghost, what string) {
	q.ip.Obligations++
	if gInt(st, ghost) != 0 {
		q.ip.report(st, q.rule, "another attempt to get "+what+" is made although the input ended or failed, so that the function may never end")
	}
}

// counted checks the number of bytes reported on success.
func (q *compRun) counted(st *State) {
	q.ip.Obligations++
	n, ok := cast(st.results[0])
	if !ok || !st.proveEq(n.p, gPoly(st, "total")) {
		q.ip.report(st, q.rule, "the number of bytes reported may not be the number written")
	}
}

func (q *compRun) runDone(st *State, m int64, when string) {
	if m == 2 {
		q.ip.report(st, q.rule, "a repeat count is missing "+when)
	}
	q.c.proveEq(q.ip, st, q.rule, gPoly(st, "rep"), gPoly(st, "L"), "the tokens written do not stand for the whole run "+when)
}

// emit runs the decoder on one byte of output.
func (q *compRun) emit(st *State, v Poly) []*State {
	ip := q.ip
	var out []*State
	ms := modes(st, "#dst", 2)
	for _, m := range sortedModes(ms) {
		s := ms[m]
		switch m {
		case 0, 1:
			q.c.proveEq(ip, s, q.rule, v, gPoly(s, "B"), "a byte written is not the byte of the run")
			gPut(s, "rep", gPoly(s, "rep").AddConst(1))
			gSet(s, "#dst", m+1)
			out = append(out, s)
		case 2:
			gPut(s, "rep", gPoly(s, "rep").Add(v))
			if q.recursive {
				yes, no := s.fork(Eq(v, Const(255)))
				if yes != nil {
					out = append(out, yes)
				}
				if no != nil {
					gSet(no, "#dst", 0)
					out = append(out, no)
				}
				continue
			}
			gSet(s, "#dst", 0)
			out = append(out, s)
		}
	}
	return out
}

// write models writes to the output of a compressor.
func (q *compRun) write(ip *Interp, st *State, c *CallCtx) []*State {
	buf, n, ok := ip.sliceLen(st, c.args[len(c.args)-1])
	if !ok {
		ip.report(st, q.rule, "what is written is not understood")
		return ip.opaque(st, c)
	}
	k, e := ip.ioLen(st, "Write", n, true, false)
	v := TupleV{k, e}
	c.ret(ip, st, v)
	ip.record(st, c, v)
	good, bad := st.fork(ip.isNil(st, e))
	var out []*State
	if bad != nil {
		gSet(bad, "#failed", 1)
		out = append(out, bad)
	}
	if good == nil {
		return out
	}
	gPut(good, "total", gPoly(good, "total").Add(n))
	if n.Equal(Const(0)) {
		return append(out, good)
	}
	segs := []seg{{buf.off, buf.off.Add(n), nil}}
	if _, isc := n.IsConst(); !isc {
		if l, ok := ip.segments(good, ip.content(good, buf.reg), buf.off, buf.off.Add(n), 0); ok {
			segs = l
		}
	}
	cur := []*State{good}
	for _, g := range segs {
		var next []*State
		for _, s := range cur {
			next = append(next, q.writeSeg(s, buf.reg, g)...)
		}
		cur = next
	}
	return append(out, cur...)
}

// seg is a part of a content, of equal bytes if there is a value.
type seg struct {
	lo, hi Poly
	val    Value
}

// segments splits a part of a content at the limits of what was written to it.
func (ip *Interp) segments(st *State, c *RegContent, lo, hi Poly, depth int) ([]seg, bool) {
	var out []seg
	if c == nil || depth > 6 {
		return nil, false
	}
	for n := 0; n < 32; n++ {
		if st.proveEq(lo, hi) {
			return out, true
		}
		found := false
		var later []Poly
		for i := len(c.w) - 1; i >= 0; i-- {
			w := c.w[i]
			before := true
			for _, l := range later {
				before = before && st.prove(Le(w.hi, l))
			}
			if !st.proveEq(w.lo, lo) || !st.prove(Le(w.hi, hi)) || !before {
				if st.prove(Le(w.hi, lo)) || st.prove(Le(hi, w.lo)) {
					continue
				}
				// Only an update further on may be in the way. What is before it may be empty.
				if st.prove(Lt(lo, w.lo)) {
					continue
				}
				if st.prove(Le(lo, w.lo)) {
					later = append(later, w.lo)
					continue
				}
				return nil, false
			}
			if w.rev {
				return nil, false
			}
			if w.src != nil {
				in, ok := ip.segments(st, w.src, w.lo.Add(w.delta), w.hi.Add(w.delta), depth+1)
				if !ok {
					return nil, false
				}
				for _, g := range in {
					out = append(out, seg{g.lo.Sub(w.delta), g.hi.Sub(w.delta), g.val})
				}
			} else {
				out = append(out, seg{w.lo, w.hi, w.val})
			}
			lo = w.hi
			found = true
			break
		}
		if !found {
			return nil, false
		}
	}
	return nil, false
}

// writeSeg runs the decoder on a part of what is written.
func (q *compRun) writeSeg(st *State, r Region, g seg) []*State {
	ip := q.ip
	n := g.hi.Sub(g.lo)
	cur := []*State{st}
	if cn, isc := n.IsConst(); isc && cn <= 64 {
		for i := int64(0); i < cn; i++ {
			var next []*State
			for _, s := range cur {
				for _, sv := range ip.readElem(s, r, g.lo.AddConst(i)) {
					iv, ok := sv.v.(IntV)
					if !ok {
						ip.report(sv.st, q.rule, "a byte written is not understood")
						continue
					}
					next = append(next, q.emit(sv.st, iv.p)...)
				}
			}
			cur = next
		}
		return cur
	}
	var out []*State
	empty, some := st.fork(Eq(n, Const(0)))
	if empty != nil {
		out = append(out, empty)
	}
	if some == nil {
		return out
	}
	// Many equal bytes: only counts of 255 can be repeated.
	ms := modes(some, "#dst", 2)
	for _, m := range sortedModes(ms) {
		s := ms[m]
		j := AtomPoly(NewAtomMin("j", 0))
		t := s.clone()
		okc := m == 2 && q.recursive && t.assume(Lt(j, n))
		if okc {
			for _, sv := range ip.readElem(t, r, g.lo.Add(j)) {
				iv, isInt := sv.v.(IntV)
				okc = okc && isInt && sv.st.proveEq(iv.p, Const(255))
			}
		}
		if !okc {
			ip.report(s, q.rule, "output of unknown length is not understood")
		}
		gPut(s, "rep", gPoly(s, "rep").Add(n.Mul(Const(255))))
		out = append(out, s)
	}
	return out
}

func (c *Checker) compress(name, rule string, recursive bool) {
	c.guard("compression."+name, func() {
		q := c.newComp(name, rule, recursive)
		if q == nil {
			return
		}
		ip := q.ip
		for _, p := range []string{"(", "(*"} {
			ip.Models[p+modulePath+"/"+compPkg+".RLEGrouper).GetNextRun"] = q.nextRun
		}
		ip.Models["(io.Writer).Write"] = q.write
		ip.Models["(io.ByteWriter).WriteByte"] = nil
		delete(ip.Models, "(io.ByteWriter).WriteByte")
		st := NewState()
		gSet(st, "#dst", 0)
		gSet(st, "#eof", 0)
		gSet(st, "#failed", 0)
		gPut(st, "total", Const(0))
		gPut(st, "rep", Const(0))
		gPut(st, "L", Const(0))
		gPut(st, "B", Const(0))
		args := c.freshArgs(ip, st, q.fn)
		n := 0
		for _, s := range ip.Run(ip.rootOn(st, q.fn, args)) {
			if s.status != returned {
				continue
			}
			n++
			ok, bad := ip.splitErr(q.fn, s)
			if ok != nil {
				ms := modes(ok, "#dst", 2)
				for _, m := range sortedModes(ms) {
					q.runDone(ms[m], m, "when the function reports success")
					q.counted(ms[m])
					if gInt(ms[m], "#eof") != 1 {
						ip.report(ms[m], rule, "success is reported before the end of the input")
					}
				}
			}
			if bad != nil && gInt(bad, "#failed") != 1 {
				ip.report(bad, rule, "the function may fail although input and output did not")
			}
		}
		if n == 0 {
			c.anchor("no path through " + name + " was analysed")
		}
		c.collect(ip)
	})
}

// -------------------------------------------------------------------------- decompression

// gotByte advances the reference decoder.
func (q *compRun) gotByte(st0 *State, v Poly) []*State {
	ip, c := q.ip, q.c
	var out []*State
	ms := modes(st0, "#dst", 2)
	for _, m := range sortedModes(ms) {
		st := ms[m]
		if m != 2 {
			c.proveEq(ip, st, q.rule, gPoly(st, "owed"), Const(0), "a token is read before the bytes of the last one were written")
		}
		switch m {
		case 0:
			gPut(st, "db", v)
			gPut(st, "owed", Const(1))
			gSet(st, "#dst", 1)
			out = append(out, st)
		case 1:
			y, n := st.fork(Eq(v, gPoly(st, "db")))
			if y != nil {
				gPut(y, "owed", Const(1))
				gSet(y, "#dst", 2)
				out = append(out, y)
			}
			if n != nil {
				gPut(n, "db", v)
				gPut(n, "owed", Const(1))
				out = append(out, n)
			}
		case 2:
			gPut(st, "owed", gPoly(st, "owed").Add(v))
			if !q.recursive {
				gSet(st, "#dst", 0)
				out = append(out, st)
				continue
			}
			y, n := st.fork(Eq(v, Const(255)))
			if y != nil {
				out = append(out, y)
			}
			if n != nil {
				gSet(n, "#dst", 0)
				out = append(out, n)
			}
		}
	}
	return out
}

func (q *compRun) readByte(ip *Interp, st *State, c *CallCtx) []*State {
	q.ended(st, "#end", "a byte")
	eof, other, e1, e2 := q.failures(st, "ReadByte", c)
	var out []*State
	fail := func(s *State, e *SymV) {
		v := TupleV{freshInt("byte", types.Typ[types.Byte]), e}
		c.ret(ip, s, v)
		ip.record(s, c, v)
		gSet(s, "#end", 1)
		out = append(out, s)
	}
	fail(eof, e1)
	fail(other, e2)
	b := AtomPoly(NewAtomRange("byte", 0, 255))
	c.ret(ip, st, TupleV{IntV{p: b}, NilV{}})
	return append(out, q.gotByte(st, b)...)
}

// readFull models io.ReadFull into a buffer of one byte.
func (q *compRun) readFull(ip *Interp, st *State, c *CallCtx) []*State {
	buf, n, ok := ip.sliceLen(st, c.args[1])
	if l, isc := n.IsConst(); !ok || !isc || l != 1 {
		ip.report(st, q.rule, "reads of more than one byte are not understood")
		return ip.opaque(st, c)
	}
	q.ended(st, "#end", "a byte")
	eof, other, e1, e2 := q.failures(st, "ReadFull", c)
	var out []*State
	for i, s := range []*State{eof, other} {
		v := TupleV{IntV{p: Const(0)}, []*SymV{e1, e2}[i]}
		c.ret(ip, s, v)
		ip.record(s, c, v)
		gSet(s, "#end", 1)
		out = append(out, s)
	}
	b := AtomPoly(NewAtomRange("byte", 0, 255))
	ip.writeElem(st, buf.reg, buf.off, IntV{p: b})
	c.ret(ip, st, TupleV{IntV{p: Const(1)}, NilV{}})
	return append(out, q.gotByte(st, b)...)
}

func (q *compRun) writeOut(ip *Interp, st *State, c *CallCtx) []*State {
	buf, n, ok := ip.sliceLen(st, c.args[len(c.args)-1])
	if !ok {
		ip.report(st, q.rule, "what is written is not understood")
		return ip.opaque(st, c)
	}
	k, e := ip.ioLen(st, "Write", n, true, false)
	v := TupleV{k, e}
	c.ret(ip, st, v)
	ip.record(st, c, v)
	good, bad := st.fork(ip.isNil(st, e))
	var out []*State
	if bad != nil {
		gSet(bad, "#failed", 1)
		out = append(out, bad)
	}
	if good == nil {
		return out
	}
	j := q.k
	t := good.clone()
	if t.assume(Lt(j, n)) {
		for _, sv := range ip.readElem(t, buf.reg, buf.off.Add(j)) {
			iv, isInt := sv.v.(IntV)
			ip.Obligations++
			if !isInt || !sv.st.proveEq(iv.p, gPoly(sv.st, "db")) {
				ip.report(sv.st, q.rule, "a byte written is not the byte of the token read last")
			}
		}
	}
	q.c.proveRel(ip, good, q.rule, Le(n, gPoly(good, "owed")), "more bytes are written than the token stands for")
	gPut(good, "owed", gPoly(good, "owed").Sub(n))
	gPut(good, "total", gPoly(good, "total").Add(n))
	return append(out, good)
}

func (c *Checker) decompress(name, rule string, recursive bool) {
	c.guard("compression."+name, func() {
		q := c.newComp(name, rule, recursive)
		if q == nil {
			return
		}
		ip := q.ip
		for _, n := range []string{"(*bufio.Reader).ReadByte", "(io.ByteReader).ReadByte"} {
			ip.Models[n] = q.readByte
		}
		ip.Models["io.ReadFull"] = q.readFull
		ip.Models["(io.Writer).Write"] = q.writeOut
		// What is written is followed at an arbitrary place.
		ka := NewAtomRange("k", 0, 1<<40)
		q.k = AtomPoly(ka)
		ip.Skolems = []Atom{ka}
		ip.Track = func(st *State, r Region) []Poly {
			if b, ok := ip.regions[r].elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return []Poly{q.k}
			}
			return nil
		}
		st := NewState()
		gSet(st, "#dst", 0)
		gSet(st, "#end", 0)
		gSet(st, "#failed", 0)
		gPut(st, "total", Const(0))
		gPut(st, "owed", Const(0))
		gPut(st, "db", Const(0))
		args := c.freshArgs(ip, st, q.fn)
		n := 0
		for _, s := range ip.Run(ip.rootOn(st, q.fn, args)) {
			if s.status != returned {
				continue
			}
			n++
			ok, bad := ip.splitErr(q.fn, s)
			if ok != nil {
				ms := modes(ok, "#dst", 2)
				for _, m := range sortedModes(ms) {
					s := ms[m]
					q.counted(s)
					if gInt(s, "#end") != 1 {
						ip.report(s, rule, "success is reported before the end of the input")
					}
					if m == 2 {
						ip.report(s, rule, "a missing repeat count is not reported")
					}
					c.proveEq(ip, s, rule, gPoly(s, "owed"), Const(0), "bytes of the last token are not written")
				}
			}
			if bad != nil && gInt(bad, "#failed") != 1 {
				ms := modes(bad, "#dst", 2)
				for _, m := range sortedModes(ms) {
					if m != 2 || gInt(ms[m], "#end") != 1 {
						ip.report(ms[m], rule, "the function may fail although the input is complete and nothing failed")
					}
				}
			}
		}
		if n == 0 {
			c.anchor("no path through " + name + " was analysed")
		}
		c.collect(ip)
	})
}

// ------------------------------------------------------------------------------- grouping

func (c *Checker) grouper() {
	const rule = "C39"
	c.guard("RLEGrouper.GetNextRun", func() {
		fn := c.prog.Method(compPkg, "RLEGrouper", "GetNextRun")
		rt := c.prog.Type(compPkg, "ByteRun")
		gt := c.prog.Type(compPkg, "RLEGrouper")
		if fn == nil || rt == nil || gt == nil {
			c.anchor("RLEGrouper.GetNextRun not found")
			return
		}
		fs, ok := structFields(rt, "Byte", "RunLength")
		if !ok {
			c.anchor("compression.ByteRun has no fields Byte and RunLength")
			return
		}
		c.prog.reset()
		ip := c.newInterp()
		q := &compRun{c: c, ip: ip, fn: fn, rule: rule, runT: rt, byteF: fs[0], lenF: fs[1]}
		read := func(ip *Interp, st *State, cc *CallCtx) []*State {
			eof, other, e1, e2 := q.failures(st, "ReadByte", cc)
			var out []*State
			for i, s := range []*State{eof, other} {
				v := TupleV{freshInt("byte", types.Typ[types.Byte]), []*SymV{e1, e2}[i]}
				cc.ret(ip, s, v)
				ip.record(s, cc, v)
				gSet(s, "#end", int64(i+1))
				out = append(out, s)
			}
			b := AtomPoly(NewAtomRange("byte", 0, 255))
			cc.ret(ip, st, TupleV{IntV{p: b}, NilV{}})
			ms := modes(st, "#ph", 3)
			for _, m := range sortedModes(ms) {
				s := ms[m]
				switch m {
				case 0:
					gPut(s, "B", b)
					gPut(s, "n", Const(1))
					gSet(s, "#ph", 1)
					out = append(out, s)
				case 1:
					y, n := s.fork(Eq(b, gPoly(s, "B")))
					if y != nil {
						gPut(y, "n", gPoly(y, "n").AddConst(1))
						out = append(out, y)
					}
					if n != nil {
						gSet(n, "#ph", 2)
						out = append(out, n)
					}
				default:
					ip.report(s, rule, "another byte is read after the run has ended")
					out = append(out, s)
				}
			}
			return out
		}
		unread := func(ip *Interp, st *State, cc *CallCtx) []*State {
			e := ip.unknownErr(errorType, "err(UnreadByte)")
			cc.ret(ip, st, e)
			ip.record(st, cc, e)
			good, bad := st.fork(ip.isNil(st, e))
			var out []*State
			if bad != nil {
				gSet(bad, "#failed", 1)
				// Only reads report the end of the input.
				bad.assume(ip.errMatches(bad, e, ioEOF).r.Neg())
				out = append(out, bad)
			}
			if good != nil {
				ms := modes(good, "#ph", 3)
				for _, m := range sortedModes(ms) {
					if m != 2 {
						ip.report(ms[m], rule, "a byte is put back that belongs to the run")
					}
					gSet(ms[m], "#ph", 3)
					out = append(out, ms[m])
				}
			}
			return out
		}
		for _, n := range []string{"(*bufio.Reader)", "(io.ByteScanner)", "(io.ByteReader)"} {
			ip.Models[n+".ReadByte"] = read
			ip.Models[n+".UnreadByte"] = unread
		}
		st := NewState()
		gSet(st, "#ph", 0)
		gSet(st, "#end", 0)
		gSet(st, "#failed", 0)
		gPut(st, "n", Const(0))
		gPut(st, "B", Const(0))
		args := c.freshArgs(ip, st, fn)
		for i := range args {
			if p, isPtr := args[i].(PtrV); isPtr {
				_ = p
			} else if s, isS := args[i].(StructV); isS {
				for _, f := range s.f {
					ip.fixInput(f)
				}
			}
		}
		n := 0
		for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
			if s.status != returned || len(s.results) != 2 {
				continue
			}
			n++
			ok, bad := ip.splitErr(fn, s)
			field := func(s *State, i int) Poly {
				if v, isS := s.results[0].(StructV); isS && i < len(v.f) {
					if iv, isI := v.f[i].(IntV); isI {
						return iv.p
					}
				}
				return AtomPoly(NewAtom("?"))
			}
			result := func(s *State) {
				c.proveEq(ip, s, rule, field(s, q.lenF), gPoly(s, "n"), "the length returned is not the number of bytes of the run")
				if !s.proveEq(gPoly(s, "n"), Const(0)) {
					c.proveEq(ip, s, rule, field(s, q.byteF), gPoly(s, "B"), "the byte returned is not that of the run")
				}
			}
			if ok != nil {
				ms := modes(ok, "#ph", 3)
				for _, m := range sortedModes(ms) {
					s := ms[m]
					if gInt(s, "#end") != 0 {
						ip.report(s, rule+"e", "the end of the input, or an error, is not reported")
						continue
					}
					if m == 0 || m == 2 {
						ip.report(s, rule, "a byte that does not belong to the run is not put back")
					}
					if m == 1 && !s.prove(Le(Const(1<<62), gPoly(s, "n"))) {
						ip.report(s, rule, "the run is cut short")
					}
					result(s)
				}
			}
			if bad != nil {
				y, no := bad.fork(ip.errMatches(bad, s.results[1], ioEOF).r)
				if y != nil {
					if v, isS := y.results[1].(*SymV); !isS || !y.prove(ip.symEq(y, v, ip.sentinelSym(ioEOF)).r) {
						ip.report(y, rule+"e", "the end of the input is reported by another error than io.EOF")
					}
					if gInt(y, "#end") != 1 {
						ip.report(y, rule+"e", "io.EOF is returned although the input has not ended")
					} else {
						result(y)
					}
				}
				if no != nil {
					if gInt(no, "#end") != 2 && gInt(no, "#failed") != 1 {
						ip.report(no, rule, "an error is returned although nothing failed")
					}
					c.proveEq(ip, no, rule, field(no, q.lenF), Const(0), "a run is returned together with an error")
				}
			}
		}
		if n == 0 {
			c.anchor("no path through GetNextRun was analysed")
		}
		c.collect(ip)
	})
}
