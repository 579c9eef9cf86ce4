package main

// Copying to and from streams (C15), and block caches on top of streams (C08).

import (
	"fmt"
	"go/types"
)

// copyRun follows the J-th byte that is delivered.
type copyRun struct {
	q    *bsRun
	J, V Poly
}

// take models reading into a buffer: the byte followed may be among what is read.
func (y *copyRun) take(st *State, buf SliceV, n Poly) []*State {
	ip := y.q.ip
	ip.havocRange(st, buf.reg, buf.off, buf.off.Add(buf.len))
	if gInt(st, "#seen") == 1 {
		gPut(st, "N", gPoly(st, "N").Add(n))
		return []*State{st}
	}
	N := gPoly(st, "N")
	gPut(st, "N", N.Add(n))
	var out []*State
	// J is not below N as long as it was not seen.
	in, no := st.fork(Lt(y.J, N.Add(n)))
	if no != nil {
		out = append(out, no)
	}
	if in != nil {
		gSet(in, "#seen", 1)
		ip.writeElem(in, buf.reg, buf.off.Add(y.J.Sub(N)), IntV{p: y.V})
		out = append(out, in)
	}
	return out
}

// lost reports data that was read and not passed on.
func (y *copyRun) lost(st *State, when string) {
	y.q.ip.Obligations++
	if gInt(st, "#seen") == 1 && gInt(st, "#stored") != 1 {
		y.q.ip.report(st, "C15", y.q.method+" may lose data that was read "+when)
	}
}

// give models handing over a buffer, of which n bytes are taken.
func (y *copyRun) give(st *State, buf SliceV, n Poly) []*State {
	ip, c := y.q.ip, y.q.c
	W := gPoly(st, "W")
	gPut(st, "W", W.Add(n))
	c.proveRel(ip, st, "C15", Le(W.Add(buf.len), gPoly(st, "N")), y.q.method+" passes on more than was read")
	if gInt(st, "#seen") != 1 || gInt(st, "#stored") == 1 {
		return []*State{st}
	}
	var out []*State
	c.proveRel(ip, st, "C15", Le(W, y.J), y.q.method+" may pass on data in the wrong order")
	in, no := st.fork(Lt(y.J, W.Add(n)))
	if no != nil {
		out = append(out, no)
	}
	if in != nil {
		for _, x := range ip.readElem(in, buf.reg, buf.off.Add(y.J.Sub(W))) {
			c.sameVal(ip, x.st, "C15", x.v, IntV{p: y.V}, y.q.method+" passes on a byte other than the one read")
			gSet(x.st, "#stored", 1)
			out = append(out, x.st)
		}
	}
	return out
}

func (y *copyRun) failure(st *State, name, matches string, c *CallCtx) (*State, *SymV) {
	ip := y.q.ip
	s := st.clone()
	e := ip.unknownErr(errorType, "err("+name+")")
	e.origin = &Event{kind: "call", name: name, instr: c.instr}
	s.assume(ip.isNil(s, e).Neg())
	if matches != "" {
		s.assume(ip.errMatches(s, e, matches).r)
		if matches == ioEOF {
			s.assume(ip.symEq(s, e, ip.sentinelSym(ioEOF)).r)
			return s, e
		}
	}
	s.assume(ip.errMatches(s, e, ioEOF).r.Neg())
	return s, e
}

// source models the side that is read.
func (y *copyRun) source(stream bool) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		buf, ok := ip.asSlice(st, c.args[len(c.args)-1])
		if !ok || buf.reg == 0 {
			ip.report(st, "C15", "buffer not understood")
			return ip.opaque(st, c)
		}
		ip.CallsSeen["source.Read"]++
		y.q.c.proveRel(ip, st, "C15", Le(Const(1), buf.len), y.q.method+" may read into an empty buffer, which never ends")
		y.lost(st, "earlier")
		var out []*State
		ret := func(s *State, n Poly, e Value) {
			s.ghost["rderr"] = e
			out = append(out, y.take(s, buf, n)...)
		}
		if stream && gInt(st, "fRead") == 0 {
			s, e := y.failure(st, "Read", notPermitted, c)
			gSet(s, "#end", 2)
			c.ret(ip, s, TupleV{IntV{p: Const(0)}, e})
			ret(s, Const(0), e)
			return out
		}
		if gInt(st, "#end") != 0 {
			ip.report(st, "C15", y.q.method+" reads again after the end")
		}
		mk := func() Poly {
			n := AtomPoly(NewAtomMin("n(Read)", 0))
			st.addFact(Le(n, buf.len))
			return n
		}
		n := mk()
		eof, e1 := y.failure(st, "Read", ioEOF, c)
		bad, e2 := y.failure(st, "Read", "", c)
		gSet(eof, "#end", 1)
		gSet(bad, "#end", 2)
		if stream {
			// A stream only returns fewer bytes together with an error.
			st.assume(Eq(n, buf.len))
			bad.assume(Eq(n, Const(0)))
		}
		c.ret(ip, st, TupleV{IntV{p: n}, NilV{}})
		c.ret(ip, eof, TupleV{IntV{p: n}, e1})
		c.ret(ip, bad, TupleV{IntV{p: n}, e2})
		ret(st, n, NilV{})
		ret(eof, n, e1)
		ret(bad, n, e2)
		return out
	}
}

// sink models the side that is written.
func (y *copyRun) sink(stream bool) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		buf, ok := ip.asSlice(st, c.args[len(c.args)-1])
		if !ok {
			ip.report(st, "C15", "buffer not understood")
			return ip.opaque(st, c)
		}
		ip.CallsSeen["sink.Write"]++
		fail := func(s *State, e *SymV, n Poly) []*State {
			gSet(s, "#wfail", 1)
			s.ghost["wrerr"] = e
			c.ret(ip, s, TupleV{IntV{p: n}, e})
			return y.give(s, buf, n)
		}
		if stream && gInt(st, "fWrite") == 0 {
			s, e := y.failure(st, "Write", notPermitted, c)
			return fail(s, e, Const(0))
		}
		bad, e := y.failure(st, "Write", "", c)
		n := AtomPoly(NewAtomMin("n(Write)", 0))
		bad.addFact(Le(n, buf.len))
		out := fail(bad, e, n)
		c.ret(ip, st, TupleV{IntV{p: buf.len}, NilV{}})
		return append(out, y.give(st, buf, buf.len)...)
	}
}

func (c *Checker) copies() {
	sh, err := bsFieldRoles(c.prog)
	if err != nil {
		c.anchor(err.Error())
		return
	}
	full := "(*github.com/dargueta/disko/" + bsPkg + ".BasicStream)."
	for _, m := range []string{"ReadFrom", "WriteTo"} {
		fn := c.prog.Method(bsPkg, "BasicStream", m)
		if fn == nil {
			c.anchor("method BasicStream." + m + " not found")
			continue
		}
		c.guard("BasicStream."+m, func() {
			q := c.newBS(sh, m, fn)
			ip := q.ip
			jA := NewAtomRange("J", 0, 1<<48)
			y := &copyRun{q: q, J: AtomPoly(jA), V: AtomPoly(NewAtomRange("V", 0, 255))}
			ip.Skolems = []Atom{jA}
			ip.Track = func(st *State, r Region) []Poly { return nil }
			ip.SplitReads = false
			q.query = "Read"
			if m == "ReadFrom" {
				q.query = "Write"
				ip.Models["(io.Reader).Read"] = y.source(false)
				ip.Models[full+"Write"] = y.sink(true)
			} else {
				ip.Models["(io.Writer).Write"] = y.sink(false)
				ip.Models[full+"Read"] = y.source(true)
			}
			var starts []*State
			for _, s := range q.start() {
				for _, g := range []string{"#seen", "#stored", "#end", "#wfail", "N", "W"} {
					gSet(s, g, 0)
				}
				starts = append(starts, ip.rootOn(s, fn, q.args))
			}
			ends := 0
			for _, s := range ip.Run(starts...) {
				if s.status == panicked {
					ip.report(s, "C15", m+" may panic: "+s.note)
				}
				if s.status != returned || len(s.results) != 2 {
					continue
				}
				if gInt(s, "#end") == 1 {
					ends++
				}
				y.done(s)
			}
			if ends == 0 {
				ip.report(&State{}, "anchor", m+" never reaches the end")
			}
			c.collect(ip)
		})
	}
}

func (y *copyRun) done(st *State) {
	q := y.q
	ip, c := q.ip, q.c
	errv := st.results[1]
	n, ok := cast(st.results[0])
	if !ok || n.wrap {
		ip.report(st, "C15", q.method+": count not understood")
		return
	}
	wrap := func(g, what string) {
		ip.Obligations++
		e, ok := st.ghost[g].(*SymV)
		if !ok || !errContains(errv, e) {
			ip.report(st, "C15", fmt.Sprintf("%s may not report that %s failed", q.method, what))
		}
	}
	if gInt(st, "#wfail") == 1 {
		wrap("wrerr", "writing")
		c.proveRel(ip, st, "C15", Le(gPoly(st, "W"), n.p), q.method+" reports fewer bytes than were transferred")
		c.proveRel(ip, st, "C15", Le(n.p, gPoly(st, "N")), q.method+" reports more bytes than were transferred")
		return
	}
	y.lost(st, "before returning")
	c.proveEq(ip, st, "C15", n.p, gPoly(st, "N"), q.method+" does not report the number of bytes transferred")
	switch gInt(st, "#end") {
	case 1:
		c.proveRel(ip, st, "C15", ip.isNil(st, errv), q.method+" reports end of file as a failure")
	case 2:
		wrap("rderr", "reading")
	default:
		allowed := "fRead"
		if q.method == "ReadFrom" {
			allowed = "fWrite"
		}
		ip.Obligations++
		if gInt(st, allowed) == 0 && st.prove(ip.errMatches(st, errv, notPermitted).r) {
			return
		}
		ip.report(st, "C15", q.method+" may stop before the end of the data")
	}
}

// ------------------------------------------------------------------------------------------ C08

// scRun analyses the callbacks of a cache on top of a stream.
type scRun struct {
	c      *Checker
	ip     *Interp
	name   string
	b, t   Poly
	buf    SliceV
	V      Poly // byte of the stream the followed byte of the buffer comes from
	j      Poly
	cbs    map[string]Value
	phase  string
	blk    Poly
	stream *SymV
	length Value
}

func (q *scRun) fail(st *State, name string, c *CallCtx) (*State, *SymV) {
	ip := q.ip
	s := st.clone()
	e := ip.unknownErr(errorType, "err("+name+")")
	e.origin = &Event{kind: "call", name: name, instr: c.instr}
	s.assume(ip.isNil(s, e).Neg())
	gSet(s, "#failed", 1)
	s.ghost["ioerr"] = e
	return s, e
}

func (q *scRun) seek(ip *Interp, st *State, c *CallCtx) []*State {
	off, ok1 := cast(c.args[len(c.args)-2])
	wh, ok2 := cast(c.args[len(c.args)-1])
	if !ok1 || !ok2 {
		return ip.opaque(st, c)
	}
	ip.CallsSeen["stream.Seek"]++
	bad, e := q.fail(st, "Seek", c)
	c.ret(ip, bad, TupleV{IntV{p: Const(0)}, e})
	pos := off.p
	gSet(st, "#known", 0)
	at := AtomPoly(NewAtomRange("offset", 0, 1<<48))
	if k, isc := wh.p.IsConst(); isc && k == 0 && !off.wrap {
		gSet(st, "#known", 1)
		at = pos
	} else if isc && k == 2 {
		if l, ok := q.length.(IntV); ok {
			at = l.p.Add(off.p)
			gSet(st, "#known", 1)
		}
	}
	gPut(st, "pos", at)
	c.ret(ip, st, TupleV{IntV{p: at}, NilV{}})
	return []*State{st, bad}
}

// at checks where a transfer takes place.
func (q *scRun) at(st *State, c *CallCtx, buf SliceV, what string) {
	ip := q.ip
	if q.phase != what {
		ip.report(st, "C08", fmt.Sprintf("%s: the %s callback calls %s", q.name, q.phase, shortName(c.name)))
		return
	}
	ip.Obligations++
	if gInt(st, "#known") != 1 {
		ip.report(st, "C08", q.name+": a block is transferred at an unknown position of the stream")
		return
	}
	done := gPoly(st, "done")
	q.c.proveEq(ip, st, "C08", gPoly(st, "pos"), q.blk.Mul(q.b).Add(done), q.name+": a block is transferred at the wrong offset")
	if buf.reg != q.buf.reg {
		ip.report(st, "C08", q.name+": another buffer than the block's is transferred")
		return
	}
	q.c.proveEq(ip, st, "C08", buf.off, q.buf.off.Add(done), q.name+": the wrong part of the block is transferred")
}

// got accounts for bytes that were transferred.
func (q *scRun) got(st *State, buf SliceV, n Poly, fill bool) {
	if fill {
		q.ip.havocRange(st, buf.reg, buf.off, buf.off.Add(n))
	}
	gPut(st, "pos", gPoly(st, "pos").Add(n))
	gPut(st, "done", gPoly(st, "done").Add(n))
}

func (q *scRun) read(full bool) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		buf, ok := ip.asSlice(st, c.args[len(c.args)-1])
		if !ok || buf.reg == 0 {
			ip.report(st, "C08", "buffer not understood")
			return ip.opaque(st, c)
		}
		ip.CallsSeen["stream.Read"]++
		q.at(st, c, buf, "fetch")
		n := AtomPoly(NewAtomMin("n(Read)", 0))
		st.addFact(Le(n, buf.len))
		var out []*State
		ret := func(s *State, e Value) {
			q.got(s, buf, n, true)
			c.ret(ip, s, TupleV{IntV{p: n}, e})
			out = append(out, s)
		}
		bad, e := q.fail(st, "Read", c)
		bad.assume(ip.errMatches(bad, e, ioEOF).r.Neg())
		bad.assume(ip.errMatches(bad, e, "io.ErrUnexpectedEOF").r.Neg())
		ret(bad, e)
		sentinels := []string{ioEOF}
		if full {
			sentinels = append(sentinels, "io.ErrUnexpectedEOF")
		}
		for i, w := range sentinels {
			s := st.clone()
			e := ip.unknownErr(errorType, "err(Read)")
			s.assume(ip.isNil(s, e).Neg())
			s.assume(ip.errMatches(s, e, w).r)
			if full && i == 0 && !s.assume(Eq(n, Const(0))) {
				continue
			}
			if full && !s.assume(Lt(n, buf.len)) {
				continue
			}
			// Identity matters for comparisons.
			s.assume(ip.symEq(s, e, ip.sentinelSym(w)).r)
			gSet(s, "#end", 1)
			ret(s, e)
		}
		if full {
			st.assume(Eq(n, buf.len))
		}
		ret(st, NilV{})
		return out
	}
}

func (q *scRun) write(ip *Interp, st *State, c *CallCtx) []*State {
	buf, ok := ip.asSlice(st, c.args[len(c.args)-1])
	if !ok {
		ip.report(st, "C08", "buffer not understood")
		return ip.opaque(st, c)
	}
	ip.CallsSeen["stream.Write"]++
	q.at(st, c, buf, "flush")
	bad, e := q.fail(st, "Write", c)
	n := AtomPoly(NewAtomMin("n(Write)", 0))
	bad.addFact(Le(n, buf.len))
	q.got(bad, buf, n, false)
	c.ret(ip, bad, TupleV{IntV{p: n}, e})
	q.got(st, buf, buf.len, false)
	c.ret(ip, st, TupleV{IntV{p: buf.len}, NilV{}})
	return []*State{st, bad}
}

func (q *scRun) truncate(ip *Interp, st *State, c *CallCtx) []*State {
	n, ok := cast(c.args[len(c.args)-1])
	ip.CallsSeen["stream.Truncate"]++
	ip.Obligations++
	if q.phase != "resize" {
		ip.report(st, "C08", fmt.Sprintf("%s: the %s callback truncates the stream", q.name, q.phase))
	} else if !ok || n.wrap {
		ip.report(st, "C08", q.name+": size given to Truncate not understood")
	} else {
		q.c.proveEq(ip, st, "C08", n.p, q.blk.Mul(q.b), q.name+": the stream is truncated to the wrong size")
	}
	bad, e := q.fail(st, "Truncate", c)
	c.ret(ip, bad, e)
	gSet(st, "#truncated", 1)
	c.ret(ip, st, NilV{})
	return []*State{st, bad}
}

// sentinelSym makes the value of an error variable of another package.
func (ip *Interp) sentinelSym(name string) *SymV {
	return &SymV{typ: errorType, name: name, nonnil: true, nilAtom: -1, err: &errInfo{sentinel: name}}
}

// callback runs one of the callbacks in a state.
func (q *scRun) callback(st *State, phase string, args ...Value) []*State {
	ip := q.ip
	fv, ok := q.cbs[phase].(FuncV)
	if !ok {
		ip.report(st, "C08", q.name+": the "+phase+" callback is not understood")
		return nil
	}
	s := st.clone()
	s.status = running
	s.frames = nil
	s.results = nil
	q.phase = phase
	for _, g := range []string{"#failed", "#end", "#known", "#truncated", "done", "pos"} {
		gSet(s, g, 0)
	}
	ip.rootFn = fv.fn
	ip.pushFrame(s, fv.fn, args, fv.bind, nil)
	var out []*State
	for _, r := range ip.Run(s) {
		if r.status == panicked {
			ip.report(r, "C08", q.name+": the "+phase+" callback may panic: "+r.note)
		}
		if r.status == returned && len(r.results) == 1 {
			out = append(out, r)
		}
	}
	if len(out) == 0 {
		ip.report(&State{}, "anchor", q.name+": no path through the "+phase+" callback")
	}
	return out
}

// transfer checks the fetch and write-back callbacks for any block below total.
func (q *scRun) transfer(st *State, total Poly, when string) {
	ip, c := q.ip, q.c
	for _, phase := range []string{"fetch", "flush"} {
		s := st.clone()
		q.blk = AtomPoly(NewAtomRange("block", 0, 1<<32))
		q.buf = ip.freshSlice(s, "buffer", types.Typ[types.Byte])
		if !s.assume(Lt(q.blk, total)) || !s.assume(Eq(q.buf.len, q.b)) {
			continue
		}
		s.assume(Eq(AtomPoly(q.buf.nilAtom), Const(0)))
		oks := 0
		for _, r := range q.callback(s, phase, IntV{p: q.blk}, q.buf) {
			good, bad := r.fork(ip.isNil(r, r.results[0]))
			if good != nil {
				oks++
				ip.Obligations++
				if gInt(good, "#failed") == 1 {
					ip.report(good, "C08", fmt.Sprintf("%s: the %s callback may hide a failure of the stream", q.name, phase))
				} else if gInt(good, "#end") != 1 {
					c.proveEq(ip, good, "C08", gPoly(good, "done"), q.b, fmt.Sprintf("%s: the %s callback may succeed without transferring a whole block", q.name, phase))
				}
			}
			if bad != nil {
				ip.Obligations++
				if gInt(bad, "#failed") != 1 {
					ip.report(bad, "C08", fmt.Sprintf("%s: the %s callback may fail for a block of the cache%s although the stream did not", q.name, phase, when))
				} else if e, ok := bad.ghost["ioerr"].(*SymV); !ok || !errContains(bad.results[0], e) {
					ip.report(bad, "C08", fmt.Sprintf("%s: the %s callback does not pass on the error of the stream", q.name, phase))
				}
			}
		}
		if oks == 0 {
			ip.report(&State{}, "C08", fmt.Sprintf("%s: the %s callback never succeeds%s", q.name, phase, when))
		}
	}
}

// truncator tells if the stream can be truncated.
func (q *scRun) truncator() BoolV {
	t := q.c.prog.Type("file_systems/common", "Truncator")
	if t == nil {
		q.c.anchor("type common.Truncator not found")
		return boolConst(false)
	}
	return memoBool(fmt.Sprintf("type/%d/%s", q.stream.id, t), "stream is Truncator")
}

// resized checks the resize callback and returns the states in which it succeeded.
func (q *scRun) resized(st *State, allow BoolV, canTruncate int) (out []*State, n Poly) {
	ip := q.ip
	n = AtomPoly(NewAtomRange("newBlocks", 0, 1<<32))
	q.blk = n
	refuse := func(s *State, e Value, sentinel, why string) {
		ip.Obligations++
		if !s.prove(ip.errMatches(s, e, sentinel).r) {
			ip.report(s, "C08", q.name+": resizing is not refused with "+shortName(sentinel)+" although "+why)
		}
	}
	var results []*State
	switch v := q.cbs["resize"].(type) {
	case NilV:
		// The cache then refuses to resize.
		s := st.clone()
		e := ip.unknownErr(errorType, "err(resize)")
		s.assume(ip.errMatches(s, e, "github.com/dargueta/disko.ErrNotSupported").r)
		s.assume(ip.isNil(s, e).Neg())
		s.results = []Value{e}
		for _, g := range []string{"#failed", "#truncated"} {
			gSet(s, g, 0)
		}
		results = []*State{s}
	default:
		_ = v
		results = q.callback(st, "resize", IntV{p: n})
	}
	for _, r := range results {
		e := r.results[0]
		may, not := r.fork(allow.r)
		if not != nil {
			if gInt(not, "#truncated") == 1 || gInt(not, "#failed") == 1 {
				ip.report(not, "C08", q.name+": the stream is truncated although resizing is forbidden")
			}
			if q.name == "WrapSlice" {
				// Refused in any way.
				q.c.proveRel(ip, not, "C08", ip.isNil(not, e).Neg(), q.name+": resizing is not refused")
			} else {
				refuse(not, e, notPermitted, "it is forbidden")
			}
		}
		if may == nil {
			continue
		}
		good, bad := may.fork(ip.isNil(may, e))
		if good != nil {
			ip.Obligations++
			if gInt(good, "#truncated") != 1 {
				ip.report(good, "C08", q.name+": resizing may succeed without truncating the stream")
			}
			out = append(out, good)
		}
		if bad != nil {
			ip.Obligations++
			if gInt(bad, "#failed") != 1 {
				refuse(bad, e, "github.com/dargueta/disko.ErrNotSupported", "the stream does not support it")
				if q.stream != nil && !bad.prove(q.truncator().r.Neg()) {
					ip.report(bad, "C08", q.name+": resizing is refused although the stream supports it")
				}
			} else if x, ok := bad.ghost["ioerr"].(*SymV); !ok || !errContains(e, x) {
				ip.report(bad, "C08", q.name+": the resize callback does not pass on the error of Truncate")
			}
		}
	}
	return out, n
}

func (c *Checker) streamCaches() {
	for _, name := range []string{"WrapStream", "WrapStreamWithInferredSize", "WrapSlice"} {
		fn := c.prog.Func(bcPkg, name)
		nw := c.prog.Func(bcPkg, "New")
		if fn == nil || nw == nil {
			c.anchor("function blockcache." + name + " or New not found")
			continue
		}
		c.guard("blockcache."+name, func() {
			c.prog.reset()
			ip := c.newInterp()
			q := &scRun{c: c, ip: ip, name: name}
			q.b = AtomPoly(NewAtomRange("blockSize", 1, 1<<20))
			q.j = AtomPoly(NewAtomRange("j", 0, 1<<20))
			st := NewState()
			var args []Value
			allow := boolConst(false)
			ints := 0
			for _, p := range fn.Params {
				v := ip.fresh(st, p.Name(), p.Type())
				switch x := v.(type) {
				case IntV:
					if ints == 0 {
						v = IntV{p: q.b}
					} else {
						q.t = AtomPoly(NewAtomRange("totalBlocks", 0, 1<<32))
						v = IntV{p: q.t}
					}
					ints++
				case BoolV:
					allow = x
				case *SymV:
					x.nonnil = true
					q.stream = x
				case SliceV:
					q.length = IntV{p: x.len}
					st.assume(Le(x.len, Const(1<<48)))
				}
				args = append(args, v)
			}
			if name == "WrapStreamWithInferredSize" {
				q.length = IntV{p: AtomPoly(NewAtomRange("streamSize", 0, 1<<48))}
			}
			for i := 0; i < len(atoms); i++ {
				ip.prog.inputAtoms[Atom(i)] = true
			}
			type found struct {
				st   *State
				args []Value
			}
			var news []found
			ip.Models[bcFull+".New"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
				if ip.silent == 0 {
					news = append(news, found{st.clone(), cc.args})
				}
				o := ip.newObj("cache", c.prog.Type(bcPkg, "BlockCache"), false)
				c := PtrV{obj: o}
				cc.ret(ip, st, c)
				gSet(st, "#new", gInt(st, "#new")+1)
				return []*State{st}
			}
			for _, t := range []string{"(io.ReadWriteSeeker)", "(io.Reader)", "(io.Writer)", "(io.Seeker)", "(io.ReadSeeker)", "(io.WriteSeeker)",
				"(*github.com/xaionaro-go/bytesextra.ReadWriteSeeker)"} {
				ip.Models[t+".Read"] = q.read(false)
				ip.Models[t+".Write"] = q.write
				ip.Models[t+".Seek"] = q.seek
			}
			ip.Models["io.ReadFull"] = q.read(true)
			ip.Models["(github.com/dargueta/disko/file_systems/common.Truncator).Truncate"] = q.truncate
			gSet(st, "#new", 0)
			for _, g := range []string{"#failed", "#end", "#known", "#truncated", "done", "pos"} {
				gSet(st, g, 0)
			}
			q.phase = "none"
			for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
				if s.status == returned {
					ip.Obligations++
					if gInt(s, "#new") != 1 {
						ip.report(s, "C08", name+" does not make exactly one cache")
					}
				} else if s.status == panicked {
					ip.report(s, "C08", name+" may panic: "+s.note)
				}
			}
			if len(news) == 0 {
				ip.report(&State{}, "anchor", name+" never makes a cache")
			}
			for _, f := range news {
				q.cbs = map[string]Value{}
				var ints []IntV
				for i, p := range nw.Params {
					switch shortName(p.Type().String()) {
					case "FetchBlockCallback":
						q.cbs["fetch"] = f.args[i]
					case "FlushBlockCallback":
						q.cbs["flush"] = f.args[i]
					case "ResizeCallback":
						q.cbs["resize"] = f.args[i]
					default:
						if v, ok := cast(f.args[i]); ok {
							ints = append(ints, v)
						}
					}
				}
				if len(ints) != 2 {
					ip.report(f.st, "anchor", name+": arguments of New not understood")
					continue
				}
				if gInt(f.st, "#failed") == 1 {
					// Only seeking can fail before; that is reported where errors are checked.
					continue
				}
				total := ints[1].p
				c.proveEq(ip, f.st, "C08", ints[0].p, q.b, name+": block size of the cache")
				if l, ok := q.length.(IntV); ok {
					c.proveRel(ip, f.st, "C08", Le(total.Mul(q.b), l.p), name+": the cache has blocks beyond the end of the stream")
					c.proveRel(ip, f.st, "C08", Lt(l.p, total.AddConst(1).Mul(q.b)), name+": the cache does not cover all whole blocks of the stream")
				} else {
					c.proveEq(ip, f.st, "C08", total, q.t, name+": number of blocks of the cache")
				}
				q.transfer(f.st, total, "")
				states := []*State{f.st}
				for round := 0; round < 2; round++ {
					var next []*State
					for _, s := range states {
						after, n := q.resized(s, allow, 0)
						for _, a := range after {
							q.transfer(a, n, " after a resize")
							next = append(next, a)
						}
					}
					states = next
				}
				if len(states) > 0 {
					c.stats.Counts["resizable"]++
				}
			}
			c.collect(ip)
		})
	}
}

func init() {
	crash := []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"}
	register(&check{id: "C15", title: "Copying to or from a stream loses no data and hides no failure", run: func(c *Checker) {
		c.once("copies", func(s *Checker) { s.copies() })
	}, rules: crash, floors: map[string]int{"roots": 2, "obligations": 40},
		explain: "ReadFrom and WriteTo were interpreted abstractly from an arbitrary stream, following one arbitrary byte delivered by the source; source and sink may fail or deliver short at any call."})
	register(&check{id: "C08", title: "Stream-backed caches map block i to its own byte range", run: func(c *Checker) {
		c.once("streamcaches", func(s *Checker) { s.streamCaches() })
	}, rules: crash, floors: map[string]int{"roots": 3, "obligations": 30, "resizable": 1},
		explain: "The callbacks that WrapStream, WrapStreamWithInferredSize and WrapSlice give to the cache were interpreted abstractly for an arbitrary block, before and after resizing."})
}
