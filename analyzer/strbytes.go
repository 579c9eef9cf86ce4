package main

// The bytes of strings: with Interp.StrBytes the byte at an index of a string is derived from how the string was
// made, and models of functions of package strings, bytes and fmt keep track of lengths and contents.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// strBytes is what is known about strings.
type strBytes struct {
	ip    *Interp
	lo    map[int]Poly        // substrings: where they start
	src   map[int]SliceV      // strings made from bytes
	cont  map[int]*RegContent // and the contents then
	reg   map[int]Region      // symbols: the region with the bytes
	term  map[int]*Term       // contents that are the bytes of a string
	marks map[int][]byteMark  // what is known about the bytes of contents
	ascii map[int]bool        // contents with bytes below 0x80 only
	sk    map[int]Poly        // an arbitrary index of a symbol
	first map[string]Poly     // where a byte occurs first, or the length
	trim  map[string]Poly     // lengths after trimming
}

// byteMark adds what is known about the byte at idx with value v, splitting the state as needed.
type byteMark func(st *State, idx, v Poly) []*State

func newStrBytes(ip *Interp) *strBytes {
	sb := &strBytes{ip: ip, lo: map[int]Poly{}, src: map[int]SliceV{}, cont: map[int]*RegContent{}, reg: map[int]Region{},
		term: map[int]*Term{}, marks: map[int][]byteMark{}, ascii: map[int]bool{}, sk: map[int]Poly{},
		first: map[string]Poly{}, trim: map[string]Poly{}}
	ip.StrBytes = sb
	m := ip.Models
	m["fmt.Sprintf"] = sb.sprintf
	m["strings.ToUpper"] = sb.mapped("upper")
	m["strings.ToLower"] = sb.mapped("lower")
	m["bytes.ToUpper"] = sb.mapped("upper")
	m["bytes.ToLower"] = sb.mapped("lower")
	m["strings.SplitN"] = sb.splitN
	m["strings.Cut"] = sb.cut
	for _, n := range []string{"Index", "IndexByte", "IndexRune"} {
		m["strings."+n] = sb.index
		m["bytes."+n] = sb.index
	}
	for _, n := range []string{"Contains", "ContainsRune"} {
		m["strings."+n] = sb.contains
	}
	m["strings.TrimRight"] = sb.trimRight
	m["bytes.TrimRight"] = sb.trimRight
	m["strings.Repeat"] = sb.repeat
	m["strings.Join"] = sb.join
	return sb
}

// region is the region with the bytes of a symbol.
func (sb *strBytes) region(st *State, t *Term) Region {
	if r, ok := sb.reg[t.id]; ok {
		return r
	}
	r := sb.ip.newRegion(st, t.String(), types.Typ[types.Byte], false)
	sb.reg[t.id] = r
	sb.ip.initRegs[r] = st.regs[r]
	sb.ip.prog.inputAtoms[st.regs[r].atom] = true
	return r
}

// at is the byte of a string at an index within it.
func (sb *strBytes) at(st *State, t *Term, idx Poly) []stVal {
	ip := sb.ip
	split := func(cond Rel, a, b func(*State) []stVal) []stVal {
		y, n := st.fork(cond)
		var out []stVal
		if y != nil {
			out = append(out, a(y)...)
		}
		if n != nil {
			out = append(out, b(n)...)
		}
		return out
	}
	byteOf := func(b byte) func(*State) []stVal {
		return func(s *State) []stVal { return []stVal{{s, IntV{p: Const(int64(b))}}} }
	}
	sub := func(u *Term, i Poly) func(*State) []stVal {
		return func(s *State) []stVal { return sb.at(s, u, i) }
	}
	switch t.op {
	case "const":
		if len(t.c) > 64 {
			break
		}
		var out []stVal
		cur := st
		for i := 0; i < len(t.c) && cur != nil; i++ {
			var y *State
			y, cur = cur.fork(Eq(idx, Const(int64(i))))
			if y != nil {
				out = append(out, stVal{y, IntV{p: Const(int64(t.c[i]))}})
			}
		}
		return out
	case "cat":
		ip.notePred(idx.Sub(t.args[0].ln))
		return split(Lt(idx, t.args[0].ln), sub(t.args[0], idx), sub(t.args[1], idx.Sub(t.args[0].ln)))
	case "substr":
		if lo, ok := sb.lo[t.id]; ok {
			return sb.at(st, t.args[0], idx.Add(lo))
		}
	case "padr":
		return split(Lt(idx, t.args[0].ln), sub(t.args[0], idx), byteOf(' '))
	case "padl":
		w := t.ln.Sub(t.args[0].ln)
		return split(Lt(idx, w), byteOf(' '), sub(t.args[0], idx.Sub(w)))
	case "rep":
		return byteOf(t.c[0])(st)
	case "upper", "lower":
		var out []stVal
		for _, sv := range sb.at(st, t.args[0], idx) {
			v, ok := sv.v.(IntV)
			if !ok {
				out = append(out, sv)
				continue
			}
			lo, hi, d := int64('a'), int64('z'), int64('A'-'a')
			if t.op == "lower" {
				lo, hi, d = 'A', 'Z', 'a'-'A'
			}
			cur := sv.st
			below, cur := cur.fork(Lt(v.p, Const(lo)))
			if below != nil {
				out = append(out, stVal{below, v})
			}
			if cur == nil {
				continue
			}
			in, above := cur.fork(Le(v.p, Const(hi)))
			if in != nil {
				out = append(out, stVal{in, IntV{p: v.p.AddConst(d)}})
			}
			if above != nil {
				out = append(out, stVal{above, v})
			}
		}
		return out
	case "bytes":
		if s, ok := sb.src[t.id]; ok {
			return ip.readContent(st, sb.cont[t.id], s.reg, s.off.Add(idx))
		}
	case "sym":
		r := sb.region(st, t)
		return ip.readElem(st, r, idx)
	}
	v := ip.fresh(st, "byte", types.Typ[types.Byte])
	return []stVal{{st, v}}
}

// marked adds what is known about a byte read from the base of contents.
func (sb *strBytes) marked(svs []stVal, gen int, idx Poly) []stVal {
	if len(sb.marks[gen]) == 0 {
		return svs
	}
	var out []stVal
	for _, sv := range svs {
		v, ok := sv.v.(IntV)
		if !ok {
			out = append(out, sv)
			continue
		}
		sts := []*State{sv.st}
		for _, m := range sb.marks[gen] {
			var next []*State
			for _, s := range sts {
				next = append(next, m(s, idx, v.p)...)
			}
			sts = next
		}
		for _, s := range sts {
			out = append(out, stVal{s, sv.v})
		}
	}
	return out
}

// isASCII tells if all bytes of a string are known to be below 0x80.
func (sb *strBytes) isASCII(st *State, t *Term) bool {
	switch t.op {
	case "const":
		for i := 0; i < len(t.c); i++ {
			if t.c[i] >= 0x80 {
				return false
			}
		}
		return true
	case "sym":
		r := sb.region(st, t)
		if sb.ascii[sb.ip.initRegs[r].gen] {
			return true
		}
		x, ok := sb.sk[t.id]
		if !ok {
			return false
		}
		for _, sv := range sb.at(st.clone(), t, x) {
			if v, ok := sv.v.(IntV); !ok || !sv.st.prove(Lt(v.p, Const(0x80))) {
				return false
			}
		}
		return true
	case "rep":
		return t.c[0] < 0x80
	case "bytes":
		c := sb.cont[t.id]
		return c != nil && sb.asciiContent(st, c)
	case "cat", "substr", "padr", "padl", "upper", "lower":
		for _, a := range t.args {
			if !sb.isASCII(st, a) {
				return false
			}
		}
		return true
	}
	return false
}

func (sb *strBytes) asciiContent(st *State, c *RegContent) bool {
	for _, w := range c.w {
		if w.src != nil {
			if !sb.asciiContent(st, w.src) {
				return false
			}
		} else if v, ok := w.val.(IntV); !ok || !st.prove(Lt(v.p, Const(0x80))) {
			return false
		}
	}
	if c.zero {
		return true
	}
	for id, r := range sb.reg {
		if sb.ip.initRegs[r].gen == c.gen {
			for _, t := range termIndex {
				if t.id == id {
					return sb.isASCII(st, t)
				}
			}
		}
	}
	if t := sb.term[c.gen]; t != nil {
		return sb.isASCII(st, t)
	}
	return sb.ascii[c.gen]
}

// str gives strings and byte slices as terms.
func (sb *strBytes) str(st *State, v Value) *Term {
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	switch v.(type) {
	case StrV:
		return strOf(v)
	case SliceV, NilV:
		if s, ok := sb.ip.convert(st, v, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String]).(StrV); ok {
			return s.t
		}
	}
	return nil
}

// ret returns a string, or the bytes of one.
func (sb *strBytes) ret(st *State, c *CallCtx, t *Term) []*State {
	rt := c.sig.Results().At(0).Type()
	if _, isSlice := rt.Underlying().(*types.Slice); isSlice {
		c.ret(sb.ip, st, sb.ip.convert(st, StrV{t}, types.Typ[types.String], rt))
	} else {
		c.ret(sb.ip, st, StrV{t})
	}
	return []*State{st}
}

func (sb *strBytes) mapped(op string) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		t := sb.str(st, c.args[0])
		if t == nil {
			return ip.opaque(st, c)
		}
		if t.op == "const" {
			if op == "upper" {
				return sb.ret(st, c, constTerm(strings.ToUpper(t.c)))
			}
			return sb.ret(st, c, constTerm(strings.ToLower(t.c)))
		}
		if sb.isASCII(st, t) {
			l := t.ln
			return sb.ret(st, c, internTerm(op, "", &l, t))
		}
		return sb.ret(st, c, internTerm(op+"?", "", nil, t))
	}
}

// sprintf models formats with strings only.
func (sb *strBytes) sprintf(ip *Interp, st *State, c *CallCtx) []*State {
	f := strOf(c.args[0])
	args, ok := ip.elems(st, c.args[1])
	if f == nil || f.op != "const" || !ok {
		return pureFresh(ip, st, c)
	}
	type item struct {
		st *State
		t  *Term
	}
	cur := []item{{st, constTerm("")}}
	rest := f.c
	n := 0
	for rest != "" {
		i := strings.IndexByte(rest, '%')
		lit := rest
		if i >= 0 {
			lit = rest[:i]
		}
		for k := range cur {
			cur[k].t = concatTerm(cur[k].t, constTerm(lit))
		}
		if i < 0 {
			break
		}
		rest = rest[i+1:]
		j := 0
		for j < len(rest) && strings.IndexByte("-0123456789", rest[j]) >= 0 {
			j++
		}
		if j >= len(rest) || rest[j] != 's' && rest[j] != 'v' || n >= len(args) {
			return pureFresh(ip, st, c)
		}
		spec := rest[:j]
		rest = rest[j+1:]
		a := sb.str(st, args[n])
		n++
		if a == nil {
			return pureFresh(ip, st, c)
		}
		w, op := 0, "padl"
		if spec != "" {
			if spec[0] == '-' {
				op, spec = "padr", spec[1:]
			}
			var err error
			if w, err = strconv.Atoi(spec); err != nil || spec[0] == '0' {
				return pureFresh(ip, st, c)
			}
		}
		var next []item
		for _, it := range cur {
			if w == 0 {
				next = append(next, item{it.st, concatTerm(it.t, a)})
				continue
			}
			// Characters are counted.
			if !sb.isASCII(it.st, a) {
				next = append(next, item{it.st, concatTerm(it.t, internTerm(op+"?", strconv.Itoa(w), nil, a))})
				continue
			}
			short, long := it.st.fork(Lt(a.ln, Const(int64(w))))
			if short != nil {
				l := Const(int64(w))
				next = append(next, item{short, concatTerm(it.t, internTerm(op, strconv.Itoa(w), &l, a))})
			}
			if long != nil {
				next = append(next, item{long, concatTerm(it.t, a)})
			}
		}
		cur = next
	}
	var out []*State
	for _, it := range cur {
		c.ret(ip, it.st, StrV{it.t})
		out = append(out, it.st)
	}
	return out
}

// charOf is a separator of a single ASCII character.
func charOf(v Value) (byte, bool) {
	switch x := v.(type) {
	case StrV:
		if x.t.op == "const" && len(x.t.c) == 1 && x.t.c[0] < 0x80 {
			return x.t.c[0], true
		}
	case IntV:
		if c, ok := x.p.IsConst(); ok && c >= 0 && c < 0x80 {
			return byte(c), true
		}
	}
	return 0, false
}

// firstOf is where a character occurs first in a string, or its length.
func (sb *strBytes) firstOf(st *State, t *Term, ch byte) (Poly, bool) {
	for (t.op == "upper" || t.op == "lower") && (ch < 'A' || ch > 'z') {
		t = t.args[0]
	}
	if t.op != "sym" {
		return Poly{}, false
	}
	key := fmt.Sprintf("%d/%c", t.id, ch)
	p, ok := sb.first[key]
	if !ok {
		p = AtomPoly(NewAtomMin(fmt.Sprintf("first %q in %s", ch, t), 0))
		sb.first[key] = p
		a, _ := p.SingleAtom()
		sb.ip.prog.inputAtoms[a] = true
		sb.ip.Skolems = append(sb.ip.Skolems, a)
		r := sb.region(st, t)
		gen := sb.ip.initRegs[r].gen
		sb.marks[gen] = append(sb.marks[gen], func(st *State, idx, v Poly) []*State {
			var out []*State
			sb.ip.notePred(idx.Sub(p))
			before, rest := st.fork(Lt(idx, p))
			if before != nil && before.assume(Rel{v.AddConst(-int64(ch)), NE}) {
				out = append(out, before)
			}
			if rest == nil {
				return out
			}
			at, after := rest.fork(Eq(idx, p))
			if at != nil && at.assume(Eq(v, Const(int64(ch)))) {
				out = append(out, at)
			}
			if after != nil {
				out = append(out, after)
			}
			return out
		})
	}
	st.addFact(Le(p, t.ln))
	return p, true
}

// substr is the part [lo, hi) of a string.
func (sb *strBytes) substr(t *Term, lo, hi Poly) *Term {
	l := hi.Sub(lo)
	if l.Equal(t.ln) {
		return t
	}
	u := internTerm("substr", lo.Key()+":"+hi.Key(), &l, t)
	sb.lo[u.id] = lo
	return u
}

func (sb *strBytes) strings(st *State, ts ...*Term) SliceV {
	r := sb.ip.newRegion(st, "strings", types.Typ[types.String], false)
	for i, t := range ts {
		sb.ip.writeElem(st, r, Const(int64(i)), StrV{t})
	}
	n := Const(int64(len(ts)))
	return SliceV{reg: r, off: Const(0), len: n, cap: n}
}

func (sb *strBytes) splitN(ip *Interp, st *State, c *CallCtx) []*State {
	t := sb.str(st, c.args[0])
	ch, ok := charOf(c.args[1])
	n, isInt := cast(c.args[2])
	if t == nil || !ok || !isInt {
		return ip.opaque(st, c)
	}
	if k, isc := n.p.IsConst(); !isc || k != 2 {
		return ip.opaque(st, c)
	}
	f, ok := sb.firstOf(st, t, ch)
	if !ok {
		return ip.opaque(st, c)
	}
	var out []*State
	has, not := st.fork(Lt(f, t.ln))
	if has != nil {
		c.ret(ip, has, sb.strings(has, sb.substr(t, Const(0), f), sb.substr(t, f.AddConst(1), t.ln)))
		out = append(out, has)
	}
	if not != nil {
		c.ret(ip, not, sb.strings(not, t))
		out = append(out, not)
	}
	return out
}

func (sb *strBytes) cut(ip *Interp, st *State, c *CallCtx) []*State {
	t := sb.str(st, c.args[0])
	ch, ok := charOf(c.args[1])
	if t == nil || !ok {
		return ip.opaque(st, c)
	}
	f, ok := sb.firstOf(st, t, ch)
	if !ok {
		return ip.opaque(st, c)
	}
	var out []*State
	has, not := st.fork(Lt(f, t.ln))
	if has != nil {
		c.ret(ip, has, TupleV{StrV{sb.substr(t, Const(0), f)}, StrV{sb.substr(t, f.AddConst(1), t.ln)}, boolConst(true)})
		out = append(out, has)
	}
	if not != nil {
		c.ret(ip, not, TupleV{StrV{t}, StrV{constTerm("")}, boolConst(false)})
		out = append(out, not)
	}
	return out
}

func (sb *strBytes) index(ip *Interp, st *State, c *CallCtx) []*State {
	t := sb.str(st, c.args[0])
	ch, ok := charOf(c.args[1])
	if t == nil || !ok {
		return ip.opaque(st, c)
	}
	f, ok := sb.firstOf(st, t, ch)
	if !ok {
		return ip.opaque(st, c)
	}
	var out []*State
	has, not := st.fork(Lt(f, t.ln))
	if has != nil {
		c.ret(ip, has, IntV{p: f})
		out = append(out, has)
	}
	if not != nil {
		c.ret(ip, not, IntV{p: Const(-1)})
		out = append(out, not)
	}
	return out
}

func (sb *strBytes) contains(ip *Interp, st *State, c *CallCtx) []*State {
	t := sb.str(st, c.args[0])
	ch, ok := charOf(c.args[1])
	if t == nil || !ok {
		return ip.opaque(st, c)
	}
	f, ok := sb.firstOf(st, t, ch)
	if !ok {
		return ip.opaque(st, c)
	}
	c.ret(ip, st, BoolV{Lt(f, t.ln)})
	return []*State{st}
}

func (sb *strBytes) repeat(ip *Interp, st *State, c *CallCtx) []*State {
	ch, ok := charOf(c.args[0])
	n, ok2 := cast(c.args[1])
	if !ok || !ok2 || n.wrap {
		return ip.opaque(st, c)
	}
	if !ip.oblige(st, "panic", Rel{n.p, GE}, "negative repeat count") {
		return nil
	}
	c.ret(ip, st, StrV{internTerm("rep", string(ch)+n.p.Key(), &n.p)})
	return []*State{st}
}

func (sb *strBytes) join(ip *Interp, st *State, c *CallCtx) []*State {
	es, ok := ip.elems(st, c.args[0])
	sep := strOf(c.args[1])
	if !ok || sep == nil {
		return ip.opaque(st, c)
	}
	t := constTerm("")
	for i, e := range es {
		u := sb.str(st, e)
		if u == nil {
			return ip.opaque(st, c)
		}
		if i > 0 {
			t = concatTerm(t, sep)
		}
		t = concatTerm(t, u)
	}
	return sb.ret(st, c, t)
}

// trimmed is what remains of the length of bytes without the trailing ones that are ch.
func (sb *strBytes) trimmed(st *State, cont *RegContent, reg Region, off, n Poly, ch byte) (Poly, bool) {
	if len(cont.w) > 0 || cont.zero {
		return Poly{}, false
	}
	key := fmt.Sprintf("%d/%s/%s/%c", cont.gen, off.Key(), n.Key(), ch)
	p, ok := sb.trim[key]
	if !ok {
		p = AtomPoly(NewAtomMin(fmt.Sprintf("length of %s[%s:+%s] without trailing %q", sb.ip.regions[reg].name, off, n, ch), 0))
		sb.trim[key] = p
		a, _ := p.SingleAtom()
		sb.ip.prog.inputAtoms[a] = true
		sb.ip.Skolems = append(sb.ip.Skolems, a)
		sb.marks[cont.gen] = append(sb.marks[cont.gen], func(st *State, idx, v Poly) []*State {
			var out []*State
			end, last := off.Add(n), off.Add(p).AddConst(-1)
			if st.prove(Lt(idx, off)) || st.prove(Le(end, idx)) {
				return []*State{st}
			}
			st.addFact(Le(p, n))
			sb.ip.notePred(idx.Sub(last))
			before, rest := st.fork(Lt(idx, last))
			if before != nil {
				out = append(out, before)
			}
			if rest == nil {
				return out
			}
			at, after := rest.fork(Eq(idx, last))
			if at != nil {
				lo, in := at.fork(Lt(idx, off))
				if lo != nil {
					out = append(out, lo)
				}
				if in != nil && in.assume(Rel{v.AddConst(-int64(ch)), NE}) {
					out = append(out, in)
				}
			}
			if after == nil {
				return out
			}
			in, beyond := after.fork(Lt(idx, end))
			if beyond != nil {
				out = append(out, beyond)
			}
			if in != nil {
				lo, in := in.fork(Lt(idx, off))
				if lo != nil {
					out = append(out, lo)
				}
				if in != nil && in.assume(Eq(v, Const(int64(ch)))) {
					out = append(out, in)
				}
			}
			return out
		})
	}
	st.addFact(Le(p, n))
	return p, true
}

func (sb *strBytes) trimRight(ip *Interp, st *State, c *CallCtx) []*State {
	ch, ok := charOf(c.args[1])
	if !ok {
		return ip.opaque(st, c)
	}
	if s, isS := c.args[0].(SliceV); isS && s.reg != 0 {
		if p, ok := sb.trimmed(st, ip.content(st, s.reg), s.reg, s.off, s.len, ch); ok {
			c.ret(ip, st, SliceV{reg: s.reg, off: s.off, len: p, cap: s.cap, hasNil: true, nilAtom: NewAtomRange("nil", 0, 1)})
			return []*State{st}
		}
	}
	if t := strOf(c.args[0]); t != nil {
		if src, ok := sb.src[t.id]; ok && t.op == "bytes" {
			if p, ok := sb.trimmed(st, sb.cont[t.id], src.reg, src.off, src.len, ch); ok {
				c.ret(ip, st, StrV{sb.substr(t, Const(0), p)})
				return []*State{st}
			}
		}
		base, lo := t, Const(0)
		if t.op == "substr" && t.args[0].op == "bytes" {
			if l, ok := sb.lo[t.id]; ok {
				base, lo = t.args[0], l
			}
		}
		if src, ok := sb.src[base.id]; ok && base.op == "bytes" {
			if p, ok := sb.trimmed(st, sb.cont[base.id], src.reg, src.off.Add(lo), t.ln, ch); ok {
				c.ret(ip, st, StrV{sb.substr(base, lo, lo.Add(p))})
				return []*State{st}
			}
		}
	}
	return ip.opaque(st, c)
}

// next is a step of a loop over the characters of a string: at the skolem index the byte is told, unless a character
// of several bytes covers it.
func (sb *strBytes) next(st *State, x *ssa.Next, t *Term) []*State {
	ip := sb.ip
	sk, ok := sb.sk[t.id]
	if !ok {
		return nil
	}
	r, _ := x.Iter.(*ssa.Range)
	id := x.Parent().Name() + "." + r.Name()
	visited, wide := "#chars "+id, "#wide "+id
	was, wideWas := gInt(st, visited) == 1, gInt(st, wide) == 1
	tt := x.Type().(*types.Tuple)
	var out []*State
	yield := func(s *State, i Poly, vis bool) {
		if !s.assume(Rel{i, GE}) || !s.assume(Lt(i, t.ln)) {
			return
		}
		for _, sv := range sb.at(s, t, i) {
			b, ok := sv.v.(IntV)
			if !ok {
				continue
			}
			one, more := sv.st.fork(Lt(b.p, Const(0x80)))
			put := func(s *State, rune Poly, w bool) {
				gSet(s, visited, b2i(vis))
				gSet(s, wide, b2i(w))
				ip.set(s, x, TupleV{boolConst(true), IntV{p: i}, IntV{p: rune}})
				out = append(out, s)
			}
			if one != nil {
				put(one, b.p, wideWas)
			}
			if more != nil {
				put(more, AtomPoly(NewAtomRange("char", 0x80, 0x10ffff)), true)
			}
		}
	}
	no, at, other := st.clone(), st.clone(), st
	if !was {
		yield(at, sk, true)
	}
	i := NewAtomMin("index", 0)
	if other.assume(Rel{AtomPoly(i).Sub(sk), NE}) {
		yield(other, AtomPoly(i), was)
	}
	if was || wideWas {
		gSet(no, visited, 0)
		gSet(no, wide, 0)
		ip.set(no, x, TupleV{boolConst(false), ip.zeroValue(tt.At(1).Type()), IntV{p: Const(0)}})
		out = append(out, no)
	}
	return out
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
