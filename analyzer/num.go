package main

// Integer arithmetic on abstract values.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
)

var (
	divIndex  = map[string]Poly{}
	bitIndex  = map[string]Poly{}
	memoIndex = map[string]Poly{}
)

// intKind gives the width in bits and the signedness of an integer type.
func intKind(t types.Type) (bits int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeRange(t types.Type) (lo, hi int64, hasLo, hasHi bool) {
	bits, signed, ok := intKind(t)
	if !ok {
		return
	}
	if bits == 64 {
		return 0, 0, !signed, false
	}
	if signed {
		return -(1 << (bits - 1)), 1<<(bits-1) - 1, true, true
	}
	return 0, 1<<bits - 1, true, true
}

func freshInt(name string, t types.Type) IntV {
	lo, hi, hasLo, hasHi := typeRange(t)
	var a Atom
	switch {
	case hasHi:
		a = NewAtomRange(name, lo, hi)
	case hasLo:
		a = NewAtomMin(name, lo)
	default:
		a = NewAtom(name)
	}
	return IntV{p: AtomPoly(a)}
}

func freshBool(name string) BoolV {
	return BoolV{Rel{AtomPoly(NewAtomRange(name, 0, 1)).AddConst(-1), EQ}}
}

// memoBool gives the truth value registered under a key, always the same one.
func memoBool(key, name string) BoolV {
	p, ok := memoIndex[key]
	if !ok {
		p = AtomPoly(NewAtomRange(name, 0, 1))
		memoIndex[key] = p
	}
	return BoolV{Rel{p.AddConst(-1), EQ}}
}

// inRange tells if p is provably within the type's range.
func (st *State) inRange(p Poly, t types.Type) bool {
	lo, hi, hasLo, hasHi := typeRange(t)
	blo, bhi, bHasLo, bHasHi := p.Bounds()
	okLo := !hasLo || (bHasLo && blo >= lo)
	okHi := !hasHi || (bHasHi && bhi <= hi)
	if !okLo {
		okLo = st.prove(Rel{p.AddConst(-lo), GE})
	}
	if okLo && !okHi {
		okHi = st.prove(Rel{Const(hi).Sub(p), GE})
	}
	return okLo && okHi
}

// wrapTo brings an exact result into the range of a type.
func (st *State) wrapTo(p Poly, t types.Type) IntV {
	bits, signed, ok := intKind(t)
	if !ok {
		return IntV{p: p}
	}
	if bits == 64 {
		if signed || st.inRange(p, t) {
			return IntV{p: p}
		}
		return IntV{p: p, wrap: true}
	}
	if st.inRange(p, t) {
		return IntV{p: p}
	}
	m := int64(1) << bits
	if signed {
		q := st.floorDiv(p.AddConst(m/2), Const(m))
		return IntV{p: p.Sub(q.Mul(Const(m)))}
	}
	q := st.floorDiv(p, Const(m))
	return IntV{p: p.Sub(q.Mul(Const(m)))}
}

func (st *State) hasCon(r Rel) bool {
	for i := len(st.cons) - 1; i >= 0; i-- {
		if st.cons[i].op == r.op && st.cons[i].p.Equal(r.p) {
			return true
		}
	}
	return false
}

func (st *State) addFact(r Rel) {
	t, ok := r.tighten()
	if !ok {
		st.status = dead
		return
	}
	if _, isc := t.p.IsConst(); isc {
		return
	}
	if !st.hasCon(t) {
		st.cons = append(st.cons, t)
	}
}

// constOf is the value of p if an equation of the state makes it a constant.
func (st *State) constOf(p Poly) (int64, bool) {
	if c, ok := p.IsConst(); ok {
		return c, true
	}
	for _, r := range st.cons {
		if r.op != EQ || len(r.p.t) != len(p.t) || r.p.t[0].m != p.t[0].m {
			continue
		}
		k := r.p.t[0].k
		if k == 0 || p.t[0].k%k != 0 {
			continue
		}
		if c, ok := p.AddScaled(r.p, -p.t[0].k/k).IsConst(); ok {
			return c, true
		}
	}
	return 0, false
}

// floorDiv is the quotient of p and the positive d, rounded down.
func (st *State) floorDiv(p, d Poly) Poly {
	if c, ok := d.IsConst(); ok && c == 1 {
		return p
	}
	if v, ok := st.constOf(p); ok {
		if c, isc := d.IsConst(); isc && c > 0 {
			q := v / c
			if v%c < 0 {
				q--
			}
			return Const(q)
		}
	}
	quot, rest := p.divideBy(d)
	if st.prove(Rel{rest, GE}) && st.prove(Lt(rest, d)) {
		return quot
	}
	// (x + d - 1)/d and similar: keep the rest within [0, d) if a shift by one is enough.
	if st.prove(Le(d, rest)) && st.prove(Lt(rest, d.Add(d))) {
		return quot.AddConst(1)
	}
	if st.prove(Rel{rest.Add(d), GE}) && st.prove(Lt(rest, Const(0))) {
		return quot.AddConst(-1)
	}
	if c, ok := d.IsConst(); ok && c > 0 && (rest.c >= 2*c || rest.c < -c) {
		k := rest.c / c
		if rest.c%c < 0 {
			k--
		}
		if r := rest.AddConst(-k * c); st.prove(Rel{r, GE}) && st.prove(Lt(r, d)) {
			return quot.AddConst(k)
		}
	}
	key := rest.Key() + "/" + d.Key()
	q, ok := divIndex[key]
	if !ok {
		q = memoAtom(NewAtom(fmt.Sprintf("⌊(%s)/(%s)⌋", rest, d)), rest, d)
		divIndex[key] = q
	}
	dq := d.Mul(q)
	st.addFact(Rel{rest.Sub(dq), GE})
	st.addFact(Rel{dq.Add(d).AddConst(-1).Sub(rest), GE})
	if st.prove(Rel{rest, GE}) {
		st.addFact(Rel{q, GE})
	}
	return quot.Add(q)
}

// bitOf is bit k of the value p.
func (st *State) bitOf(p Poly, k uint) Poly {
	if c, ok := p.IsConst(); ok {
		return Const((c >> k) & 1)
	}
	p = st.sameAtom(p)
	if _, hi, hasLo, hasHi := p.Bounds(); hasLo && hasHi && k < 62 && hi < 1<<k {
		if lo, _, _, _ := p.Bounds(); lo >= 0 {
			return Const(0)
		}
	}
	// A sum of distinct bits.
	if isBitSum(p) {
		ok := p.c >= 0
		var res Poly = Const((p.c >> k) & 1)
		c := p.c
		for _, t := range p.t {
			if t.k < 0 {
				// 2^j*(1-b): needs 2^j in the constant.
				if c&(-t.k) == 0 {
					ok = false
				}
			} else if c&t.k != 0 {
				ok = false
			}
			if uabs(t.k) == 1<<k {
				b := AtomPoly(monos[t.m].atoms[0])
				if t.k < 0 {
					res = Const(1).Sub(b)
				} else {
					res = b
				}
			}
		}
		if ok {
			return res
		}
	}
	// An atom with some bits forced.
	if base, coef, ok := bitBase(p); ok {
		b := st.rawBit(AtomPoly(base), k)
		switch coef[k] {
		case 0:
			return b
		case 1: // forced to 0
			return Const(0)
		case 2: // forced to 1
			return Const(1)
		}
	}
	return st.rawBit(p, k)
}

func (st *State) rawBit(p Poly, k uint) Poly {
	key := fmt.Sprintf("%s#%d", p.Key(), k)
	b, ok := bitIndex[key]
	if !ok {
		a := NewAtomRange(fmt.Sprintf("bit%d(%s)", k, p), 0, 1)
		bitAtoms[a] = true
		bitInfo[a] = bitOrigin{p, k}
		b = memoAtom(a, p)
		bitIndex[key] = b
	}
	return b
}

// memoAtom records that an atom is a function of some polynomials.
func memoAtom(a Atom, ps ...Poly) Poly {
	deps := []Atom{}
	for _, p := range ps {
		p.Atoms(func(b Atom) { deps = append(deps, b) })
	}
	memoDeps[a] = deps
	return AtomPoly(a)
}

type bitOrigin struct {
	p Poly
	k uint
}

var bitInfo = map[Atom]bitOrigin{}

// bitBase recognises A - Σ 2^j·bit_j(A) + Σ 2^j(1-bit_j(A)): coef[j] is 1 for bits forced to zero and 2 for
// bits forced to one.
func bitBase(p Poly) (Atom, map[uint]int, bool) {
	var base Atom = -1
	for _, t := range p.t {
		as := monos[t.m].atoms
		if len(as) == 1 && !bitAtoms[as[0]] {
			if t.k != 1 || base >= 0 {
				return 0, nil, false
			}
			base = as[0]
		}
	}
	if base < 0 {
		return 0, nil, false
	}
	coef := map[uint]int{}
	c := p.c
	if c < 0 {
		return 0, nil, false
	}
	for _, t := range p.t {
		as := monos[t.m].atoms
		if len(as) != 1 {
			return 0, nil, false
		}
		if as[0] == base {
			continue
		}
		o := bitInfo[as[0]]
		if a, ok := o.p.SingleAtom(); !ok || a != base || t.k != -(1<<o.k) {
			return 0, nil, false
		}
		if c&(1<<o.k) != 0 {
			coef[o.k] = 2
			c &^= 1 << o.k
		} else {
			coef[o.k] = 1
		}
	}
	if c != 0 {
		return 0, nil, false
	}
	return base, coef, true
}

func popcount(c int64) int {
	n := 0
	for u := uint64(c); u != 0; u &= u - 1 {
		n++
	}
	return n
}

// andConst is p & c for a constant c >= 0.
func (st *State) andConst(p Poly, c int64) Poly {
	if v, ok := p.IsConst(); ok {
		return Const(v & c)
	}
	if c == 0 {
		return Const(0)
	}
	// Contiguous masks of more than four bits are a division and a remainder.
	low := uint(0)
	for c&(1<<low) == 0 {
		low++
	}
	m := c >> low
	if m&(m+1) == 0 && popcount(c) > 4 && st.prove(Rel{p, GE}) {
		if _, isBase, ok := bitBase(p); !(ok && len(isBase) > 0) && !isBitSum(p) {
			q := st.floorDiv(p, Const(1<<low))
			if st.prove(Le(q, Const(m))) {
				return q.Mul(Const(1 << low))
			}
			r := q.Sub(st.floorDiv(q, Const(m+1)).Mul(Const(m + 1)))
			return r.Mul(Const(1 << low))
		}
	}
	out := Const(0)
	for k := uint(0); k < 62; k++ {
		if c&(1<<k) != 0 {
			out = out.Add(st.bitOf(p, k).Mul(Const(1 << k)))
		}
	}
	return out
}

// binInt computes an integer operation. The states returned have the value in parallel.
func (ip *Interp) binInt(st *State, op token.Token, x, y IntV, t types.Type, yt types.Type) IntV {
	bits, signed, _ := intKind(t)
	switch op {
	case token.ADD, token.SUB, token.MUL:
		var p Poly
		switch op {
		case token.ADD:
			p = x.p.Add(y.p)
		case token.SUB:
			p = x.p.Sub(y.p)
		default:
			p = x.p.Mul(y.p)
		}
		return st.wrapTo(p, t)
	}
	if x.wrap && !st.prove(Rel{x.p, GE}) || y.wrap && !st.prove(Rel{y.p, GE}) {
		// Bit operations on values beyond 2^63.
		if op == token.AND && !y.wrap {
			if c, ok := y.p.IsConst(); ok && c >= 0 {
				return IntV{p: st.andConst(x.p, c)}
			}
		}
		if op == token.AND && !x.wrap {
			if c, ok := x.p.IsConst(); ok && c >= 0 {
				return IntV{p: st.andConst(y.p, c)}
			}
		}
		return freshInt("wrapped", t)
	}
	xc, xIsC := x.p.IsConst()
	yc, yIsC := y.p.IsConst()
	if xIsC && yIsC {
		switch op {
		case token.AND:
			return st.wrapTo(Const(xc&yc), t)
		case token.OR:
			return st.wrapTo(Const(xc|yc), t)
		case token.XOR:
			return st.wrapTo(Const(xc^yc), t)
		case token.AND_NOT:
			return st.wrapTo(Const(xc&^yc), t)
		case token.SHL:
			if yc >= 0 && yc < 62 && uabs(xc) < 1<<(62-yc) {
				return st.wrapTo(Const(xc<<yc), t)
			}
		case token.SHR:
			if yc >= 0 {
				if yc > 63 {
					yc = 63
				}
				return st.wrapTo(Const(xc>>yc), t)
			}
		}
	}
	switch op {
	case token.AND:
		if yIsC && yc >= 0 {
			return IntV{p: st.andConst(x.p, yc)}
		}
		if xIsC && xc >= 0 {
			return IntV{p: st.andConst(y.p, xc)}
		}
		r := freshInt("and", t)
		if st.prove(Rel{x.p, GE}) {
			st.addFact(Rel{r.p, GE})
			st.addFact(Le(r.p, x.p))
		}
		if st.prove(Rel{y.p, GE}) {
			st.addFact(Rel{r.p, GE})
			st.addFact(Le(r.p, y.p))
		}
		return r
	case token.AND_NOT:
		if yIsC && yc >= 0 {
			return IntV{p: x.p.Sub(st.andConst(x.p, yc))}
		}
		if yIsC && yc < 0 && !signed {
			break
		}
		if yIsC && yc < 0 {
			return IntV{p: st.andConst(x.p, ^yc)}
		}
		if xIsC && xc >= 0 {
			return IntV{p: x.p.Sub(st.andConst(y.p, xc))}
		}
	case token.OR:
		if yIsC && yc >= 0 {
			return IntV{p: x.p.Add(Const(yc)).Sub(st.andConst(x.p, yc))}
		}
		if xIsC && xc >= 0 {
			return IntV{p: y.p.Add(Const(xc)).Sub(st.andConst(y.p, xc))}
		}
		if p, ok := st.disjointSum(x.p, y.p); ok {
			return st.wrapTo(p, t)
		}
		// Sums of known bits.
		if isBitSum(x.p) && isBitSum(y.p) {
			out := Const(0)
			for k := uint(0); k < 62 && k < uint(bits); k++ {
				a, b := st.bitOf(x.p, k), st.bitOf(y.p, k)
				if v, ok := a.IsConst(); ok && v == 0 {
					out = out.Add(b.Mul(Const(1 << k)))
				} else if v, ok := b.IsConst(); ok && v == 0 {
					out = out.Add(a.Mul(Const(1 << k)))
				} else {
					out = out.Add(st.rawBit(a.Add(b.Mul(Const(2))), 63).Mul(Const(1 << k)))
				}
			}
			return IntV{p: out}
		}
		r := freshInt("or", t)
		if st.prove(Rel{x.p, GE}) && st.prove(Rel{y.p, GE}) {
			st.addFact(Le(x.p, r.p))
			st.addFact(Le(y.p, r.p))
			st.addFact(Le(r.p, x.p.Add(y.p)))
		}
		return r
	case token.XOR:
		if p, ok := st.disjointSum(x.p, y.p); ok {
			return st.wrapTo(p, t)
		}
		if yIsC && yc >= 0 {
			return st.wrapTo(x.p.Add(Const(yc)).Sub(st.andConst(x.p, yc).Mul(Const(2))), t)
		}
	case token.SHL:
		if yIsC && yc >= 0 && yc < 62 {
			return st.wrapTo(x.p.Mul(Const(1<<yc)), t)
		}
		if yIsC && yc >= int64(bits) {
			return IntV{p: Const(0)}
		}
	case token.SHR:
		if yIsC && yc >= 0 && yc < 62 {
			return IntV{p: st.floorDiv(x.p, Const(1<<yc))}
		}
	}
	return freshInt(op.String(), t)
}

// disjointSum recognises x|y for x a multiple of 2^k and 0 <= y < 2^k.
func (st *State) disjointSum(x, y Poly) (Poly, bool) {
	try := func(a, b Poly) bool {
		var g uint64
		for _, t := range a.t {
			g = gcd64(g, uabs(t.k))
		}
		if a.c != 0 {
			g = gcd64(g, uabs(a.c))
		}
		if g == 0 {
			return true
		}
		k := int64(g & -g)
		if k <= 1 || k > math.MaxInt64/4 {
			return false
		}
		lo, hi, hasLo, hasHi := b.Bounds()
		if hasLo && lo >= 0 && hasHi && hi < k {
			return true
		}
		return st.prove(Rel{b, GE}) && st.prove(Lt(b, Const(k)))
	}
	if try(x, y) || try(y, x) {
		return x.Add(y), true
	}
	if a, ok := bitsUsed(x); ok {
		if b, ok := bitsUsed(y); ok && a&b == 0 {
			return x.Add(y), true
		}
	}
	return Poly{}, false
}

// bitsUsed gives the bits that may be set in a sum of terms that do not overlap.
func bitsUsed(p Poly) (uint64, bool) {
	if p.c < 0 {
		return 0, false
	}
	used := uint64(p.c)
	for _, t := range p.t {
		one := Poly{t: []term{{t.m, 1}}}
		lo, hi, hasLo, hasHi := one.Bounds()
		if t.k <= 0 || !hasLo || lo < 0 || !hasHi || hi > math.MaxInt64/4/t.k {
			return 0, false
		}
		// From the lowest bit of the factor to the highest bit of the largest value.
		m := (uint64(1)<<bits.Len64(uint64(hi*t.k)) - 1) &^ (uint64(t.k&-t.k) - 1)
		if used&m != 0 {
			return 0, false
		}
		used |= m
	}
	return used, true
}

type stVal struct {
	st *State
	v  Value
}

// divMod computes x/y and x%y with Go's truncation towards zero. The divisor is not zero in st.
func (ip *Interp) divMod(st *State, x, y IntV, t types.Type, rem bool) []stVal {
	var out []stVal
	if c, ok := y.p.IsConst(); ok && rem && x.wrap && c > 0 && c&(c-1) == 0 {
		// Modulo 2^64, then modulo a power of two.
		return []stVal{{st, IntV{p: x.p.Sub(st.floorDiv(x.p, y.p).Mul(y.p))}}}
	}
	if x.wrap || y.wrap {
		if !(st.prove(Rel{x.p, GE}) && st.prove(Rel{y.p, GE})) {
			return []stVal{{st, freshInt("div", t)}}
		}
	}
	pos, neg := st.fork(Rel{y.p.AddConst(-1), GE})
	if neg != nil {
		out = append(out, stVal{neg, freshInt("divneg", t)})
	}
	if pos == nil {
		return out
	}
	xpos, xneg := pos.fork(Rel{x.p, GE})
	if xpos != nil {
		q := xpos.floorDiv(x.p, y.p)
		if rem {
			out = append(out, stVal{xpos, IntV{p: x.p.Sub(q.Mul(y.p))}})
		} else {
			out = append(out, stVal{xpos, IntV{p: q}})
		}
	}
	if xneg != nil {
		q := xneg.floorDiv(x.p.Neg(), y.p).Neg()
		if rem {
			out = append(out, stVal{xneg, IntV{p: x.p.Sub(q.Mul(y.p))}})
		} else {
			out = append(out, stVal{xneg, IntV{p: q}})
		}
	}
	return out
}

// powerTest recognises x & (x-1), which is zero for zero and powers of two only.
func (ip *Interp) powerTest(st *State, x, y IntV, t types.Type) []stVal {
	if x.wrap || y.wrap || x.p.Equal(y.p) {
		return nil
	}
	if x.p.Sub(y.p).Equal(Const(-1)) {
		x, y = y, x
	}
	if !x.p.Sub(y.p).Equal(Const(1)) || !st.prove(Le(Const(1), x.p)) || !st.prove(Lt(x.p, Const(1<<16))) {
		return nil
	}
	var out []stVal
	for k := int64(1); k < 1<<16; k *= 2 {
		s := st.clone()
		if s.assume(Eq(x.p, Const(k))) {
			out = append(out, stVal{s, IntV{p: Const(0)}})
		}
		s = st.clone()
		if k > 1 && s.assume(Lt(Const(k), x.p)) && s.assume(Lt(x.p, Const(2*k))) {
			v := freshInt("and", t)
			s.assume(Le(Const(1), v.p))
			s.assume(Le(v.p, y.p))
			out = append(out, stVal{s, v})
		}
	}
	return out
}

// popCount models math/bits.OnesCount*, telling apart how many bits are set as far as needed to recognise powers of two.
func popCount(ip *Interp, st *State, c *CallCtx) []*State {
	x, ok := c.args[0].(IntV)
	if !ok || x.wrap || !st.prove(Rel{x.p, GE}) || !st.prove(Lt(x.p, Const(1<<16))) {
		return ip.opaque(st, c)
	}
	var out []*State
	put := func(s *State, p Poly) {
		c.ret(ip, s, IntV{p: p})
		out = append(out, s)
	}
	if s := st.clone(); s.assume(Rel{x.p, EQ}) {
		put(s, Const(0))
	}
	for k := int64(1); k < 1<<16; k *= 2 {
		if s := st.clone(); s.assume(Eq(x.p, Const(k))) {
			put(s, Const(1))
		}
		if s := st.clone(); k > 1 && s.assume(Lt(Const(k), x.p)) && s.assume(Lt(x.p, Const(2*k))) {
			put(s, AtomPoly(NewAtomRange("bits set", 2, 16)))
		}
	}
	return out
}

// cmpInt compares integers, splitting the state where one is modulo 2^64.
func (ip *Interp) cmpInt(st *State, op token.Token, x, y IntV) []stVal {
	rel := func(a, b Poly) Rel {
		switch op {
		case token.EQL:
			return Eq(a, b)
		case token.NEQ:
			return Ne(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		}
		return Le(b, a)
	}
	if x.wrap && y.wrap && (op == token.EQL || op == token.NEQ) {
		return []stVal{{st, BoolV{rel(x.p, y.p)}}}
	}
	if !x.wrap && !y.wrap {
		return []stVal{{st, BoolV{rel(x.p, y.p)}}}
	}
	var out []stVal
	big := func(v IntV, s *State) (small, huge *State) {
		if !v.wrap {
			return s, nil
		}
		return s.fork(Rel{v.p, GE})
	}
	xs, xb := big(x, st)
	if xs != nil {
		ys, yb := big(y, xs)
		if ys != nil {
			out = append(out, stVal{ys, BoolV{rel(x.p, y.p)}})
		}
		if yb != nil {
			out = append(out, stVal{yb, boolConst(op == token.LSS || op == token.LEQ || op == token.NEQ)})
		}
	}
	if xb != nil {
		ys, yb := big(y, xb)
		if ys != nil {
			out = append(out, stVal{ys, boolConst(op == token.GTR || op == token.GEQ || op == token.NEQ)})
		}
		if yb != nil {
			out = append(out, stVal{yb, BoolV{rel(x.p, y.p)}})
		}
	}
	return out
}

// convInt converts between integer types.
func (st *State) convInt(x IntV, from, to types.Type) IntV {
	bits, signed, ok := intKind(to)
	if !ok {
		return x
	}
	if bits == 64 {
		if signed {
			return IntV{p: x.p}
		}
		if x.wrap {
			return st.wrapTo(x.p, to)
		}
		return st.wrapTo(x.p, to)
	}
	return st.wrapTo(x.p, to)
}

// sameAtom replaces an atom by the first one that it is stated to equal.
func (st *State) sameAtom(p Poly) Poly {
	if p.c != 0 || len(p.t) != 1 || p.t[0].k != 1 || len(monos[p.t[0].m].atoms) != 1 {
		return p
	}
	best := monos[p.t[0].m].atoms[0]
	for changed := true; changed; {
		changed = false
		for _, r := range st.cons {
			if r.op != EQ || r.p.c != 0 || len(r.p.t) != 2 || r.p.t[0].k+r.p.t[1].k != 0 || uabs(r.p.t[0].k) != 1 {
				continue
			}
			a, b := monos[r.p.t[0].m].atoms, monos[r.p.t[1].m].atoms
			if len(a) != 1 || len(b) != 1 {
				continue
			}
			if a[0] == best && b[0] < best {
				best, changed = b[0], true
			} else if b[0] == best && a[0] < best {
				best, changed = a[0], true
			}
		}
	}
	return AtomPoly(best)
}
