package main

// Integer polynomials over interned atoms. They are the numeric language of the abstract domain:
// every integer the analysed code computes is a polynomial over unknown inputs ("atoms"), and an
// abstract state is a conjunction of polynomial (in)equalities, treated as linear inequalities over
// their monomials.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Atom is an unknown integer.
type Atom int32

// AtomInfo describes an atom. Lo and Hi are inclusive bounds, valid in every state.
type AtomInfo struct {
	Name  string
	HasLo bool
	HasHi bool
	Lo    int64
	Hi    int64
}

// MonoID identifies an interned monomial (a product of one or more atoms).
type MonoID int32

type mono struct {
	atoms []Atom // sorted
}

var (
	atoms     []AtomInfo
	monos     []mono
	monoIndex = map[string]MonoID{}
	freshSeq  int
)

// ResetAtoms forgets all atoms. Polynomials made before the call are invalid afterwards.
func ResetAtoms() {
	atoms = nil
	monos = nil
	monoIndex = map[string]MonoID{}
	freshSeq = 0
	divIndex = map[string]Poly{}
	lpCache = map[string]bool{}
}

// NewAtom creates an unconstrained atom.
func NewAtom(name string) Atom {
	atoms = append(atoms, AtomInfo{Name: name})
	return Atom(len(atoms) - 1)
}

// NewAtomRange creates an atom with inclusive bounds.
func NewAtomRange(name string, lo, hi int64) Atom {
	atoms = append(atoms, AtomInfo{Name: name, HasLo: true, HasHi: true, Lo: lo, Hi: hi})
	return Atom(len(atoms) - 1)
}

// NewAtomMin creates an atom with only a lower bound.
func NewAtomMin(name string, lo int64) Atom {
	atoms = append(atoms, AtomInfo{Name: name, HasLo: true, Lo: lo})
	return Atom(len(atoms) - 1)
}

func internMono(as []Atom) MonoID {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteString(strconv.Itoa(int(a)))
		sb.WriteByte(',')
	}
	k := sb.String()
	if id, ok := monoIndex[k]; ok {
		return id
	}
	monos = append(monos, mono{atoms: append([]Atom(nil), as...)})
	id := MonoID(len(monos) - 1)
	monoIndex[k] = id
	return id
}

type term struct {
	m MonoID
	k int64
}

// Poly is an immutable integer polynomial.
type Poly struct {
	c int64
	t []term // sorted by monomial, no zero coefficients
}

// Const makes a constant polynomial.
func Const(c int64) Poly { return Poly{c: c} }

// AtomPoly makes the polynomial consisting of one atom.
func AtomPoly(a Atom) Poly {
	return Poly{t: []term{{internMono([]Atom{a}), 1}}}
}

// IsConst tells if the polynomial is a constant.
func (p Poly) IsConst() (int64, bool) { return p.c, len(p.t) == 0 }

func addOv(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uabs(a), uabs(b)
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > math.MaxInt64 {
		return 0, false
	}
	r := int64(lo)
	if neg {
		r = -r
	}
	return r, true
}

func uabs(a int64) uint64 {
	if a < 0 {
		return uint64(-(a + 1)) + 1
	}
	return uint64(a)
}

// overflowPoly is what arithmetic on coefficients yields when they leave the int64 range: an unknown.
func overflowPoly() Poly {
	return AtomPoly(NewAtom("overflow"))
}

// Add returns p+q.
func (p Poly) Add(q Poly) Poly { return p.AddScaled(q, 1) }

// Sub returns p-q.
func (p Poly) Sub(q Poly) Poly { return p.AddScaled(q, -1) }

// AddScaled returns p + k*q.
func (p Poly) AddScaled(q Poly, k int64) Poly {
	qc, ok := mulOv(q.c, k)
	if !ok {
		return overflowPoly()
	}
	c, ok := addOv(p.c, qc)
	if !ok {
		return overflowPoly()
	}
	if len(q.t) == 0 {
		return Poly{c: c, t: p.t}
	}
	out := make([]term, 0, len(p.t)+len(q.t))
	i, j := 0, 0
	for i < len(p.t) || j < len(q.t) {
		switch {
		case j >= len(q.t) || (i < len(p.t) && p.t[i].m < q.t[j].m):
			out = append(out, p.t[i])
			i++
		case i >= len(p.t) || q.t[j].m < p.t[i].m:
			v, ok := mulOv(q.t[j].k, k)
			if !ok {
				return overflowPoly()
			}
			if v != 0 {
				out = append(out, term{q.t[j].m, v})
			}
			j++
		default:
			v, ok := mulOv(q.t[j].k, k)
			if !ok {
				return overflowPoly()
			}
			s, ok := addOv(p.t[i].k, v)
			if !ok {
				return overflowPoly()
			}
			if s != 0 {
				out = append(out, term{p.t[i].m, s})
			}
			i++
			j++
		}
	}
	return Poly{c: c, t: out}
}

// AddConst returns p+c.
func (p Poly) AddConst(c int64) Poly { return p.Add(Const(c)) }

// Neg returns -p.
func (p Poly) Neg() Poly { return Const(0).Sub(p) }

// Mul returns p*q.
func (p Poly) Mul(q Poly) Poly {
	if c, ok := q.IsConst(); ok {
		return Const(0).AddScaled(p, c)
	}
	if c, ok := p.IsConst(); ok {
		return Const(0).AddScaled(q, c)
	}
	acc := map[MonoID]int64{}
	add := func(m MonoID, k int64) bool {
		s, ok := addOv(acc[m], k)
		acc[m] = s
		return ok
	}
	for _, x := range p.t {
		for _, y := range q.t {
			k, ok := mulOv(x.k, y.k)
			if !ok {
				return overflowPoly()
			}
			as := append(append([]Atom(nil), monos[x.m].atoms...), monos[y.m].atoms...)
			sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
			if !add(internMono(as), k) {
				return overflowPoly()
			}
		}
		if k, ok := mulOv(x.k, q.c); !ok || !add(x.m, k) {
			return overflowPoly()
		}
	}
	for _, y := range q.t {
		if k, ok := mulOv(y.k, p.c); !ok || !add(y.m, k) {
			return overflowPoly()
		}
	}
	c, ok := mulOv(p.c, q.c)
	if !ok {
		return overflowPoly()
	}
	out := make([]term, 0, len(acc))
	for m, k := range acc {
		if k != 0 {
			out = append(out, term{m, k})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m < out[j].m })
	return Poly{c: c, t: out}
}

// Equal tells if the polynomials are identical.
func (p Poly) Equal(q Poly) bool {
	if p.c != q.c || len(p.t) != len(q.t) {
		return false
	}
	for i := range p.t {
		if p.t[i] != q.t[i] {
			return false
		}
	}
	return true
}

// Key is a canonical text of the polynomial, for use as a map key.
func (p Poly) Key() string {
	b := make([]byte, 0, 16+8*len(p.t))
	b = strconv.AppendInt(b, p.c, 10)
	for _, t := range p.t {
		b = append(b, ';')
		b = strconv.AppendInt(b, int64(t.m), 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, t.k, 10)
	}
	return string(b)
}

func (p Poly) String() string {
	var sb strings.Builder
	for i, t := range p.t {
		var names []string
		for _, a := range monos[t.m].atoms {
			names = append(names, atoms[a].Name)
		}
		n := strings.Join(names, "*")
		k := t.k
		if i > 0 {
			if k < 0 {
				sb.WriteString(" - ")
				k = -k
			} else {
				sb.WriteString(" + ")
			}
		}
		if k == 1 {
			sb.WriteString(n)
		} else if k == -1 {
			sb.WriteString("-" + n)
		} else {
			fmt.Fprintf(&sb, "%d*%s", k, n)
		}
	}
	if len(p.t) == 0 {
		return strconv.FormatInt(p.c, 10)
	}
	if p.c > 0 {
		fmt.Fprintf(&sb, " + %d", p.c)
	} else if p.c < 0 {
		fmt.Fprintf(&sb, " - %d", -p.c)
	}
	return sb.String()
}

// Subst replaces atoms by polynomials.
func (p Poly) Subst(s map[Atom]Poly) Poly {
	hit := false
	for _, t := range p.t {
		for _, a := range monos[t.m].atoms {
			if _, ok := s[a]; ok {
				hit = true
			}
		}
	}
	if !hit {
		return p
	}
	out := Const(p.c)
	for _, t := range p.t {
		f := Const(t.k)
		for _, a := range monos[t.m].atoms {
			if r, ok := s[a]; ok {
				f = f.Mul(r)
			} else {
				f = f.Mul(AtomPoly(a))
			}
		}
		out = out.Add(f)
	}
	return out
}

// HasAtom tells if any of the atoms occurs in the polynomial.
func (p Poly) HasAtom(s map[Atom]bool) bool {
	for _, t := range p.t {
		for _, a := range monos[t.m].atoms {
			if s[a] {
				return true
			}
		}
	}
	return false
}

// Atoms calls f for every atom of the polynomial.
func (p Poly) Atoms(f func(Atom)) {
	for _, t := range p.t {
		for _, a := range monos[t.m].atoms {
			f(a)
		}
	}
}

// SingleAtom returns the atom if p consists of exactly one atom.
func (p Poly) SingleAtom() (Atom, bool) {
	if p.c == 0 && len(p.t) == 1 && p.t[0].k == 1 && len(monos[p.t[0].m].atoms) == 1 {
		return monos[p.t[0].m].atoms[0], true
	}
	return 0, false
}

// divideByMonoTerm splits p into d*quot + rest, where d is a single-term polynomial without constant.
// Only terms divisible by d (including its coefficient) go to the quotient.
func (p Poly) divideBy(d Poly) (quot, rest Poly) {
	if c, ok := d.IsConst(); ok {
		if c == 0 {
			return Const(0), p
		}
		qt, rt := []term{}, []term{}
		for _, t := range p.t {
			if t.k%c == 0 {
				qt = append(qt, term{t.m, t.k / c})
			} else {
				rt = append(rt, t)
			}
		}
		// Put the constant in the quotient as far as possible, rounding down.
		q := p.c / c
		r := p.c % c
		if r < 0 && c > 0 {
			q--
			r += c
		}
		if len(rt) > 0 {
			return Poly{c: 0, t: qt}, Poly{c: p.c, t: rt}
		}
		return Poly{c: q, t: qt}, Poly{c: r}
	}
	if d.c != 0 || len(d.t) != 1 {
		if p.Equal(d) {
			return Const(1), Const(0)
		}
		return Const(0), p
	}
	dt := d.t[0]
	quot, rest = Const(0), Const(p.c)
	for _, t := range p.t {
		if q, ok := monoDiv(t.m, dt.m); ok && t.k%dt.k == 0 {
			if len(q) == 0 {
				quot = quot.AddConst(t.k / dt.k)
			} else {
				quot = quot.Add(Poly{t: []term{{internMono(q), t.k / dt.k}}})
			}
		} else {
			rest = rest.Add(Poly{t: []term{t}})
		}
	}
	return quot, rest
}

func monoDiv(m, d MonoID) ([]Atom, bool) {
	have := append([]Atom(nil), monos[m].atoms...)
	for _, a := range monos[d].atoms {
		found := false
		for i, b := range have {
			if a == b {
				have = append(have[:i], have[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	return have, true
}

// -----------------------------------------------------------------------------

// RelOp is the operator of an atomic constraint.
type RelOp int8

const (
	// GE is p >= 0.
	GE RelOp = iota
	// EQ is p == 0.
	EQ
	// NE is p != 0.
	NE
)

// Rel is an atomic constraint on a polynomial.
type Rel struct {
	p  Poly
	op RelOp
}

// Neg is the negation of the constraint (over the integers).
func (r Rel) Neg() Rel {
	switch r.op {
	case GE:
		return Rel{r.p.Neg().AddConst(-1), GE}
	case EQ:
		return Rel{r.p, NE}
	}
	return Rel{r.p, EQ}
}

func (r Rel) String() string {
	switch r.op {
	case GE:
		return r.p.String() + " >= 0"
	case EQ:
		return r.p.String() + " == 0"
	}
	return r.p.String() + " != 0"
}

// Le is a <= b.
func Le(a, b Poly) Rel { return Rel{b.Sub(a), GE} }

// Lt is a < b.
func Lt(a, b Poly) Rel { return Rel{b.Sub(a).AddConst(-1), GE} }

// Eq is a == b.
func Eq(a, b Poly) Rel { return Rel{a.Sub(b), EQ} }

// Ne is a != b.
func Ne(a, b Poly) Rel { return Rel{a.Sub(b), NE} }

func gcd64(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten divides an inequality by the GCD of its coefficients, rounding the constant down. The result is
// equivalent over the integers. It reports false if an equality has no integer solution.
func (r Rel) tighten() (Rel, bool) {
	if len(r.p.t) == 0 {
		return r, true
	}
	var g uint64
	for _, t := range r.p.t {
		g = gcd64(g, uabs(t.k))
	}
	if g <= 1 || g > math.MaxInt64 {
		return r, true
	}
	gi := int64(g)
	if r.op != GE && r.p.c%gi != 0 {
		if r.op == NE {
			return Rel{Const(1), NE}, true
		}
		return r, false
	}
	c := r.p.c / gi
	if r.op == GE && r.p.c%gi != 0 && r.p.c < 0 {
		c--
	}
	out := Poly{c: c, t: make([]term, len(r.p.t))}
	for i, t := range r.p.t {
		out.t[i] = term{t.m, t.k / gi}
	}
	return Rel{out, r.op}, true
}

// Bounds gives interval bounds of a polynomial from the bounds of its atoms alone.
func (p Poly) Bounds() (lo, hi int64, hasLo, hasHi bool) {
	lo, hi, hasLo, hasHi = p.c, p.c, true, true
	for _, t := range p.t {
		mlo, mhi, mHasLo, mHasHi := monoBounds(t.m)
		k := t.k
		if k < 0 {
			mlo, mhi, mHasLo, mHasHi = mhi, mlo, mHasHi, mHasLo
		}
		if hasLo {
			if !mHasLo {
				hasLo = false
			} else if v, ok := mulOv(mlo, k); !ok {
				hasLo = false
			} else {
				lo, hasLo = addOv(lo, v)
			}
		}
		if hasHi {
			if !mHasHi {
				hasHi = false
			} else if v, ok := mulOv(mhi, k); !ok {
				hasHi = false
			} else {
				hi, hasHi = addOv(hi, v)
			}
		}
	}
	return
}

func monoBounds(m MonoID) (lo, hi int64, hasLo, hasHi bool) {
	as := monos[m].atoms
	if len(as) == 1 {
		i := atoms[as[0]]
		return i.Lo, i.Hi, i.HasLo, i.HasHi
	}
	// Products: only handle nonnegative factors.
	lo, hi, hasLo, hasHi = 1, 1, true, true
	for _, a := range as {
		i := atoms[a]
		if !i.HasLo || i.Lo < 0 {
			return 0, 0, false, false
		}
		if v, ok := mulOv(lo, i.Lo); ok {
			lo = v
		} else {
			lo = 0
		}
		if hasHi {
			if !i.HasHi {
				hasHi = false
			} else {
				hi, hasHi = mulOv(hi, i.Hi)
			}
		}
	}
	return
}
