package main

// Abstract values and abstract memory.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value; one of the types below.
type Value interface{}

// IntV is an integer. If wrap is set the value is p modulo 2^64.
type IntV struct {
	p    Poly
	wrap bool
}

// BoolV is a truth value given by a constraint.
type BoolV struct{ r Rel }

// StrV is a string, described by a term.
type StrV struct{ t *Term }

// FloatV is any floating point or complex number.
type FloatV struct{}

// NilV is the nil pointer, slice, map, function or interface.
type NilV struct{}

// ObjID identifies an allocated or input object.
type ObjID int32

// Region identifies an indexable sequence: the elements of an array or of a slice's backing store.
type Region int32

// PtrV points to a field of an object, or to (a part of) an element of a region.
type PtrV struct {
	obj  ObjID
	path string

	isElem bool
	reg    Region
	idx    Poly
	sub    string
	// array is one more than the number of elements from idx on if they are pointed to as an array.
	array int64
}

// SliceV is a slice of a region.
type SliceV struct {
	reg           Region
	off, len, cap Poly
	// nilAtom is 1 if the slice is nil; only set for slices of unknown origin.
	hasNil  bool
	nilAtom Atom
}

// StructV is a struct value.
type StructV struct{ f []Value }

// ArrayV is a snapshot of the elements of an array.
type ArrayV struct {
	content *RegContent
	n       int64
	elem    types.Type
}

// IfaceV is an interface holding a value of a known type.
type IfaceV struct {
	dyn types.Type
	v   Value
}

// SymV is an opaque value: an interface, function, map, channel or pointer of unknown identity.
type SymV struct {
	id      int
	typ     types.Type
	name    string
	nonnil  bool
	nilAtom Atom
	err     *errInfo
	origin  *Event
	data    interface{}
}

// errInfo describes an error value. A sentinel matches itself, an unknown error may match anything, and
// any error matches whatever its parts match.
type errInfo struct {
	sentinel string
	unknown  bool
	parts    []*SymV
}

// FuncV is a function with its captured variables.
type FuncV struct {
	fn   *ssa.Function
	bind []Value
}

// MapV is a map.
type MapV struct {
	obj ObjID
}

// TupleV is the result of a call with several results.
type TupleV []Value

// IterV is a map or string iterator.
type IterV struct {
	over Value
	id   int
}

// -------------------------------------------------------------------------------- terms

// Term is an interned string term.
type Term struct {
	op   string // "const", "sym", or a function name
	c    string
	args []*Term
	id   int
	ln   Poly
}

var (
	termIndex = map[string]*Term{}
	termSeq   int
)

func resetTerms() { termIndex = map[string]*Term{}; termSeq = 0 }

func internTerm(op, c string, ln *Poly, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(c)
	for _, a := range args {
		sb.WriteByte(1)
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termIndex[k]; ok {
		return t
	}
	termSeq++
	t := &Term{op: op, c: c, args: args, id: termSeq}
	if ln != nil {
		t.ln = *ln
	} else {
		t.ln = AtomPoly(NewAtomMin(fmt.Sprintf("len(%s)", t), 0))
	}
	termIndex[k] = t
	return t
}

func constTerm(s string) *Term {
	l := Const(int64(len(s)))
	return internTerm("const", s, &l)
}

func symTerm(name string) *Term { return internTerm("sym", name, nil) }

func concatTerm(a, b *Term) *Term {
	if a.op == "const" && a.c == "" {
		return b
	}
	if b.op == "const" && b.c == "" {
		return a
	}
	if a.op == "const" && b.op == "const" {
		return constTerm(a.c + b.c)
	}
	// Right-associate so that equal concatenations have equal terms.
	if a.op == "cat" {
		return concatTerm(a.args[0], concatTerm(a.args[1], b))
	}
	if a.op == "const" && b.op == "cat" && b.args[0].op == "const" {
		return concatTerm(constTerm(a.c+b.args[0].c), b.args[1])
	}
	l := a.ln.Add(b.ln)
	return internTerm("cat", "", &l, a, b)
}

func (t *Term) String() string {
	switch t.op {
	case "const":
		return strconv.Quote(t.c)
	case "sym":
		return t.c
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	s := t.op
	if t.c != "" {
		s += "[" + t.c + "]"
	}
	return s + "(" + strings.Join(as, ",") + ")"
}

// uses tells if a term is made with an operation.
func (t *Term) uses(op string) bool {
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if a.uses(op) {
			return true
		}
	}
	return false
}

// contains tells if u occurs in t.
func (t *Term) contains(u *Term) bool {
	if t == u {
		return true
	}
	for _, a := range t.args {
		if a.contains(u) {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------------------ objects

// ObjInfo describes an object.
type ObjInfo struct {
	name  string
	typ   types.Type // nil if unknown
	zero  bool       // fields not stored to are zero
	param bool       // an input: exists before the analysed function runs
	site  ssa.Instruction
	owner string
}

// RegInfo describes a region.
type RegInfo struct {
	obj  ObjID
	path string
	elem types.Type
	name string
	zero bool
}

type cellKey struct {
	obj  ObjID
	path string
}

// Write is an update of a region: the elements lo..hi-1 get the value val, or, if src is set, element k
// gets the value of element k+delta of the content src.
type Write struct {
	lo, hi Poly
	val    Value
	src    *RegContent
	srcReg Region
	delta  Poly
	// rev says that the elements are in the opposite order: element i is element delta-i of the source.
	rev bool
}

// RegContent is what is known about the elements of a region: a base content and a list of updates,
// oldest first. Immutable.
type RegContent struct {
	zero bool // base content is zero, otherwise generation gen of unknown content
	gen  int
	atom Atom // stands for the identity of the base content
	w    []Write
}

func showVal(v Value) string {
	switch x := v.(type) {
	case nil:
		return "?"
	case IntV:
		return x.p.String()
	case BoolV:
		return "(" + x.r.String() + ")"
	case StrV:
		return x.t.String()
	case NilV:
		return "nil"
	case PtrV:
		if x.isElem {
			return fmt.Sprintf("&r%d[%s]%s", x.reg, x.idx, x.sub)
		}
		return fmt.Sprintf("&o%d%s", x.obj, x.path)
	case SliceV:
		return fmt.Sprintf("r%d[%s:+%s]", x.reg, x.off, x.len)
	case StructV:
		var s []string
		for _, f := range x.f {
			s = append(s, showVal(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case IfaceV:
		return fmt.Sprintf("%s(%s)", types.TypeString(x.dyn, func(p *types.Package) string { return p.Name() }), showVal(x.v))
	case *SymV:
		return x.name
	case FuncV:
		return "func " + x.fn.Name()
	case TupleV:
		var s []string
		for _, f := range x {
			s = append(s, showVal(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}

// Event is something observable that the analysed code does.
type Event struct {
	kind string // "call", "copy", "store", "panic", "mapupdate", "loop"
	name string // callee name for calls
	// method is the interface method or function called.
	fn    *types.Func
	recv  Value
	args  []Value
	res   []Value
	instr ssa.Instruction
	fnIn  *ssa.Function
	seq   int
	// sub are the events a summarised loop may have produced.
	sub []*Event
	ft  types.Type // type of the called function value
}

type evNode struct {
	ev   *Event
	prev *evNode
	n    int
}

// Frame is an activation record.
type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	// call is the instruction in the caller awaiting the result; nil for the root or deferred calls.
	call      ssa.Value
	onRet     func(ip *Interp, st *State, res []Value) []*State
	isDefer   bool
	arrived   bool
	runningDf bool
	visits    int
	unrolled  map[*ssa.BasicBlock]bool
	c         *CallCtx
}

type deferred struct {
	common *ssa.CallCommon
	fnv    Value
	args   []Value
	instr  *ssa.Defer
}

// State is an abstract state: one element of the disjunctive completion.
type State struct {
	cons    []Rel
	nes     []Rel
	cells   map[cellKey]Value
	regs    map[Region]*RegContent
	frames  []*Frame
	events  *evNode
	ghost   map[string]Value
	maps    map[ObjID]*mapContent
	status  stStatus
	results []Value
	note    string
	errs    []*errUse
	strides map[Atom]Poly // numbers that change in steps: what they are
	ipos    ssa.Instruction
}

// errUse is an error value returned by a call on the path.
type errUse struct {
	e       *SymV
	ev      *Event
	ignored bool
}

type mapContent struct {
	zero    bool
	entries []mapEntry
}

type mapEntry struct {
	key, val Value
	present  int // 1 present, 0 absent
}

type stStatus int8

const (
	running stStatus = iota
	returned
	panicked
	dead
)

func (st *State) clone() *State {
	n := &State{
		cons:   st.cons[:len(st.cons):len(st.cons)],
		nes:    st.nes[:len(st.nes):len(st.nes)],
		events: st.events,
		status: st.status,
		note:   st.note,
	}
	n.cells = make(map[cellKey]Value, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.regs = make(map[Region]*RegContent, len(st.regs))
	for k, v := range st.regs {
		n.regs[k] = v
	}
	n.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.maps = make(map[ObjID]*mapContent, len(st.maps))
	for k, v := range st.maps {
		n.maps[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = append([]Value(nil), f.env...)
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &g
	}
	n.results = st.results
	n.errs = st.errs[:len(st.errs):len(st.errs)]
	n.ipos = st.ipos
	n.strides = st.strides
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// ------------------------------------------------------------------- constraints

// assume adds a constraint; it reports false if the state became empty.
func (st *State) assume(r Rel) bool {
	t, ok := r.tighten()
	if !ok {
		st.status = dead
		return false
	}
	if c, isc := t.p.IsConst(); isc {
		if (t.op == GE && c < 0) || (t.op == EQ && c != 0) || (t.op == NE && c == 0) {
			st.status = dead
			return false
		}
		return true
	}
	if t.op == NE {
		return st.assumeNE(t)
	}
	if t.op == EQ {
		if parts, ok := splitBits(t.p); ok {
			for _, q := range parts {
				if !st.assumeOne(q) {
					return false
				}
			}
			return st.checkNEs()
		}
		if isBitSum(t.p) {
			// No assignment of the bits gives this value.
			st.status = dead
			return false
		}
	}
	return st.assumeOne(t) && st.checkNEs()
}

func (st *State) assumeOne(t Rel) bool {
	if c, isc := t.p.IsConst(); isc {
		if (t.op == GE && c < 0) || (t.op == EQ && c != 0) {
			st.status = dead
			return false
		}
		return true
	}
	if infeasible(st.cons, []Rel{t}) {
		st.status = dead
		return false
	}
	st.cons = append(st.cons, t)
	st.inSteps(t)
	return st.status != dead
}

// inSteps derives what a constraint means for the number of steps taken.
func (st *State) inSteps(t Rel) {
	if t.op == NE || len(t.p.t) > 4 {
		return
	}
	sub := map[Atom]Poly{}
	t.p.Atoms(func(a Atom) {
		if q, ok := st.strides[a]; ok {
			sub[a] = q
		}
	})
	p := t.p
	if len(sub) > 0 {
		p = p.Subst(sub)
	}
	// Multiples known of the other numbers.
	for _, r := range st.cons {
		if r.op != EQ {
			continue
		}
		for _, m := range r.p.t {
			as := monos[m.m].atoms
			if len(as) != 1 || st.strides[as[0]].t != nil {
				continue
			}
			coef := int64(0)
			for _, q := range p.t {
				if q.m == m.m {
					coef = q.k
				}
			}
			if coef == 0 || coef%m.k != 0 {
				continue
			}
			big := true
			for _, q := range r.p.t {
				big = big && (q.m == m.m || q.k < -1 || q.k > 1)
			}
			if big {
				p = p.AddScaled(r.p, -coef/m.k)
				break
			}
		}
	}
	if len(sub) == 0 && p.Equal(t.p) {
		return
	}
	if n, ok := (Rel{p, t.op}).tighten(); !ok {
		st.status = dead
	} else if _, isc := n.p.IsConst(); !isc && !st.hasCon(n) {
		st.cons = append(st.cons, n)
	}
}

func (st *State) assumeNE(t Rel) bool {
	if st.prove(Rel{t.p, EQ}) {
		st.status = dead
		return false
	}
	if isBitSum(t.p) && len(t.p.t) > 1 {
		st.nes = append(st.nes, t)
		return st.checkNEs()
	}
	if st.prove(Rel{t.p, GE}) {
		return st.assumeOne(Rel{t.p.AddConst(-1), GE})
	}
	if st.prove(Rel{t.p.Neg(), GE}) {
		return st.assumeOne(Rel{t.p.Neg().AddConst(-1), GE})
	}
	st.nes = append(st.nes, t)
	return true
}

// checkNEs sharpens disequalities after new facts were added.
func (st *State) checkNEs() bool {
	for i := 0; i < len(st.nes); i++ {
		t := st.nes[i]
		if isBitSum(t.p) {
			switch r, done := st.fixBits(t); {
			case !done:
			case r.op == NE: // Contradiction.
				st.status = dead
				return false
			default:
				st.nes = append(append([]Rel(nil), st.nes[:i]...), st.nes[i+1:]...)
				i = -1 // Others may follow.
				if len(r.p.t) > 0 && !st.assumeOne(r) {
					return false
				}
				continue
			}
		}
		if infeasible(st.cons, []Rel{{t.p.AddConst(-1), GE}}) {
			if infeasible(st.cons, []Rel{{t.p.Neg().AddConst(-1), GE}}) {
				st.status = dead
				return false
			}
			st.nes = append(append([]Rel(nil), st.nes[:i]...), st.nes[i+1:]...)
			i--
			if !st.assumeOne(Rel{t.p.Neg().AddConst(-1), GE}) {
				return false
			}
		} else if infeasible(st.cons, []Rel{{t.p.Neg().AddConst(-1), GE}}) {
			st.nes = append(append([]Rel(nil), st.nes[:i]...), st.nes[i+1:]...)
			i--
			if !st.assumeOne(Rel{t.p.AddConst(-1), GE}) {
				return false
			}
		}
	}
	return true
}

// fixBits decides a disequality of a sum of bits all of which but one are known. The result is a new constraint
// equivalent to it, one without atoms if it holds, or one with the operator NE if it does not.
func (st *State) fixBits(t Rel) (Rel, bool) {
	c, free := t.p.c, []term{}
	for _, x := range t.p.t {
		b := AtomPoly(monos[x.m].atoms[0])
		switch {
		case st.prove(Rel{b, EQ}):
		case st.prove(Rel{b.AddConst(-1), EQ}):
			c += x.k
		default:
			free = append(free, x)
			if len(free) > 1 {
				return t, false
			}
		}
	}
	if len(free) == 0 {
		if c == 0 {
			return Rel{Const(0), NE}, true
		}
		return Rel{Const(0), EQ}, true
	}
	b := AtomPoly(monos[free[0].m].atoms[0])
	switch {
	case c == 0:
		return Rel{b.AddConst(-1), EQ}, true
	case c == -free[0].k:
		return Rel{b, EQ}, true
	}
	return Rel{Const(0), EQ}, true
}

// prove tells if the constraint holds in every concrete state described by st.
func (st *State) prove(r Rel) bool {
	t, ok := r.tighten()
	if !ok {
		return false
	}
	if c, isc := t.p.IsConst(); isc {
		switch t.op {
		case GE:
			return c >= 0
		case EQ:
			return c == 0
		default:
			return c != 0
		}
	}
	switch t.op {
	case GE:
		return infeasible(st.cons, []Rel{t.Neg()})
	case EQ:
		return infeasible(st.cons, []Rel{{t.p.AddConst(-1), GE}}) &&
			infeasible(st.cons, []Rel{{t.p.Neg().AddConst(-1), GE}})
	}
	for _, n := range st.nes {
		if n.p.Equal(t.p) || n.p.Equal(t.p.Neg()) {
			return true
		}
	}
	if isBitSum(t.p) {
		if parts, ok := splitBits(t.p); ok {
			for _, q := range parts {
				if infeasible(st.cons, []Rel{q}) {
					return true
				}
			}
			return infeasible(st.cons, parts)
		}
		return true
	}
	return infeasible(st.cons, []Rel{{t.p, EQ}})
}

// bitAtoms records atoms that are single bits of other values.
var bitAtoms = map[Atom]bool{}

// isBitSum tells if p is a sum of bits with distinct power of two coefficients plus a constant.
func isBitSum(p Poly) bool {
	if len(p.t) == 0 {
		return false
	}
	seen := map[int64]bool{}
	for _, t := range p.t {
		as := monos[t.m].atoms
		k := t.k
		if k < 0 {
			k = -k
		}
		if len(as) != 1 || !bitAtoms[as[0]] || k&(k-1) != 0 || seen[k] {
			return false
		}
		seen[k] = true
	}
	return true
}

// splitBits turns "sum of bits + c == 0" into one equality per bit. It fails if there is no solution.
func splitBits(p Poly) ([]Rel, bool) {
	if !isBitSum(p) {
		return nil, false
	}
	// Replace -k*b by k*(1-b) - k.
	target := -p.c
	type bit struct {
		k   int64
		a   Atom
		inv bool
	}
	var bs []bit
	for _, t := range p.t {
		a := monos[t.m].atoms[0]
		if t.k < 0 {
			bs = append(bs, bit{-t.k, a, true})
			target += -t.k
		} else {
			bs = append(bs, bit{t.k, a, false})
		}
	}
	if target < 0 {
		return nil, false
	}
	var out []Rel
	for _, b := range bs {
		v := int64(0)
		if target&b.k != 0 {
			v = 1
			target -= b.k
		}
		if b.inv {
			v = 1 - v
		}
		out = append(out, Rel{AtomPoly(b.a).AddConst(-v), EQ})
	}
	if target != 0 {
		return nil, false
	}
	return out, true
}

func (st *State) proveEq(a, b Poly) bool {
	d := a.Sub(b)
	if c, ok := d.IsConst(); ok {
		return c == 0
	}
	return st.prove(Rel{d, EQ})
}

func (st *State) proveNe(a, b Poly) bool {
	d := a.Sub(b)
	if c, ok := d.IsConst(); ok {
		return c != 0
	}
	return st.prove(Rel{d, NE})
}

func (st *State) proveLe(a, b Poly) bool { return st.prove(Le(a, b)) }
func (st *State) proveLt(a, b Poly) bool { return st.prove(Lt(a, b)) }

// truth decides a constraint: 1 true, 0 false, -1 unknown.
func (st *State) truth(r Rel) int {
	if st.prove(r) {
		return 1
	}
	if st.prove(r.Neg()) {
		return 0
	}
	return -1
}

// feasible tells if the state with an additional constraint is not known to be empty.
func (st *State) feasible(r Rel) bool { return !st.prove(r.Neg()) }

func boolConst(b bool) BoolV {
	if b {
		return BoolV{Rel{Const(0), EQ}}
	}
	return BoolV{Rel{Const(1), EQ}}
}

// fork splits the state on a constraint. Either result may be nil.
func (st *State) fork(r Rel) (yes, no *State) {
	switch st.truth(r) {
	case 1:
		return st, nil
	case 0:
		return nil, st
	}
	no = st.clone()
	yes = st
	if !yes.assume(r) {
		yes = nil
	}
	if !no.assume(r.Neg()) {
		no = nil
	}
	return
}
