package main

// Models of the standard library and of third-party functions the module calls.

import (
	"fmt"
	"go/types"
	"path"
	"strings"
)

var stdModels map[string]Model

const big48 = 1 << 48

// elems reads the elements of a slice of constant length.
func (ip *Interp) elems(st *State, v Value) ([]Value, bool) {
	s, ok := ip.asSlice(st, v)
	if !ok {
		return nil, false
	}
	n, ok := s.len.IsConst()
	if !ok || n > 64 {
		return nil, false
	}
	var out []Value
	for i := int64(0); i < n; i++ {
		svs := ip.readElem(st, s.reg, s.off.AddConst(i))
		if len(svs) != 1 || svs[0].st != st {
			return nil, false
		}
		out = append(out, svs[0].v)
	}
	return out, true
}

// derivedErr is a new non-nil error matching whatever its parts match.
func (ip *Interp) derivedErr(t types.Type, name string, parts ...Value) *SymV {
	s := ip.newSym(t, name)
	s.nonnil = true
	s.err = &errInfo{}
	for _, p := range parts {
		switch x := p.(type) {
		case *SymV:
			if x.err != nil {
				s.err.parts = append(s.err.parts, x)
			}
		case IfaceV:
			if types.Implements(x.dyn, errorType.Underlying().(*types.Interface)) {
				u := ip.unknownErr(errorType, "err")
				u.nonnil = true
				s.err.parts = append(s.err.parts, u)
			}
		}
	}
	return s
}

// errAtoms collects what decides if an error matches a sentinel: certain is set if it always does.
func (ip *Interp) errAtoms(st *State, x *SymV, sentinel string, sum Poly) (p Poly, certain bool) {
	if x.err == nil {
		return sum, false
	}
	if x.err.sentinel != "" {
		return sum, x.err.sentinel == sentinel
	}
	if x.err.unknown {
		a := ip.errIsAtom(x, sentinel)
		if x.nilAtom >= 0 && !x.nonnil {
			st.addFact(Le(a, Const(1).Sub(AtomPoly(x.nilAtom))))
		}
		sum = sum.Add(a)
	}
	for _, q := range x.err.parts {
		var c bool
		sum, c = ip.errAtoms(st, q, sentinel, sum)
		if c {
			return sum, true
		}
	}
	return sum, false
}

// errMatches is the constraint that errors.Is(v, sentinel).
func (ip *Interp) errMatches(st *State, v Value, sentinel string) BoolV {
	switch x := v.(type) {
	case NilV:
		return boolConst(false)
	case *SymV:
		p, c := ip.errAtoms(st, x, sentinel, Const(0))
		if c {
			if x.nilAtom >= 0 && !x.nonnil {
				return BoolV{Rel{AtomPoly(x.nilAtom), EQ}}
			}
			return boolConst(true)
		}
		return BoolV{Rel{p.AddConst(-1), GE}}
	}
	return freshBool("errors.Is")
}

// isNilV is the constraint that v is nil.
func (ip *Interp) isNil(st *State, v Value) Rel { return ip.nilRel(st, v).r }

// strOf gives the term of a string value.
func strOf(v Value) *Term {
	if s, ok := v.(StrV); ok {
		return s.t
	}
	return nil
}

// pure models a function of strings: equal arguments give equal results.
func pureStr(name string, fold func(args []string) (string, bool)) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		var ts []*Term
		var cs []string
		allConst := true
		add := func(v Value) {
			t := strOf(v)
			if t == nil {
				ip.symSeq++
				t = symTerm(fmt.Sprintf("?%d", ip.symSeq))
			}
			if t.op == "const" {
				cs = append(cs, t.c)
			} else {
				allConst = false
			}
			ts = append(ts, t)
		}
		for i, a := range c.args {
			if i == len(c.args)-1 && c.sig.Variadic() {
				es, ok := ip.elems(st, a)
				if !ok {
					allConst = false
					ip.symSeq++
					ts = append(ts, symTerm(fmt.Sprintf("args%d", ip.symSeq)))
					continue
				}
				for _, e := range es {
					add(e)
				}
				continue
			}
			if iv, ok := a.(IntV); ok {
				allConst = false
				ts = append(ts, symTerm("int "+iv.p.Key()))
				continue
			}
			add(a)
		}
		if allConst && fold != nil {
			if s, ok := fold(cs); ok {
				v := StrV{constTerm(s)}
				c.ret(ip, st, v)
				return []*State{st}
			}
		}
		c.ret(ip, st, StrV{internTerm(name, "", nil, ts...)})
		return []*State{st}
	}
}

// pureBool models a predicate on strings.
func pureBool(name string) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		var key strings.Builder
		key.WriteString(name)
		for _, a := range c.args {
			switch x := a.(type) {
			case StrV:
				fmt.Fprintf(&key, "/%d", x.t.id)
			case IntV:
				fmt.Fprintf(&key, "/i%s", x.p.Key())
			default:
				ip.symSeq++
				fmt.Fprintf(&key, "/?%d", ip.symSeq)
			}
		}
		c.ret(ip, st, memoBool(key.String(), key.String()))
		return []*State{st}
	}
}

// pureFresh models a function without effects whose result is unknown.
func pureFresh(ip *Interp, st *State, c *CallCtx) []*State {
	c.ret(ip, st, ip.freshResults(st, c))
	return []*State{st}
}

// ioLen makes the count and error of a transfer of at most n elements that either moves everything or
// reports an error; exact means an error implies a short count.
func (ip *Interp) ioLen(st *State, name string, n Poly, full, exact bool) (IntV, *SymV) {
	k := NewAtomMin("n("+name+")", 0)
	st.addFact(Le(AtomPoly(k), n))
	e := ip.unknownErr(errorType, "err("+name+")")
	nilA := AtomPoly(e.nilAtom)
	if full {
		// nil => k == n
		st.addFact(Le(n.Sub(AtomPoly(k)), Const(1).Sub(nilA).Mul(Const(big48))))
	}
	if exact {
		// an error => k < n
		st.addFact(Le(AtomPoly(k).AddConst(1).Sub(nilA), n))
	}
	return IntV{p: AtomPoly(k)}, e
}

func (ip *Interp) sliceLen(st *State, v Value) (SliceV, Poly, bool) {
	s, ok := ip.asSlice(st, v)
	if !ok {
		return SliceV{}, Const(0), false
	}
	ip.sliceFacts(st, s)
	return s, s.len, true
}

func modelRead(full bool, arg int) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		s, n, ok := ip.sliceLen(st, c.args[arg])
		if !ok {
			return ip.opaque(st, c)
		}
		if s.reg != 0 {
			ip.havocRange(st, s.reg, s.off, s.off.Add(n))
		}
		k, e := ip.ioLen(st, shortName(c.name), n, full, full)
		v := TupleV{k, e}
		c.ret(ip, st, v)
		ip.record(st, c, v)
		return []*State{st}
	}
}

func modelWrite(ip *Interp, st *State, c *CallCtx) []*State {
	_, n, ok := ip.sliceLen(st, c.args[len(c.args)-1])
	if t := strOf(c.args[len(c.args)-1]); t != nil {
		n, ok = t.ln, true
	}
	if !ok {
		return ip.opaque(st, c)
	}
	k, e := ip.ioLen(st, shortName(c.name), n, true, false)
	v := TupleV{k, e}
	c.ret(ip, st, v)
	ip.record(st, c, v)
	return []*State{st}
}

func modelSeek(ip *Interp, st *State, c *CallCtx) []*State {
	k := NewAtomMin("offset(Seek)", 0)
	e := ip.unknownErr(errorType, "err(Seek)")
	v := TupleV{IntV{p: AtomPoly(k)}, e}
	c.ret(ip, st, v)
	ip.record(st, c, v)
	return []*State{st}
}

func modelErrorsIs(ip *Interp, st *State, c *CallCtx) []*State {
	t, ok := c.args[1].(*SymV)
	if !ok || t.err == nil || t.err.sentinel == "" {
		c.ret(ip, st, freshBool("errors.Is"))
		return []*State{st}
	}
	c.ret(ip, st, ip.errMatches(st, c.args[0], t.err.sentinel))
	return []*State{st}
}

// wrapVerbs gives the indices of the operands formatted with %w.
func wrapVerbs(format string) []int {
	var out []int
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' {
			out = append(out, n)
		}
		n++
	}
	return out
}

func modelErrorf(ip *Interp, st *State, c *CallCtx) []*State {
	var parts []Value
	args, ok := ip.elems(st, c.args[1])
	if f := strOf(c.args[0]); f != nil && f.op == "const" && ok {
		for _, i := range wrapVerbs(f.c) {
			if i < len(args) {
				parts = append(parts, args[i])
			}
		}
	}
	c.ret(ip, st, ip.derivedErr(errorType, "fmt.Errorf", parts...))
	return []*State{st}
}

func (ip *Interp) driverErrorType() types.Type {
	if t := ip.prog.Type("", "DriverError"); t != nil {
		return t
	}
	return errorType
}

func modelWithMessage(ip *Interp, st *State, c *CallCtx) []*State {
	c.ret(ip, st, ip.derivedErr(ip.driverErrorType(), "WithMessage", c.recv))
	return []*State{st}
}

func modelWrap(ip *Interp, st *State, c *CallCtx) []*State {
	if len(c.args) == 1 {
		ip.requireNonNil(st, c.args[0], "the error wrapped may be nil")
	}
	parts := append([]Value{c.recv}, c.args...)
	c.ret(ip, st, ip.derivedErr(ip.driverErrorType(), "Wrap", parts...))
	return []*State{st}
}

func (ip *Interp) requireNonNil(st *State, v Value, msg string) {
	switch x := v.(type) {
	case NilV:
		ip.report(st, "nil", msg)
	case *SymV:
		if x.nilAtom >= 0 && !x.nonnil {
			ip.oblige(st, "nil", Rel{AtomPoly(x.nilAtom), EQ}, msg)
		}
	}
}

// modelCast models CastToDriverError: nil stays nil, other errors keep their identity.
func modelCast(ip *Interp, st *State, c *CallCtx) []*State {
	v := c.args[0]
	switch x := v.(type) {
	case NilV:
		c.ret(ip, st, NilV{})
		return []*State{st}
	case *SymV:
		if x.nonnil || x.nilAtom < 0 {
			c.ret(ip, st, ip.derivedErr(ip.driverErrorType(), "cast", x))
			return []*State{st}
		}
		isnil, not := st.fork(Rel{AtomPoly(x.nilAtom).AddConst(-1), EQ})
		var out []*State
		if isnil != nil {
			c.ret(ip, isnil, NilV{})
			out = append(out, isnil)
		}
		if not != nil {
			c.ret(ip, not, ip.derivedErr(ip.driverErrorType(), "cast", x))
			out = append(out, not)
		}
		return out
	}
	c.ret(ip, st, ip.derivedErr(ip.driverErrorType(), "cast", v))
	return []*State{st}
}

// ------------------------------------------------------------------------ bitmaps

func modelNewBitmap(ip *Interp, st *State, c *CallCtx) []*State {
	n, ok := c.args[0].(IntV)
	if !ok {
		return ip.opaque(st, c)
	}
	ip.oblige(st, "bounds", Le(Const(0), n.p), "size of a bitmap")
	r := ip.newRegion(st, "bitmap", types.Typ[types.Byte], true)
	b := ip.bitRegion(st, r)
	ip.regions[b].zero = true
	st.regs[b] = ip.newContent(true)
	l := st.floorDiv(n.p.AddConst(7), Const(8))
	c.ret(ip, st, SliceV{reg: r, off: Const(0), len: l, cap: l})
	return []*State{st}
}

func (ip *Interp) bitIndexOf(st *State, c *CallCtx) (Region, Poly, bool) {
	s, ok := ip.asSlice(st, c.args[0])
	i, ok2 := c.args[1].(IntV)
	if !ok || !ok2 || s.reg == 0 {
		ip.report(st, "bounds", "access to an empty or unknown bitmap")
		return 0, Const(0), false
	}
	ip.sliceFacts(st, s)
	if i.wrap {
		ip.report(st, "bounds", "index of a bitmap may overflow")
		return 0, Const(0), false
	}
	// Negative indices round towards zero, but no caller has a use for them.
	ip.oblige(st, "bounds", Le(Const(0), i.p), "index of a bitmap")
	ip.oblige(st, "bounds", Lt(i.p, s.len.Mul(Const(8))), "index of a bitmap")
	return ip.bitRegion(st, s.reg), s.off.Mul(Const(8)).Add(i.p), st.status != dead
}

func modelBitGet(ip *Interp, st *State, c *CallCtx) []*State {
	b, i, ok := ip.bitIndexOf(st, c)
	if !ok {
		return nil
	}
	var out []*State
	for _, sv := range ip.readElem(st, b, i) {
		c.ret(ip, sv.st, sv.v)
		out = append(out, sv.st)
	}
	return out
}

func modelBitSet(ip *Interp, st *State, c *CallCtx) []*State {
	b, i, ok := ip.bitIndexOf(st, c)
	if !ok {
		return nil
	}
	s, _ := ip.asSlice(st, c.args[0])
	ip.writeElem(st, b, i, c.args[2])
	// The bytes of the region change too.
	st.regs[s.reg] = ip.newContent(false)
	return []*State{st}
}

func modelBitLen(ip *Interp, st *State, c *CallCtx) []*State {
	s, n, ok := ip.sliceLen(st, c.args[0])
	_ = s
	if !ok {
		return ip.opaque(st, c)
	}
	c.ret(ip, st, IntV{p: n.Mul(Const(8))})
	return []*State{st}
}

// ------------------------------------------------------------------------ bytes

// modelRepeat models bytes.Repeat for a pattern of one element.
func modelRepeat(ip *Interp, st *State, c *CallCtx) []*State {
	s, n, ok := ip.sliceLen(st, c.args[0])
	cnt, ok2 := c.args[1].(IntV)
	if !ok || !ok2 || cnt.wrap {
		ip.report(st, "bounds", "repeat count is not understood")
		return ip.opaque(st, c)
	}
	ip.oblige(st, "bounds", Le(Const(0), cnt.p), "bytes.Repeat with a negative count")
	if st.status == dead {
		return nil
	}
	total := n.Mul(cnt.p)
	if l, isc := n.IsConst(); isc && l == 1 {
		var out []*State
		for _, sv := range ip.readElem(st, s.reg, s.off) {
			r := ip.newRegion(sv.st, "repeat", types.Typ[types.Byte], false)
			if iv, ok := sv.v.(IntV); ok {
				if z, isz := iv.p.IsConst(); isz && z == 0 {
					ip.regions[r].zero = true
					sv.st.regs[r] = ip.newContent(true)
				} else {
					ip.fillRange(sv.st, r, Const(0), total, sv.v)
				}
			}
			c.ret(ip, sv.st, SliceV{reg: r, off: Const(0), len: total, cap: total})
			out = append(out, sv.st)
		}
		return out
	}
	r := ip.newRegion(st, "repeat", types.Typ[types.Byte], false)
	if k, isc := cnt.p.IsConst(); isc && k <= 8 && s.reg != 0 {
		for i := int64(0); i < k; i++ {
			ip.copyRange(st, r, n.Mul(Const(i)), s.reg, s.off, n)
		}
	}
	c.ret(ip, st, SliceV{reg: r, off: Const(0), len: total, cap: total})
	return []*State{st}
}

func modelSplit(ip *Interp, st *State, c *CallCtx) []*State {
	p := strOf(c.args[0])
	if p == nil {
		return ip.opaque(st, c)
	}
	if p.op == "const" {
		d, f := path.Split(p.c)
		c.ret(ip, st, TupleV{StrV{constTerm(d)}, StrV{constTerm(f)}})
		return []*State{st}
	}
	d, f := internTerm("splitdir", "", nil, p), internTerm("base", "", nil, p)
	// No longer than the path.
	st.addFact(Le(d.ln, p.ln))
	st.addFact(Eq(d.ln.Add(f.ln), p.ln))
	c.ret(ip, st, TupleV{StrV{d}, StrV{f}})
	return []*State{st}
}

func fold1(f func(string) string) func([]string) (string, bool) {
	return func(a []string) (string, bool) {
		if len(a) != 1 {
			return "", false
		}
		return f(a[0]), true
	}
}

// littleEndian models binary.LittleEndian.UintN.
func littleEndian(n int) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		arg := c.args[len(c.args)-1]
		s, l, ok := ip.sliceLen(st, arg)
		if !ok {
			return ip.opaque(st, c)
		}
		ip.oblige(st, "bounds", Le(Const(int64(n)), l), "decoding an integer from a slice that is too short")
		if st.status == dead {
			return nil
		}
		type part struct {
			st *State
			p  Poly
		}
		cur := []part{{st, Const(0)}}
		for i := 0; i < n; i++ {
			var next []part
			for _, q := range cur {
				for _, sv := range ip.readElem(q.st, s.reg, s.off.AddConst(int64(i))) {
					b, ok := sv.v.(IntV)
					if !ok {
						b = freshInt("byte", types.Typ[types.Byte])
					}
					next = append(next, part{sv.st, q.p.Add(b.p.Mul(Const(int64(1) << (8 * i))))})
				}
			}
			cur = next
		}
		var out []*State
		for _, q := range cur {
			c.ret(ip, q.st, IntV{p: q.p})
			out = append(out, q.st)
		}
		return out
	}
}

func putLittleEndian(n int) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		s, l, ok := ip.sliceLen(st, c.args[len(c.args)-2])
		v, ok2 := c.args[len(c.args)-1].(IntV)
		if !ok || !ok2 {
			return ip.opaque(st, c)
		}
		ip.oblige(st, "bounds", Le(Const(int64(n)), l), "encoding an integer into a slice that is too short")
		if st.status == dead {
			return nil
		}
		for i := 0; i < n; i++ {
			q := st.floorDiv(v.p, Const(int64(1)<<(8*i)))
			q2 := st.floorDiv(q, Const(256))
			ip.writeElem(st, s.reg, s.off.AddConst(int64(i)), IntV{p: q.Sub(q2.Mul(Const(256)))})
		}
		return []*State{st}
	}
}

// modelExit ends the path.
func modelExit(ip *Interp, st *State, c *CallCtx) []*State {
	ip.record(st, c, nil)
	st.status = panicked
	st.note = "exit"
	return []*State{st}
}

// modelJoin models errors.Join and the like: nil if everything joined is nil.
func modelJoin(ip *Interp, st *State, c *CallCtx) []*State {
	es, ok := ip.elems(st, c.args[len(c.args)-1])
	if !ok {
		return ip.opaque(st, c)
	}
	cur := st
	var out []*State
	for _, e := range es {
		none, some := cur.fork(ip.isNil(cur, e))
		if some != nil {
			c.ret(ip, some, ip.derivedErr(errorType, "errors.Join", es...))
			out = append(out, some)
		}
		cur = none
		if cur == nil {
			return out
		}
	}
	c.ret(ip, cur, NilV{})
	return append(out, cur)
}

func init() {
	stdModels = map[string]Model{
		"fmt.Errorf": modelErrorf,
		"errors.New": func(ip *Interp, st *State, c *CallCtx) []*State {
			c.ret(ip, st, ip.derivedErr(errorType, "errors.New"))
			return []*State{st}
		},
		"errors.Is":   modelErrorsIs,
		"errors.Join": modelJoin,
		"fmt.Sprintf": pureFresh,
		"fmt.Sprint":  pureFresh,

		"(error).Error": pureFresh,
		"(github.com/dargueta/disko.DriverError).WithMessage": modelWithMessage,
		"(github.com/dargueta/disko.DriverError).Wrap":        modelWrap,
		"github.com/dargueta/disko.CastToDriverError":         modelCast,

		"io.ReadFull":                   modelRead(true, 1),
		"(io.Reader).Read":              modelRead(false, 0),
		"(io.ReaderAt).ReadAt":          modelRead(true, 0),
		"(io.Writer).Write":             modelWrite,
		"(io.StringWriter).WriteString": modelWrite,
		"(io.Seeker).Seek":              modelSeek,

		"github.com/boljen/go-bitmap.NewSlice":     modelNewBitmap,
		"github.com/boljen/go-bitmap.New":          modelNewBitmap,
		"github.com/boljen/go-bitmap.Get":          modelBitGet,
		"github.com/boljen/go-bitmap.Set":          modelBitSet,
		"github.com/boljen/go-bitmap.Len":          modelBitLen,
		"(github.com/boljen/go-bitmap.Bitmap).Get": modelBitGet,
		"(github.com/boljen/go-bitmap.Bitmap).Set": modelBitSet,
		"(github.com/boljen/go-bitmap.Bitmap).Len": modelBitLen,

		"bytes.Repeat": modelRepeat, "slices.Repeat": modelRepeat,

		"path.Clean": pureStr("clean", fold1(path.Clean)),
		"path.Dir":   pureStr("dir", fold1(path.Dir)),
		"path.Base":  pureStr("basename", fold1(path.Base)),
		"path.Join":  pureStr("join", func(a []string) (string, bool) { return path.Join(a...), true }),
		"path.IsAbs": pureBool("isabs"),
		"path.Split": modelSplit,
		"path/filepath.ToSlash": func(ip *Interp, st *State, c *CallCtx) []*State {
			// The identity on the platforms supported.
			c.ret(ip, st, c.args[0])
			return []*State{st}
		},
		"strings.ToUpper":   pureStr("upper", fold1(strings.ToUpper)),
		"strings.ToLower":   pureStr("lower", fold1(strings.ToLower)),
		"strings.TrimSpace": pureStr("trimspace", fold1(strings.TrimSpace)),
		"strings.HasPrefix": pureBool("hasprefix"),
		"strings.HasSuffix": pureBool("hassuffix"),
		"strings.EqualFold": pureBool("equalfold"),
		"strings.Contains":  pureBool("contains"),

		"math/bits.OnesCount8":                     popCount,
		"math/bits.OnesCount16":                    popCount,
		"math/bits.OnesCount32":                    popCount,
		"math/bits.OnesCount64":                    popCount,
		"math/bits.OnesCount":                      popCount,
		"(encoding/binary.littleEndian).Uint16":    littleEndian(2),
		"(encoding/binary.littleEndian).Uint32":    littleEndian(4),
		"(encoding/binary.littleEndian).PutUint16": putLittleEndian(2),
		"(encoding/binary.littleEndian).PutUint32": putLittleEndian(4),

		"os.Exit": modelExit,

		"(io/fs.FileMode).IsDir":     modeQuery(func(st *State, p Poly) Value { return BoolV{Eq(st.bitOf(p, modeDir), Const(1))} }),
		"(io/fs.FileMode).IsRegular": modeQuery(func(st *State, p Poly) Value { return BoolV{Eq(st.andConst(p, modeTypeMask), Const(0))} }),
		"(io/fs.FileMode).Perm":      modeQuery(func(st *State, p Poly) Value { return IntV{p: st.andConst(p, 0777)} }),
		"(io/fs.FileMode).Type":      modeQuery(func(st *State, p Poly) Value { return IntV{p: st.andConst(p, modeTypeMask)} }),
	}
	sliceModels()
}

const modeTypeMask = 1<<modeDir | 1<<modeSymlink | 1<<modeDevice | 1<<modePipe | 1<<modeSocket | 1<<modeChar | 1<<modeIrregular

func modeQuery(f func(st *State, p Poly) Value) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		i, ok := c.args[0].(IntV)
		if !ok {
			return ip.opaque(st, c)
		}
		c.ret(ip, st, f(st, i.p))
		return []*State{st}
	}
}
