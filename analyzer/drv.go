package main

// Generic driver (C16 to C24): typestates of object handles, provenance of handles and paths, permissions.
//
// The implementation of the file system is unknown: every call of it may fail. What it returns is followed as a
// handle with a typestate (open or closed), a provenance (which lookup or directory entry it comes from) and the
// stat information it has. Paths are terms over the parameters.

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hnd is a handle of an object of the file system.
type hnd struct {
	sym    *SymV
	kind   string // root, get, created, link, follow, param, generic
	name   *Term  // get, created, link: the name in the parent
	parent *SymV
	path   *Term // follow: the path looked up
	ext    *Term // follow, param, generic: the absolute path it is known under
	mode   Poly
	stat   Value
	nameT  *Term
	entry  bool // the directory entry followed
	borrow bool // owned by the caller
	root   *SymV
}

// stream is an open stream over an object.
type drvStream struct {
	h     *SymV
	flags Value
	size  Value
	args  []Value // of the block cache
}

type textRec struct {
	h       *SymV
	content *RegContent
	n       Poly
	off     Poly
}

// listNote says that elements are names listed in a directory.
type listNote struct {
	h      *SymV
	all    bool
	noDots bool
	lo, hi Poly
}

type drv struct {
	c    *Checker
	ip   *Interp
	root *ssa.Function
	name string // exported name of the operation, "" for others
	kind string // follow, empty, op, file

	impl      *SymV
	flags     IntV
	wd        *Term
	hs        map[int]*hnd
	caches    map[ObjID][]Value
	strms     map[ObjID]*drvStream
	texts     map[Region]*textRec
	textOf    map[int]*SymV // term id -> handle
	lists     map[Region]*SymV
	elemOf    map[int]*SymV
	notes     map[int]*listNote // by generation of the content
	times     []Value
	mode      Value // the parameter of type FileMode
	openFlags Value
	data      Value

	params   []*Term // path parameters
	paramH   *SymV   // handle of the receiver or parameter
	vstar    *Term
	k        Poly
	entryN   *Term
	wantList bool

	// contracts
	cuts     map[*ssa.Function]string
	notsym   bool
	effects  map[*ssa.Function]map[string]bool
	gained   map[string]bool // effects of this root
	slashArg bool
	bareBase bool
	lost     bool // a link may be returned

	j     Poly   // an arbitrary entry of a portion
	count Poly   // the number of entries requested
	ints  []Poly // the integers given
	listF int
	ptrF  int

	// what was seen
	seenOp   map[string]int
	inCb     bool
	queueReg Region // entries left over by an earlier call
	drvObj   ObjID
	fileObj  ObjID
	statType types.Type
}

// ------------------------------------------------------------------------ permissions

// permBits gives the mount permission each effect needs.
var permBits = map[string]string{"write": "MountFlagsAllowWrite", "insert": "MountFlagsAllowInsert", "delete": "MountFlagsAllowDelete", "administer": "MountFlagsAllowAdminister"}

func (d *drv) permBit(eff string) uint {
	v := flagValues[permBits[eff]]
	n := uint(0)
	for v > 1 {
		v >>= 1
		n++
	}
	return n
}

// need checks that the permission for an effect was established.
func (d *drv) need(st *State, eff, what string) {
	if d.inCb {
		return
	}
	d.ip.Obligations++
	b := st.bitOf(d.flags.p, d.permBit(eff))
	if st.proveEq(b, Const(1)) {
		return
	}
	if d.kind == "empty" || d.kind == "follow" {
		// The callers of this function have to make sure.
		d.gained[eff] = true
		st.assume(Eq(b, Const(1)))
		return
	}
	d.ip.report(st, "C16", fmt.Sprintf("%s is reached without having checked that the image was mounted with %s permission", what, eff))
}

// ------------------------------------------------------------------------ handles

func (d *drv) mod(n string) string { return modulePath + "." + n }

// statOf makes the stat information of a handle.
func (d *drv) statOf(st *State, h *hnd) Value {
	if h.stat == nil {
		s, ok := d.ip.fresh(st, "stat("+h.sym.name+")", d.statType).(StructV)
		if !ok {
			return nil
		}
		if i := fieldIndex(d.statType, "ModeFlags"); i >= 0 {
			s.f[i] = IntV{p: h.mode}
		}
		h.stat = s
	}
	return h.stat
}

func (d *drv) statField(st *State, h *hnd, name string) Value {
	s, ok := d.statOf(st, h).(StructV)
	i := fieldIndex(d.statType, name)
	if !ok || i < 0 {
		return nil
	}
	return s.f[i]
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// handleType is disko.ObjectHandle.
func (d *drv) handleType() types.Type {
	if t := d.c.prog.Type("", "ObjectHandle"); t != nil {
		return t
	}
	return nil
}

// add makes an open handle.
func (d *drv) add(st *State, name, kind string) *hnd {
	s := d.ip.newSym(d.handleType(), name)
	s.nonnil = true
	h := &hnd{sym: s, kind: kind, mode: AtomPoly(NewAtomRange("mode("+name+")", 0, 1<<32-1))}
	d.hs[s.id] = h
	gSet(st, handleKey(s), 1)
	return h
}

// raw finds the handle inside a value, and the path known to the object around it.
func (d *drv) raw(st *State, v Value) (*hnd, *Term) {
	switch x := v.(type) {
	case *SymV:
		return d.hs[x.id], nil
	case IfaceV:
		return d.raw(st, x.v)
	case PtrV:
		if x.isElem {
			return nil, nil
		}
		t := d.ip.objs[x.obj].typ
		if t == nil {
			return nil, nil
		}
		t = d.typeAt(t, x.path)
		if t == nil {
			return nil, nil
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		var h *hnd
		var p *Term
		for i := 0; i < s.NumFields(); i++ {
			k := cellKey{x.obj, fieldPath(x.path, i)}
			v, ok := st.cells[k]
			if !ok {
				v, ok = d.ip.initCells[k]
			}
			if !ok {
				continue
			}
			switch y := v.(type) {
			case *SymV:
				if g := d.hs[y.id]; g != nil {
					h = g
				}
			case IfaceV:
				if types.IsInterface(s.Field(i).Type()) {
					if g, q := d.raw(st, y); g != nil {
						h = g
						if q != nil {
							p = q
						}
					}
				}
			case StrV:
				p = y.t
			}
		}
		return h, p
	case StructV:
		var h *hnd
		var p *Term
		for _, f := range x.f {
			switch y := f.(type) {
			case *SymV, IfaceV, PtrV:
				if g, q := d.raw(st, y); g != nil {
					h = g
					if q != nil {
						p = q
					}
				}
			case StrV:
				p = y.t
			}
		}
		return h, p
	}
	return nil, nil
}

func (d *drv) typeAt(t types.Type, path string) types.Type {
	for path != "" {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		rest := path[1:]
		n := strings.IndexByte(rest, '.')
		part := rest
		if n < 0 {
			path = ""
		} else {
			part, path = rest[:n], rest[n:]
		}
		i := 0
		fmt.Sscanf(part, "%d", &i)
		if i >= s.NumFields() {
			return nil
		}
		t = s.Field(i).Type()
	}
	return t
}

// wrapType finds the type of the objects that values of an interface type of the package are made of.
func (d *drv) wrapType(t types.Type) types.Type {
	if !types.IsInterface(t) || types.Identical(t, d.handleType()) {
		return nil
	}
	var out types.Type
	for _, fn := range d.c.prog.SrcFuncs() {
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/driver") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok && types.Identical(m.Type(), t) {
					if out != nil && !types.Identical(out, m.X.Type()) {
						return nil
					}
					out = m.X.Type()
				}
			}
		}
	}
	return out
}

// wrap makes a value of an interface type for a handle.
func (d *drv) wrap(st *State, h *SymV, ext *Term, t, dyn types.Type) Value {
	if dyn == nil {
		return h
	}
	p, ok := dyn.(*types.Pointer)
	if !ok {
		return h
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return h
	}
	o := d.ip.newObj("handle of "+h.name, p.Elem(), true)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if types.Implements(ft, d.handleType().Underlying().(*types.Interface)) {
			st.cells[cellKey{o, fieldPath("", i)}] = h
		} else if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			st.cells[cellKey{o, fieldPath("", i)}] = StrV{ext}
		}
	}
	return IfaceV{dyn, PtrV{obj: o}}
}

func (d *drv) hooks() *LoopHooks {
	return &LoopHooks{
		ElemNote:    d.elemNote,
		SetElemNote: d.setElemNote,
		View: func(st *State, v Value) *HandleV {
			h, p := d.raw(st, v)
			if h == nil {
				return nil
			}
			var dyn types.Type
			if i, ok := v.(IfaceV); ok {
				dyn = i.dyn
			} else if _, ok := v.(*SymV); !ok {
				return nil
			}
			if p == nil {
				p = h.ext
			}
			return &HandleV{dyn: dyn, sym: h.sym, path: p, mode: h.mode, state: gInt(st, handleKey(h.sym))}
		},
		Make: func(st *State, h *HandleV) Value {
			gSet(st, handleKey(h.sym), h.state)
			if h.dyn == nil {
				return h.sym
			}
			return d.wrap(st, h.sym, h.path, nil, h.dyn)
		},
		Name: func(h *HandleV) {
			h.sym.typ = d.handleType()
			d.hs[h.sym.id] = &hnd{sym: h.sym, kind: "generic", ext: h.path, mode: h.mode}
		},
		Back: func(st *State, entry *State, live map[*SymV]bool) {
			for _, k := range sortedKeys(st.ghost) {
				var id int
				if n, _ := fmt.Sscanf(k, "h/%d", &id); n != 1 || k != fmt.Sprintf("h/%d", id) || gInt(st, k) != 1 {
					continue
				}
				if _, old := entry.ghost[k]; old {
					continue
				}
				if h := d.hs[id]; h != nil && !live[h.sym] && !h.borrow {
					d.ip.Obligations++
					d.ip.report(st, "C17", fmt.Sprintf("%s is still open when the loop in %s goes on to the next iteration", d.describe(h), st.top().fn.Name()))
				}
			}
		},
		Keys: func(st *State, m ObjID) []Value {
			t := d.ip.objs[m].typ
			if d.vstar == nil || t == nil {
				return nil
			}
			if mt, ok := t.Underlying().(*types.Map); ok {
				if b, ok := mt.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					return []Value{StrV{d.vstar}}
				}
			}
			return nil
		},
	}
}

// elemNote tells if the strings in a slice are all names listed in one directory, and if the entry followed is
// among them: 0 nothing is known, 1 there are none, otherwise 2, or 3 with the entry, 4 more if the dots are not
// among them, and 8 times the directory.
func (d *drv) elemNote(entry, st *State, v Value) int64 {
	ip := d.ip
	s, n, ok := ip.sliceLen(st, v)
	if !ok {
		return 0
	}
	k := NewAtomMin("any", 0)
	x := st.clone()
	if s.reg == 0 || !x.assume(Lt(AtomPoly(k), n)) || x.prove(Lt(n, Const(1))) {
		return 1
	}
	var h *SymV
	noDots := int64(1)
	for _, sv := range ip.readElem(x, s.reg, s.off.Add(AtomPoly(k))) {
		t := strOf(sv.v)
		l := d.listed(sv.st, t)
		if l == nil || h != nil && l != h {
			return 0
		}
		h = l
		for _, dot := range []string{".", ".."} {
			if !sv.st.prove(ip.strEq(sv.st, t, constTerm(dot)).r.Neg()) {
				noDots = 0
			}
		}
	}
	if h == nil || entry.ghost[handleKey(h)] == nil {
		return 0
	}
	note := 2 + 4*noDots + 8*int64(h.id)
	if e, ok := st.ghost["entryof"].(*SymV); ok && e == h && gInt(st, "#entry") == 1 {
		found := int64(0)
		for _, i := range d.entryAt(st.regs[s.reg], 0) {
			x := st.clone()
			if !x.prove(Le(s.off, i)) || !x.prove(Lt(i, s.off.Add(n))) {
				continue
			}
			all := true
			for _, sv := range ip.readElem(x, s.reg, i) {
				all = all && strOf(sv.v) == d.entryN
			}
			if all {
				found++
			}
		}
		if found > 1 {
			return 0
		}
		note += found
	}
	return note
}

// entryAt lists the indices of a content that the entry followed may have been written to.
func (d *drv) entryAt(c *RegContent, depth int) []Poly {
	var out []Poly
	if c == nil || depth > 8 {
		return nil
	}
	for _, w := range c.w {
		switch {
		case w.src != nil:
			for _, i := range d.entryAt(w.src, depth+1) {
				if w.rev {
					out = append(out, w.delta.Sub(i))
				} else {
					out = append(out, i.Sub(w.delta))
				}
			}
		case strOf(w.val) == d.entryN:
			out = append(out, w.lo)
		}
	}
	return out
}

func (d *drv) setElemNote(h *State, s SliceV, note int64, pos Poly) {
	if note == 1 {
		h.addFact(Eq(s.len, Const(0)))
		return
	}
	x := d.hs[int(note/8)]
	if x == nil {
		return
	}
	d.notes[h.regs[s.reg].gen] = &listNote{h: x.sym, noDots: note&4 != 0, lo: s.off, hi: s.off.Add(s.len)}
	if note%4 == 3 {
		h.addFact(Le(s.off, pos))
		h.addFact(Lt(pos, s.off.Add(s.len)))
		d.ip.writeElem(h, s.reg, pos, StrV{d.entryN})
		pos.Atoms(func(a Atom) {
			for _, k := range d.ip.Skolems {
				if k == a {
					return
				}
			}
			d.ip.Skolems = append(d.ip.Skolems, a)
		})
	}
}

func (d *drv) describe(h *hnd) string {
	switch h.kind {
	case "root":
		return "the handle of the root directory"
	case "get":
		return "the handle got by GetObject for " + h.name.String()
	case "created":
		return "the handle of the object created"
	case "link":
		return "the handle of the link created"
	case "follow":
		return "the handle looked up for " + h.path.String()
	case "param":
		return "the handle passed in"
	}
	return "the handle " + h.sym.name
}

// use checks that a handle is open.
func (d *drv) use(st *State, h *hnd, what string) {
	d.ip.Obligations++
	if gInt(st, handleKey(h.sym)) != 1 {
		d.ip.report(st, "C17", fmt.Sprintf("%s is used by %s after it was closed", d.describe(h), what))
	}
}

// arg finds the handle passed to the implementation.
func (d *drv) arg(st *State, v Value, what string) *hnd {
	d.ip.Obligations++
	if s, ok := v.(*SymV); ok {
		if h := d.hs[s.id]; h != nil {
			d.use(st, h, what)
			return h
		}
	}
	d.ip.report(st, "C19", fmt.Sprintf("%s gets an object as handle that the implementation did not create (%s)", what, showVal(v)))
	h, _ := d.raw(st, v)
	return h
}

// fail makes the failing outcome of a call with results ending in an error.
func (d *drv) fail(st *State, c *CallCtx) (*State, *SymV) {
	s := st.clone()
	res := c.sig.Results()
	var t types.Type = errorType
	if res.Len() > 0 {
		t = res.At(res.Len() - 1).Type()
	}
	e := d.ip.unknownErr(t, "err("+shortName(c.name)+")")
	e.nonnil = true
	var v Value = e
	if res.Len() > 1 {
		tv := make(TupleV, res.Len())
		for i := range tv {
			tv[i] = d.ip.zeroValue(res.At(i).Type())
		}
		tv[len(tv)-1] = e
		v = tv
	}
	c.ret(d.ip, s, v)
	d.ip.record(s, c, v)
	gSet(s, "#failed", 1)
	return s, e
}

func (d *drv) succeed(st *State, c *CallCtx, vs ...Value) {
	vs = append(vs, NilV{})
	var v Value = vs[0]
	if len(vs) > 1 {
		v = TupleV(vs)
	}
	c.ret(d.ip, st, v)
	d.ip.record(st, c, v)
}

func hkey(s *SymV, what string) string { return handleKey(s) + "/" + what }

func (d *drv) symlinkRel(st *State, h *hnd) Rel {
	return Eq(st.andConst(h.mode, modeTypeMask), Const(1<<modeSymlink))
}

func (d *drv) dirRel(st *State, h *hnd) Rel { return Eq(st.bitOf(h.mode, modeDir), Const(1)) }

// ------------------------------------------------------------------------ terms

// absKey gives the term that decides if a path is absolute, or the answer.
func absKey(t *Term) (*Term, bool, bool) {
	for {
		switch t.op {
		case "const":
			return nil, strings.HasPrefix(t.c, "/"), true
		case "clean", "dir", "splitdir":
			t = t.args[0]
			continue
		case "cat", "join":
			if a := t.args[0]; a.op == "const" && a.c != "" {
				return nil, a.c[0] == '/', true
			}
			if t.op == "join" {
				t = t.args[0]
				continue
			}
		}
		return t, false, false
	}
}

func isAbs(t *Term) Rel {
	k, yes, known := absKey(t)
	if known {
		return boolConst(yes).r
	}
	return memoBool(fmt.Sprintf("isabs/%d", k.id), fmt.Sprintf("%s is absolute", k)).r
}

func (d *drv) isAbs(t *Term) Rel { return isAbs(t) }

// cleanTerm is the cleaned path.
func cleanTerm(t *Term) *Term {
	switch t.op {
	case "clean", "join", "dir":
		return t
	case "const":
		return constTerm(path.Clean(t.c))
	}
	return internTerm("clean", "", nil, t)
}

// norm tells if t is parameter p, normalised.
func (d *drv) norm(st *State, t, p *Term) bool {
	switch t.op {
	case "clean":
		x := t.args[0]
		if x == p {
			return st.prove(isAbs(p)) || st.prove(isAbs(t))
		}
		if x.op == "cat" && x.args[0].op == "const" && x.args[0].c == "/" {
			x = x.args[1]
		}
		return d.norm(st, x, p)
	case "join":
		if len(t.args) != 2 || t.args[0] != d.wd {
			return false
		}
		x := t.args[1]
		if x == p {
			return st.prove(isAbs(p).Neg()) || st.prove(isAbs(internTerm("clean", "", nil, p)).Neg())
		}
		return x.op == "clean" && x.args[0] == p && (st.prove(isAbs(x).Neg()) || st.prove(isAbs(p).Neg()))
	}
	return false
}

// base takes off what does not change the meaning of a path inside a lookup function.
func (d *drv) base(t *Term) *Term {
	for {
		if t.op == "clean" {
			t = t.args[0]
		} else if t.op == "cat" && t.args[0].op == "const" && t.args[0].c == "/" {
			t = t.args[1]
		} else {
			return t
		}
	}
}

// dirOf gives the path of which t is the directory.
func dirOf(t *Term) *Term {
	for t.op == "clean" || t.op == "cat" && t.args[0].op == "const" && t.args[0].c == "/" {
		t = t.args[len(t.args)-1]
	}
	if t.op == "splitdir" || t.op == "dir" {
		return t.args[0]
	}
	return nil
}

// nameOf gives the path of which t is the last component.
func nameOf(t *Term) *Term {
	if t.op == "base" || t.op == "basename" {
		return t.args[0]
	}
	return nil
}

// target tells if t is where a symbolic link points to, and which handle the link has.
func (d *drv) target(st *State, t *Term) *hnd {
	if t.op == "clean" || t.op == "cat" && t.args[0].op == "const" && t.args[0].c == "/" {
		return d.target(st, t.args[len(t.args)-1])
	}
	text := t
	if t.op == "join" && len(t.args) == 2 {
		text = t.args[1]
		s := d.textOf[text.id]
		if s == nil {
			return nil
		}
		h := d.hs[s.id]
		dir := t.args[0]
		if h == nil || dir.op != "dir" && dir.op != "splitdir" || d.extOf(h) != dir.args[0] {
			return nil
		}
		if !st.prove(isAbs(text).Neg()) {
			return nil
		}
		return h
	}
	s := d.textOf[text.id]
	if s == nil || !st.prove(isAbs(text)) {
		return nil
	}
	return d.hs[s.id]
}

// extOf gives the absolute path a handle is known under.
func (d *drv) extOf(h *hnd) *Term {
	switch {
	case h.ext != nil:
		return h.ext
	case h.kind == "root":
		return constTerm("/")
	case h.parent != nil && d.hs[h.parent.id] != nil:
		if p := d.extOf(d.hs[h.parent.id]); p != nil {
			return internTerm("join", "", nil, p, h.name)
		}
	}
	return nil
}

// isPath tells which path t denotes: "" if none, otherwise what it is, with the index of the parameter.
// In a lookup function it is the path to look up, or the target of a link.
func (d *drv) isPath(st *State, t *Term) (int, *hnd, bool) {
	if d.kind == "follow" {
		if len(d.params) > 0 && d.base(t) == d.params[0] {
			return 0, nil, true
		}
		if h := d.target(st, t); h != nil {
			return -1, h, true
		}
		return 0, nil, false
	}
	for i, p := range d.params {
		if d.norm(st, t, p) {
			return i, nil, true
		}
	}
	return 0, nil, false
}

// exact tells if a handle is what a path denotes without following a link at its end.
func (d *drv) exact(st *State, h *hnd) (int, *hnd, bool) {
	switch h.kind {
	case "get", "created", "link":
		x := nameOf(h.name)
		if x == nil {
			return 0, nil, false
		}
		if d.kind == "follow" && (x == d.params[0] || d.textOf[x.id] != nil) {
			if x != d.params[0] {
				return 0, nil, false
			}
			d.bareBase = true
		}
		i, l, ok := d.isPath(st, x)
		if !ok {
			return 0, nil, false
		}
		p := d.hs[h.parent.id]
		if p == nil || p.kind != "follow" {
			return 0, nil, false
		}
		y := dirOf(p.path)
		if y == nil {
			return 0, nil, false
		}
		j, l2, ok := d.isPath(st, y)
		return i, l, ok && i == j && l == l2
	case "root":
		// The path must be known to be the root.
		slash := constTerm("/")
		for _, t := range d.pathTerms() {
			if i, l, ok := d.isPath(st, t); ok && st.prove(d.ip.strEq(st, t, slash).r) {
				return i, l, true
			}
		}
	}
	return 0, nil, false
}

// pathTerms lists the terms that may be paths.
func (d *drv) pathTerms() []*Term {
	ts := append([]*Term{}, d.params...)
	for _, t := range termIndex {
		switch t.op {
		case "clean", "join", "cat", "text":
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

// ------------------------------------------------------------------------ models

// install sets the models of the interfaces implemented by file systems.
func (d *drv) install() {
	ip := d.ip
	for _, n := range d.c.prog.namedTypes("") {
		it, ok := n.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumExplicitMethods(); i++ {
			m := it.ExplicitMethod(i)
			if isErrorType(n) {
				continue
			}
			name := m.Name()
			ip.Models[m.FullName()] = func(ip *Interp, st *State, c *CallCtx) []*State {
				if n := c.sig.Params().Len(); c.recv == nil && len(c.args) == n+1 {
					// A method promoted from an embedded handle.
					if h, _ := d.raw(st, c.args[0]); h != nil {
						c.recv, c.args = h.sym, c.args[1:]
					}
				}
				if s, ok := c.recv.(*SymV); ok {
					if s == d.impl {
						return d.implCall(st, name, c)
					}
					if h := d.hs[s.id]; h != nil {
						return d.handleCall(st, h, name, c)
					}
				}
				return ip.opaque(st, c)
			}
		}
	}
	ip.Models[modulePath+"/file_systems/common/blockcache.New"] = d.newCache
	ip.Models[modulePath+"/file_systems/common/basicstream.New"] = d.newStream
	bs := "(*" + modulePath + "/file_systems/common/basicstream.BasicStream)."
	ip.Models[bs+"Read"] = d.streamRead
	ip.Models[bs+"ReadAt"] = d.streamReadAt
	ip.Models[bs+"Size"] = d.streamSize
	ip.Models["io.ReadFull"], ip.Models["io.ReadAtLeast"] = d.readFull, d.readFull
	ip.Models["io.ReadAll"] = d.readAll
	ip.Models[bs+"Write"] = d.streamWrite
	ip.Models[bs+"Close"] = d.streamClose
	ip.Models["path.IsAbs"] = func(ip *Interp, st *State, c *CallCtx) []*State {
		t := strOf(c.args[0])
		if t == nil {
			return ip.opaque(st, c)
		}
		c.ret(ip, st, BoolV{isAbs(t)})
		return []*State{st}
	}
	ip.Models["path.Clean"] = func(ip *Interp, st *State, c *CallCtx) []*State {
		t := strOf(c.args[0])
		if t == nil {
			return ip.opaque(st, c)
		}
		if t == d.wd {
			c.ret(ip, st, StrV{t})
		} else {
			c.ret(ip, st, StrV{cleanTerm(t)})
		}
		return []*State{st}
	}
	ip.Models["maps.Clone"] = func(ip *Interp, st *State, c *CallCtx) []*State {
		m, ok := c.args[0].(MapV)
		if !ok {
			c.ret(ip, st, c.args[0])
			return []*State{st}
		}
		o := ip.newObj("clone", ip.objs[m.obj].typ, ip.objs[m.obj].zero)
		st.maps[o] = st.maps[m.obj]
		c.ret(ip, st, MapV{o})
		return []*State{st}
	}
	ip.Models["(io/fs.DirEntry).Name"] = func(ip *Interp, st *State, c *CallCtx) []*State {
		if s, ok := c.recv.(*SymV); ok {
			c.ret(ip, st, StrV{entryName(s)})
			return []*State{st}
		}
		return ip.opaque(st, c)
	}
	ip.OnString = func(st *State, s SliceV) *Term {
		r := d.texts[s.reg]
		if r == nil || st.regs[s.reg] != r.content || !s.off.Equal(r.off) {
			return nil
		}
		h := d.hs[r.h.id]
		size, ok := d.statField(st, h, "Size").(IntV)
		if !ok || !(st.proveEq(s.len, size.p) || s.len.Equal(r.n) && st.proveEq(r.n, size.p)) {
			return nil
		}
		l := s.len
		t := internTerm("text", fmt.Sprint(h.sym.id), &l)
		d.textOf[t.id] = h.sym
		return t
	}
	ip.Cut = func(fn *ssa.Function) bool {
		p := fn.Pkg
		if p == nil {
			return false
		}
		return strings.Contains(p.Pkg.Path(), "/file_systems/common/")
	}
	ip.OnInput = func(st *State, obj ObjID, path string, t types.Type, v Value) Value {
		switch {
		case d.c.isNamed(t, "FileSystemImplementer"):
			return d.impl
		case d.c.isNamed(t, "MountFlags"):
			return d.flags
		case types.IsInterface(t) && !isErrorType(t) && types.Implements(t, d.handleType().Underlying().(*types.Interface)):
			if d.paramH == nil {
				return nil
			}
			return d.wrap(st, d.paramH, d.hs[d.paramH.id].ext, t, d.wrapType(t))
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if n := namedOf(ip.objs[obj].typ); n != nil && n.Obj().Name() == "BaseDriver" {
				return StrV{d.wd}
			}
		}
		if p, ok := t.(*types.Pointer); ok {
			if n := namedOf(p.Elem()); n != nil && n.Obj().Name() == "BaseDriver" {
				return PtrV{obj: d.drvObj}
			}
		}
		return nil
	}
	ip.OnElem = func(st *State, r Region, gen int, idx Poly, v Value) Value {
		if s, ok := v.(*SymV); ok && r == d.queueReg && r != 0 {
			s.nonnil = true
		}
		if s, ok := v.(*SymV); ok && d.kind == "file" && d.wantList && types.IsInterface(s.typ) {
			// Decided for the entry that is followed, which is any of them.
			tracked := false
			for _, t := range ip.Track(st, r) {
				tracked = tracked || t.Equal(idx)
			}
			s.nonnil = s.nonnil || !tracked
		}
		if n := d.notes[gen]; n != nil && (n.all || st.prove(Le(n.lo, idx)) && st.prove(Lt(idx, n.hi))) {
			if t := strOf(v); t != nil {
				d.elemOf[t.id] = n.h
				for _, dot := range []string{".", ".."} {
					if n.noDots {
						st.assume(ip.strEq(st, t, constTerm(dot)).r.Neg())
					}
				}
			}
		}
		return v
	}
	ip.OnStore = d.onStore
	ip.OnReturn = d.onReturn
	ip.Hooks = d.hooks()
	ip.SplitReads = true
	for fn, kind := range d.cuts {
		fn, kind := fn, kind
		ip.Summaries[fn] = func(ip *Interp, st *State, c *CallCtx) []*State {
			switch kind {
			case "follow":
				return d.callFollow(st, fn, c)
			case "empty":
				return d.callEmpty(st, fn, c)
			}
			return d.callOp(st, fn, c)
		}
	}
}

func (c *Checker) isNamed(t types.Type, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modulePath
}

func (d *drv) implCall(st *State, name string, c *CallCtx) []*State {
	ip := d.ip
	d.seenOp[name]++
	switch name {
	case "GetRootDirectory":
		h := d.add(st, "root", "root")
		st.assume(Eq(st.andConst(h.mode, modeTypeMask), Const(1<<modeDir)))
		st.assume(d.dirRel(st, h))
		c.ret(ip, st, h.sym)
		ip.record(st, c, h.sym)
		return []*State{st}
	case "GetFSFeatures", "FSStat":
		k := "#drv " + name
		v, ok := ip.initCells[cellKey{d.drvObj, k}]
		if !ok {
			v = ip.fresh(st, name, c.sig.Results().At(0).Type())
			ip.initCells[cellKey{d.drvObj, k}] = v
		}
		c.ret(ip, st, v)
		return []*State{st}
	case "GetObject":
		p := d.arg(st, c.args[1], name)
		n := strOf(c.args[0])
		if p == nil || n == nil {
			return ip.opaque(st, c)
		}
		d.lookedUp(st, n, p)
		bad, e := d.fail(st, c)
		bad.ghost[hkey(p.sym, fmt.Sprintf("missing/%d", n.id))] = e
		h := d.add(st, "object", "get")
		h.name, h.parent = n, p.sym
		if gInt(st, "#entry") == 1 && d.entryN != nil && p.root == nil && st.ghost["entryof"] != nil && valueEq(st.ghost["entryof"], p.sym) && d.same(st, n, d.entryN) {
			h.entry = true
		}
		d.succeed(st, c, h.sym)
		return []*State{st, bad}
	case "CreateObject", "CreateHardLink":
		i := 1
		if name == "CreateHardLink" {
			i = 2
		}
		n := strOf(c.args[i&2])
		p := d.arg(st, c.args[1], name)
		d.need(st, "insert", name)
		if p == nil || n == nil {
			return ip.opaque(st, c)
		}
		d.creates(st, name, n, p)
		if i == 2 {
			src := d.arg(st, c.args[0], name)
			if src != nil {
				ip.Obligations += 2
				if !st.prove(d.dirRel(st, src).Neg()) {
					ip.report(st, "C19", "the source of a hard link may be a directory")
				}
				d.act(st, src, name)
			}
			if !st.prove(d.dirRel(st, p)) {
				ip.report(st, "C19", "the parent of a hard link may be no directory")
			}
		}
		bad, _ := d.fail(st, c)
		gSet(st, "#created", 1)
		h := d.add(st, "created", "created")
		h.name, h.parent = n, p.sym
		if i == 1 {
			d.createMode(st, c.args[2])
		}
		d.succeed(st, c, h.sym)
		return []*State{st, bad}
	}
	return ip.opaque(st, c)
}

func (d *drv) same(st *State, a, b *Term) bool { return a == b || st.prove(d.ip.strEq(st, a, b).r) }

// missing finds out if a name was established not to exist in a directory.
func (d *drv) missing(st *State, n *Term, p *hnd) bool {
	pre := hkey(p.sym, "missing/")
	for _, k := range sortedKeys(st.ghost) {
		if !strings.HasPrefix(k, pre) {
			continue
		}
		var id int
		fmt.Sscanf(k[len(pre):], "%d", &id)
		for _, t := range termIndex {
			if t.id == id && d.same(st, t, n) && st.prove(d.ip.errMatches(st, st.ghost[k], d.mod("ErrNotFound")).r) {
				return true
			}
		}
	}
	return false
}

func (d *drv) handleCall(st *State, h *hnd, name string, c *CallCtx) []*State {
	ip := d.ip
	d.seenOp[name]++
	if name == "Close" {
		ip.Obligations++
		if gInt(st, handleKey(h.sym)) != 1 {
			ip.report(st, "C17", d.describe(h)+" is closed twice")
		}
		if h.borrow && d.name != "Close" {
			ip.report(st, "C17", d.describe(h)+" is closed although the caller goes on using it")
		}
		if h.sym == d.paramH && gInt(st, "#sclosed") == 0 && d.kind == "file" && d.name == "Close" {
			ip.report(st, "C24", "the handle is released before the stream was flushed")
		}
		gSet(st, handleKey(h.sym), 0)
		e := ip.unknownErr(errorType, "err(Close)")
		if h.sym == d.paramH {
			st.ghost["closeerr"] = e
		}
		c.ret(ip, st, e)
		ip.record(st, c, e)
		return []*State{st}
	}
	d.use(st, h, name)
	outcome := func() []*State {
		bad, _ := d.fail(st, c)
		d.succeed(st, c)
		return []*State{st, bad}
	}
	switch name {
	case "Stat":
		v := d.statOf(st, h)
		c.ret(ip, st, v)
		return []*State{st}
	case "Name":
		if h.nameT == nil {
			h.nameT = symTerm(fmt.Sprintf("Name(%s#%d)", h.sym.name, h.sym.id))
		}
		c.ret(ip, st, StrV{h.nameT})
		return []*State{st}
	case "SameAs":
		o := d.arg(st, c.args[0], name)
		if o == nil {
			return ip.opaque(st, c)
		}
		c.ret(ip, st, d.sameAs(h, o))
		return []*State{st}
	case "ReadBlocks":
		return outcome()
	case "WriteBlocks", "ZeroOutBlocks":
		d.need(st, "write", name)
		return outcome()
	case "Resize":
		d.need(st, "write", name)
		d.act(st, h, name)
		d.truncates(st, h, c.args[0])
		return outcome()
	case "Unlink":
		d.need(st, "delete", name)
		d.unlink(st, h)
		bad, _ := d.fail(st, c)
		if h.entry {
			gSet(st, "#unl", 1)
		}
		d.succeed(st, c)
		return []*State{st, bad}
	case "Chmod":
		d.need(st, "administer", name)
		d.act(st, h, name)
		d.chmodArg(st, c.args[0])
		return outcome()
	case "Chown":
		d.need(st, "administer", name)
		d.act(st, h, name)
		d.ownerArgs(st, c.args)
		return outcome()
	case "Chtimes":
		d.need(st, "write", name)
		d.act(st, h, name)
		d.chtimesArgs(st, c.args)
		return outcome()
	case "ListDir":
		d.act(st, h, name)
		bad, _ := d.fail(st, c)
		s := ip.freshSlice(st, "names", types.Typ[types.String])
		d.lists[s.reg] = h.sym
		d.notes[st.regs[s.reg].gen] = &listNote{h: h.sym, all: true}
		out := []*State{bad}
		if d.wantList && gInt(st, "#entry") == 0 && gInt(st, "#dot") == 0 {
			// An arbitrary entry, other than the dots.
			with := st.clone()
			if with.assume(Lt(d.k, s.len)) {
				gSet(with, "#entry", 1)
				with.ghost["entryof"] = h.sym
				with.ghost["list"] = s
				ip.writeElem(with, s.reg, d.k, StrV{d.entryN})
				with.assume(ip.strEq(with, d.entryN, constTerm(".")).r.Neg())
				with.assume(ip.strEq(with, d.entryN, constTerm("..")).r.Neg())
				d.succeed(with, c, s)
				out = append(out, with)
			}
			// One of the dots.
			for _, dot := range []string{".", ".."} {
				with := st.clone()
				if d.kind == "empty" || !with.assume(Lt(d.k, s.len)) {
					continue
				}
				gSet(with, "#dot", 1)
				gSet(with, "#listed", 1)
				with.ghost["entryof"] = h.sym
				ip.writeElem(with, s.reg, d.k, StrV{d.entryN})
				if with.assume(ip.strEq(with, d.entryN, constTerm(dot)).r) {
					d.succeed(with, c, s)
					out = append(out, with)
				}
			}
		}
		gSet(st, "#listed", 1)
		d.succeed(st, c, s)
		return append(out, st)
	}
	return ip.opaque(st, c)
}

// sameAs is the condition that two handles are of the same object.
func (d *drv) sameAs(a, b *hnd) BoolV {
	x, y := a.sym.id, b.sym.id
	if a.kind == "root" {
		return memoBool(fmt.Sprintf("isroot/%d", y), fmt.Sprintf("%s is the root", b.sym.name))
	}
	if b.kind == "root" {
		return memoBool(fmt.Sprintf("isroot/%d", x), fmt.Sprintf("%s is the root", a.sym.name))
	}
	if x > y {
		x, y = y, x
	}
	return memoBool(fmt.Sprintf("sameas/%d/%d", x, y), "same")
}

// ------------------------------------------------------------------------ rules at calls

// lookedUp checks a name looked up in a directory.
func (d *drv) lookedUp(st *State, n *Term, p *hnd) {
	ip := d.ip
	ip.Obligations++
	if s := d.listed(st, n); s != nil {
		if s != p.sym {
			ip.report(st, "C18", "an entry of a directory is looked up in another directory")
		}
		return
	}
	d.inDir(st, "GetObject", p)
	h := &hnd{kind: "get", name: n, parent: p.sym}
	if _, _, ok := d.exact(st, h); !ok {
		ip.report(st, "C18", fmt.Sprintf("GetObject is called for %s in %s, which is not the last component of a path looked up in its directory", n, d.describe(p)))
	}
}

// listed tells which directory a name was listed in.
func (d *drv) listed(st *State, n *Term) *SymV {
	if n == nil {
		return nil
	}
	if n == d.entryN {
		s, _ := st.ghost["entryof"].(*SymV)
		return s
	}
	return d.elemOf[n.id]
}

// creates checks that a name is known not to exist, and that it is created where it should be.
func (d *drv) creates(st *State, what string, n *Term, p *hnd) {
	ip := d.ip
	ip.Obligations += 2
	if !d.missing(st, n, p) {
		ip.report(st, "C19", what+" is called without having established that the name does not exist in the directory")
	}
	d.inDir(st, what, p)
	h := &hnd{kind: "created", name: n, parent: p.sym}
	i, _, ok := d.exact(st, h)
	if !ok || d.name == "Link" && i != 1 {
		ip.report(st, "C21", fmt.Sprintf("%s creates %s in %s, which is not what the path given denotes", what, n, d.describe(p)))
	}
	if d.name == "OpenFile" || d.name == "WriteFile" || d.name == "Create" || d.name == "Open" {
		ip.Obligations += 2
		if !d.ioFlag(st, "Create") {
			ip.report(st, "C20", "a file is created although that was not asked for")
		}
		if !d.lookupMissing(st) {
			ip.report(st, "C20", "a file is created although looking it up did not fail for its absence")
		}
	}
}

// act checks that the object an operation acts on is the one its path denotes.
func (d *drv) act(st *State, h *hnd, what string) {
	ip := d.ip
	if d.kind != "op" || d.inCb || h.entry || h.borrow {
		return
	}
	if h.kind == "get" && d.listed(st, h.name) != nil {
		return
	}
	want, ok := drvOps[d.name]
	if !ok {
		return
	}
	ip.Obligations++
	good := false
	switch want {
	case "follow":
		if h.kind == "follow" {
			i, _, ok := d.isPath(st, h.path)
			good = ok && i == 0
		}
		good = good || h.kind == "created"
	case "exact":
		i, _, ok := d.exact(st, h)
		good = ok && i == 0
	}
	if !good {
		rule := "C18"
		how := "following a link at its end"
		if want == "exact" {
			how = "without following a link at its end"
		}
		ip.report(st, rule, fmt.Sprintf("%s: %s acts on %s, not on what its path denotes %s", d.name, what, d.describe(h), how))
	}
}

// drvOps tells which operations follow a symbolic link at the end of their path.
var drvOps = map[string]string{
	"Chdir": "follow", "Chmod": "follow", "Chown": "follow", "Lchown": "exact", "Chtimes": "follow", "Open": "follow",
	"OpenFile": "follow", "Create": "follow", "ReadFile": "follow", "Stat": "follow", "Lstat": "exact",
	"ReadDir": "follow", "Readlink": "exact", "Remove": "exact", "RemoveAll": "exact", "Truncate": "follow",
	"WriteFile": "follow", "MkdirAll": "follow", "Link": "follow",
}

func (d *drv) chmodArg(st *State, v Value) {
	ip := d.ip
	ip.Obligations++
	m, ok := cast(v)
	if !ok || m.wrap || !st.proveEq(st.andConst(m.p, (1<<32-1)&^(0777|1<<modeSetuid|1<<modeSetgid|1<<modeSticky)), Const(0)) {
		ip.report(st, "C19", "the mode passed to Chmod may have other bits than permission bits")
	}
	d.permBitsOf(st, v, "the mode passed to Chmod")
	gSet(st, "#did", 1)
}

// permBitsOf checks that a mode passed on has the permission bits of the mode given.
func (d *drv) permBitsOf(st *State, v Value, what string) {
	ip := d.ip
	want, ok := d.mode.(IntV)
	if !ok {
		return
	}
	ip.Obligations++
	m, ok := cast(v)
	for _, k := range []uint{0, 1, 2, 3, 4, 5, 6, 7, 8, modeSetuid, modeSetgid, modeSticky} {
		if !ok || m.wrap || !st.proveEq(st.bitOf(m.p, k), st.bitOf(want.p, k)) {
			ip.report(st, "C53", what+" may have other permission bits than the mode given")
			return
		}
	}
}

// ownerArgs checks that owner and group are passed on as given.
func (d *drv) ownerArgs(st *State, args []Value) {
	gSet(st, "#did", 1)
	if len(d.ints) != len(args) {
		return
	}
	d.ip.Obligations++
	for i, v := range args {
		m, ok := cast(v)
		if !ok || !st.proveEq(m.p, d.ints[i]) {
			d.ip.report(st, "C19", "the owner and group passed to Chown may not be those given")
			return
		}
	}
}

// truncates checks how a file is truncated.
func (d *drv) truncates(st *State, h *hnd, size Value) {
	if d.kind != "op" || d.name != "Truncate" || d.inCb {
		return
	}
	d.ip.Obligations += 2
	gSet(st, "#did", 1)
	if m, ok := cast(size); !ok || !st.proveEq(m.p, Const(0)) {
		d.ip.report(st, "C20", "truncating a file may give it another size than 0")
	}
	if !st.prove(d.dirRel(st, h).Neg()) {
		d.ip.report(st, "C20", "a directory may be truncated")
	}
}

// inDir checks that names are looked up and created in directories only.
func (d *drv) inDir(st *State, what string, p *hnd) {
	d.ip.Obligations++
	if !st.prove(d.dirRel(st, p)) && !d.lookupMissing(st) {
		d.ip.report(st, "C19", what+" may be called for a name in "+d.describe(p)+", which may be no directory")
	}
}

func (d *drv) createMode(st *State, v Value) {
	if d.name != "Create" && d.name != "Open" {
		d.permBitsOf(st, v, "the mode of an object created")
	}
	if d.name != "Mkdir" && d.name != "MkdirAll" {
		return
	}
	ip := d.ip
	ip.Obligations++
	m, ok := cast(v)
	if !ok || !st.proveEq(st.andConst(m.p, modeTypeMask), Const(1<<modeDir)) {
		ip.report(st, "C19", "the mode of a directory created may not have just the directory type")
	}
}

func (d *drv) chtimesArgs(st *State, args []Value) {
	ip := d.ip
	gSet(st, "#did", 1)
	undef := func(v Value) bool { return d.isZero(st, v) }
	f, _ := ip.initCells[cellKey{d.drvObj, "#drv GetFSFeatures"}].(StructV)
	feat := func(name string) (BoolV, bool) {
		t := d.c.prog.Type("", "FSFeatures")
		if t == nil {
			return BoolV{}, false
		}
		i := fieldIndex(t, name)
		if i < 0 || i >= len(f.f) {
			return BoolV{}, false
		}
		b, ok := f.f[i].(BoolV)
		return b, ok
	}
	for i, n := range []string{"HasCreatedTime", "HasAccessedTime", "HasModifiedTime", "HasChangedTime", "HasDeletedTime"} {
		if i >= len(args) {
			break
		}
		ip.Obligations++
		if undef(args[i]) {
			// Only for what is not supported, or cannot be given.
			if i == 1 || i == 2 {
				if b, ok := feat(n); !ok || !st.prove(b.r.Neg()) {
					ip.report(st, "C19", fmt.Sprintf("the timestamp number %d is not passed on although it may be supported", i+1))
				}
			}
			continue
		}
		b, ok := feat(n)
		if !ok || !st.prove(b.r) {
			ip.report(st, "C19", fmt.Sprintf("the timestamp number %d is set although %s may be false", i+1, n))
			continue
		}
		if len(d.times) == 2 && (i != 1 && i != 2 || !valueEq(args[i], d.times[i-1])) {
			ip.report(st, "C19", fmt.Sprintf("the timestamp number %d is not the one given for it", i+1))
		}
	}
}

// isZero tells if a value is the zero value of its type.
func (d *drv) isZero(st *State, v Value) bool {
	switch x := v.(type) {
	case IntV:
		return st.proveEq(x.p, Const(0))
	case NilV:
		return true
	case StructV:
		for _, f := range x.f {
			if !d.isZero(st, f) {
				return false
			}
		}
		return true
	case BoolV:
		return st.prove(x.r.Neg())
	case StrV:
		return x.t.op == "const" && x.t.c == ""
	}
	return false
}

// unlink checks the removal of an object.
func (d *drv) unlink(st *State, h *hnd) {
	ip := d.ip
	ip.Obligations += 3
	if gInt(st, "#failed") == 1 && d.pastFailure(st) {
		ip.report(st, "C22", "objects are removed although an earlier step of the removal failed")
	}
	if d.notRoot(st, h) == false {
		ip.report(st, "C22", "the object removed may be the root directory")
	}
	if !h.entry && d.listed0(st, h) == nil {
		d.act(st, h, "Unlink")
	}
	if n := h.name; n != nil && d.listed0(st, h) != nil {
		for _, dot := range []string{".", ".."} {
			if !st.prove(ip.strEq(st, n, constTerm(dot)).r.Neg()) {
				ip.report(st, "C22", fmt.Sprintf("the directory entry %q may be removed", dot))
			}
		}
	}
	if st.prove(d.dirRel(st, h).Neg()) {
		return
	}
	if gInt(st, hkey(h.sym, "emptied")) == 1 {
		return
	}
	if v := st.ghost["entryof"]; v != nil && valueEq(v, h.sym) && gInt(st, "#entry") == 1 {
		if gInt(st, "#unl") != 1 {
			ip.report(st, "C22", "a directory is removed although it may still have entries")
		}
		return
	}
	// The path without an arbitrary entry: the directory must have been listed.
	if gInt(st, "#listed") == 1 && d.listedSym(h.sym) {
		d.seenOp["unlink empty"]++
		return
	}
	ip.report(st, "C22", "a directory is removed without having listed or removed its entries")
}

func (d *drv) listedSym(s *SymV) bool {
	for _, x := range d.lists {
		if x == s {
			return true
		}
	}
	return false
}

func (d *drv) listed0(st *State, h *hnd) *SymV {
	if h.kind != "get" || h.name == nil {
		return nil
	}
	return d.listed(st, h.name)
}

// notRoot tells if a handle is known not to be the root directory.
func (d *drv) notRoot(st *State, h *hnd) bool {
	if h.entry || d.listed0(st, h) != nil {
		return true
	}
	if st.prove(d.dirRel(st, h).Neg()) {
		return true
	}
	if h.kind == "param" {
		return true // what callers make sure of
	}
	return st.prove(memoBool(fmt.Sprintf("isroot/%d", h.sym.id), "").r.Neg())
}

// pastFailure tells if something that was needed for the removal failed.
func (d *drv) pastFailure(st *State) bool {
	for _, u := range st.errs {
		if u.ev.fn != nil && u.ev.fn.Name() == "Close" {
			continue
		}
		if st.prove(d.ip.isNil(st, u.e).Neg()) {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------------ contracts

// split sorts the arguments of a function into paths, maps and handles.
func (d *drv) split(fn *ssa.Function, args []Value) (path *Term, m Value, h Value, hasM, hasH bool) {
	for i, p := range fn.Params {
		if i >= len(args) || fn.Signature.Recv() != nil && i == 0 {
			continue
		}
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 && path == nil {
				path = strOf(args[i])
			}
		case *types.Map:
			m, hasM = args[i], true
		case *types.Interface:
			if types.Implements(p.Type(), d.handleType().Underlying().(*types.Interface)) {
				h, hasH = args[i], true
			}
		}
	}
	return
}

// callFollow models a call of the function that looks up a path and follows links.
func (d *drv) callFollow(st *State, fn *ssa.Function, c *CallCtx) []*State {
	ip := d.ip
	d.seenOp["lookup"]++
	path, m, _, hasM, _ := d.split(fn, c.args)
	if path == nil {
		return ip.opaque(st, c)
	}
	d.effect(st, fn)
	out := []*State{}
	for _, s := range d.onLookup(st, path, m, hasM) {
		bad, e := d.fail(s, c)
		bad.ghost[fmt.Sprintf("lookup/%d", path.id)] = e
		out = append(out, bad)
		h := d.add(s, "found", "follow")
		h.path = path
		ip.symSeq++
		h.ext = symTerm(fmt.Sprintf("path(%s)#%d", h.sym.name, ip.symSeq))
		if d.notsym {
			s.assume(d.symlinkRel(s, h).Neg())
		}
		rt := fn.Signature.Results().At(0).Type()
		d.succeed(s, c, d.wrap(s, h.sym, h.ext, rt, d.wrapType(rt)))
		out = append(out, s)
	}
	return out
}

// effect checks that the permissions a function needs were established.
func (d *drv) effect(st *State, fn *ssa.Function) {
	for _, e := range sortedKeys(d.effects[fn]) {
		d.need(st, e, fn.Name())
	}
}

// onLookup checks a path that is looked up.
func (d *drv) onLookup(st *State, path *Term, m Value, hasM bool) []*State {
	ip := d.ip
	ip.Obligations++
	var link *hnd
	x := path
	i, l, ok := d.isPath(st, x)
	if ok && d.kind == "follow" && (x.op == "sym" || x.op == "text") && x == d.params[0] {
		// Looking up the path itself again.
		ip.report(st, "C18", "the function looking up paths calls itself with the same path")
	}
	if ok && d.name != "" && drvOps[d.name] == "exact" && d.kind == "op" {
		ip.report(st, "C18", fmt.Sprintf("%s follows a symbolic link at the end of its path", d.name))
	}
	if ok && d.name == "Link" && i == 1 {
		ip.report(st, "C18", "Link follows a symbolic link at the end of the new name")
	}
	if !ok {
		if y := dirOf(path); y != nil {
			if d.kind == "follow" && (y == d.params[0] || d.textOf[y.id] != nil) {
				if y == d.params[0] {
					d.bareBase = true
				} else {
					y = symTerm("?")
				}
			}
			i, l, ok = d.isPath(st, y)
			if ok {
				if path.op == "splitdir" {
					d.slashArg = true
				}
				if d.kind == "follow" && l == nil && i == 0 && !d.belowRoot(st, path, dirOf(path)) {
					ip.report(st, "C18", "the function looking up paths may call itself for the root, which is its own directory, without end")
				}
			}
		}
	}
	if !ok {
		rule := "C21"
		if d.kind == "follow" {
			rule = "C18"
		}
		ip.report(st, rule, fmt.Sprintf("the path looked up, %s, is neither the normalised path given nor its directory nor the target of a link", path))
		return []*State{st}
	}
	_ = i
	link = l
	if d.kind != "follow" {
		return []*State{st}
	}
	// Cycles: what is being resolved must be passed on.
	d.seenOp["nested lookup"]++
	if !hasM || d.vstar == nil {
		if link != nil {
			ip.report(st, "C18", "links are followed without keeping track of those being resolved")
		}
		return []*State{st}
	}
	states := []*State{st}
	if link != nil {
		d.seenOp["link followed"]++
		if !st.prove(d.symlinkRel(st, link)) {
			ip.report(st, "C18", "the contents of something that may not be a symbolic link are followed as if it were one")
		}
		ext := d.extOf(link)
		if ext == nil {
			ip.report(st, "C18", "a link of unknown path is followed")
			return states
		}
		yes, no := st.fork(ip.strEq(st, ext, d.vstar).r)
		states = nil
		if no != nil {
			states = append(states, no)
		}
		if yes != nil {
			if gInt(yes, "#inV") == 1 && !d.sameLink(yes, link) {
				ip.report(yes, "C18", "a link that is already being resolved is followed again, a cycle is not detected")
			}
			gSet(yes, "#inV", 1)
			gSet(yes, hkey(link.sym, "inV"), 1)
			states = append(states, yes)
		}
	}
	for _, s := range states {
		if gInt(s, "#inV") != 1 {
			continue
		}
		ip.Obligations++
		has := int64(0)
		switch x := m.(type) {
		case MapV:
			if n, ok := ip.mapHas(s, x.obj, StrV{d.vstar}).(IntV); ok {
				has, _ = n.p.IsConst()
			}
		}
		if has != 1 && has != 3 {
			ip.report(s, "C18", "a path is looked up without passing on that a certain link is being resolved, so that a cycle may not be detected")
		}
	}
	return states
}

// belowRoot tells if path y is known not to be the root; path is its directory.
func (d *drv) belowRoot(st *State, path, y *Term) bool {
	slash := constTerm("/")
	for _, t := range append(d.pathTerms(), y) {
		if d.base(t) == d.base(y) && (st.prove(d.ip.strEq(st, t, slash).r.Neg()) || st.prove(d.ip.strEq(st, path, t).r.Neg())) {
			return true
		}
	}
	for _, t := range termIndex {
		if x := nameOf(t); x != nil && x == y && (st.prove(d.ip.strEq(st, t, constTerm("")).r.Neg()) || t.op == "basename" && st.prove(d.ip.strEq(st, t, slash).r.Neg())) {
			return true
		}
	}
	return false
}

// sameLink tells if a link was already noted as being followed, by an earlier step of the same lookup.
func (d *drv) sameLink(st *State, h *hnd) bool { return gInt(st, hkey(h.sym, "inV")) == 1 }

// callEmpty models a call of the function that removes all entries of a directory.
func (d *drv) callEmpty(st *State, fn *ssa.Function, c *CallCtx) []*State {
	ip := d.ip
	_, _, hv, _, _ := d.split(fn, c.args)
	h, _ := d.raw(st, hv)
	if h == nil {
		return ip.opaque(st, c)
	}
	d.seenOp["empty"]++
	d.use(st, h, fn.Name())
	d.effect(st, fn)
	ip.Obligations += 2
	if !d.notRoot(st, h) {
		ip.report(st, "C22", "the directory emptied may be the root directory")
	}
	if d.pastFailure(st) {
		ip.report(st, "C22", "objects are removed although an earlier step of the removal failed")
	}
	if n := h.name; n != nil && d.listed0(st, h) != nil {
		for _, dot := range []string{".", ".."} {
			if !st.prove(ip.strEq(st, n, constTerm(dot)).r.Neg()) {
				ip.report(st, "C22", fmt.Sprintf("the directory entry %q may be emptied", dot))
			}
		}
	} else {
		d.act(st, h, fn.Name())
	}
	if !st.prove(d.dirRel(st, h)) {
		ip.report(st, "C22", "what is emptied may be no directory")
	}
	bad, _ := d.fail(st, c)
	gSet(st, hkey(h.sym, "emptied"), 1)
	d.succeed(st, c)
	return []*State{st, bad}
}

// callOp models a nested call of an exported operation.
func (d *drv) callOp(st *State, fn *ssa.Function, c *CallCtx) []*State {
	ip := d.ip
	d.effect(st, fn)
	if p, _, _, _, _ := d.split(fn, c.args); p != nil && fn.Object() != nil && fn.Object().Exported() {
		ip.Obligations++
		_, _, ok := d.isPath(st, p)
		if y := dirOf(p); !ok && y != nil {
			_, _, ok = d.isPath(st, y)
		}
		if !ok {
			ip.report(st, "C21", fmt.Sprintf("%s is called for %s, which is neither the normalised path given nor its directory", fn.Name(), p))
		}
		if d.name == "MkdirAll" && !d.lookupMissing(st) {
			ip.report(st, "C20", "directories are created although looking up the path did not fail for its absence")
		}
	}
	v := ip.freshResults(st, c)
	c.ret(ip, st, v)
	ip.record(st, c, v)
	return []*State{st}
}

// lookupMissing tells if looking up the path, or a name in its directory, failed because it does not exist.
func (d *drv) lookupMissing(st *State) bool {
	for _, k := range sortedKeys(st.ghost) {
		if !strings.HasPrefix(k, "lookup/") {
			continue
		}
		var id int
		fmt.Sscanf(k, "lookup/%d", &id)
		for _, t := range termIndex {
			if t.id != id {
				continue
			}
			if i, _, ok := d.isPath(st, t); ok && i == 0 && st.prove(d.ip.errMatches(st, st.ghost[k], d.mod("ErrNotFound")).r) {
				return true
			}
		}
	}
	return false
}

// ------------------------------------------------------------------------ streams

// ioFlag tells if the flags of the operation certainly have a property.
func (d *drv) ioFlag(st *State, method string) bool {
	return d.flagIs(st, d.openFlags, method, true)
}

func (d *drv) flagIs(st *State, flags Value, method string, want bool) bool {
	fn := d.c.prog.ValueMethod("", "IOFlags", method)
	if fn == nil || flags == nil {
		return false
	}
	n := 0
	for _, s := range d.quiet(st, fn, []Value{flags}) {
		b, ok := s.results[0].(BoolV)
		n++
		if !ok || !s.prove(b.r) && want || !s.prove(b.r.Neg()) && !want {
			return false
		}
	}
	return n > 0
}

// quiet runs a function of the module in a copy of a state without reporting anything.
func (d *drv) quiet(st *State, fn *ssa.Function, args []Value) []*State {
	ip := d.ip
	ip.silent++
	defer func() { ip.silent-- }()
	ret := ip.OnReturn
	ip.OnReturn = nil
	defer func() { ip.OnReturn = ret }()
	return ip.subRun(st, fn, args)
}

func (d *drv) newCache(ip *Interp, st *State, c *CallCtx) []*State {
	n := namedOf(deref(c.sig.Results().At(0).Type()))
	if n == nil {
		return ip.opaque(st, c)
	}
	o := ip.newObj("cache", n, false)
	d.caches[o] = append([]Value{}, c.args...)
	d.seenOp["cache"]++
	c.ret(ip, st, PtrV{obj: o})
	ip.record(st, c, PtrV{obj: o})
	return []*State{st}
}

// handleOf finds the handle a callback works on.
func (d *drv) handleOf(st *State, v Value) *hnd {
	f, ok := v.(FuncV)
	if !ok {
		return nil
	}
	for _, b := range f.bind {
		if h, _ := d.raw(st, b); h != nil {
			return h
		}
		if p, ok := b.(PtrV); ok && !p.isElem {
			if w, ok := st.cells[cellKey{p.obj, p.path}]; ok {
				if h, _ := d.raw(st, w); h != nil {
					return h
				}
			}
		}
	}
	return nil
}

func (d *drv) newStream(ip *Interp, st *State, c *CallCtx) []*State {
	d.seenOp["stream"]++
	n := namedOf(deref(c.sig.Results().At(0).Type()))
	p, ok := c.args[1].(PtrV)
	if n == nil || !ok || d.caches[p.obj] == nil {
		return ip.opaque(st, c)
	}
	args := d.caches[p.obj]
	var h *hnd
	for _, a := range args {
		if h = d.handleOf(st, a); h != nil {
			break
		}
	}
	flags := c.args[2]
	if h != nil {
		d.use(st, h, "a stream")
		// Writing or truncating needs permission.
		if fn := d.c.prog.ValueMethod("", "IOFlags", "RequiresWritePerm"); fn != nil && d.root != nil && (d.kind == "op") {
			ip.Obligations++
			for _, s := range d.quiet(st, fn, []Value{flags}) {
				b, ok := s.results[0].(BoolV)
				if !ok || s.assume(b.r) {
					save := st.ipos
					s.frames = st.frames
					s.ipos = save
					d.need(s, "write", "opening a stream for writing")
				}
			}
		}
		d.act(st, h, "opening a stream")
	}
	bad, _ := d.fail(st, c)
	o := ip.newObj("stream", n, false)
	ds := &drvStream{flags: flags, size: c.args[0], args: args}
	if h != nil {
		ds.h = h.sym
	}
	d.strms[o] = ds
	d.succeed(st, c, PtrV{obj: o})
	return []*State{st, bad}
}

func (d *drv) streamRead(ip *Interp, st *State, c *CallCtx) []*State {
	return d.readStream(ip, st, c, d.streamIn(st, c.args[0]), c.args[1], false)
}

// streamReadAt models a read at a position that is known to be the start.
func (d *drv) streamReadAt(ip *Interp, st *State, c *CallCtx) []*State {
	if n, ok := c.args[2].(IntV); !ok || !st.proveEq(n.p, Const(0)) {
		return ip.opaque(st, c)
	}
	return d.readStream(ip, st, c, d.streamIn(st, c.args[0]), c.args[1], true)
}

// readFull models functions that fill a buffer from a stream.
func (d *drv) readFull(ip *Interp, st *State, c *CallCtx) []*State {
	ds := d.streamIn(st, c.args[0])
	if ds == nil {
		return ip.opaque(st, c)
	}
	return d.readStream(ip, st, c, ds, c.args[1], false)
}

// readAll models io.ReadAll.
func (d *drv) readAll(ip *Interp, st *State, c *CallCtx) []*State {
	ds := d.streamIn(st, c.args[0])
	if ds == nil || ds.h == nil || st.ghost[hkey(ds.h, "read")] != nil {
		return ip.opaque(st, c)
	}
	size, ok := d.statField(st, d.hs[ds.h.id], "Size").(IntV)
	if !ok {
		return ip.opaque(st, c)
	}
	bad, _ := d.fail(st, c)
	s := ip.freshSlice(st, "ReadAll", types.Typ[types.Byte])
	st.addFact(Eq(s.len, size.p))
	d.texts[s.reg] = &textRec{h: ds.h, content: st.regs[s.reg], n: size.p, off: s.off}
	gSet(st, hkey(ds.h, "read"), 1)
	d.succeed(st, c, s)
	return []*State{st, bad}
}

// streamSize models Size: nothing was written when a stream is read.
func (d *drv) streamSize(ip *Interp, st *State, c *CallCtx) []*State {
	ds := d.streamIn(st, c.args[0])
	if ds == nil || st.ghost["written"] != nil {
		return ip.opaque(st, c)
	}
	c.ret(ip, st, ds.size)
	return []*State{st}
}

func (d *drv) readStream(ip *Interp, st *State, c *CallCtx, ds *drvStream, buf Value, at bool) []*State {
	s, n, ok := ip.sliceLen(st, buf)
	if !ok || ds == nil || s.reg == 0 {
		return ip.opaque(st, c)
	}
	bad, _ := d.fail(st, c)
	ip.havocRange(bad, s.reg, s.off, s.off.Add(n))
	ip.havocRange(st, s.reg, s.off, s.off.Add(n))
	k := NewAtomMin("n(Read)", 0)
	st.addFact(Le(AtomPoly(k), n))
	if ds.h != nil && (at || st.ghost[hkey(ds.h, "read")] == nil) {
		h := d.hs[ds.h.id]
		if size, ok := d.statField(st, h, "Size").(IntV); ok {
			// The first read gives as much of the object as fits.
			if st.proveLe(n, size.p) {
				st.addFact(Eq(AtomPoly(k), n))
			} else if st.proveLe(size.p, n) {
				st.addFact(Eq(AtomPoly(k), size.p))
			}
		}
		d.texts[s.reg] = &textRec{h: ds.h, content: st.regs[s.reg], n: AtomPoly(k), off: s.off}
	}
	if ds.h != nil && !at {
		gSet(st, hkey(ds.h, "read"), 1)
	}
	d.succeed(st, c, IntV{p: AtomPoly(k)})
	return []*State{st, bad}
}

func (d *drv) streamWrite(ip *Interp, st *State, c *CallCtx) []*State {
	d.seenOp["stream write"]++
	bad, _ := d.fail(st, c)
	n := NewAtomMin("n(Write)", 0)
	if s, _, ok := ip.sliceLen(st, c.args[1]); ok {
		st.addFact(Eq(AtomPoly(n), s.len))
		if st.ghost["written"] != nil {
			s = SliceV{} // more than the data
		}
		st.ghost["written"] = s
		if p, ok := c.args[0].(PtrV); ok && d.strms[p.obj] != nil {
			st.ghost["writtento"] = c.args[0]
		}
	}
	d.succeed(st, c, IntV{p: AtomPoly(n)})
	return []*State{st, bad}
}

func (d *drv) streamClose(ip *Interp, st *State, c *CallCtx) []*State {
	d.seenOp["stream close"]++
	e := ip.unknownErr(errorType, "err(BasicStream.Close)")
	gSet(st, "#sclosed", gInt(st, "#sclosed")+1)
	st.ghost["scloseerr"] = e
	c.ret(ip, st, e)
	ip.record(st, c, e)
	return []*State{st}
}

// ------------------------------------------------------------------------ rules at stores and returns

// onStore checks changes of the working directory.
func (d *drv) onStore(ip *Interp, st *State, p PtrV, v Value) {
	if d.kind == "file" && d.wantList && p.obj == d.fileObj && p.path == fmt.Sprintf(".%d", d.listF) {
		d.onQueue(st, v)
	}
	if p.obj != d.drvObj || d.drvObj == 0 {
		return
	}
	s, ok := v.(StrV)
	if !ok {
		return
	}
	ip.Obligations++
	d.seenOp["chdir"]++
	gSet(st, "#wd", 1)
	for _, id := range d.handleIDs() {
		h := d.hs[id]
		e := d.extOf(h)
		if e == nil || !d.same(st, s.t, e) {
			continue
		}
		if !st.prove(d.dirRel(st, h)) {
			ip.report(st, "C21", "the working directory is set to an object that may be no directory")
		}
		d.act(st, h, "the change of the working directory")
		return
	}
	ip.report(st, "C21", fmt.Sprintf("the working directory is set to %s, which is not the absolute path of an object looked up", s.t))
}

func (d *drv) handleIDs() []int {
	var ids []int
	for id := range d.hs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

// onReturn checks that objects made for handles have the right path.
func (d *drv) onReturn(ip *Interp, st *State, fn *ssa.Function, res []Value) {
	for _, r := range res {
		i, ok := r.(IfaceV)
		if !ok {
			continue
		}
		h, p := d.raw(st, i)
		if h == nil || p == nil {
			continue
		}
		e := d.extOf(h)
		ip.Obligations++
		if e == nil || !d.same(st, p, e) {
			ip.report(st, "C21", fmt.Sprintf("%s gets the absolute path %s", d.describe(h), p))
		}
	}
}

// reach collects the handles that a value leads to.
func (d *drv) reach(st *State, v Value, out map[int]bool, depth int) {
	if depth > 6 {
		return
	}
	switch x := v.(type) {
	case *SymV:
		if d.hs[x.id] != nil {
			out[x.id] = true
		}
	case IfaceV:
		d.reach(st, x.v, out, depth+1)
	case StructV:
		for _, f := range x.f {
			d.reach(st, f, out, depth+1)
		}
	case PtrV:
		if x.isElem || d.ip.objs[x.obj].param {
			return
		}
		for k, w := range st.cells {
			if k.obj == x.obj {
				d.reach(st, w, out, depth+1)
			}
		}
	}
}

// leaks checks the handles at the end of an operation.
func (d *drv) leaks(st *State, ok bool) {
	ip := d.ip
	given := map[int]bool{}
	if ok {
		for _, r := range st.results {
			d.reach(st, r, given, 0)
		}
	}
	for _, k := range sortedKeys(st.ghost) {
		var id int
		if n, _ := fmt.Sscanf(k, "h/%d", &id); n != 1 || k != fmt.Sprintf("h/%d", id) {
			continue
		}
		h := d.hs[id]
		if h == nil {
			continue
		}
		ip.Obligations++
		open := gInt(st, k) == 1
		switch {
		case given[id]:
			if !open {
				ip.report(st, "C17", d.describe(h)+" is returned although it was closed")
			}
		case h.borrow:
			if d.kind == "file" && d.name == "Close" {
				if open {
					ip.report(st, "C17", "the handle of the file is not released when it is closed")
				}
			}
		case open:
			how := "when the operation succeeds"
			if !ok {
				how = "when the operation fails"
			}
			ip.report(st, "C17", fmt.Sprintf("%s is never closed %s", d.describe(h), how))
		}
	}
}

// drvPerms gives the permission an operation needs whatever happens.
var drvPerms = map[string]string{
	"Chmod": "administer", "Chown": "administer", "Lchown": "administer", "Chtimes": "write", "Truncate": "write",
	"Link": "insert", "Mkdir": "insert", "Remove": "delete", "RemoveAll": "delete", "WriteFile": "write",
}

func (d *drv) finish(st *State, fn *ssa.Function) {
	ip := d.ip
	ip.Obligations++
	okS, badS := ip.splitErr(fn, st)
	if okS != nil {
		d.seenOp["success"]++
		d.leaks(okS, true)
		d.success(okS, fn)
	}
	if badS != nil {
		d.leaks(badS, false)
		d.failure(badS, fn)
	}
}

func (d *drv) success(st *State, fn *ssa.Function) {
	ip := d.ip
	if d.kind == "op" || d.kind == "file" {
		if eff := drvPerms[d.name]; eff != "" {
			ip.Obligations++
			if !st.proveEq(st.bitOf(d.flags.p, d.permBit(eff)), Const(1)) {
				ip.report(st, "C16", fmt.Sprintf("%s may succeed although the image was not mounted with %s permission", d.name, eff))
			}
		}
	}
	switch d.kind {
	case "follow":
		d.followResult(st, fn)
	case "empty":
		ip.Obligations++
		if gInt(st, "#entry") == 1 {
			if gInt(st, "#unl") != 1 {
				ip.report(st, "C22", fn.Name()+" may succeed without having removed every entry")
			}
		} else if gInt(st, "#listed") != 1 {
			ip.report(st, "C22", fn.Name()+" may succeed without having listed the directory")
		}
	case "op":
		switch d.name {
		case "Stat", "Lstat":
			d.statResult(st)
		case "OpenFile", "Open", "Create":
			d.openResult(st)
		case "WriteFile":
			d.writeFileResult(st)
		case "ReadFile":
			d.readFileResult(st)
		case "Readlink":
			d.readlinkResult(st)
		case "Remove", "RemoveAll":
			ip.Obligations++
			if !d.called(st, "Unlink") {
				ip.report(st, "C22", d.name+" may succeed without having removed the object")
			}
		case "Chmod", "Chown", "Lchown", "Chtimes", "Truncate":
			d.didResult(st)
		case "Chdir":
			ip.Obligations++
			if gInt(st, "#wd") != 1 {
				ip.report(st, "C21", "Chdir may succeed without having changed the working directory")
			}
		case "Mkdir", "Link":
			ip.Obligations++
			if gInt(st, "#created") != 1 {
				ip.report(st, "C20", d.name+" may succeed without having created anything")
			}
		case "NormalizePath":
			d.normResult(st)
		case "ReadDir":
			d.readDirResult(st)
		}
	case "file":
		switch d.name {
		case "Close":
			d.closeResult(st)
		case "Chmod", "Chown":
			d.didResult(st)
		}
		if d.wantList {
			d.portion(st, false, nil)
		}
	case "newfile":
		d.newFileResult(st, fn)
	}
}

// didResult checks that a change of metadata was made.
func (d *drv) didResult(st *State) {
	d.ip.Obligations++
	d.seenOp["change made"]++
	if gInt(st, "#did") != 1 {
		d.ip.report(st, "C53", d.name+" may succeed although the implementation was not asked to make the change")
	}
}

func (d *drv) called(st *State, name string) bool {
	for e := st.events; e != nil; e = e.prev {
		if e.ev.kind == "call" && e.ev.fn != nil && e.ev.fn.Name() == name {
			return true
		}
	}
	return false
}

func (d *drv) failure(st *State, fn *ssa.Function) {
	ip := d.ip
	e, _ := errResult(fn, st)
	if gInt(st, "#wd") == 1 {
		ip.report(st, "C21", "the working directory is changed although the operation fails")
	}
	failed := d.pastFailure(st)
	if d.kind == "op" || d.kind == "file" {
		// A missing permission is reported as such.
		for _, eff := range sortedKeys(permBits) {
			if failed || !st.proveEq(st.bitOf(d.flags.p, d.permBit(eff)), Const(0)) {
				continue
			}
			ip.Obligations++
			d.seenOp["denied"]++
			if !st.prove(ip.errMatches(st, e, d.mod("ErrReadOnlyFileSystem")).r) {
				ip.report(st, "C16", fmt.Sprintf("the error for missing %s permission may be another one than ErrReadOnlyFileSystem", eff))
			}
		}
	}
	if d.kind == "file" && d.wantList {
		d.portion(st, true, e)
	}
	switch d.kind {
	case "follow":
		d.followFailure(st, e, failed)
	case "op":
		if d.name == "OpenFile" {
			d.openFailure(st, e)
		}
	case "empty":
		if gInt(st, "#entry") == 0 && !failed && gInt(st, "#listed") == 1 {
			ip.report(st, "C22", fn.Name()+" may fail although nothing went wrong")
		}
	}
}

// followResult checks the handle a lookup function returns.
func (d *drv) followResult(st *State, fn *ssa.Function) {
	ip := d.ip
	ip.Obligations += 2
	h, _ := d.raw(st, st.results[0])
	if h == nil {
		ip.report(st, "C18", "the result of a lookup is not a handle of the implementation")
		return
	}
	if gInt(st, handleKey(h.sym)) != 1 {
		ip.report(st, "C17", d.describe(h)+" is returned although it was closed")
	}
	if !st.prove(d.symlinkRel(st, h).Neg()) {
		if d.notsym {
			d.lost = true
			ip.report(st, "C18", "a lookup that follows links may return a symbolic link")
		}
	}
	if h.kind == "generic" {
		return
	}
	if h.kind == "follow" {
		if i, _, ok := d.isPath(st, h.path); ok && i <= 0 {
			return
		}
	}
	if _, _, ok := d.exact(st, h); !ok {
		ip.report(st, "C18", fmt.Sprintf("%s is returned by the lookup of another path", d.describe(h)))
	}
}

func (d *drv) followFailure(st *State, e Value, failed bool) {
	ip := d.ip
	if failed || d.vstar == nil {
		return
	}
	for _, id := range d.handleIDs() {
		h := d.hs[id]
		if _, known := st.ghost[handleKey(h.sym)]; !known {
			continue
		}
		ext := d.extOf(h)
		if gInt(st, hkey(h.sym, "inV")) == 1 {
			continue // the first time this link is met
		}
		if ext == nil || !st.prove(ip.strEq(st, ext, d.vstar).r) || !st.prove(d.symlinkRel(st, h)) || gInt(st, "#inV") != 1 {
			continue
		}
		ip.Obligations++
		d.seenOp["cycle"]++
		if !st.prove(ip.errMatches(st, e, d.mod("ErrLinkCycleDetected")).r) {
			ip.report(st, "C18", "the error for a cycle of links may be another one than ErrLinkCycleDetected")
		}
	}
}

// statResult checks the information returned by Stat and Lstat.
func (d *drv) statResult(st *State) {
	ip := d.ip
	ip.Obligations++
	for _, id := range d.handleIDs() {
		h := d.hs[id]
		if h.stat != nil && valueEq(h.stat, st.results[0]) {
			d.act(st, h, "the result")
			return
		}
	}
	ip.report(st, "C18", d.name+" may return something else than the information about an object looked up")
}

func (d *drv) streamIn(st *State, v Value) *drvStream {
	switch x := v.(type) {
	case PtrV:
		if s := d.strms[x.obj]; s != nil || x.obj == 0 || x.isElem {
			return s
		}
		n := d.c.prog.Type(drvPkg, "File")
		if n == nil || x.path != "" || namedOf(d.ip.objs[x.obj].typ) != n {
			return nil
		}
		if vs := d.ip.load(st, x, n); len(vs) == 1 {
			if f, ok := vs[0].v.(StructV); ok {
				return d.streamIn(st, f)
			}
		}
		return nil
	case IfaceV:
		return d.streamIn(st, x.v)
	case StructV:
		for _, f := range x.f {
			if s := d.streamIn(st, f); s != nil {
				return s
			}
		}
	}
	return nil
}

// openResult checks the file returned.
func (d *drv) openResult(st *State) {
	ip := d.ip
	ip.Obligations += 5
	s := d.streamIn(st, st.results[0])
	if s == nil || s.h == nil {
		ip.report(st, "C20", "the file returned has no stream on a handle of the implementation")
		return
	}
	h := d.hs[s.h.id]
	if !st.proveEq(st.andConst(h.mode, modeTypeMask), Const(0)) {
		ip.report(st, "C20", "something else than a regular file may be opened")
	}
	if d.openFlags == nil || !valueEq(s.flags, d.openFlags) {
		ip.report(st, "C20", "the stream gets other flags than those the file is opened with")
	}
	if f, ok := st.results[0].(StructV); ok {
		if ft, ok := d.root.Signature.Results().At(0).Type().Underlying().(*types.Struct); ok {
			for i := 0; i < ft.NumFields(); i++ {
				if d.c.isNamed(ft.Field(i).Type(), "IOFlags") && !valueEq(f.f[i], d.openFlags) {
					ip.report(st, "C20", "the file has other flags than those it is opened with")
				}
			}
		}
	}
	switch d.name {
	case "Create":
		if !d.ioFlag(st, "Create") || !d.ioFlag(st, "Exclusive") || !d.ioFlag(st, "Read") || !d.ioFlag(st, "Write") {
			ip.report(st, "C20", "Create does not open the file for reading and writing, failing if it exists")
		}
	case "Open":
		if !d.ioFlag(st, "Read") || !d.flagIs(st, d.openFlags, "Write", false) || !d.flagIs(st, d.openFlags, "Create", false) || !d.flagIs(st, d.openFlags, "Truncate", false) {
			ip.report(st, "C20", "Open does not open the file for reading only")
		}
	}
	if h.kind != "created" {
		x := st.clone()
		if d.assumeFlag(x, "Create") && d.assumeFlag(x, "Exclusive") {
			ip.report(st, "C20", "a file that exists may be opened although it was to be created exclusively")
		}
	}
}

// assumeFlag assumes a property of the flags; it gives false if that is impossible.
func (d *drv) assumeFlag(st *State, method string) bool { return d.assumeFlagIs(st, method, true) }

func (d *drv) assumeFlagIs(st *State, method string, want bool) bool {
	fn := d.c.prog.ValueMethod("", "IOFlags", method)
	if fn == nil {
		return false
	}
	for _, s := range d.quiet(st, fn, []Value{d.openFlags}) {
		b, ok := s.results[0].(BoolV)
		if !ok {
			continue
		}
		r := b.r
		if !want {
			r = r.Neg()
		}
		if s.assume(r) {
			st.cons, st.nes = s.cons, s.nes
			return st.assume(r)
		}
	}
	return false
}

func (d *drv) openFailure(st *State, e Value) {
	ip := d.ip
	ip.Obligations++
	// A file that is missing and may be created has to be created.
	if d.lookupMissing(st) && !d.called(st, "CreateObject") {
		other := false
		n := 0
		for _, u := range st.errs {
			if u.ev.fn != nil && u.ev.fn.Name() == "Close" || !st.prove(ip.isNil(st, u.e).Neg()) {
				continue
			}
			n++
			if !st.prove(ip.errMatches(st, u.e, d.mod("ErrNotFound")).r) {
				other = true
			}
		}
		x := st.clone()
		insert := x.assume(Eq(x.bitOf(d.flags.p, d.permBit("insert")), Const(1)))
		write := x.assume(Eq(x.bitOf(d.flags.p, d.permBit("write")), Const(1)))
		if !other && n < 2 && insert && write && !d.entryExists(x) && d.assumeFlag(x, "Create") {
			ip.report(st, "C20", "a missing file is not created although that was asked for")
		}
	}
	if d.pastFailure(st) {
		return
	}
	// An existing file that was to be created exclusively.
	if d.ioFlag(st, "Create") && d.ioFlag(st, "Exclusive") && d.called(st, "Stat") == false && !st.prove(ip.errMatches(st, e, d.mod("ErrExists")).r) &&
		!st.prove(ip.errMatches(st, e, d.mod("ErrReadOnlyFileSystem")).r) && d.exists(st) != nil {
		ip.report(st, "C20", "the error for an existing file that was to be created exclusively may be another one than ErrExists")
	}
	// An existing regular file can be opened if it need not be a new one and everything is permitted.
	h := d.exists(st)
	known := 0
	for _, id := range d.handleIDs() {
		if _, ok := st.ghost[handleKey(d.hs[id].sym)]; ok {
			known++
		}
	}
	if h != nil || known == 0 {
		x := st.clone()
		ok := h == nil || x.assume(Eq(x.andConst(h.mode, modeTypeMask), Const(0)))
		for _, e := range sortedKeys(permBits) {
			ok = ok && x.assume(Eq(x.bitOf(d.flags.p, d.permBit(e)), Const(1)))
		}
		if ok && d.assumeFlagIs(x, "Exclusive", false) {
			ip.report(st, "C20", "an existing regular file may be refused although nothing failed, everything is permitted and it need not be a new one")
		}
	}
}

// exists tells if the path was looked up successfully.
func (d *drv) exists(st *State) *hnd {
	for _, k := range sortedKeys(st.ghost) {
		var id int
		if n, _ := fmt.Sscanf(k, "h/%d", &id); n == 1 && d.hs[id] != nil && d.hs[id].kind == "follow" {
			if _, _, ok := d.isPath(st, d.hs[id].path); ok {
				return d.hs[id]
			}
		}
	}
	return nil
}

// entryExists tells if there is certainly a directory entry for the path, though it may lead nowhere.
func (d *drv) entryExists(st *State) bool {
	for _, id := range d.handleIDs() {
		h := d.hs[id]
		if _, known := st.ghost[handleKey(h.sym)]; !known || h.kind != "get" {
			continue
		}
		if _, _, ok := d.exact(st, h); ok {
			return true
		}
	}
	// The root directory has no name.
	for _, t := range termIndex {
		if t.op == "base" || t.op == "basename" {
			if _, _, ok := d.isPath(st, t.args[0]); ok && st.proveEq(t.ln, Const(0)) {
				return true
			}
		}
	}
	return false
}

func (d *drv) writeFileResult(st *State) {
	ip := d.ip
	ip.Obligations += 4
	if v := st.ghost["written"]; v == nil || !valueEq(v, d.data) {
		ip.report(st, "C20", "WriteFile may succeed without having written the data given")
	}
	var s *drvStream
	if p, ok := st.ghost["writtento"].(PtrV); ok {
		s = d.strms[p.obj]
	}
	if s == nil || !d.flagIs(st, s.flags, "Write", true) || !d.flagIs(st, s.flags, "Truncate", true) || !d.flagIs(st, s.flags, "Append", false) || !d.ioFlag(st, "Create") || !d.flagIs(st, d.openFlags, "Exclusive", false) {
		ip.report(st, "C20", "WriteFile does not open the file for writing from its start, creating it if it is missing")
	}
	if gInt(st, "#sclosed") != 1 {
		ip.report(st, "C20", "WriteFile may succeed without having closed the file")
	} else if !st.prove(ip.isNil(st, st.ghost["scloseerr"])) {
		ip.report(st, "C20", "WriteFile may succeed although writing out the data failed")
	}
}

func (d *drv) textFor(st *State, v Value) *hnd {
	s, ok := v.(SliceV)
	if !ok {
		return nil
	}
	t := d.ip.OnString(st, s)
	if t == nil {
		return nil
	}
	if h := d.textOf[t.id]; h != nil {
		return d.hs[h.id]
	}
	return nil
}

func (d *drv) readFileResult(st *State) {
	d.ip.Obligations++
	h := d.textFor(st, st.results[0])
	if h == nil {
		d.ip.report(st, "C24", "ReadFile may return something else than the whole contents of an object")
		return
	}
	d.act(st, h, "the result")
}

func (d *drv) readlinkResult(st *State) {
	d.ip.Obligations++
	t := strOf(st.results[0])
	if t != nil {
		if s := d.textOf[t.id]; s != nil {
			h := d.hs[s.id]
			if !st.prove(d.symlinkRel(st, h)) {
				d.ip.report(st, "C18", "Readlink may return the contents of something else than a link")
			}
			d.act(st, h, "the result")
			return
		}
	}
	d.ip.report(st, "C18", "Readlink may return something else than the contents of a link")
}

func (d *drv) normResult(st *State) {
	d.ip.Obligations++
	if t := strOf(st.results[0]); t == nil || !d.norm(st, t, d.params[0]) {
		d.ip.report(st, "C21", "NormalizePath does not give the cleaned path, based on the working directory if it is relative")
	}
}

func (d *drv) closeResult(st *State) {
	ip := d.ip
	ip.Obligations += 2
	if gInt(st, "#sclosed") != 1 {
		ip.report(st, "C24", "a file is closed without having been flushed exactly once")
		return
	}
	for _, k := range []string{"scloseerr", "closeerr"} {
		if v := st.ghost[k]; v != nil && !st.prove(ip.isNil(st, v)) {
			ip.report(st, "C24", "closing a file may succeed although flushing it or releasing the handle failed")
		}
	}
}
