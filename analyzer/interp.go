package main

// Abstract interpreter over go/ssa: walks the control flow of a root function and everything it calls
// inside the module, on a disjunctive domain of linear constraints, typestates and array contents.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Finding is a potential violation.
type Finding struct {
	rule string
	pos  string
	fn   string
	msg  string
	path []string
}

// CallCtx describes a call being modelled.
type CallCtx struct {
	instr ssa.Instruction
	val   ssa.Value // nil if the result is not used (defer, go)
	sig   *types.Signature
	name  string
	fn    *types.Func
	recv  Value
	args  []Value // without receiver for invokes; with receiver for static method calls
	// argTypes are the static types of args
	ft types.Type
	// common is the call
	common *ssa.CallCommon
	// callee is the function called if it is known
	callee *ssa.Function
}

// Model computes the effect of a call. The states returned must have the result set with ret.
type Model func(ip *Interp, st *State, c *CallCtx) []*State

// Budget limits.
const (
	maxSteps  = 400000
	maxInline = 40
)

type budgetExceeded struct{ why string }

// Interp runs one root analysis.
type Interp struct {
	prog    *Program
	objs    []ObjInfo
	regions []RegInfo

	initCells map[cellKey]Value
	initMaps  map[ObjID]*mapContent
	initRegs  map[Region]*RegContent
	arrRegs   map[cellKey]Region
	bitRegs   map[Region]Region
	genVals   map[genKey]Value
	genIdx    map[int][]Poly
	genSeq    int
	symSeq    int
	evSeq     int

	silent   int
	steps    int
	findings []Finding
	seen     map[string]bool
	rootFn   *ssa.Function

	// Summaries replace functions of the module by models.
	Summaries map[*ssa.Function]Model
	// Cut tells which functions of the module are not followed.
	Cut func(fn *ssa.Function) bool
	// Models override the built-in models of calls, by full name.
	Models map[string]Model
	// OnCall is called after a modelled call was recorded.
	OnCall func(ip *Interp, st *State, ev *Event)
	// OnHead is called for states that stand for all iterations of a loop.
	OnHead func(ip *Interp, st *State, l *loopInfo)
	// OnEdge is called for states at back edges and at ends of loop bodies.
	OnEdge func(ip *Interp, st *State, head *State)
	// OnInput may refine a lazily created input value.
	OnInput func(st *State, obj ObjID, path string, t types.Type, v Value) Value
	// OnElem may refine a lazily created element of a region, in a generation of its content.
	OnElem func(st *State, r Region, gen int, idx Poly, v Value) Value
	// OnWrite is told about writes to regions.
	OnWrite func(st *State, r Region, lo, hi Poly)
	// OnStore is told about stores to cells of objects.
	OnStore func(ip *Interp, st *State, p PtrV, v Value)
	// OnEnter is called when a function of the module is entered.
	OnEnter func(ip *Interp, st *State, fn *ssa.Function, args []Value)
	// OnReturn is called when a function of the module returns, before its frame is popped.
	OnReturn func(ip *Interp, st *State, fn *ssa.Function, res []Value)
	// Track lists the indices of a region to follow individually through loops.
	Track func(st *State, r Region) []Poly
	// PairFacts makes loops look for locations that were found to be equal.
	PairFacts bool
	// OnStrEq may decide what it means for two strings to be equal.
	OnStrEq func(st *State, a, b *Term) (Rel, bool)
	// SplitReads makes reads in loops split states at the indices followed.
	SplitReads bool
	// StrBytes, if set, tells the bytes of strings.
	StrBytes *strBytes
	// SplitPreds makes such comparisons partition the states at loop headers.
	SplitPreds bool
	// ExitPreds makes the conditions on which loops are left partition the states at loop headers.
	ExitPreds bool
	// OnAppend is told about elements appended to slices.
	OnAppend func(ip *Interp, st *State, dst, src, res SliceV)
	// OnString may give the term of a string made of the bytes of a slice.
	OnString func(st *State, s SliceV) *Term
	// Hooks has resource handles followed through loops.
	Hooks *LoopHooks
	// Skolems are the atoms standing for "an arbitrary element".
	Skolems []Atom

	loopStack []*loopSolve
	guards    *[]Rel
	Debug     bool

	// Statistics.
	Obligations int
	CallsSeen   map[string]int
	FnsSeen     map[*ssa.Function]int
	Loops       int
	Unmodelled  map[string]int
	noObl       map[string]bool
	user        interface{}
	depthLimit  int
}

func NewInterp(p *Program) *Interp {
	ip := &Interp{
		prog:       p,
		objs:       make([]ObjInfo, 1),
		regions:    make([]RegInfo, 1),
		initCells:  map[cellKey]Value{},
		initMaps:   map[ObjID]*mapContent{},
		initRegs:   map[Region]*RegContent{},
		arrRegs:    map[cellKey]Region{},
		bitRegs:    map[Region]Region{},
		genVals:    map[genKey]Value{},
		genIdx:     map[int][]Poly{},
		seen:       map[string]bool{},
		Summaries:  map[*ssa.Function]Model{},
		Models:     map[string]Model{},
		CallsSeen:  map[string]int{},
		FnsSeen:    map[*ssa.Function]int{},
		Unmodelled: map[string]int{},
		noObl:      map[string]bool{},
	}
	return ip
}

// ------------------------------------------------------------------------ function info

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	fn    *ssa.Function
	index map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*loopInfo
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if i, ok := p.fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{fn: fn, index: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) { fi.index[v] = fi.n; fi.n++ }
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, q := range x.Preds {
						if !l.blocks[q] {
							l.blocks[q] = true
							work = append(work, q)
						}
					}
				}
			}
		}
	}
	p.fnInfos[fn] = fi
	return fi
}

// ------------------------------------------------------------------------ findings

func (ip *Interp) posOf(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	pos := in.Pos()
	if !pos.IsValid() {
		// Use the nearest instruction with a position.
		if b := in.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					pos = x.Pos()
				}
				if x == in && pos.IsValid() {
					break
				}
			}
		}
	}
	return ip.prog.position(pos)
}

// report records a finding at the current instruction.
func (ip *Interp) report(st *State, rule, msg string) {
	if ip.silent > 0 {
		return
	}
	in := st.ipos
	fn := "?"
	if len(st.frames) > 0 {
		fn = st.top().fn.String()
	} else if ip.rootFn != nil {
		fn = ip.rootFn.String()
	}
	pos := ip.posOf(in)
	k := rule + "|" + pos + "|" + msg
	if ip.seen[k] {
		return
	}
	ip.seen[k] = true
	ip.findings = append(ip.findings, Finding{rule: rule, pos: pos, fn: fn, msg: msg, path: ip.tracePath(st)})
}

func (ip *Interp) tracePath(st *State) []string {
	var out []string
	if ip.rootFn != nil {
		out = append(out, "entry point: "+ip.rootFn.String())
	}
	for _, f := range st.frames {
		out = append(out, fmt.Sprintf("in %s, block %d (%s)", f.fn, f.block.Index, f.block.Comment))
	}
	var evs []string
	n := 0
	for e := st.events; e != nil && n < 25; e = e.prev {
		evs = append(evs, fmt.Sprintf("event: %s %s at %s", e.ev.kind, e.ev.name, ip.posOf(e.ev.instr)))
		n++
	}
	for i := len(evs) - 1; i >= 0; i-- {
		out = append(out, evs[i])
	}
	for i, c := range st.cons {
		if i > 80 {
			break
		}
		out = append(out, "fact: "+c.String())
	}
	for _, c := range st.nes {
		out = append(out, "fact: "+c.String())
	}
	return out
}

// oblige checks that r holds; the state is continued with r.
func (ip *Interp) oblige(st *State, rule string, r Rel, msg string) bool {
	if ip.silent == 0 {
		ip.Obligations++
	}
	if st.prove(r) {
		return true
	}
	if !ip.noObl[rule] {
		ip.report(st, rule, fmt.Sprintf("%s: cannot establish %s", msg, r))
	}
	return st.assume(r)
}

// ------------------------------------------------------------------------ running

// Root makes the initial state for analysing fn.
func (ip *Interp) Root(fn *ssa.Function, args []Value) *State {
	st := &State{
		cells: map[cellKey]Value{}, regs: map[Region]*RegContent{},
		ghost: map[string]Value{}, maps: map[ObjID]*mapContent{},
	}
	return ip.rootOn(st, fn, args)
}

func NewState() *State {
	return &State{
		cells: map[cellKey]Value{}, regs: map[Region]*RegContent{},
		ghost: map[string]Value{}, maps: map[ObjID]*mapContent{},
	}
}

func (ip *Interp) rootOn(st *State, fn *ssa.Function, args []Value) *State {
	ip.rootFn = fn
	ip.pushFrame(st, fn, args, nil, nil)
	return st
}

func (ip *Interp) pushFrame(st *State, fn *ssa.Function, args []Value, binds []Value, c *CallCtx) {
	fi := ip.prog.info(fn)
	f := &Frame{fn: fn, info: fi, env: make([]Value, fi.n), block: fn.Blocks[0], c: c, arrived: true}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[fi.index[p]] = args[i]
		}
		_ = p
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			f.env[fi.index[v]] = binds[i]
		}
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], f)
	if ip.silent == 0 {
		ip.FnsSeen[fn]++
	}
	if ip.OnEnter != nil {
		ip.OnEnter(ip, st, fn, args)
	}
}

// Run analyses until all states ended.
func (ip *Interp) Run(start ...*State) []*State {
	return ip.run(start, nil)
}

type loopCtx struct {
	depth int
	loop  *loopInfo
	backs []*State
}

// run executes states. Within a loop body analysis (ctx != nil) states leaving the loop are returned and
// states reaching its header again are collected in ctx.
func (ip *Interp) run(work []*State, ctx *loopCtx) []*State {
	var done []*State
	work = append([]*State(nil), work...)
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.status == dead {
			continue
		}
		if st.status != running || len(st.frames) == 0 {
			done = append(done, st)
			continue
		}
		if ctx != nil {
			if len(st.frames) < ctx.depth {
				done = append(done, st)
				continue
			}
			if len(st.frames) == ctx.depth {
				f := st.top()
				if f.arrived && f.pc == 0 && f.block == ctx.loop.head && f.visits > 0 {
					ctx.backs = append(ctx.backs, st)
					continue
				}
				if !ctx.loop.blocks[f.block] {
					done = append(done, st)
					continue
				}
			}
		}
		f := st.top()
		if f.arrived && f.pc == 0 {
			if l := f.info.loops[f.block]; l != nil && !(ctx != nil && len(st.frames) == ctx.depth && f.block == ctx.loop.head) && !ip.unroll(st, l) {
				work = append(work, ip.analyzeLoop(st, l)...)
				continue
			}
		}
		work = append(work, ip.execBlock(st)...)
	}
	return done
}

// maxUnroll limits the number of iterations of loops that are followed one by one.
const maxUnroll = 8

// unroll tells if the iterations of a loop that state arrived at are followed one by one: it counts from a constant
// to a nearby constant, such as loops over the elements of a literal.
func (ip *Interp) unroll(st *State, l *loopInfo) bool {
	f := st.top()
	if f.visits > 0 {
		return f.unrolled[l.head]
	}
	ok := ip.tripCount(st, l)
	if ok != f.unrolled[l.head] {
		m := map[*ssa.BasicBlock]bool{l.head: ok}
		for k, v := range f.unrolled {
			if k != l.head {
				m[k] = v
			}
		}
		f.unrolled = m
	}
	return ok
}

func (ip *Interp) tripCount(st *State, l *loopInfo) bool {
	f := st.top()
	h := l.head
	cond, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h {
		return false
	}
	konst := func(v ssa.Value) (int64, bool) {
		if k, ok := v.(*ssa.Const); ok {
			i, ok := ip.constVal(k).(IntV)
			if !ok {
				return 0, false
			}
			return i.p.IsConst()
		}
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			c, ok := v.(*ssa.Call)
			if !ok {
				return 0, false
			}
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return 0, false
			}
			if in, ok := c.Call.Args[0].(ssa.Instruction); ok && l.blocks[in.Block()] {
				return 0, false
			}
			s, ok := ip.eval(st, c.Call.Args[0]).(SliceV)
			if !ok {
				return 0, false
			}
			return s.len.IsConst()
		}
		i, ok := ip.eval(st, v).(IntV)
		if !ok {
			return 0, false
		}
		return i.p.IsConst()
	}
	// counter finds the first value compared and the step, which may be a factor.
	double := map[ssa.Value]bool{}
	counter := func(v ssa.Value) (start, step int64, ok bool) {
		off := int64(0)
		if b, isBin := v.(*ssa.BinOp); isBin && b.Block() == h && b.Op == token.ADD {
			k, isK := b.Y.(*ssa.Const)
			if !isK {
				return
			}
			off, ok = konst(k)
			if !ok {
				return
			}
			v = b.X
		}
		phi, isPhi := v.(*ssa.Phi)
		if !isPhi || phi.Block() != h {
			return 0, 0, false
		}
		cur, isInt := f.env[f.info.index[phi]].(IntV)
		if !isInt {
			return 0, 0, false
		}
		start, ok = cur.p.IsConst()
		if !ok {
			return
		}
		start += off
		for i, p := range h.Preds {
			if !l.blocks[p] {
				continue
			}
			b, isBin := phi.Edges[i].(*ssa.BinOp)
			if !isBin || b.X != ssa.Value(phi) || b.Op != token.ADD && b.Op != token.SUB && b.Op != token.MUL && b.Op != token.SHL {
				return 0, 0, false
			}
			s, ok2 := konst(b.Y)
			if _, isK := b.Y.(*ssa.Const); !isK || !ok2 {
				return 0, 0, false
			}
			switch b.Op {
			case token.SUB:
				s = -s
			case token.SHL:
				s = 1 << uint(s&15)
				double[v] = true
			case token.MUL:
				double[v] = true
			}
			if step != 0 && s != step {
				return 0, 0, false
			}
			step = s
		}
		return start, step, ok && step != 0
	}
	for _, o := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
		start, step, ok := counter(o[0])
		if !ok {
			continue
		}
		end, ok := konst(o[1])
		if !ok {
			continue
		}
		switch cmp.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
			if double[o[0]] {
				return start > 0 && start < end && step > 1 && end/start < 1<<(maxUnroll-1)
			}
			n := (end - start) / step
			return n >= -1 && n < int64(maxUnroll*l.plain())
		}
	}
	return false
}

// plain is how many times more iterations of a loop are followed because it calls nothing: twice as many if it makes
// decisions and four times as many if it makes none.
func (l *loopInfo) plain() int {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
					return 1
				}
			}
		}
	}
	if len(l.blocks) > 2 {
		return 2
	}
	return 4
}

// execBlock executes instructions until control leaves the block or the state splits.
func (ip *Interp) execBlock(st *State) []*State {
	for {
		ip.steps++
		if ip.steps > maxSteps {
			panic(budgetExceeded{"analysis budget exceeded"})
		}
		f := st.top()
		f.arrived = false
		if f.pc >= len(f.block.Instrs) {
			return nil
		}
		in := f.block.Instrs[f.pc]
		st.ipos = in
		depth := len(st.frames)
		blk := f.block
		f.pc++
		res := ip.exec(st, in)
		if len(res) == 1 && res[0] == st && st.status == running && len(st.frames) == depth && st.top().block == blk && !st.top().arrived {
			continue
		}
		return res
	}
}

func (ip *Interp) jump(st *State, to *ssa.BasicBlock) {
	f := st.top()
	from := f.block
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	// Phis are evaluated in parallel.
	var vals []Value
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ip.eval(st, phi.Edges[idx]))
		n++
	}
	for i := 0; i < n; i++ {
		f.env[f.info.index[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	f.prev = from
	f.block = to
	f.pc = 0
	f.arrived = true
	if l := f.info.loops[to]; l != nil && l.blocks[from] {
		f.visits = 1
	} else {
		f.visits = 0
	}
}

func (ip *Interp) set(st *State, v ssa.Value, x Value) {
	f := st.top()
	f.env[f.info.index[v]] = x
}

func (ip *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ip.zeroValue(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolConst(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return StrV{constTerm(constant.StringVal(c.Value))}
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, exact := constant.Int64Val(v); exact {
				return IntV{p: Const(i)}
			}
			if u, exact := constant.Uint64Val(v); exact {
				return IntV{p: Const(int64(u)), wrap: true}
			}
		}
	}
	return FloatV{}
}

func (ip *Interp) eval(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ip.constVal(x)
	case *ssa.Global:
		return ip.globalPtr(x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return nil
	}
	f := st.top()
	i, ok := f.info.index[v]
	if !ok {
		return nil
	}
	r := f.env[i]
	if r == nil {
		r = ip.fresh(st, "?"+v.Name(), v.Type())
		f.env[i] = r
	}
	return r
}

func (ip *Interp) globalPtr(g *ssa.Global) Value {
	k := g.String()
	if o, ok := ip.prog.globalObj(ip, g); ok {
		return PtrV{obj: o}
	}
	_ = k
	return NilV{}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (ip *Interp) one(st *State, v ssa.Value, x Value) []*State {
	ip.set(st, v, x)
	return []*State{st}
}

func (ip *Interp) many(v ssa.Value, svs []stVal) []*State {
	var out []*State
	for _, sv := range svs {
		if sv.st.status == dead {
			continue
		}
		ip.set(sv.st, v, sv.v)
		out = append(out, sv.st)
	}
	return out
}

// branch splits on a truth value.
func (ip *Interp) branch(st *State, v Value) (yes, no *State) {
	b, ok := v.(BoolV)
	if !ok {
		b = freshBool("?cond")
	}
	ip.notePred(b.r.p)
	if ip.guards != nil {
		*ip.guards = append(*ip.guards, b.r)
	}
	return st.fork(b.r)
}

func (ip *Interp) exec(st *State, in ssa.Instruction) []*State {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		t := deref(x.Type())
		name := x.Comment
		if name == "" {
			name = x.Name()
		}
		o := ip.newObj(name, t, true)
		ip.objs[o].site = x
		return ip.one(st, x, PtrV{obj: o})
	case *ssa.BinOp:
		return ip.many(x, ip.binop(st, x.Op, ip.eval(st, x.X), ip.eval(st, x.Y), x.X.Type(), x.Y.Type(), x.Type()))
	case *ssa.UnOp:
		return ip.unop(st, x)
	case *ssa.ChangeType:
		return ip.one(st, x, ip.eval(st, x.X))
	case *ssa.ChangeInterface:
		return ip.one(st, x, ip.eval(st, x.X))
	case *ssa.MakeInterface:
		v := ip.eval(st, x.X)
		return ip.one(st, x, IfaceV{dyn: x.X.Type(), v: v})
	case *ssa.Convert:
		return ip.one(st, x, ip.convert(st, ip.eval(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, ip.eval(st, b))
		}
		return ip.one(st, x, f)
	case *ssa.MakeMap:
		o := ip.newObj("map", x.Type(), true)
		st.maps[o] = &mapContent{zero: true}
		return ip.one(st, x, MapV{o})
	case *ssa.MakeChan:
		return ip.one(st, x, ip.newSym(x.Type(), "chan"))
	case *ssa.MakeSlice:
		l, _ := ip.eval(st, x.Len).(IntV)
		c, _ := ip.eval(st, x.Cap).(IntV)
		if !ip.oblige(st, "makeslice", Rel{l.p, GE}, "length of make must not be negative") {
			return nil
		}
		if !l.p.Equal(c.p) {
			if !ip.oblige(st, "makeslice", Le(l.p, c.p), "capacity of make must not be below its length") {
				return nil
			}
		}
		r := ip.newRegion(st, "make@"+ip.posOf(x), x.Type().Underlying().(*types.Slice).Elem(), true)
		return ip.one(st, x, SliceV{reg: r, off: Const(0), len: l.p, cap: c.p})
	case *ssa.FieldAddr:
		return ip.one(st, x, ip.fieldAddr(st, ip.eval(st, x.X), x.Field, x.X.Type()))
	case *ssa.Field:
		v := ip.eval(st, x.X)
		if s, ok := v.(StructV); ok && x.Field < len(s.f) && s.f[x.Field] != nil {
			return ip.one(st, x, s.f[x.Field])
		}
		return ip.one(st, x, ip.fresh(st, "?field", x.Type()))
	case *ssa.IndexAddr:
		return ip.indexAddr(st, x)
	case *ssa.Index:
		return ip.index(st, x)
	case *ssa.Slice:
		return ip.slice(st, x)
	case *ssa.SliceToArrayPointer:
		s, ok := ip.seq(st, ip.eval(st, x.X), x.X.Type())
		if !ok {
			return ip.one(st, x, ip.fresh(st, "?", x.Type()))
		}
		n := deref(x.Type()).Underlying().(*types.Array).Len()
		if !ip.oblige(st, "slice", Le(Const(n), s.len), "slice too short for its conversion to an array") {
			return nil
		}
		if s.reg == 0 {
			return ip.one(st, x, ip.fresh(st, "?", x.Type()))
		}
		return ip.one(st, x, PtrV{isElem: true, reg: s.reg, idx: s.off, array: n + 1})
	case *ssa.Lookup:
		return ip.lookup(st, x)
	case *ssa.MapUpdate:
		ip.mapUpdate(st, ip.eval(st, x.Map), ip.eval(st, x.Key), ip.eval(st, x.Value))
		return []*State{st}
	case *ssa.Range:
		over := ip.eval(st, x.X)
		if m, ok := over.(MapV); ok && ip.trackedKey(st, m) != nil {
			st.ghost["#iter "+x.Parent().Name()+"."+x.Name()] = IntV{p: Const(0)}
		}
		if _, isStr := over.(StrV); isStr && ip.StrBytes != nil {
			gSet(st, "#chars "+x.Parent().Name()+"."+x.Name(), 0)
			gSet(st, "#wide "+x.Parent().Name()+"."+x.Name(), 0)
		}
		return ip.one(st, x, IterV{over: over})
	case *ssa.Next:
		return ip.next(st, x)
	case *ssa.Extract:
		t := ip.eval(st, x.Tuple)
		if tv, ok := t.(TupleV); ok && x.Index < len(tv) && tv[x.Index] != nil {
			return ip.one(st, x, tv[x.Index])
		}
		return ip.one(st, x, ip.fresh(st, "?extract", x.Type()))
	case *ssa.TypeAssert:
		return ip.typeAssert(st, x)
	case *ssa.Store:
		return ip.execStore(st, x)
	case *ssa.If:
		if ip.ExitPreds {
			ip.noteExit(st, x)
		}
		yes, no := ip.branch(st, ip.eval(st, x.Cond))
		var out []*State
		b := x.Block()
		if yes != nil {
			ip.jump(yes, b.Succs[0])
			out = append(out, yes)
		}
		if no != nil {
			ip.jump(no, b.Succs[1])
			out = append(out, no)
		}
		return out
	case *ssa.Jump:
		ip.jump(st, x.Block().Succs[0])
		return []*State{st}
	case *ssa.Return:
		var res []Value
		for _, r := range x.Results {
			res = append(res, ip.eval(st, r))
		}
		return ip.doReturn(st, res)
	case *ssa.Panic:
		ip.Obligations++
		if !ip.noObl["panic"] {
			ip.report(st, "panic", "explicit panic is reachable")
		}
		st.status = panicked
		return []*State{st}
	case *ssa.Defer:
		f := st.top()
		d := deferred{common: &x.Call, instr: x}
		d.fnv, d.args = ip.evalCall(st, &x.Call)
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
		return []*State{st}
	case *ssa.RunDefers:
		f := st.top()
		if len(f.defers) == 0 {
			return []*State{st}
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		f.pc-- // Come back for the next one.
		return ip.call(st, d.instr, nil, d.common, d.fnv, d.args)
	case *ssa.Call:
		fnv, args := ip.evalCall(st, &x.Call)
		return ip.call(st, x, x, &x.Call, fnv, args)
	case *ssa.Go:
		fnv, args := ip.evalCall(st, &x.Call)
		_ = fnv
		_ = args
		return []*State{st}
	case *ssa.Send, *ssa.Select:
		if v, ok := in.(ssa.Value); ok {
			return ip.one(st, v, ip.fresh(st, "?select", v.Type()))
		}
		return []*State{st}
	case *ssa.MultiConvert:
		return ip.one(st, x, ip.fresh(st, "?", x.Type()))
	}
	if v, ok := in.(ssa.Value); ok {
		return ip.one(st, v, ip.fresh(st, "?", v.Type()))
	}
	return []*State{st}
}

func (ip *Interp) doReturn(st *State, res []Value) []*State {
	f := st.top()
	if ip.OnReturn != nil {
		ip.OnReturn(ip, st, f.fn, res)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.results = res
		st.status = returned
		return []*State{st}
	}
	if f.c != nil && f.c.val != nil {
		var v Value
		switch len(res) {
		case 0:
		case 1:
			v = res[0]
		default:
			v = TupleV(res)
		}
		ip.set(st, f.c.val, v)
	}
	return []*State{st}
}

func (ip *Interp) execStore(st *State, x *ssa.Store) []*State {
	a := ip.eval(st, x.Addr)
	v := ip.eval(st, x.Val)
	p, ok := ip.asPtr(st, a, x.Addr.Type())
	if !ok {
		return ip.nilDeref(st, a)
	}
	if ip.OnStore != nil {
		ip.OnStore(ip, st, p, v)
	}
	return ip.store(st, p, x.Val.Type(), v)
}

// asPtr gives the pointer to dereference.
func (ip *Interp) asPtr(st *State, a Value, t types.Type) (PtrV, bool) {
	switch p := a.(type) {
	case PtrV:
		return p, true
	case *SymV:
		// An unknown pointer: give it an object of its own.
		if p.nilAtom >= 0 && !p.nonnil {
			if !ip.oblige(st, "nil", Rel{AtomPoly(p.nilAtom), EQ}, "pointer "+p.name+" may be nil") {
				return PtrV{}, false
			}
		}
		if o, ok := p.data.(ObjID); ok {
			return PtrV{obj: o}, true
		}
		o := ip.newObj(p.name, deref(t), false)
		p.data = o
		return PtrV{obj: o}, true
	}
	return PtrV{}, false
}

func (ip *Interp) nilDeref(st *State, a Value) []*State {
	if !ip.noObl["nil"] {
		ip.report(st, "nil", "nil pointer dereference")
	}
	st.status = panicked
	return []*State{st}
}

func (ip *Interp) fieldAddr(st *State, a Value, field int, t types.Type) Value {
	p, ok := ip.asPtr(st, a, t)
	if !ok {
		return NilV{}
	}
	if p.isElem {
		p.sub = fieldPath(p.sub, field)
		return p
	}
	p.path = fieldPath(p.path, field)
	return p
}

func (ip *Interp) unop(st *State, x *ssa.UnOp) []*State {
	v := ip.eval(st, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := ip.asPtr(st, v, x.X.Type())
		if !ok {
			return ip.nilDeref(st, v)
		}
		return ip.many(x, ip.load(st, p, x.Type()))
	case token.NOT:
		if b, ok := v.(BoolV); ok {
			return ip.one(st, x, BoolV{b.r.Neg()})
		}
		return ip.one(st, x, freshBool("?not"))
	case token.SUB:
		if i, ok := v.(IntV); ok {
			return ip.one(st, x, st.wrapTo(i.p.Neg(), x.Type()))
		}
		return ip.one(st, x, FloatV{})
	case token.XOR:
		if i, ok := v.(IntV); ok && !i.wrap {
			bits, signed, _ := intKind(x.Type())
			if signed {
				return ip.one(st, x, IntV{p: i.p.Neg().AddConst(-1)})
			}
			if bits < 64 {
				return ip.one(st, x, IntV{p: Const(1<<bits - 1).Sub(i.p)})
			}
			return ip.one(st, x, IntV{p: i.p.Neg().AddConst(-1), wrap: true})
		}
	case token.ARROW:
	}
	return ip.one(st, x, ip.fresh(st, "?unop", x.Type()))
}

func (ip *Interp) convert(st *State, v Value, from, to types.Type) Value {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if i, ok := v.(IntV); ok {
			return st.convInt(i, from, to)
		}
	}
	// string <-> []byte
	if tok && tb.Info()&types.IsString != 0 {
		if s, ok := v.(SliceV); ok {
			if ip.OnString != nil {
				if t := ip.OnString(st, s); t != nil {
					return StrV{t}
				}
			}
			key := fmt.Sprintf("r%d.g%d.w%d[%s:+%s]", s.reg, ip.content(st, s.reg).gen, len(ip.content(st, s.reg).w), s.off.Key(), s.len.Key())
			l := s.len
			t := internTerm("bytes", key, &l)
			if sb := ip.StrBytes; sb != nil {
				sb.src[t.id], sb.cont[t.id] = s, ip.content(st, s.reg)
			}
			return StrV{t}
		}
		if s, ok := v.(StrV); ok {
			return s
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(StrV); ok {
			r := ip.newRegion(st, "bytes("+s.t.String()+")", sl.Elem(), false)
			if s.t.op == "const" && len(s.t.c) <= 64 {
				for i := 0; i < len(s.t.c); i++ {
					ip.writeElem(st, r, Const(int64(i)), IntV{p: Const(int64(s.t.c[i]))})
				}
				if ip.StrBytes != nil {
					// Nothing but what was written.
					ip.StrBytes.ascii[st.regs[r].gen] = true
				}
			} else {
				// The bytes of a string are the same at every conversion.
				k := fmt.Sprintf("strbytes%d", s.t.id)
				if c, ok := ip.prog.strContents[k]; ok {
					st.regs[r] = c
				} else {
					ip.prog.strContents[k] = st.regs[r]
				}
				if sb := ip.StrBytes; sb != nil {
					if s.t.op == "sym" {
						st.regs[r] = ip.initRegs[sb.region(st, s.t)]
					} else {
						sb.term[st.regs[r].gen] = s.t
					}
				}
			}
			return SliceV{reg: r, off: Const(0), len: s.t.ln, cap: s.t.ln}
		}
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return ip.fresh(st, "?conv", to)
}

// ------------------------------------------------------------------------ comparison

func (ip *Interp) binop(st *State, op token.Token, a, b Value, at, bt, rt types.Type) []stVal {
	switch x := a.(type) {
	case IntV:
		y, ok := b.(IntV)
		if !ok {
			break
		}
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ip.cmpInt(st, op, x, y)
		case token.QUO, token.REM:
			if !ip.oblige(st, "div", Rel{y.p, NE}, "division by zero") {
				return nil
			}
			return ip.divMod(st, x, y, rt, op == token.REM)
		case token.AND:
			if out := ip.powerTest(st, x, y, rt); out != nil {
				return out
			}
		}
		return []stVal{{st, ip.binInt(st, op, x, y, rt, bt)}}
	case StrV:
		y, ok := b.(StrV)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return []stVal{{st, StrV{concatTerm(x.t, y.t)}}}
		case token.EQL:
			return []stVal{{st, ip.strEq(st, x.t, y.t)}}
		case token.NEQ:
			e := ip.strEq(st, x.t, y.t)
			return []stVal{{st, BoolV{e.r.Neg()}}}
		}
		return []stVal{{st, freshBool("strcmp")}}
	case FloatV:
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return []stVal{{st, freshBool("floatcmp")}}
		}
		return []stVal{{st, FloatV{}}}
	}
	if op == token.EQL || op == token.NEQ {
		out := ip.equal(st, a, b)
		if op == token.NEQ {
			for i := range out {
				if bv, ok := out[i].v.(BoolV); ok {
					out[i].v = BoolV{bv.r.Neg()}
				}
			}
		}
		return out
	}
	if op == token.AND || op == token.OR {
		return []stVal{{st, ip.fresh(st, "?bool", rt)}}
	}
	return []stVal{{st, ip.fresh(st, "?binop", rt)}}
}

func (ip *Interp) strEq(st *State, a, b *Term) BoolV {
	if a == b {
		return boolConst(true)
	}
	if ip.OnStrEq != nil {
		if r, ok := ip.OnStrEq(st, a, b); ok {
			return BoolV{r}
		}
	}
	if a.op == "const" && b.op == "const" {
		return boolConst(false)
	}
	if st.proveNe(a.ln, b.ln) {
		return boolConst(false)
	}
	if b.op == "const" && b.c == "" {
		return BoolV{Rel{a.ln, EQ}}
	}
	if a.op == "const" && a.c == "" {
		return BoolV{Rel{b.ln, EQ}}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return memoBool(fmt.Sprintf("streq/%d/%d", a.id, b.id), fmt.Sprintf("%s==%s", a, b))
}

// nilRel is the condition under which a value is nil.
func (ip *Interp) nilRel(st *State, v Value) BoolV {
	switch x := v.(type) {
	case NilV:
		return boolConst(true)
	case *SymV:
		if x.nonnil || x.nilAtom < 0 {
			return boolConst(false)
		}
		return BoolV{Rel{AtomPoly(x.nilAtom).AddConst(-1), EQ}}
	case SliceV:
		if x.hasNil {
			return BoolV{Rel{AtomPoly(x.nilAtom).AddConst(-1), EQ}}
		}
		return boolConst(false)
	case PtrV, FuncV, MapV, IfaceV:
		return boolConst(false)
	}
	return freshBool("?nil")
}

func (ip *Interp) equal(st *State, a, b Value) []stVal {
	if _, ok := b.(NilV); ok {
		return []stVal{{st, ip.nilRel(st, a)}}
	}
	if _, ok := a.(NilV); ok {
		return []stVal{{st, ip.nilRel(st, b)}}
	}
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			return ip.cmpInt(st, token.EQL, x, y)
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			yes, no := st.fork(x.r)
			var out []stVal
			if yes != nil {
				out = append(out, stVal{yes, y})
			}
			if no != nil {
				out = append(out, stVal{no, BoolV{y.r.Neg()}})
			}
			return out
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return []stVal{{st, ip.strEq(st, x.t, y.t)}}
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			if !x.isElem && !y.isElem {
				if x.obj == y.obj {
					return []stVal{{st, boolConst(x.path == y.path)}}
				}
				if ip.objs[x.obj].param && ip.objs[y.obj].param {
					return []stVal{{st, freshBool("ptreq")}}
				}
				return []stVal{{st, boolConst(false)}}
			}
			if x.isElem && y.isElem && x.reg == y.reg && x.sub == y.sub {
				return []stVal{{st, BoolV{Eq(x.idx, y.idx)}}}
			}
			return []stVal{{st, boolConst(false)}}
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.f) == len(y.f) {
			cur := []*State{st}
			var out []stVal
			for i := range x.f {
				var next []*State
				for _, s := range cur {
					for _, sv := range ip.equal(s, x.f[i], y.f[i]) {
						bv, ok := sv.v.(BoolV)
						if !ok {
							bv = freshBool("?eq")
						}
						yes, no := sv.st.fork(bv.r)
						if yes != nil {
							next = append(next, yes)
						}
						if no != nil {
							out = append(out, stVal{no, boolConst(false)})
						}
					}
				}
				cur = next
			}
			for _, s := range cur {
				out = append(out, stVal{s, boolConst(true)})
			}
			return out
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			if !types.Identical(x.dyn, y.dyn) {
				return []stVal{{st, boolConst(false)}}
			}
			return ip.equal(st, x.v, y.v)
		}
	case *SymV:
		if y, ok := b.(*SymV); ok {
			if x.id == y.id {
				return []stVal{{st, boolConst(true)}}
			}
			return []stVal{{st, ip.symEq(st, x, y)}}
		}
	}
	return []stVal{{st, freshBool("?eq")}}
}

// symEq compares two opaque values.
func (ip *Interp) symEq(st *State, x, y *SymV) BoolV {
	if x.err != nil && y.err != nil {
		if y.err.sentinel != "" && x.err.sentinel != "" {
			return boolConst(x.err.sentinel == y.err.sentinel)
		}
		if x.err.sentinel != "" {
			x, y = y, x
		}
		if y.err.sentinel != "" {
			if !x.err.unknown {
				return boolConst(false) // Derived errors are never the sentinel itself.
			}
			b := memoBool(fmt.Sprintf("erreq/%d/%s", x.id, y.err.sentinel), fmt.Sprintf("%s==%s", x.name, y.err.sentinel))
			a, _ := Rel{b.r.p.AddConst(1), EQ}.p.SingleAtom()
			// Equality implies that errors.Is matches and that it is not nil.
			is := ip.errIsAtom(x, y.err.sentinel)
			st.addFact(Le(AtomPoly(a), is))
			if x.nilAtom >= 0 {
				st.addFact(Le(AtomPoly(a), Const(1).Sub(AtomPoly(x.nilAtom))))
			}
			return b
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return memoBool(fmt.Sprintf("symeq/%d/%d", x.id, y.id), fmt.Sprintf("%s==%s", x.name, y.name))
}

// errIsAtom is the atom telling if an unknown error matches a sentinel.
func (ip *Interp) errIsAtom(x *SymV, sentinel string) Poly {
	b := memoBool(fmt.Sprintf("erris/%d/%s", x.id, sentinel), fmt.Sprintf("Is(%s,%s)", x.name, sentinel))
	return b.r.p.AddConst(1)
}

// ------------------------------------------------------------------------ indexing

func (ip *Interp) seq(st *State, v Value, t types.Type) (SliceV, bool) {
	switch x := v.(type) {
	case SliceV:
		return x, true
	case PtrV:
		if at, ok := deref(t).Underlying().(*types.Array); ok {
			if x.isElem && x.array > 0 {
				n := Const(x.array - 1)
				return SliceV{reg: x.reg, off: x.idx, len: n, cap: n}, true
			}
			if x.isElem {
				return SliceV{}, false
			}
			r := ip.arrayRegion(st, x.obj, x.path, at)
			n := Const(at.Len())
			return SliceV{reg: r, off: Const(0), len: n, cap: n}, true
		}
	case NilV:
		return SliceV{reg: 0, off: Const(0), len: Const(0), cap: Const(0)}, true
	}
	return SliceV{}, false
}

func (ip *Interp) checkIndex(st *State, i IntV, n Poly) bool {
	if ip.silent == 0 {
		ip.Obligations++
	}
	lo, hi := Rel{i.p, GE}, Lt(i.p, n)
	if i.wrap && !st.prove(lo) || !st.prove(lo) || !st.prove(hi) {
		if !ip.noObl["index"] {
			ip.report(st, "index", fmt.Sprintf("index %s may be out of range [0, %s)", i.p, n))
		}
		return st.assume(lo) && st.assume(hi)
	}
	return true
}

func (ip *Interp) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	v := ip.eval(st, x.X)
	i, _ := ip.eval(st, x.Index).(IntV)
	s, ok := ip.seq(st, v, x.X.Type())
	if !ok {
		return ip.one(st, x, ip.fresh(st, "?elem", x.Type()))
	}
	if !ip.checkIndex(st, i, s.len) {
		return nil
	}
	if s.reg == 0 {
		return nil
	}
	return ip.one(st, x, PtrV{isElem: true, reg: s.reg, idx: s.off.Add(i.p)})
}

func (ip *Interp) index(st *State, x *ssa.Index) []*State {
	v := ip.eval(st, x.X)
	i, _ := ip.eval(st, x.Index).(IntV)
	switch a := v.(type) {
	case ArrayV:
		if !ip.checkIndex(st, i, Const(a.n)) {
			return nil
		}
		r := ip.newRegion(st, "array", a.elem, false)
		st.regs[r] = a.content
		return ip.many(x, ip.readElem(st, r, i.p))
	case StrV:
		return ip.strIndex(st, x, a, i)
	}
	return ip.one(st, x, ip.fresh(st, "?index", x.Type()))
}

func (ip *Interp) strIndex(st *State, x ssa.Value, s StrV, i IntV) []*State {
	if !ip.checkIndex(st, i, s.t.ln) {
		return nil
	}
	if c, ok := i.p.IsConst(); ok && s.t.op == "const" && c < int64(len(s.t.c)) {
		return ip.one(st, x, IntV{p: Const(int64(s.t.c[c]))})
	}
	if ip.StrBytes != nil {
		return ip.many(x, ip.StrBytes.at(st, s.t, i.p))
	}
	key := fmt.Sprintf("strbyte/%d/%s", s.t.id, i.p.Key())
	p, ok := memoIndex[key]
	if !ok {
		p = AtomPoly(NewAtomRange(fmt.Sprintf("%s[%s]", s.t, i.p), 0, 255))
		memoIndex[key] = p
	}
	return ip.one(st, x, IntV{p: p})
}

func (ip *Interp) slice(st *State, x *ssa.Slice) []*State {
	v := ip.eval(st, x.X)
	get := func(w ssa.Value, def Poly) IntV {
		if w == nil {
			return IntV{p: def}
		}
		i, _ := ip.eval(st, w).(IntV)
		return i
	}
	if s, ok := v.(StrV); ok {
		lo := get(x.Low, Const(0))
		hi := get(x.High, s.t.ln)
		if !ip.checkSlice(st, lo, hi, s.t.ln) {
			return nil
		}
		l := hi.p.Sub(lo.p)
		if c0, ok := lo.p.IsConst(); ok && s.t.op == "const" {
			if c1, ok := hi.p.IsConst(); ok && c0 <= c1 && c1 <= int64(len(s.t.c)) {
				return ip.one(st, x, StrV{constTerm(s.t.c[c0:c1])})
			}
		}
		if l.Equal(s.t.ln) {
			return ip.one(st, x, s)
		}
		if s.t.op == "cat" && hi.p.Equal(s.t.ln) && lo.p.Equal(s.t.args[0].ln) {
			return ip.one(st, x, StrV{s.t.args[1]})
		}
		u := internTerm("substr", lo.p.Key()+":"+hi.p.Key(), &l, s.t)
		if ip.StrBytes != nil {
			ip.StrBytes.lo[u.id] = lo.p
		}
		return ip.one(st, x, StrV{u})
	}
	s, ok := ip.seq(st, v, x.X.Type())
	if !ok {
		return ip.one(st, x, ip.fresh(st, "?slice", x.Type()))
	}
	lo := get(x.Low, Const(0))
	hi := get(x.High, s.len)
	max := get(x.Max, s.cap)
	if !ip.checkSlice(st, lo, hi, max.p) {
		return nil
	}
	if x.Max != nil && !ip.oblige(st, "slice", Le(max.p, s.cap), "slice capacity out of range") {
		return nil
	}
	n := SliceV{reg: s.reg, off: s.off.Add(lo.p), len: hi.p.Sub(lo.p), cap: max.p.Sub(lo.p), hasNil: s.hasNil, nilAtom: s.nilAtom}
	return ip.one(st, x, n)
}

func (ip *Interp) checkSlice(st *State, lo, hi IntV, max Poly) bool {
	if ip.silent == 0 {
		ip.Obligations++
	}
	rs := []Rel{{lo.p, GE}, Le(lo.p, hi.p), Le(hi.p, max)}
	for _, r := range rs {
		if !st.prove(r) {
			if !ip.noObl["slice"] {
				ip.report(st, "slice", fmt.Sprintf("slice bounds [%s : %s] may be out of range for capacity %s", lo.p, hi.p, max))
			}
			for _, q := range rs {
				if !st.assume(q) {
					return false
				}
			}
			return true
		}
	}
	return true
}

// ------------------------------------------------------------------------ maps

func (ip *Interp) lookup(st *State, x *ssa.Lookup) []*State {
	v := ip.eval(st, x.X)
	k := ip.eval(st, x.Index)
	if s, ok := v.(StrV); ok {
		i, _ := k.(IntV)
		return ip.strIndex(st, x, s, i)
	}
	mt := x.X.Type().Underlying().(*types.Map)
	var out []*State
	emit := func(s *State, val Value, ok Value) {
		if x.CommaOk {
			ip.set(s, x, TupleV{val, ok})
		} else {
			ip.set(s, x, val)
		}
		out = append(out, s)
	}
	if _, ok := v.(NilV); ok {
		emit(st, ip.zeroValue(mt.Elem()), boolConst(false))
		return out
	}
	m, ok := v.(MapV)
	if !ok {
		present := freshBool("present")
		no := st.clone()
		if st.assume(present.r) {
			emit(st, ip.fresh(st, "mapval", mt.Elem()), boolConst(true))
		}
		if no.assume(present.r.Neg()) {
			emit(no, ip.zeroValue(mt.Elem()), boolConst(false))
		}
		return out
	}
	c := ip.mapOf(st, m.obj)
	cur := st
	if c != nil {
		for i := len(c.entries) - 1; i >= 0 && cur != nil; i-- {
			e := c.entries[i]
			var nextCur *State
			for _, sv := range ip.equal(cur, e.key, k) {
				bv, ok := sv.v.(BoolV)
				if !ok {
					bv = freshBool("?keyeq")
				}
				yes, no := sv.st.fork(bv.r)
				if yes != nil {
					if e.present == 1 {
						emit(yes, e.val, boolConst(true))
					} else {
						emit(yes, ip.zeroValue(mt.Elem()), boolConst(false))
					}
				}
				if no != nil {
					nextCur = no
				}
			}
			cur = nextCur
		}
	}
	if cur == nil {
		return out
	}
	if c != nil && c.zero {
		emit(cur, ip.zeroValue(mt.Elem()), boolConst(false))
		return out
	}
	present := freshBool("present")
	no := cur.clone()
	if cur.assume(present.r) {
		val := ip.fresh(cur, "mapval", mt.Elem())
		ip.mapNote(cur, m.obj, mapEntry{k, val, 1})
		emit(cur, val, boolConst(true))
	}
	if no.assume(present.r.Neg()) {
		ip.mapNote(no, m.obj, mapEntry{k, nil, 0})
		emit(no, ip.zeroValue(mt.Elem()), boolConst(false))
	}
	return out
}

// mapOf gives what is known about a map.
func (ip *Interp) mapOf(st *State, m ObjID) *mapContent {
	if c, ok := st.maps[m]; ok {
		return c
	}
	return ip.initMaps[m]
}

// mapNote records what was found out about a key of an unknown map.
func (ip *Interp) mapNote(st *State, m ObjID, e mapEntry) {
	c := ip.mapOf(st, m)
	n := &mapContent{}
	if c != nil {
		n.zero = c.zero
		n.entries = append(n.entries, c.entries...)
	}
	n.entries = append([]mapEntry{e}, n.entries...)
	st.maps[m] = n
}

func (ip *Interp) mapUpdate(st *State, mv, k, v Value) {
	m, ok := mv.(MapV)
	if !ok {
		if _, isNil := mv.(NilV); isNil && !ip.noObl["nil"] {
			ip.report(st, "nil", "assignment to entry in nil map")
		}
		return
	}
	c := ip.mapOf(st, m.obj)
	n := &mapContent{}
	if c != nil {
		n.zero = c.zero
		n.entries = append(n.entries, c.entries...)
	}
	n.entries = append(n.entries, mapEntry{k, v, 1})
	st.maps[m.obj] = n
	ip.event(st, &Event{kind: "mapupdate", name: "", args: []Value{mv, k, v}, instr: st.ipos})
}

// trackedKey gives the key of a map that is followed, if it is known to be present.
func (ip *Interp) trackedKey(st *State, m MapV) Value {
	if ip.Hooks == nil || ip.Hooks.Keys == nil {
		return nil
	}
	for _, k := range ip.Hooks.Keys(st, m.obj) {
		if n, ok := ip.mapHas(st, m.obj, k).(IntV); ok {
			if c, isc := n.p.IsConst(); isc && c != 0 && c != 2 {
				return k
			}
		}
	}
	return nil
}

func (ip *Interp) next(st *State, x *ssa.Next) []*State {
	it, _ := ip.eval(st, x.Iter).(IterV)
	if m, ok := it.over.(MapV); ok {
		if k := ip.trackedKey(st, m); k != nil {
			r, _ := x.Iter.(*ssa.Range)
			return ip.nextTracked(st, x, k, "#iter "+x.Parent().Name()+"."+r.Name())
		}
	}
	if s, isStr := it.over.(StrV); isStr && ip.StrBytes != nil {
		if out := ip.StrBytes.next(st.clone(), x, s.t); out != nil {
			return out
		}
	}
	ok := freshBool("next")
	tt := x.Type().(*types.Tuple)
	no := st.clone()
	var out []*State
	if m, isM := it.over.(MapV); isM {
		if c := ip.mapOf(st, m.obj); c != nil && c.zero && len(c.entries) == 0 {
			st.status = dead
		}
	}
	if _, isNil := it.over.(NilV); isNil {
		st.status = dead
	}
	if st.status != dead && st.assume(ok.r) {
		var kv, vv Value
		if b, isB := tt.At(1).Type().Underlying().(*types.Basic); !isB || b.Kind() != types.Invalid {
			kv = ip.fresh(st, "key", tt.At(1).Type())
		}
		if b, isB := tt.At(2).Type().Underlying().(*types.Basic); !isB || b.Kind() != types.Invalid {
			vv = ip.fresh(st, "elem", tt.At(2).Type())
		}
		ip.set(st, x, TupleV{boolConst(true), kv, vv})
		out = append(out, st)
	}
	if no.assume(ok.r.Neg()) {
		var kv, vv Value
		if b, isB := tt.At(1).Type().Underlying().(*types.Basic); !isB || b.Kind() != types.Invalid {
			kv = ip.zeroValue(tt.At(1).Type())
		}
		if b, isB := tt.At(2).Type().Underlying().(*types.Basic); !isB || b.Kind() != types.Invalid {
			vv = ip.zeroValue(tt.At(2).Type())
		}
		ip.set(no, x, TupleV{boolConst(false), kv, vv})
		out = append(out, no)
	}
	return out
}

// nextTracked is next for a map that has the key k, which is visited before the iteration ends.
func (ip *Interp) nextTracked(st *State, x *ssa.Next, k Value, ghost string) []*State {
	tt := x.Type().(*types.Tuple)
	val := func(s *State, i int) Value {
		if b, isB := tt.At(i).Type().Underlying().(*types.Basic); isB && b.Kind() == types.Invalid {
			return nil
		}
		return ip.fresh(s, "elem", tt.At(i).Type())
	}
	var out []*State
	visited := gInt(st, ghost) == 1
	other := st.clone()
	kv := ip.fresh(other, "key", x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map).Key())
	if a, b := strOf(kv), strOf(k); a != nil && b != nil {
		other.assume(ip.strEq(other, a, b).r.Neg())
	}
	ip.set(other, x, TupleV{boolConst(true), kv, val(other, 2)})
	out = append(out, other)
	if visited {
		ip.set(st, x, TupleV{boolConst(false), ip.fresh(st, "key", x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map).Key()), val(st, 2)})
	} else {
		gSet(st, ghost, 1)
		ip.set(st, x, TupleV{boolConst(true), k, val(st, 2)})
	}
	return append(out, st)
}

// ------------------------------------------------------------------------ type assertions

func (ip *Interp) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v := ip.eval(st, x.X)
	var out []*State
	succeed := func(s *State, val Value) {
		if x.CommaOk {
			ip.set(s, x, TupleV{val, boolConst(true)})
		} else {
			ip.set(s, x, val)
		}
		out = append(out, s)
	}
	fail := func(s *State) {
		if x.CommaOk {
			ip.set(s, x, TupleV{ip.zeroValue(x.AssertedType), boolConst(false)})
			out = append(out, s)
			return
		}
		if !ip.noObl["assert"] {
			ip.report(s, "assert", fmt.Sprintf("type assertion to %s may fail", x.AssertedType))
		}
	}
	if ip.silent == 0 {
		ip.Obligations++
	}
	iface, isIface := x.AssertedType.Underlying().(*types.Interface)
	switch i := v.(type) {
	case NilV:
		fail(st)
	case IfaceV:
		ok := false
		if isIface {
			ok = types.Implements(i.dyn, iface)
		} else {
			ok = types.Identical(i.dyn, x.AssertedType)
		}
		if !ok {
			fail(st)
		} else if isIface {
			succeed(st, i)
		} else {
			succeed(st, i.v)
		}
	case *SymV:
		// Static knowledge: asserting to an interface the static type implements only fails for nil.
		nonNil := st
		if i.nilAtom >= 0 && !i.nonnil {
			isNil, notNil := st.fork(Rel{AtomPoly(i.nilAtom).AddConst(-1), EQ})
			if isNil != nil {
				fail(isNil)
			}
			nonNil = notNil
		}
		if nonNil == nil {
			return out
		}
		if isIface && types.Implements(i.typ, iface) {
			succeed(nonNil, i)
			return out
		}
		b := memoBool(fmt.Sprintf("type/%d/%s", i.id, x.AssertedType), fmt.Sprintf("%s is %s", i.name, x.AssertedType))
		yes, no := nonNil.fork(b.r)
		if yes != nil {
			if isIface {
				succeed(yes, i)
			} else {
				key := fmt.Sprintf("%d/%s", i.id, x.AssertedType)
				val, ok := ip.prog.assertVals[key]
				if !ok {
					val = ip.fresh(yes, i.name, x.AssertedType)
					ip.prog.assertVals[key] = val
				}
				succeed(yes, val)
			}
		}
		if no != nil {
			fail(no)
		}
	default:
		yes := st.clone()
		succeed(yes, ip.fresh(yes, "?assert", x.AssertedType))
		fail(st)
	}
	return out
}

// ------------------------------------------------------------------------ calls

func (ip *Interp) evalCall(st *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, ip.eval(st, a))
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return ip.eval(st, c.Value), args
}

func (ip *Interp) event(st *State, ev *Event) {
	ip.evSeq++
	ev.seq = ip.evSeq
	n := 1
	if st.events != nil {
		n = st.events.n + 1
	}
	st.events = &evNode{ev: ev, prev: st.events, n: n}
}

// ret sets the result of a modelled call.
func (c *CallCtx) ret(ip *Interp, st *State, v Value) {
	if c.val != nil {
		ip.set(st, c.val, v)
	}
}

func (ip *Interp) call(st *State, in ssa.Instruction, val ssa.Value, common *ssa.CallCommon, fnv Value, args []Value) []*State {
	c := &CallCtx{instr: in, val: val, common: common, args: args, sig: common.Signature()}
	if b, ok := common.Value.(*ssa.Builtin); ok {
		return ip.builtin(st, b.Name(), c)
	}
	if common.IsInvoke() {
		c.fn = common.Method
		c.recv = fnv
		return ip.invoke(st, c)
	}
	switch f := fnv.(type) {
	case FuncV:
		return ip.callFunc(st, c, f.fn, args, f.bind)
	case NilV:
		return ip.nilDeref(st, fnv)
	case *SymV:
		if f.nilAtom >= 0 && !f.nonnil {
			if !ip.oblige(st, "nil", Rel{AtomPoly(f.nilAtom), EQ}, "function value may be nil") {
				return nil
			}
		}
		c.recv = f
		c.ft = common.Value.Type()
		if f.typ != nil {
			c.ft = f.typ
		}
		c.name = typeName(c.ft)
		return ip.model(st, c)
	}
	c.name = "dynamic"
	return ip.model(st, c)
}

func typeName(t types.Type) string {
	return types.TypeString(t, nil)
}

// callFunc calls a known function.
func (ip *Interp) callFunc(st *State, c *CallCtx, fn *ssa.Function, args, bind []Value) []*State {
	c.name = fn.String()
	c.callee = fn
	if o, ok := fn.Object().(*types.Func); ok {
		c.fn = o
		c.name = o.FullName()
	}
	if m, ok := ip.Summaries[fn]; ok {
		c.args = args
		return m(ip, st, c)
	}
	// The wrapper of a promoted method shares the method's name: the model applies to the call inside it.
	promoted := fn.Synthetic != "" && fn.Pkg == nil && len(fn.Blocks) > 0 && fn.Signature.Recv() != nil && fn.Origin() == nil
	if m, ok := ip.Models[c.name]; ok && !promoted {
		c.args = args
		return m(ip, st, c)
	}
	if len(fn.Blocks) > 0 && (promoted || ip.prog.follows(fn)) && !(ip.Cut != nil && ip.Cut(fn)) {
		for _, f := range st.frames {
			if f.fn == fn {
				return ip.recursion(st, c, fn)
			}
		}
		if len(st.frames) > maxInline {
			panic(budgetExceeded{"call depth exceeded"})
		}
		ip.pushFrame(st, fn, args, bind, c)
		return []*State{st}
	}
	c.args = args
	return ip.model(st, c)
}

// recursion handles a call of a function that is already active: its effect is unknown.
func (ip *Interp) recursion(st *State, c *CallCtx, fn *ssa.Function) []*State {
	ip.Unmodelled["recursive "+c.name]++
	return ip.model(st, c)
}

func (ip *Interp) invoke(st *State, c *CallCtx) []*State {
	switch r := c.recv.(type) {
	case NilV:
		return ip.nilDeref(st, r)
	case IfaceV:
		if fn := ip.prog.methodOf(r.dyn, c.fn); fn != nil {
			c2 := *c
			args := append([]Value{r.v}, c.args...)
			return ip.callFunc(st, &c2, fn, args, nil)
		}
	case *SymV:
		if r.nilAtom >= 0 && !r.nonnil {
			if !ip.oblige(st, "nil", Rel{AtomPoly(r.nilAtom), EQ}, fmt.Sprintf("%s may be nil when %s is called", r.name, c.fn.Name())) {
				return nil
			}
		}
	}
	c.name = c.fn.FullName()
	return ip.model(st, c)
}

// model applies the model of a call.
func (ip *Interp) model(st *State, c *CallCtx) []*State {
	if ip.silent == 0 {
		ip.CallsSeen[c.name]++
	}
	if m, ok := ip.Models[c.name]; ok {
		return m(ip, st, c)
	}
	if m, ok := stdModels[c.name]; ok {
		return m(ip, st, c)
	}
	return ip.opaque(st, c)
}

// opaque is the default model: unknown results, unknown changes to slices and objects passed in.
func (ip *Interp) opaque(st *State, c *CallCtx) []*State {
	if ip.silent == 0 {
		ip.Unmodelled[c.name]++
	}
	if !pureCall(c.name) {
		for i, a := range c.args {
			ip.clobber(st, a, c, i)
		}
	}
	v := ip.freshResults(st, c)
	c.ret(ip, st, v)
	ip.record(st, c, v)
	return []*State{st}
}

func (ip *Interp) clobber(st *State, a Value, c *CallCtx, i int) {
	switch x := a.(type) {
	case SliceV:
		if x.reg != 0 {
			ip.havocRange(st, x.reg, x.off, x.off.Add(x.len))
		}
	case PtrV:
		if !x.isElem {
			for k := range st.cells {
				if k.obj == x.obj && strings.HasPrefix(k.path, x.path) {
					delete(st.cells, k)
				}
			}
			ip.clobbered(st, x)
		}
	case IfaceV:
		ip.clobber(st, x.v, c, i)
	}
}

// clobbered gives the cells of an object unknown contents.
func (ip *Interp) clobbered(st *State, x PtrV) {
	t := ip.objs[x.obj].typ
	if t == nil {
		return
	}
	if x.path != "" {
		return
	}
	ip.storeCell(st, x.obj, "", t, ip.fresh(st, ip.objs[x.obj].name+"'", t))
}

func shortName(full string) string {
	i := strings.LastIndexByte(full, '.')
	return full[i+1:]
}

// freshResults makes unknown results.
func (ip *Interp) freshResults(st *State, c *CallCtx) Value {
	res := c.sig.Results()
	n := shortName(c.name)
	ip.symSeq++
	n = fmt.Sprintf("%s#%d", n, ip.symSeq)
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return ip.fresh(st, n, res.At(0).Type())
	}
	tv := make(TupleV, res.Len())
	for i := range tv {
		tv[i] = ip.fresh(st, fmt.Sprintf("%s.%d", n, i), res.At(i).Type())
	}
	return tv
}

// record adds a call event with the given results and notes errors it returned.
func (ip *Interp) record(st *State, c *CallCtx, v Value) *Event {
	ev := &Event{kind: "call", name: c.name, fn: c.fn, recv: c.recv, args: c.args, instr: c.instr, fnIn: st.top().fn, ft: c.ft}
	switch x := v.(type) {
	case nil:
	case TupleV:
		ev.res = x
	default:
		ev.res = []Value{v}
	}
	ip.event(st, ev)
	for _, r := range ev.res {
		if s, ok := r.(*SymV); ok {
			if s.origin == nil {
				s.origin = ev
			}
			if s.err != nil && s.err.sentinel == "" {
				st.errs = append(st.errs, &errUse{e: s, ev: ev, ignored: c.val == nil})
			}
		}
	}
	if ip.OnCall != nil {
		ip.OnCall(ip, st, ev)
	}
	return ev
}

// ------------------------------------------------------------------------ builtins

func (ip *Interp) builtin(st *State, name string, c *CallCtx) []*State {
	switch name {
	case "len", "cap":
		switch x := c.args[0].(type) {
		case SliceV:
			ip.sliceFacts(st, x)
			if name == "len" {
				c.ret(ip, st, IntV{p: x.len})
			} else {
				c.ret(ip, st, IntV{p: x.cap})
			}
			return []*State{st}
		case StrV:
			c.ret(ip, st, IntV{p: x.t.ln})
			return []*State{st}
		case ArrayV:
			c.ret(ip, st, IntV{p: Const(x.n)})
			return []*State{st}
		case NilV:
			c.ret(ip, st, IntV{p: Const(0)})
			return []*State{st}
		case PtrV:
			if s, ok := ip.seq(st, x, c.common.Args[0].Type()); ok {
				c.ret(ip, st, IntV{p: s.len})
				return []*State{st}
			}
		case MapV:
			a := NewAtomMin("len(map)", 0)
			c.ret(ip, st, IntV{p: AtomPoly(a)})
			return []*State{st}
		}
		c.ret(ip, st, IntV{p: AtomPoly(NewAtomMin("len", 0))})
		return []*State{st}
	case "copy":
		return ip.builtinCopy(st, c)
	case "append":
		return ip.builtinAppend(st, c)
	case "clear":
		switch x := c.args[0].(type) {
		case SliceV:
			if x.reg != 0 {
				ip.fillRange(st, x.reg, x.off, x.off.Add(x.len), ip.zeroValue(ip.regions[x.reg].elem))
			}
		case MapV:
			st.maps[x.obj] = &mapContent{zero: true}
		}
		return []*State{st}
	case "min", "max":
		cur := []stVal{{st, c.args[0]}}
		for _, a := range c.args[1:] {
			var next []stVal
			for _, sv := range cur {
				x, ok1 := sv.v.(IntV)
				y, ok2 := a.(IntV)
				if !ok1 || !ok2 {
					next = append(next, stVal{sv.st, ip.fresh(sv.st, name, c.sig.Results().At(0).Type())})
					continue
				}
				yes, no := sv.st.fork(Le(x.p, y.p))
				if name == "max" {
					x, y = y, x
				}
				if yes != nil {
					next = append(next, stVal{yes, x})
				}
				if no != nil {
					next = append(next, stVal{no, y})
				}
			}
			cur = next
		}
		if c.val == nil {
			return []*State{st}
		}
		return ip.many(c.val, cur)
	case "delete":
		if m, ok := c.args[0].(MapV); ok {
			old := ip.mapOf(st, m.obj)
			n := &mapContent{}
			if old != nil {
				n.zero = old.zero
				n.entries = append(n.entries, old.entries...)
			}
			n.entries = append(n.entries, mapEntry{c.args[1], nil, 0})
			st.maps[m.obj] = n
		}
		return []*State{st}
	case "panic":
		ip.report(st, "panic", "explicit panic is reachable")
		st.status = panicked
		return []*State{st}
	case "print", "println":
		return []*State{st}
	case "recover":
		c.ret(ip, st, NilV{})
		return []*State{st}
	case "ssa:wrapnilchk":
		if _, ok := c.args[0].(NilV); ok {
			return ip.nilDeref(st, c.args[0])
		}
		c.ret(ip, st, c.args[0])
		return []*State{st}
	}
	if c.val != nil {
		c.ret(ip, st, ip.fresh(st, "?"+name, c.val.Type()))
	}
	return []*State{st}
}

func (ip *Interp) asSlice(st *State, v Value) (SliceV, bool) {
	switch x := v.(type) {
	case SliceV:
		return x, true
	case NilV:
		return SliceV{off: Const(0), len: Const(0), cap: Const(0)}, true
	case StrV:
		s, ok := ip.convert(st, x, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte])).(SliceV)
		return s, ok
	}
	return SliceV{}, false
}

func (ip *Interp) builtinCopy(st *State, c *CallCtx) []*State {
	d, ok1 := ip.asSlice(st, c.args[0])
	s, ok2 := ip.asSlice(st, c.args[1])
	if !ok1 || !ok2 {
		ip.clobber(st, c.args[0], c, 0)
		c.ret(ip, st, IntV{p: AtomPoly(NewAtomMin("copied", 0))})
		return []*State{st}
	}
	var out []*State
	yes, no := st.fork(Le(s.len, d.len))
	do := func(x *State, n Poly) {
		if d.reg != 0 && s.reg != 0 {
			ip.copyRange(x, d.reg, d.off, s.reg, s.off, n)
		}
		ip.event(x, &Event{kind: "copy", args: []Value{d, s, IntV{p: n}}, instr: c.instr})
		c.ret(ip, x, IntV{p: n})
		out = append(out, x)
	}
	if yes != nil {
		do(yes, s.len)
	}
	if no != nil {
		do(no, d.len)
	}
	return out
}

func (ip *Interp) builtinAppend(st *State, c *CallCtx) []*State {
	d, ok1 := ip.asSlice(st, c.args[0])
	s, ok2 := ip.asSlice(st, c.args[1])
	if !ok1 || !ok2 {
		c.ret(ip, st, ip.fresh(st, "append", c.val.Type()))
		return []*State{st}
	}
	elem := c.common.Args[0].Type().Underlying().(*types.Slice).Elem()
	res := ip.appended(st, d, s, elem, c.instr)
	ip.event(st, &Event{kind: "append", args: []Value{c.args[0], c.args[1]}, res: []Value{res}, instr: c.instr})
	c.ret(ip, st, res)
	return []*State{st}
}

// appended gives the result of appending a slice to another.
func (ip *Interp) appended(st *State, d, s SliceV, elem types.Type, in ssa.Instruction) SliceV {
	total := d.len.Add(s.len)
	// The result is a new sequence with a copy of both; that it may share storage with the first operand
	// is only relevant if that is used afterwards.
	r := ip.newRegion(st, "append@"+ip.posOf(in), elem, false)
	if d.reg != 0 {
		ip.copyRange(st, r, Const(0), d.reg, d.off, d.len)
	}
	if s.reg != 0 {
		ip.copyRange(st, r, d.len, s.reg, s.off, s.len)
	}
	capAtom := NewAtomMin("cap(append)", 0)
	st.addFact(Le(total, AtomPoly(capAtom)))
	res := SliceV{reg: r, off: Const(0), len: total, cap: AtomPoly(capAtom)}
	if cst, ok := total.IsConst(); !ok || cst == 0 {
		res.hasNil = true
		res.nilAtom = NewAtomRange("nil(append)", 0, 1)
		if d.hasNil {
			st.addFact(Le(AtomPoly(res.nilAtom), AtomPoly(d.nilAtom)))
		} else if d.reg != 0 {
			st.addFact(Rel{AtomPoly(res.nilAtom), EQ})
		}
		ip.sliceFacts(st, res)
	}
	if ip.OnAppend != nil {
		ip.OnAppend(ip, st, d, s, res)
	}
	return res
}

// ------------------------------------------------------------------------ helpers for clients

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
