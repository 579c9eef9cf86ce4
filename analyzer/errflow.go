package main

// Where errors go (C37, C41): every function is analysed on its own; errors returned by the functions it calls
// must be passed on, or the condition that makes up for them must be known, on every path.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type errFlow struct {
	rule      string
	sentinels func(u *errUse) []string
	skip      func(u *errUse) bool
	inline    bool // follow unexported functions
	finish    bool // compressed streams must be closed, buffers flushed
	match     func(fn *ssa.Function) bool
}

// neverFails tells if writes to a value of the type cannot fail.
func neverFails(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch types.TypeString(t, nil) {
	case "bytes.Buffer", "strings.Builder":
		return true
	}
	return false
}

// ident identifies what a value refers to.
func ident(v Value) interface{} {
	switch x := v.(type) {
	case *SymV:
		return x
	case PtrV:
		if !x.isElem && x.path == "" {
			return x.obj
		}
	case IfaceV:
		return ident(x.v)
	}
	return nil
}

// writerTarget finds what a buffered writer was created for.
func writerTarget(st *State, w Value) Value {
	for e := st.events; e != nil; e = e.prev {
		if len(e.ev.res) > 0 && strings.HasPrefix(e.ev.name, "bufio.NewWriter") {
			if i := ident(w); i != nil && i == ident(e.ev.res[0]) {
				return e.ev.args[0]
			}
		}
	}
	return nil
}

// benign tells if an error cannot occur or has no consequences: printing, and writing to memory.
func benign(st *State, u *errUse) bool {
	n := u.ev.name
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") {
		return true
	}
	if strings.HasPrefix(n, "fmt.Fprint") && len(u.ev.args) > 0 {
		if i, ok := u.ev.args[0].(IfaceV); ok && neverFails(i.dyn) {
			return true
		}
		return true
	}
	if n == "(*bufio.Writer).Flush" && len(u.ev.args) > 0 {
		if i, ok := writerTarget(st, u.ev.args[0]).(IfaceV); ok && neverFails(i.dyn) {
			return true
		}
	}
	return n == "(*compress/gzip.Reader).Close" || n == "(*compress/flate.Reader).Close"
}

// finishers says how a stream is completed.
func finisher(creator string) string {
	switch {
	case strings.HasPrefix(creator, "compress/gzip.NewWriter"), strings.HasPrefix(creator, "compress/zlib.NewWriter"), strings.HasPrefix(creator, "compress/flate.NewWriter"):
		return "Close"
	case strings.HasPrefix(creator, "bufio.NewWriter"):
		return "Flush"
	}
	return ""
}

// unfinished finds a stream created on the path whose last use did not complete it.
func unfinished(st *State) *Event {
	type last struct {
		ev   *Event
		done bool
	}
	uses := map[interface{}]last{}
	for e := st.events; e != nil; e = e.prev {
		ev := e.ev
		if ev.kind != "call" {
			continue
		}
		if f := finisher(ev.name); f != "" && len(ev.res) > 0 {
			if s := ident(ev.res[0]); s != nil {
				if l, used := uses[s]; used && !l.done {
					return l.ev
				}
				if _, used := uses[s]; !used && f == "Close" {
					return ev
				}
			}
		}
		note := func(v Value, isRecv bool) {
			if s := ident(v); s != nil {
				if _, seen := uses[s]; !seen {
					n := shortName(ev.name)
					uses[s] = last{ev, isRecv && (n == "Close" || n == "Flush" && strings.Contains(ev.name, "bufio"))}
				}
			}
		}
		if ev.recv != nil {
			note(ev.recv, true)
		}
		for i, a := range ev.args {
			note(a, i == 0 && ev.fn != nil && ev.fn.Type().(*types.Signature).Recv() != nil)
		}
	}
	return nil
}

// takesError tells if a function is given an error to deal with.
func takesError(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if fn.Signature.Recv() != nil && p == fn.Params[0] {
			continue
		}
		t := p.Type()
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		if q, ok := t.Underlying().(*types.Slice); ok {
			t = q.Elem()
		}
		if isErrorType(t) {
			return true
		}
	}
	return false
}

func (c *Checker) errFlow(f *errFlow, fn *ssa.Function) {
	// kept lists variables of loops that carry errors into the next iteration.
	kept := map[*ssa.Phi]*errUse{}
	c.guard(fn.String(), func() {
	again:
		found := len(kept)
		c.prog.reset()
		ip := c.newInterp()
		for _, m := range []string{"(" + modulePath + ".DriverError).WithMessage", "(" + modulePath + ".DriverError).Wrap", modulePath + ".CastToDriverError"} {
			ip.Models[m] = stdModels[m]
		}
		// Functions that report errors are analysed on their own.
		ip.Cut = func(g *ssa.Function) bool {
			if g.Parent() != nil || !hasErrResult(g) || takesError(g) {
				return false
			}
			o := g.Object()
			return !f.inline || o == nil || o.Exported()
		}
		for _, r := range []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"} {
			ip.noObl[r] = true
		}
		check := func(st *State, when string) {
			for _, u := range st.errs {
				if benign(st, u) || f.skip != nil && f.skip(u) {
					continue
				}
				if ip.silent == 0 {
					ip.Obligations++
				}
				if ip.handled(st, u.e, f.sentinels(u)) {
					continue
				}
				ip.reportAt(st, u.ev.instr, f.rule, "an error of "+shortName(u.ev.name)+" may be dropped: "+when)
			}
		}
		ip.OnEdge = func(ip *Interp, st, head *State) {
			saved := st.errs
			st.errs = nil
			for _, u := range saved {
				if benign(st, u) || f.skip != nil && f.skip(u) || ip.handled(st, u.e, f.sentinels(u)) {
					continue
				}
				if phi := ip.keptIn(st, u, f.sentinels(u)); phi == nil {
					st.errs = append(st.errs, u)
				} else if kept[phi] == nil {
					kept[phi] = u
				}
			}
			check(st, "the loop goes on")
			st.errs = saved
		}
		ip.OnHead = func(ip *Interp, st *State, l *loopInfo) {
			for _, in := range l.head.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if u := kept[phi]; u != nil {
					if e, ok := st.top().env[st.top().info.index[phi]].(*SymV); ok {
						st.errs = append(st.errs, &errUse{e: e, ev: u.ev})
					}
				}
			}
		}
		st := NewState()
		args := c.freshArgs(ip, st, fn)
		start := ip.rootOn(st, fn, args)
		for i, v := range fn.FreeVars {
			fr := start.frames[0]
			fr.env[fr.info.index[v]] = ip.fresh(start, v.Name(), v.Type())
			_ = i
		}
		for _, s := range ip.Run(start) {
			if s.status != returned {
				continue
			}
			ok, _ := ip.splitErr(fn, s)
			if ok == nil {
				continue
			}
			if hasErrResult(fn) {
				check(ok, "the function reports success")
			} else {
				check(ok, "the function cannot report it")
			}
			if f.finish {
				if u := unfinished(ok); u != nil {
					ip.reportAt(ok, u.instr, f.rule, "a stream is not completed before success is reported")
				}
			}
		}
		if len(kept) > found {
			goto again
		}
		var keep []Finding
		for _, x := range ip.findings {
			if x.rule == f.rule {
				keep = append(keep, x)
			}
		}
		ip.findings = keep
		c.collect(ip)
		c.stats.Counts["functions"]++
	})
}

// keptIn finds a variable of the loop a state goes on with that is not nil if an error is not.
func (ip *Interp) keptIn(st *State, u *errUse, sentinels []string) *ssa.Phi {
	f := st.top()
	for _, in := range f.block.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e, ok := f.env[f.info.index[phi]].(*SymV)
		if !ok || !isErrorType(phi.Type()) {
			continue
		}
		if t := st.clone(); !t.assume(ip.isNil(t, e)) || ip.handled(t, u.e, sentinels) {
			return phi
		}
	}
	return nil
}

// errRoots lists the functions of a package to analyse on their own: exported ones, ones that report errors, and
// function literals that report errors.
func (p *Program) errRoots(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.pkgFuncs(rel) {
		o := fn.Object()
		if o == nil {
			if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
				out = append(out, fn)
			}
			continue
		}
		if hasErrResult(fn) || o.Exported() || fn.Name() == "main" || strings.HasPrefix(fn.Name(), "init") {
			out = append(out, fn)
		}
		for _, a := range fn.AnonFuncs {
			if hasErrResult(a) {
				out = append(out, a)
			}
		}
	}
	return out
}

func (c *Checker) compErrors() {
	f := &errFlow{rule: "C37", finish: true, inline: true, sentinels: readSentinels}
	for _, fn := range c.prog.errRoots(compPkg) {
		c.errFlow(f, fn)
	}
}

// readSentinels: the end of the input is the only failure of reading that may be expected.
func readSentinels(u *errUse) []string {
	n := shortName(u.ev.name)
	switch n {
	case "Write", "WriteByte", "WriteString", "WriteAt", "Close", "Flush", "Seek", "Truncate", "Sync", "UnreadByte":
		return nil
	}
	return []string{ioEOF}
}

// libSentinels: what callers are known to handle.
func libSentinels(u *errUse) []string {
	n := shortName(u.ev.name)
	switch n {
	case "Write", "WriteByte", "WriteString", "WriteAt", "Close", "Flush", "FlushAll", "Seek", "Truncate", "Sync", "UnreadByte", "Resize":
		return nil
	}
	return []string{ioEOF, "io.ErrUnexpectedEOF", modulePath + ".ErrNotFound"}
}

func (c *Checker) libErrors() {
	f := &errFlow{rule: "C41", sentinels: libSentinels, skip: func(u *errUse) bool {
		// Releasing an object that was only looked at.
		return u.ev.name == "("+modulePath+".ObjectHandle).Close"
	}}
	for _, pkg := range libPkgs {
		if c.prog.Pkg(pkg) == nil {
			c.anchor("package " + pkg + " not found")
			continue
		}
		for _, fn := range c.prog.errRoots(pkg) {
			c.errFlow(f, fn)
		}
	}
}

var libPkgs = []string{"", "disks", "driver", "file_systems/common", "file_systems/common/basicstream", "file_systems/common/blockcache",
	"file_systems/fat", "file_systems/fat8", "file_systems/unixv6", compPkg}
