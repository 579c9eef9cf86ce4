package main

// C45: the commands end with status 0 only if nothing failed.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Checker) cli(rel string) {
	const rule = "C45"
	fn := c.prog.Func(rel, "main")
	if fn == nil {
		c.anchor("command " + rel + " not found")
		return
	}
	c.guard(rel+".main", func() {
		c.prog.reset()
		ip := c.newInterp()
		for _, r := range []string{"nil", "panic", "makeslice", "div", "assert"} {
			ip.noObl[r] = true
		}
		// Functions of the library are checked on their own (C37, C41).
		home := fn.Pkg
		ip.Cut = func(g *ssa.Function) bool {
			return g.Parent() == nil && hasErrResult(g) && g.Pkg != nil && g.Pkg != home
		}
		// file tells if an event opens a file for reading or for writing.
		file := func(ev *Event) (in, out bool) {
			switch ev.name {
			case "os.Open":
				return true, false
			case "os.Create":
				return false, true
			case "os.OpenFile":
				if v, ok := ev.args[1].(IntV); ok {
					if k, isc := v.p.IsConst(); isc && k&3 == 0 {
						return true, false
					}
				}
				return false, true
			}
			return false, false
		}
		// Files are identified by what the functions opening them returned.
		created := func(st *State) (files []*Event) {
			for e := st.events; e != nil; e = e.prev {
				if _, out := file(e.ev); out && len(e.ev.res) == 2 {
					files = append(files, e.ev)
				}
			}
			return
		}
		readOnly := func(st *State, u *errUse) bool {
			if u.ev.name != "(*os.File).Close" || len(u.ev.args) == 0 {
				return false
			}
			for _, f := range created(st) {
				if ident(f.res[0]) == ident(u.ev.args[0]) {
					return false
				}
			}
			return true
		}
		closed := func(st *State, f *Event) bool {
			for e := st.events; e != nil; e = e.prev {
				if strings.HasSuffix(e.ev.name, ".Close") && len(e.ev.args) > 0 && ident(e.ev.args[0]) != nil && ident(e.ev.args[0]) == ident(f.res[0]) &&
					len(e.ev.res) == 1 && st.prove(ip.isNil(st, e.ev.res[0])) {
					return true
				}
			}
			return false
		}
		success := func(st *State, in ssa.Instruction, what string) {
			for _, u := range st.errs {
				if strings.HasPrefix(u.ev.name, "fmt.") || readOnly(st, u) {
					continue
				}
				ip.Obligations++
				if !ip.handled(st, u.e, nil) {
					ip.reportAt(st, in, rule, what+" although "+shortName(u.ev.name)+" may have failed")
				}
			}
			for _, f := range created(st) {
				ip.Obligations++
				if s, ok := f.res[1].(*SymV); ok && st.prove(ip.isNil(st, s).Neg()) {
					continue
				}
				if !closed(st, f) {
					ip.reportAt(st, in, rule, what+" before the output file was closed successfully")
				}
			}
		}
		exit := func(code func(c *CallCtx) (Poly, bool)) Model {
			return func(ip *Interp, st *State, cc *CallCtx) []*State {
				p, ok := code(cc)
				if !ok {
					p = AtomPoly(NewAtom("status"))
				}
				zero, nonzero := st.fork(Eq(p, Const(0)))
				if zero != nil {
					success(zero, cc.instr, "the command exits with status 0")
				}
				_ = nonzero
				st.status = panicked
				st.note = "exit"
				return []*State{st}
			}
		}
		ip.Models["os.Exit"] = exit(func(c *CallCtx) (Poly, bool) {
			v, ok := c.args[0].(IntV)
			// The status is truncated to eight bits.
			if k, isc := v.p.IsConst(); ok && isc {
				return Const(k & 255), true
			}
			return v.p, false
		})
		fatal := exit(func(c *CallCtx) (Poly, bool) { return Const(1), true })
		for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
			ip.Models[n] = fatal
			ip.Models["(*log.Logger)."+shortName(n)] = fatal
		}
		// The command line is a slice of any length.
		st := NewState()
		var args SliceV
		var names [3]StrV
		given := false
		if os := c.prog.ssa.ImportedPackage("os"); os != nil && os.Var("Args") != nil {
			if p, ok := ip.globalPtr(os.Var("Args")).(PtrV); ok {
				args = ip.freshSlice(st, "os.Args", types.Typ[types.String])
				st.assume(Le(Const(1), args.len))
				for i := range names {
					names[i] = ip.fresh(st, "os.Args["+string(rune('0'+i))+"]", types.Typ[types.String]).(StrV)
					ip.writeElem(st, args.reg, args.off.Add(Const(int64(i))), names[i])
				}
				st.cells[cellKey{p.obj, p.path}] = args
				given = true
			}
		}
		if !given {
			c.anchor("the arguments of the command " + rel + " were not found")
			return
		}
		tool := map[string]string{"cmd/zipimage": "CompressImage", "cmd/unzipimage": "DecompressImage"}[rel]
		converted := func(st *State) (ev *Event) {
			for e := st.events; e != nil; e = e.prev {
				if shortName(e.ev.name) == tool {
					return e.ev
				}
			}
			return nil
		}
		from := func(st *State, v Value) *Event {
			for e := st.events; e != nil; e = e.prev {
				if i, o := file(e.ev); (i || o) && len(e.ev.res) == 2 && ident(e.ev.res[0]) != nil && ident(e.ev.res[0]) == ident(v) {
					return e.ev
				}
			}
			return nil
		}
		usage := func(st *State, ev *Event) {
			in, out := file(ev)
			if in || out {
				ip.Obligations++
				if !st.proveEq(args.len, Const(3)) {
					ip.reportAt(st, ev.instr, rule, "a file is opened although the command may not have been given two arguments")
				}
				want, what := names[1], "the input is not the file the first argument names"
				if out {
					want, what = names[2], "the output is not the file the second argument names"
				}
				ip.Obligations++
				if !valueEq(ev.args[0], want) {
					ip.reportAt(st, ev.instr, rule, what)
				}
			}
			if shortName(ev.name) == tool && len(ev.args) >= 2 {
				ip.Obligations++
				if f := from(st, ev.args[0]); f != nil {
					if in, _ := file(f); !in {
						ip.reportAt(st, ev.instr, rule, "the output is read")
					}
				}
				if f := from(st, ev.args[1]); f != nil {
					if _, out := file(f); !out {
						ip.reportAt(st, ev.instr, rule, "the input is written")
					}
				}
			}
		}
		done := success
		success = func(st *State, in ssa.Instruction, what string) {
			done(st, in, what)
			if tool == "" {
				return
			}
			ip.Obligations++
			if converted(st) == nil {
				ip.reportAt(st, in, rule, what+" although nothing was converted")
			}
		}
		prints := 0
		ip.OnCall = func(ip *Interp, st *State, ev *Event) {
			if tool != "" {
				usage(st, ev)
			}
			out := strings.HasPrefix(ev.name, "fmt.Print")
			if strings.HasPrefix(ev.name, "fmt.Fprint") && len(ev.args) > 0 {
				out = false
				if l, ok := ev.instr.(ssa.CallInstruction); ok {
					out = usesGlobal(l.Common().Args[0], "Stdout")
				}
			}
			if out {
				prints++
				success(st, ev.instr, "success is printed")
			}
		}
		for _, s := range ip.Run(ip.rootOn(st, fn, nil)) {
			if s.status == returned {
				success(s, nil, "the command ends with status 0")
			}
		}
		var keep []Finding
		for _, x := range ip.findings {
			if x.rule == "index" || x.rule == "slice" {
				// A crash is no report of a failure.
				x.rule = rule
			}
			if x.rule == rule {
				keep = append(keep, x)
			}
		}
		ip.findings = keep
		c.collect(ip)
	})
}

// usesGlobal tells if a value is loaded from a package variable of the given name.
func usesGlobal(v ssa.Value, name string) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return usesGlobal(x.X, name)
	case *ssa.ChangeInterface:
		return usesGlobal(x.X, name)
	case *ssa.UnOp:
		return usesGlobal(x.X, name)
	case *ssa.Global:
		return x.Name() == name
	}
	return false
}
