package main

// FAT8 file names (C29).

import "go/types"

type f8Name struct {
	c    *Checker
	ip   *Interp
	sb   *strBytes
	x, y Poly
}

func (c *Checker) newF8Name() *f8Name {
	c.prog.reset()
	ip := c.newInterp()
	n := &f8Name{c: c, ip: ip, sb: newStrBytes(ip)}
	xa, ya := NewAtomRange("x", 0, 1<<30), NewAtomRange("y", 0, 1<<30)
	n.x, n.y = AtomPoly(xa), AtomPoly(ya)
	ip.Skolems = []Atom{xa, ya}
	ip.SplitReads, ip.SplitPreds = true, true
	ip.Track = func(st *State, r Region) []Poly {
		if b, ok := ip.regions[r].elem.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			return nil
		}
		for _, s := range n.sb.reg {
			if s == r || ip.content(st, r).gen == ip.initRegs[s].gen {
				return []Poly{n.x}
			}
		}
		return []Poly{n.y}
	}
	return n
}

func (n *f8Name) done() {
	for i := range atoms {
		n.ip.prog.inputAtoms[Atom(i)] = true
	}
}

// upper is a byte in upper case.
func upperByte(st *State, v Poly) []stVal {
	var out []stVal
	below, cur := st.fork(Lt(v, Const('a')))
	if below != nil {
		out = append(out, stVal{below, IntV{p: v}})
	}
	if cur == nil {
		return out
	}
	in, above := cur.fork(Le(v, Const('z')))
	if in != nil {
		out = append(out, stVal{in, IntV{p: v.AddConst('A' - 'a')}})
	}
	if above != nil {
		out = append(out, stVal{above, IntV{p: v}})
	}
	return out
}

// encode checks the function that makes bytes of a name.
func (c *Checker) f8Encode() {
	fn := c.prog.Func(f8Pkg, "FilenameToBytes")
	if fn == nil {
		c.anchor("function fat8.FilenameToBytes not found")
		return
	}
	for _, empty := range []bool{true, false} {
		empty := empty
		c.guard("fat8.FilenameToBytes", func() {
			n := c.newF8Name()
			ip, sb := n.ip, n.sb
			st := NewState()
			name := symTerm("name")
			sb.sk[name.id] = n.x
			sb.region(st, name)
			ln := name.ln
			if empty {
				st.assume(Rel{ln, EQ})
			} else {
				st.assume(Lt(n.x, ln))
				st.assume(Lt(n.y, Const(9)))
				st.assume(Le(ln, Const(1<<30)))
			}
			dot, _ := sb.firstOf(st, name, '.')
			n.done()
			succ := false
			for _, s := range ip.Run(ip.rootOn(st, fn, []Value{StrV{name}})) {
				if s.status == panicked {
					ip.report(s, "C29", "encoding a name may panic: "+s.note)
				}
				if s.status != returned {
					continue
				}
				good, bad := s.fork(ip.isNil(s, s.results[1]))
				if bad != nil && !empty {
					n.refused(bad, name, dot)
				}
				if good == nil {
					continue
				}
				ip.Obligations++
				if empty {
					ip.report(good, "C29", "an empty name may be accepted")
					continue
				}
				succ = true
				n.encoded(good, name, dot)
			}
			if !empty && !succ {
				c.anchor("fat8.FilenameToBytes never succeeds")
			}
			c.collect(ip)
		})
	}
}

// refused checks that there was a reason to refuse a name.
func (n *f8Name) refused(st *State, name *Term, dot Poly) {
	n.ip.Obligations++
	if st.prove(Le(Const(7), dot)) {
		return
	}
	// Too long: the stem, or the extension.
	short, long := st.fork(Lt(dot, name.ln))
	ok := true
	if short != nil {
		ok = short.prove(Le(Const(4), name.ln.Sub(dot).AddConst(-1))) || n.wide(short, name)
	}
	if long != nil {
		ok = ok && (long.prove(Le(Const(7), dot)) || n.wide(long, name))
	}
	if !ok {
		n.ip.report(st, "C29", "a valid name may be refused")
	}
}

// wide tells if some byte of a name is known not to be ASCII.
func (n *f8Name) wide(st *State, name *Term) bool {
	gen := n.ip.initRegs[n.sb.reg[name.id]].gen
	for _, idx := range n.ip.genIdx[gen] {
		v, ok := n.ip.genVals[genKey{gen, idx.Key()}].(IntV)
		if ok && st.prove(Le(Const(0x80), v.p)) {
			return true
		}
	}
	return false
}

func (n *f8Name) encoded(st *State, name *Term, dot Poly) {
	ip, sb, c := n.ip, n.sb, n.c
	ip.Obligations += 3
	if !sb.isASCII(st, name) {
		ip.report(st, "C29", "a name with characters that are not ASCII may be accepted")
		return
	}
	if !st.prove(Le(dot, Const(6))) {
		ip.report(st, "C29", "a name with an over-long stem may be accepted")
		return
	}
	with, without := st.fork(Lt(dot, name.ln))
	if with != nil && !with.prove(Le(name.ln.Sub(dot), Const(4))) {
		ip.report(with, "C29", "a name with an over-long extension may be accepted")
		return
	}
	for i, s := range []*State{with, without} {
		if s == nil {
			continue
		}
		res, ok := ip.asSlice(s, s.results[0])
		if !ok || res.reg == 0 {
			ip.report(s, "C29", "the encoded name is not understood")
			continue
		}
		c.proveEq(ip, s, "C29", res.len, Const(9), "length of an encoded name")
		want := func(s *State, at Poly, msg string) {
			for _, sv := range sb.at(s, name, at) {
				b, _ := cast(sv.v)
				for _, uv := range upperByte(sv.st, b.p) {
					n.is(uv.st, res, uv.v, msg)
				}
			}
		}
		stem, rest := s.fork(Lt(n.y, Const(6)))
		if stem != nil {
			in, pad := stem.fork(Lt(n.y, dot))
			if in != nil {
				want(in, n.y, "a character of the stem")
			}
			if pad != nil {
				n.is(pad, res, IntV{p: Const(' ')}, "padding of the stem")
			}
		}
		if rest == nil {
			continue
		}
		if i == 1 {
			n.is(rest, res, IntV{p: Const(' ')}, "padding where there is no extension")
			continue
		}
		// A name that ends with a period may keep it.
		ext := name.ln.Sub(dot).AddConst(-1)
		none, some := rest.fork(Rel{ext, EQ})
		if none != nil {
			if later, _ := none.fork(Lt(Const(6), n.y)); later != nil {
				n.is(later, res, IntV{p: Const(' ')}, "padding of an empty extension")
			}
		}
		if some == nil {
			continue
		}
		in, pad := some.fork(Lt(n.y.AddConst(-6), ext))
		if in != nil {
			want(in, dot.AddConst(1).Add(n.y).AddConst(-6), "a character of the extension")
		}
		if pad != nil {
			n.is(pad, res, IntV{p: Const(' ')}, "padding of the extension")
		}
	}
}

// is checks the byte followed.
func (n *f8Name) is(st *State, res SliceV, want Value, msg string) {
	for _, sv := range n.ip.readElem(st, res.reg, res.off.Add(n.y)) {
		n.c.sameVal(n.ip, sv.st, "C29", sv.v, want, msg)
	}
}

// f8Decode checks the function that makes a name of bytes: for arbitrary ones, and for nine ASCII characters.
func (c *Checker) f8Decode() {
	fn := c.prog.Func(f8Pkg, "BytesToFilename")
	if fn == nil {
		c.anchor("function fat8.BytesToFilename not found")
		return
	}
	for _, nine := range []bool{false, true} {
		nine := nine
		c.guard("fat8.BytesToFilename", func() {
			n := c.newF8Name()
			ip, sb := n.ip, n.sb
			st := NewState()
			r := ip.newRegion(st, "raw", types.Typ[types.Byte], false)
			ip.initRegs[r] = st.regs[r]
			raw := SliceV{reg: r, off: Const(0), len: AtomPoly(NewAtomRange("length of the bytes", 0, 1<<30)), cap: AtomPoly(NewAtomMin("cap", 0))}
			gen := st.regs[r].gen
			var stem, ext Poly
			if nine {
				raw.len = Const(9)
				sb.ascii[gen] = true
				sb.marks[gen] = append(sb.marks[gen], func(st *State, idx, v Poly) []*State {
					if !st.assume(Lt(v, Const(0x80))) {
						return nil
					}
					return []*State{st}
				})
				stem, _ = sb.trimmed(st, st.regs[r], r, Const(0), Const(6), ' ')
				ext, _ = sb.trimmed(st, st.regs[r], r, Const(6), Const(3), ' ')
			}
			st.assume(Le(raw.len, raw.cap))
			n.done()
			succ := false
			for _, s := range ip.Run(ip.rootOn(st, fn, []Value{raw})) {
				if s.status == panicked {
					ip.report(s, "C29", "decoding a name may panic: "+s.note)
				}
				if s.status != returned {
					continue
				}
				good, bad := s.fork(ip.isNil(s, s.results[1]))
				ip.Obligations++
				if bad != nil && !bad.prove(Rel{raw.len.AddConst(-9), NE}) {
					ip.report(bad, "C29", "nine bytes may be refused")
				}
				if good == nil {
					continue
				}
				succ = true
				if !good.prove(Eq(raw.len, Const(9))) {
					ip.report(good, "C29", "other than nine bytes may be decoded")
				}
				if nine {
					n.decoded(good, r, stem, ext)
				}
			}
			if !succ {
				c.anchor("fat8.BytesToFilename never succeeds")
			}
			c.collect(ip)
		})
	}
}

func (n *f8Name) decoded(st *State, raw Region, stem, ext Poly) {
	ip, sb, c := n.ip, n.sb, n.c
	t := strOf(st.results[0])
	if t == nil {
		ip.report(st, "C29", "the decoded name is not understood")
		return
	}
	none, some := st.fork(Rel{ext, EQ})
	for i, s := range []*State{none, some} {
		if s == nil {
			continue
		}
		total := stem
		if i == 1 {
			total = stem.AddConst(1).Add(ext)
		}
		c.proveEq(ip, s, "C29", t.ln, total, "length of a decoded name")
		if !s.assume(Lt(n.y, total)) {
			continue
		}
		check := func(s *State, want Value, msg string) {
			for _, sv := range sb.at(s, t, n.y) {
				c.sameVal(ip, sv.st, "C29", sv.v, want, msg)
			}
		}
		from := func(s *State, at Poly, msg string) {
			for _, sv := range ip.readElem(s, raw, at) {
				b, _ := cast(sv.v)
				for _, uv := range upperByte(sv.st, b.p) {
					check(uv.st, uv.v, msg)
				}
			}
		}
		in, rest := s.fork(Lt(n.y, stem))
		if in != nil {
			from(in, n.y, "a character of the decoded stem")
		}
		if rest == nil {
			continue
		}
		dot, after := rest.fork(Eq(n.y, stem))
		if dot != nil {
			check(dot, IntV{p: Const('.')}, "the period of a decoded name")
		}
		if after != nil {
			from(after, n.y.Sub(stem).AddConst(5), "a character of the decoded extension")
		}
	}
}

func (c *Checker) fat8Names() {
	c.f8Encode()
	c.f8Decode()
}

func init() {
	register(&check{id: "C29", title: "FAT8 file names always encode to nine bytes or are refused",
		run:     func(c *Checker) { c.once("fat8name", func(s *Checker) { s.fat8Names() }) },
		rules:   []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"},
		floors:  map[string]int{"roots": 4, "obligations": 40},
		explain: "FilenameToBytes was interpreted for an arbitrary name and BytesToFilename for arbitrary bytes, following one arbitrary byte of the argument and one of the result.",
	})
}
