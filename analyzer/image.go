package main

// C46: CompressImage and DecompressImage are inverse to each other, given that the codecs they are made of are
// (C36, C38, C39, and compress/gzip).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pipe is a stream made by the analysed function around another one.
type pipe struct {
	kind string // package and direction: "gzip.Writer", "bufio.Reader", ...
	over Value  // the stream underneath, resolved
}

type imageRun struct {
	c       *Checker
	ip      *Interp
	rule    string
	pipes   map[interface{}]*pipe
	forward map[*ssa.Function]bool
}

// resolve finds the stream that writes to, or reads from, a value end up at, looking through buffers and
// wrappers of this module that pass everything on.
func (q *imageRun) resolve(st *State, v Value) Value {
	for i := 0; i < 8; i++ {
		if p := q.pipes[ident(v)]; p != nil {
			if !strings.HasPrefix(p.kind, "bufio") {
				return v
			}
			v = p.over
			continue
		}
		w, ok := v.(IfaceV)
		if !ok {
			return v
		}
		n := namedOf(w.dyn)
		p, isP := w.v.(PtrV)
		if n == nil || !isP || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
			return v
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return v
		}
		f := q.passThrough(n, w.dyn)
		if f < 0 {
			return v
		}
		v = q.ip.loadCell(st, p.obj, fieldPath(p.path, f), s.Field(f).Type())
	}
	return v
}

// passThrough finds the field of a wrapper type that its Write method passes everything on to, -1 if there is none.
func (q *imageRun) passThrough(n *types.Named, dyn types.Type) int {
	ms := types.NewMethodSet(dyn)
	sel := ms.Lookup(n.Obj().Pkg(), "Write")
	if sel == nil {
		return -1
	}
	if len(sel.Index()) == 2 {
		return sel.Index()[0]
	}
	fn := q.c.prog.ssa.MethodValue(sel)
	if fn == nil || len(fn.Params) != 2 || len(fn.Blocks) == 0 {
		return -1
	}
	s, _ := n.Underlying().(*types.Struct)
	ip := q.c.newInterp()
	st := NewState()
	args := q.c.freshArgs(ip, st, fn)
	field := -1
	for _, o := range ip.Run(ip.rootOn(st, fn, args)) {
		if o.status != returned {
			continue
		}
		var w *Event
		calls := 0
		for e := o.events; e != nil; e = e.prev {
			if e.ev.kind == "call" && e.ev.fn != nil && e.ev.fn.Name() == "Write" {
				w = e.ev
				calls++
			}
		}
		if calls != 1 || len(w.args) != 1 || len(w.res) != 2 || !valueEq(w.args[0], args[1]) || !valueEq(w.res[0], o.results[0]) {
			return -1
		}
		if !valueEq(w.res[1], o.results[1]) && !(o.prove(ip.isNil(o, w.res[1])) && o.prove(ip.isNil(o, o.results[1]))) {
			return -1
		}
		f := -1
		if p, ok := args[0].(PtrV); ok {
			for i := 0; i < s.NumFields(); i++ {
				if v, ok := ip.initCells[cellKey{p.obj, fieldPath(p.path, i)}]; ok && w.recv != nil && valueEq(v, w.recv) {
					f = i
				}
			}
		}
		if f < 0 || field >= 0 && field != f {
			return -1
		}
		field = f
	}
	if len(ip.findings) > 0 {
		return -1
	}
	return field
}

func (c *Checker) newImage(rule string) *imageRun {
	c.prog.reset()
	q := &imageRun{c: c, ip: c.newInterp(), rule: rule, pipes: map[interface{}]*pipe{}}
	for _, r := range crashRules {
		q.ip.noObl[r] = true
	}
	create := func(kind string) Model {
		return func(ip *Interp, st *State, cc *CallCtx) []*State {
			v := ip.freshResults(st, cc)
			over := q.resolve(st, cc.args[0])
			r := v
			if t, ok := v.(TupleV); ok {
				r = t[0]
			}
			if i := ident(r); i != nil {
				q.pipes[i] = &pipe{kind, over}
			}
			cc.ret(ip, st, v)
			ip.record(st, cc, v)
			return []*State{st}
		}
	}
	for _, p := range []string{"compress/gzip", "compress/zlib", "compress/flate", "compress/lzw", "bufio"} {
		s := p[strings.LastIndexByte(p, '/')+1:]
		for _, n := range []string{"NewWriter", "NewWriterLevel", "NewWriterSize"} {
			q.ip.Models[p+"."+n] = create(s + ".Writer")
		}
		for _, n := range []string{"NewReader", "NewReaderSize"} {
			q.ip.Models[p+"."+n] = create(s + ".Reader")
		}
	}
	q.ip.Cut = func(g *ssa.Function) bool {
		o := g.Object()
		return g.Parent() == nil && o != nil && o.Exported() && g.Signature.Recv() == nil && hasErrResult(g)
	}
	return q
}

// codecs pairs functions that undo each other.
var codecs = map[string]string{"CompressRLE8": "DecompressRLE8", "CompressRLERecursive": "DecompressRLERecursive"}

// through checks that a function passes everything from its input through one codec and one compressed stream, and
// returns the names of both.
func (q *imageRun) through(fn *ssa.Function, encode bool, seen map[string]bool) {
	c, ip := q.c, q.ip
	st := NewState()
	args := c.freshArgs(ip, st, fn)
	if len(args) != 2 {
		c.anchor(fn.Name() + " does not take an input and an output")
		return
	}
	names := map[string]bool{}
	for a, b := range codecs {
		if encode {
			names[modulePath+"/"+compPkg+"."+a] = true
		} else {
			names[modulePath+"/"+compPkg+"."+b] = true
		}
	}
	n := 0
	ends := func(s *State, from, to Value) {
		// One side is the raw stream, the other one is compressed.
		inner, outer := from, to
		raw, packed := args[0], args[1]
		if !encode {
			inner, outer = to, from
			raw, packed = args[1], args[0]
		}
		ip.Obligations += 2
		if r := q.resolve(s, inner); !valueEq(r, raw) {
			ip.reportAt(s, nil, q.rule, "the data is not passed between the codec and the uncompressed stream as it is")
		}
		p := q.pipes[ident(q.resolve(s, outer))]
		switch {
		case p == nil:
			seen["none"] = true
			if !valueEq(q.resolve(s, outer), packed) {
				ip.reportAt(s, nil, q.rule, "the compressed data is not passed on as it is")
			}
		default:
			seen[strings.SplitN(p.kind, ".", 2)[0]] = true
			if strings.HasSuffix(p.kind, ".Writer") != encode || !valueEq(p.over, packed) {
				ip.reportAt(s, nil, q.rule, "the compressed data is not passed on as it is")
			}
		}
	}
	for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
		if s.status != returned {
			continue
		}
		ok, _ := ip.splitErr(fn, s)
		if ok == nil {
			continue
		}
		n++
		var codec *Event
		count := 0
		for e := ok.events; e != nil; e = e.prev {
			ev := e.ev
			if names[ev.name] {
				codec = ev
				count++
				continue
			}
			// Nothing else may be read or written.
			switch m := shortName(ev.name); m {
			case "Read", "Write", "ReadByte", "WriteByte", "WriteString", "Copy", "CopyN", "ReadAll", "ReadFull", "Seek", "Discard", "Reset", "Peek":
				ip.reportAt(ok, ev.instr, q.rule, "data is read or written besides what the codec does")
			}
		}
		ip.Obligations++
		if count != 1 {
			ip.reportAt(ok, nil, q.rule, "success is reported although the data did not pass a codec exactly once")
			continue
		}
		seen[shortName(codec.name)] = true
		ends(ok, codec.args[0], codec.args[1])
		if u := unfinished(ok); u != nil {
			ip.reportAt(ok, u.instr, q.rule, "the compressed stream is not completed before success is reported")
		}
	}
	if n == 0 {
		c.anchor("no path through " + fn.Name() + " reports success")
	}
	c.stats.Counts["pipelines"]++
}

func (c *Checker) images() {
	const rule = "C46"
	sides := [2]map[string]bool{{}, {}}
	for i, name := range []string{"CompressImage", "DecompressImage"} {
		fn := c.prog.Func(compPkg, name)
		if fn == nil {
			c.anchor("function compression." + name + " not found")
			return
		}
		c.guard(fn.String(), func() {
			q := c.newImage(rule)
			q.through(fn, i == 0, sides[i])
			c.keepRule(q.ip, rule)
		})
	}
	// Both must use the same formats.
	want := map[string]bool{}
	for k := range sides[0] {
		if d, ok := codecs[k]; ok {
			k = d
		}
		want[k] = true
	}
	same := len(want) == len(sides[1]) && len(want) == 2
	for k := range sides[1] {
		same = same && want[k]
	}
	if !same {
		c.add(Finding{rule: rule, pos: compPkg, fn: "CompressImage, DecompressImage", msg: "the formats written and read differ"})
	}
	c.imageBytes(rule)
}

// imageBytes checks that DecompressImageToBytes returns all of what was decompressed.
func (c *Checker) imageBytes(rule string) {
	fn := c.prog.Func(compPkg, "DecompressImageToBytes")
	if fn == nil {
		c.anchor("function compression.DecompressImageToBytes not found")
		return
	}
	c.guard(fn.String(), func() {
		q := c.newImage(rule)
		ip := q.ip
		// The contents of a buffer are fixed once everything was written to it.
		query := func(ip *Interp, st *State, cc *CallCtx) []*State {
			b := ident(cc.args[0])
			s, ok := st.ghost["contents"].(SliceV)
			if !ok {
				s = ip.freshSlice(st, "contents", types.Typ[types.Byte])
				st.ghost["contents"] = s
				st.ghost["buffer"] = cc.args[0]
			} else if ident(st.ghost["buffer"]) != b {
				return ip.opaque(st, cc)
			}
			ip.sliceFacts(st, s)
			var v Value = s
			if shortName(cc.name) == "Len" {
				v = IntV{p: s.len}
			}
			cc.ret(ip, st, v)
			ip.record(st, cc, nil)
			return []*State{st}
		}
		ip.Models["(*bytes.Buffer).Len"] = query
		ip.Models["(*bytes.Buffer).Bytes"] = query
		st := NewState()
		args := c.freshArgs(ip, st, fn)
		n := 0
		for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
			if s.status != returned {
				continue
			}
			ok, _ := ip.splitErr(fn, s)
			if ok == nil {
				continue
			}
			n++
			ip.Obligations += 3
			// The order of events, latest first: contents, [flush], decompression.
			var dec *Event
			queried, flushed, late := false, false, false
			for e := ok.events; e != nil; e = e.prev {
				switch m := shortName(e.ev.name); {
				case e.ev.name == "(*bytes.Buffer).Len" || e.ev.name == "(*bytes.Buffer).Bytes":
					late = late || dec != nil || flushed
					queried = true
				case m == "Flush":
					flushed = true
					if !queried {
						late = true
					}
				case m == "DecompressImage":
					dec = e.ev
				case strings.HasPrefix(e.ev.name, "(*bytes.Buffer).") || strings.HasPrefix(m, "Write"):
					late = true
				}
			}
			if dec == nil || !valueEq(q.resolve(ok, dec.args[0]), args[0]) {
				ip.reportAt(ok, nil, rule, "the input may not be decompressed")
				continue
			}
			if late {
				ip.reportAt(ok, nil, rule, "what is returned may be taken before everything is decompressed")
			}
			buf, has := ok.ghost["contents"].(SliceV)
			if !has || ident(q.resolve(ok, dec.args[1])) != ident(ok.ghost["buffer"]) {
				ip.reportAt(ok, nil, rule, "what is returned may not be what was decompressed")
				continue
			}
			if p := q.pipes[ident(dec.args[1])]; p != nil && strings.HasPrefix(p.kind, "bufio") && !flushed {
				ip.reportAt(ok, nil, rule, "decompressed data may remain in a buffer")
			}
			r, isS := ok.results[0].(SliceV)
			if !isS || !ok.proveEq(r.len, buf.len) {
				ip.reportAt(ok, nil, rule, "the number of bytes returned may differ from the number of bytes decompressed")
				continue
			}
			k := AtomPoly(NewAtomMin("k", 0))
			if !ok.assume(Lt(k, buf.len)) {
				continue
			}
			for _, a := range ip.readElem(ok, r.reg, r.off.Add(k)) {
				for _, b := range ip.readElem(a.st, buf.reg, buf.off.Add(k)) {
					x, y := a.v, b.v
					i, ok1 := x.(IntV)
					j, ok2 := y.(IntV)
					if !ok1 || !ok2 || !b.st.proveEq(i.p, j.p) {
						ip.reportAt(b.st, nil, rule, "the bytes returned may differ from the bytes decompressed")
					}
				}
			}
		}
		if n == 0 {
			c.anchor("no path through DecompressImageToBytes reports success")
		}
		c.keepRule(ip, rule)
		c.stats.Counts["pipelines"]++
	})
}

func init() {
	register(&check{id: "C46", explain: "CompressImage and DecompressImage were interpreted for arbitrary streams: on every successful path the data must go through codecs that are inverse to each other in the reverse order, from the whole input to the output and completed, with nothing else written in between. The codecs themselves are decided in C36, C38 and C39; compress/gzip is trusted.", title: "Compressed images decompress to the original bytes", run: func(c *Checker) {
		c.once("image", func(c *Checker) { c.images() })
		c.once("rle8", func(c *Checker) {
			c.compress("CompressRLE8", "C36", false)
			c.decompress("DecompressRLE8", "C36", false)
		})
		c.once("grouper", func(c *Checker) { c.grouper() })
		c.once("comperr", func(c *Checker) { c.compErrors() })
	}, rules: append([]string{"C36", "C37", "C39", "C39e"}, crashRules...), floors: map[string]int{"pipelines": 3, "roots": 5}})
}
