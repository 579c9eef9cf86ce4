package main

// C43: the catalogue of disk geometries.

import (
	"encoding/csv"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const disksPkg = "disks"

// positive lists the columns that must not be zero.
var positiveColumns = []string{"bits_per_address_unit", "address_units_per_sector", "sectors_per_track", "total_data_tracks", "heads"}

// geometryColumns names the column each quantity is read from.
var geometryColumns = map[string]string{
	"Name": "name", "Slug": "slug", "BitsPerAddressUnit": "bits_per_address_unit",
	"AddressUnitsPerSector": "address_units_per_sector", "SectorsPerTrack": "sectors_per_track",
	"TotalDataTracks": "total_data_tracks", "HiddenTracks": "hidden_tracks", "Heads": "heads",
}

func (c *Checker) geometries() {
	const rule = "C43"
	pk := c.prog.byPath[modulePath+"/"+disksPkg]
	gt := c.prog.Type(disksPkg, "DiskGeometry")
	if pk == nil || gt == nil {
		c.anchor("type disks.DiskGeometry not found")
		return
	}
	st, _ := gt.Underlying().(*types.Struct)
	if st == nil {
		c.anchor("disks.DiskGeometry is not a struct")
		return
	}
	for _, f := range pk.EmbedFiles {
		if strings.HasSuffix(f, ".csv") {
			c.catalogue(rule, f, st)
		}
	}
	if c.stats.Counts["tables"] == 0 {
		c.anchor("no embedded table of geometries was found")
	}
	c.geometryInit(rule, gt)
	c.geometryLookup(rule, gt)
	c.geometrySize(rule, gt)
}

func (c *Checker) catalogue(rule, file string, st *types.Struct) {
	rel, _ := filepath.Rel(c.prog.dir, file)
	bad := func(row int, format string, args ...interface{}) {
		c.add(Finding{rule: rule, pos: fmt.Sprintf("%s:%d", rel, row), fn: "catalogue", msg: fmt.Sprintf(format, args...)})
	}
	b, err := os.ReadFile(file)
	if err != nil {
		bad(1, "cannot be read: %s", err)
		return
	}
	r := csv.NewReader(strings.NewReader(string(b)))
	r.Comma = '|'
	rows, err := r.ReadAll()
	if err != nil {
		bad(1, "cannot be parsed: %s", err)
		return
	}
	if len(rows) == 0 {
		bad(1, "is empty")
		return
	}
	c.stats.Counts["tables"]++
	col := map[string]int{}
	for i, h := range rows[0] {
		if _, dup := col[h]; dup {
			bad(1, "column %s occurs twice", h)
		}
		col[h] = i
	}
	used := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("csv"), ",")[0]
		if tag == "" || tag == "-" {
			continue
		}
		if used[tag] {
			bad(1, "two fields of DiskGeometry are filled from column %s", tag)
		}
		used[tag] = true
		if want, ok := geometryColumns[st.Field(i).Name()]; ok && want != tag {
			bad(1, "field %s is filled from column %s", st.Field(i).Name(), tag)
		}
		j, ok := col[tag]
		if !ok {
			bad(1, "there is no column for field %s", st.Field(i).Name())
			continue
		}
		bt, _ := st.Field(i).Type().Underlying().(*types.Basic)
		if bt == nil || bt.Info()&types.IsInteger == 0 {
			continue
		}
		for n, row := range rows[1:] {
			if _, err := strconv.ParseUint(row[j], 10, 63); err != nil {
				bad(n+2, "column %s is not a number: %q", tag, row[j])
			}
		}
	}
	for _, h := range rows[0] {
		if !used[h] {
			bad(1, "column %s belongs to no field", h)
		}
	}
	slugs := map[string]int{}
	for n, row := range rows[1:] {
		c.stats.Counts["rows"]++
		if j, ok := col["slug"]; ok {
			s := row[j]
			if s == "" || s != strings.ToLower(s) || strings.ContainsAny(s, " \t\r\n") {
				bad(n+2, "the slug %q is not lowercase", s)
			}
			if m, dup := slugs[s]; dup {
				bad(n+2, "the slug %q is also used in row %d", s, m)
			}
			slugs[s] = n + 2
		}
		for _, p := range positiveColumns {
			if j, ok := col[p]; ok {
				if v, err := strconv.ParseUint(row[j], 10, 63); err == nil && v == 0 {
					bad(n+2, "column %s is zero", p)
				}
			}
		}
	}
}

// geometryTable finds the variable that lookups use.
func (c *Checker) geometryTable() *ssa.Global {
	pk := c.prog.Pkg(disksPkg)
	gt := c.prog.Type(disksPkg, "DiskGeometry")
	for _, n := range pk.Scope().Names() {
		v, ok := pk.Scope().Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		if m, ok := v.Type().Underlying().(*types.Map); ok {
			t := m.Elem()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if types.Identical(t, gt) {
				return c.prog.ssa.Package(pk).Var(n)
			}
		}
	}
	return nil
}

func (c *Checker) fieldOf(t *types.Named, v Value, name string) Value {
	fs, ok := structFields(t, name)
	s, isS := v.(StructV)
	if !ok || !isS || fs[0] >= len(s.f) {
		return nil
	}
	return s.f[fs[0]]
}

func (c *Checker) geometryInit(rule string, gt *types.Named) {
	g := c.geometryTable()
	if g == nil {
		c.anchor("the table of geometries was not found")
		return
	}
	pkg := c.prog.ssa.Package(c.prog.Pkg(disksPkg))
	init := pkg.Func("init")
	c.guard(init.String(), func() {
		c.prog.reset()
		ip := c.newInterp()
		ip.noObl["panic"] = true
		ip.Cut = func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg != pkg }
		decode := func(ip *Interp, st *State, cc *CallCtx) []*State {
			e := ip.unknownErr(errorType, "Decode")
			c.stats.Counts["decodes"]++
			if i, ok := cc.args[len(cc.args)-1].(IfaceV); ok {
				if p, ok := i.v.(PtrV); ok {
					if pt, ok := i.dyn.Underlying().(*types.Pointer); ok {
						v := ip.fresh(st, "row", pt.Elem())
						ip.store(st, p, pt.Elem(), v)
						st.ghost["row"] = v
					}
				}
			}
			cc.ret(ip, st, e)
			ip.record(st, cc, e)
			return []*State{st}
		}
		for _, n := range []string{"(*github.com/jszwec/csvutil.Decoder).Decode"} {
			ip.Models[n] = decode
		}
		stored := func(st *State) bool {
			row := st.ghost["row"]
			for e := st.events; e != nil; e = e.prev {
				if e.ev.kind == "mapupdate" {
					return valueEq(e.ev.args[2], row) && valueEq(e.ev.args[1], c.fieldOf(gt, row, "Slug"))
				}
				if e.ev.kind == "call" && strings.HasSuffix(e.ev.name, ".Decode") {
					return false
				}
			}
			return false
		}
		check := func(st *State, what string) {
			if st.ghost["row"] == nil {
				return
			}
			var last *Event
			for e := st.events; e != nil && last == nil; e = e.prev {
				if e.ev.kind == "call" && strings.HasSuffix(e.ev.name, ".Decode") {
					last = e.ev
				}
			}
			if last == nil {
				return
			}
			e, _ := last.res[0].(*SymV)
			ip.Obligations++
			if e == nil || !st.feasible(ip.isNil(st, e)) {
				return
			}
			t := st.clone()
			if t.assume(ip.isNil(t, e)) && !stored(t) {
				ip.reportAt(t, last.instr, rule, "a row of the catalogue may not be entered under its slug "+what)
			}
		}
		ip.OnEdge = func(ip *Interp, st, head *State) { check(st, "before the next one is read") }
		n := 0
		for _, s := range ip.Run(ip.rootOn(ip.uninitialised(pkg), init, nil)) {
			if s.status != returned {
				continue
			}
			n++
			check(s, "when loading ends")
			for _, u := range s.errs {
				ip.Obligations++
				if strings.HasSuffix(u.ev.name, ".Decode") && !ip.handled(s, u.e, []string{ioEOF}) {
					ip.reportAt(s, u.ev.instr, rule, "loading may end before the catalogue does")
				}
			}
			if o, ok := ip.prog.globals[g]; ok {
				if v, ok := s.cells[cellKey{o, ""}]; ok {
					if _, isMap := v.(MapV); !isMap {
						ip.reportAt(s, nil, rule, "the table of geometries may not be initialised")
					}
				}
			}
		}
		if n == 0 {
			c.anchor("the initialisation of the catalogue was not understood")
		}
		c.keepRule(ip, rule)
	})
	if c.stats.Counts["decodes"] == 0 {
		c.anchor("no row of the catalogue is decoded during initialisation")
	}
}

func (c *Checker) geometryLookup(rule string, gt *types.Named) {
	fn := c.prog.Func(disksPkg, "GetPredefinedDiskGeometry")
	if fn == nil {
		c.anchor("function disks.GetPredefinedDiskGeometry not found")
		return
	}
	c.guard(fn.String(), func() {
		c.prog.reset()
		ip := c.newInterp()
		st := NewState()
		args := c.freshArgs(ip, st, fn)
		n := 0
		for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
			if s.status != returned {
				continue
			}
			n++
			ok, bad := ip.splitErr(fn, s)
			entry := func(s *State, present int) *mapEntry {
				for _, m := range s.maps {
					for i := range m.entries {
						if m.entries[i].present == present && valueEq(m.entries[i].key, args[0]) {
							return &m.entries[i]
						}
					}
				}
				return nil
			}
			ip.Obligations++
			if ok != nil {
				e := entry(ok, 1)
				if e == nil || !valueEq(e.val, ok.results[0]) {
					ip.reportAt(ok, nil, rule, "what is returned may not be the geometry with the given slug")
				}
			}
			if bad != nil && entry(bad, 0) == nil {
				ip.reportAt(bad, nil, rule, "a geometry that is in the catalogue may not be found")
			}
		}
		if n < 2 {
			c.anchor("the lookup of geometries was not understood")
		}
		c.keepRule(ip, rule)
	})
}

func (c *Checker) geometrySize(rule string, gt *types.Named) {
	fn := c.prog.Method(disksPkg, "DiskGeometry", "TotalSizeBytes")
	fs, ok := structFields(gt, "BitsPerAddressUnit", "AddressUnitsPerSector", "SectorsPerTrack", "TotalDataTracks", "Heads")
	if fn == nil || !ok {
		c.anchor("method disks.DiskGeometry.TotalSizeBytes not found")
		return
	}
	c.guard(fn.String(), func() {
		c.prog.reset()
		ip := c.newInterp()
		st := NewState()
		args := c.freshArgs(ip, st, fn)
		prod := Const(1)
		for _, f := range fs {
			var v Value
			if p, ok := args[0].(PtrV); ok {
				v = ip.loadCell(st, p.obj, fieldPath("", f), gt.Underlying().(*types.Struct).Field(f).Type())
			}
			i, ok := v.(IntV)
			if !ok {
				c.anchor("a field of disks.DiskGeometry was not understood")
				return
			}
			prod = prod.Mul(i.p)
		}
		// The product is far below 2^63.
		st.assume(Le(prod, Const(1<<48)))
		n := 0
		for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
			if s.status != returned {
				continue
			}
			n++
			r, ok := s.results[0].(IntV)
			ip.Obligations++
			if !ok || !s.prove(Le(prod, r.p.Mul(Const(8)))) || !s.prove(Le(r.p.Mul(Const(8)), prod.AddConst(7))) {
				ip.reportAt(s, nil, rule, "the size may not be the number of bits divided by eight, rounded up")
			}
		}
		if n > 0 {
			c.stats.Counts["sizes"]++
		}
		c.keepRule(ip, rule)
	})
}

func init() {
	register(&check{id: "C43", explain: "The embedded catalogue was read and judged row by row with the tags of the row type; the loading code, the lookup and TotalSizeBytes were interpreted for an arbitrary row, slug and geometry.", title: "The predefined disk geometries are complete and unambiguous", run: func(c *Checker) {
		c.once("geom", func(c *Checker) { c.geometries() })
	}, floors: map[string]int{"rows": 20, "sizes": 1, "decodes": 1}})
}
