package main

// C35: flags and sizes of Unix v6 inodes.

import (
	"go/constant"
	"go/types"

	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

const v6Pkg = "file_systems/unixv6"

// The layout of the flags of an inode.
const (
	v6Allocated = 0x8000
	v6TypeMask  = 0x6000
	v6Large     = 0x1000
	v6SetUID    = 0x800
	v6SetGID    = 0x400
	v6Sticky    = 0x200
)

// v6Modes gives the standard type of each type of inode.
var v6Modes = map[int64]os.FileMode{
	0: 0, 0x2000: os.ModeDevice | os.ModeCharDevice, 0x4000: os.ModeDir, 0x6000: os.ModeDevice,
}

// v6Run is an analysis of a function on inodes.
type v6Run struct {
	c  *Checker
	ip *Interp
	st *State
}

func (c *Checker) newV6() *v6Run {
	c.prog.reset()
	ip := c.newInterp()
	ip.Track = func(st *State, r Region) []Poly { return nil }
	for _, m := range []string{"UTC", "Local", "In", "Round"} {
		ip.Models["(time.Time)."+m] = func(ip *Interp, st *State, cc *CallCtx) []*State {
			cc.ret(ip, st, cc.args[0])
			return []*State{st}
		}
	}
	return &v6Run{c, ip, NewState()}
}

// flags are flags with arbitrary permissions.
func (q *v6Run) flags(high int64) Poly {
	p := Const(high)
	for k := 0; k < 9; k++ {
		a := NewAtomRange(fmt.Sprint("permission", k), 0, 1)
		bitAtoms[a] = true
		bitInfo[a] = bitOrigin{AtomPoly(a), 0}
		p = p.Add(AtomPoly(a).Mul(Const(1 << k)))
	}
	return p
}

// mode is what the flags are as a mode.
func v6Mode(flags Poly, high int64) Poly {
	m := v6Modes[high&v6TypeMask]
	if high&v6SetUID != 0 {
		m |= os.ModeSetuid
	}
	if high&v6SetGID != 0 {
		m |= os.ModeSetgid
	}
	return flags.Sub(Const(high)).Add(Const(int64(m)))
}

// each runs a function; good or bad is called with every state it ends in, both may be nil.
func (q *v6Run) each(fn *ssa.Function, args []Value, good, bad func(s *State)) {
	for i := range atoms {
		q.ip.prog.inputAtoms[Atom(i)] = true
	}
	n := 0
	for _, s := range q.ip.Run(q.ip.rootOn(q.st, fn, args)) {
		if s.status == panicked {
			q.ip.report(s, "C35", fn.Name()+" may panic: "+s.note)
		}
		if s.status != returned {
			continue
		}
		n++
		g, b := q.ip.splitErr(fn, s)
		if g != nil && alive(g) {
			good(g)
		}
		if b != nil && alive(b) {
			bad(b)
		}
	}
	if n == 0 {
		q.c.anchor(fn.Name() + " never returns")
	}
	q.c.collect(q.ip)
}

// num checks a number in the result.
func (q *v6Run) num(s *State, v Value, want Poly, msg string) {
	q.ip.Obligations++
	i, ok := cast(v)
	if !ok || i.wrap {
		q.ip.report(s, "C35", msg+": value not understood")
		return
	}
	if !s.proveEq(i.p, want) {
		q.ip.report(s, "C35", fmt.Sprintf("%s: %s instead of %s", msg, i.p, want))
	}
}

// v6ToStandard checks making a mode of the flags of an inode.
func (c *Checker) v6ToStandard(fn *ssa.Function) {
	for high := int64(0); high < 1<<16; high += v6Sticky {
		q := c.newV6()
		flags := q.flags(high)
		q.each(fn, []Value{IntV{p: flags}}, func(s *State) {
			q.num(s, s.results[0], v6Mode(flags, high), fmt.Sprintf("the mode of an inode with flags %#x and any permissions", high))
		}, func(s *State) {
			q.ip.report(s, "C35", fmt.Sprintf("flags %#x of an inode may be refused", high))
		})
	}
}

// v6FromStandard checks making flags of a mode.
func (c *Checker) v6FromStandard(fn *ssa.Function) {
	types := []os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeDevice, os.ModeCharDevice, os.ModeIrregular}
	for set := 0; set < 1<<len(types); set++ {
		typ := os.FileMode(0)
		for i, t := range types {
			if set&(1<<i) != 0 {
				typ |= t
			}
		}
		of := int64(-1)
		for f, m := range v6Modes {
			if m == typ {
				of = f
			}
		}
		for _, ids := range []os.FileMode{0, os.ModeSetuid, os.ModeSetgid, os.ModeSetuid | os.ModeSetgid} {
			for _, rest := range []os.FileMode{0, os.ModeAppend | os.ModeExclusive | os.ModeTemporary | os.ModeSticky} {
				m := typ | ids | rest
				q := c.newV6()
				mode := q.flags(int64(m))
				q.each(fn, []Value{IntV{p: mode}}, func(s *State) {
					q.ip.Obligations++
					want := mode.Sub(Const(int64(m)))
					if ids&os.ModeSetuid != 0 {
						want = want.Add(Const(v6SetUID))
					}
					if ids&os.ModeSetgid != 0 {
						want = want.Add(Const(v6SetGID))
					}
					kind := of
					if typ == os.ModeCharDevice {
						kind = 0x2000 // May be refused or taken for a character device.
					}
					if kind < 0 {
						q.ip.report(s, "C35", fmt.Sprintf("mode %v may be converted though inodes have no such type", m))
						return
					}
					q.num(s, s.results[0], want.Add(Const(kind|v6Allocated)), fmt.Sprintf("the flags of an inode of mode %v and any permissions", m))
				}, func(s *State) {
					q.ip.Obligations++
					if of >= 0 && rest == 0 {
						q.ip.report(s, "C35", fmt.Sprintf("mode %v may be refused", m))
					}
				})
			}
		}
	}
}

// v6Stat checks making the status of a file from an inode.
func (c *Checker) v6Stat(fn *ssa.Function) {
	const rule = "C35"
	it := c.prog.Type(v6Pkg, "RawInode")
	stat := c.prog.Type("", "FileStat")
	if it == nil || stat == nil || len(fn.Params) != 2 {
		c.anchor("types unixv6.RawInode or FileStat not found")
		return
	}
	for high := int64(0); high < 1<<16; high += v6Sticky {
		if high&(v6Allocated|v6Large|v6Sticky) != v6Allocated && high != 0 {
			continue
		}
		q := c.newV6()
		ip, st := q.ip, q.st
		seconds := map[Atom]Poly{}
		ip.Models["time.Unix"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
			v := ip.fresh(st, "time", fn.Signature.Results().At(0).Type())
			a := NewAtomMin("time", 0)
			sec, ok := cast(cc.args[0])
			nano, ok2 := cast(cc.args[1])
			if ok && ok2 && !sec.wrap && st.proveEq(nano.p, Const(0)) {
				seconds[a] = sec.p
			}
			v = StructV{[]Value{IntV{p: Const(0)}, IntV{p: AtomPoly(a)}, NilV{}}}
			cc.ret(ip, st, v)
			return []*State{st}
		}
		obj := ip.newObj("inode", it, false)
		ip.objs[obj].param = true
		field := func(n string) (string, Poly) {
			path, ft := fieldAt(it, n)
			if ft == nil {
				panic("field " + n + " of an inode not found")
			}
			v, ok := cast(ip.loadCell(st, obj, path, ft))
			if !ok {
				panic("field " + n + " of an inode is no number")
			}
			return path, v.p
		}
		fpath, _ := field("Flags")
		_, ft := fieldAt(it, "Flags")
		flags := q.flags(high)
		ip.storeCell(st, obj, fpath, ft, IntV{p: flags})
		spath, at := fieldAt(it, "Size")
		if at == nil {
			panic("field Size of an inode not found")
		}
		var size [3]Poly
		arr := ip.loadCell(st, obj, spath, at).(ArrayV)
		if arr.n != 3 {
			panic("field Size of an inode has another length")
		}
		r := ip.arrRegs[cellKey{obj, spath}]
		for i := range size {
			size[i] = AtomPoly(NewAtomRange(fmt.Sprint("size", i), 0, 255))
			ip.writeElem(st, r, Const(int64(i)), IntV{p: size[i]})
		}
		total := size[0].Mul(Const(65536)).Add(size[2].Mul(Const(256))).Add(size[1])
		num := ip.fresh(st, "inumber", fn.Params[0].Type()).(IntV)
		want := map[string]Poly{"InodeNumber": num.p, "ModeFlags": v6Mode(flags, high), "Size": total, "BlockSize": Const(512)}
		for f, n := range map[string]string{"Nlinks": "NLink", "Uid": "UID", "Gid": "GID"} {
			_, want[f] = field(n)
		}
		times := map[string]Poly{}
		for f, n := range map[string]string{"LastAccessed": "AccessedTime", "LastModified": "ModifiedTime"} {
			_, times[f] = field(n)
		}
		inode := ip.loadCell(st, obj, "", it)
		q.each(fn, []Value{num, inode}, func(s *State) {
			get := func(n string) Value {
				path, ft := fieldAt(stat, n)
				if ft == nil {
					panic("field " + n + " of FileStat not found")
				}
				return subValue(s.results[0], path)
			}
			for f, w := range want {
				q.num(s, get(f), w, "field "+f+" of the status of an inode")
			}
			for f, w := range times {
				ip.Obligations++
				v, _ := get(f).(StructV)
				var sec Poly
				ok := false
				if len(v.f) == 3 {
					if i, isInt := cast(v.f[1]); isInt {
						if a, one := i.p.SingleAtom(); one {
							sec, ok = seconds[a]
						}
					}
				}
				if !ok || !s.proveEq(sec, w) {
					ip.report(s, rule, "field "+f+" of the status of an inode is not the time stored")
				}
			}
			n, ok := cast(get("NumBlocks"))
			if !ok {
				ip.report(s, rule, "the number of blocks is not understood")
				return
			}
			c.proveRel(ip, s, rule, Le(total, n.p.Mul(Const(512))), "an inode may have fewer blocks than its contents take")
			c.proveRel(ip, s, rule, Lt(n.p.Mul(Const(512)), total.AddConst(512)), "an inode may have more blocks than its contents take")
		}, func(s *State) {
			ip.report(s, rule, "the status of an inode may be refused")
		})
	}
}

// The layout of Unix v6.
var v6Flags = map[string]int64{
	"FlagIsAllocated": 0100000, "FileTypeMask": 060000, "FileTypeBlockDevice": 060000, "FileTypeDirectory": 040000, "FileTypeCharDevice": 020000,
	"FileTypePlainFile": 0, "FlagIsLargeFile": 010000, "FlagSetUID": 04000, "FlagSetGID": 02000, "OwnerPermMask": 0700, "FlagOwnerR": 0400,
	"FlagOwnerW": 0200, "FlagOwnerX": 0100, "GroupPermMask": 070, "FlagGroupR": 040, "FlagGroupW": 020, "FlagGroupX": 010,
	"OtherPermMask": 07, "FlagOtherR": 04, "FlagOtherW": 02, "FlagOtherX": 01,
}

var v6Structs = map[string]map[string][2]int64{
	"RawInode": {"Flags": {0, 2}, "NLink": {2, 1}, "UID": {3, 1}, "GID": {4, 1}, "Size": {5, 3}, "Addr": {8, 16}, "AccessedTime": {24, 4}, "ModifiedTime": {28, 4}},
	"RawSuperblock": {"NumInodeBlocks": {0, 2}, "TotalBlocks": {2, 2}, "NumFreeListEntries": {4, 2}, "FreeList": {6, 200}, "NumIlistEntries": {206, 2},
		"InumberList": {208, 200}, "FLock": {408, 1}, "ILock": {409, 1}, "FModFlags": {410, 1}, "SuperblockModifiedAt": {-1, 4}},
}

// v6Layout compares constants and structures with the format.
func (c *Checker) v6Layout() {
	const rule = "C35"
	pkg := c.prog.Pkg(v6Pkg)
	if pkg == nil {
		c.anchor("package unixv6 not found")
		return
	}
	for _, n := range sortedKeys(v6Flags) {
		k, ok := pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		c.stats.Counts["constants"]++
		if v, exact := constant.Int64Val(constant.ToInt(k.Val())); !exact || v != v6Flags[n] {
			c.add(Finding{rule: rule, pos: c.prog.position(k.Pos()), fn: n, msg: fmt.Sprintf("the value of %s is %s, in the format it is %#x", n, k.Val(), v6Flags[n])})
		}
	}
	for _, n := range sortedKeys(v6Structs) {
		t := c.prog.Type(v6Pkg, n)
		if t == nil {
			continue
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		at := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			size := packedSize(f.Type())
			if w, ok := v6Structs[n][f.Name()]; ok {
				c.stats.Counts["fields"]++
				if w[0] >= 0 && w[0] != at || w[1] != size {
					c.add(Finding{rule: rule, pos: c.prog.position(f.Pos()), fn: n, msg: fmt.Sprintf("field %s of %s is %d bytes at offset %d, in the format %d at %d", f.Name(), n, size, at, w[1], w[0])})
				}
			}
			at += size
		}
	}
}

// packedSize is the size encoding/binary gives a type of fixed size.
func packedSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return types.SizesFor("gc", "amd64").Sizeof(u)
	case *types.Array:
		return u.Len() * packedSize(u.Elem())
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n += packedSize(u.Field(i).Type())
		}
		return n
	}
	return -1
}

func init() {
	register(&check{id: "C35", title: "Unix v6 inode flags and sizes convert both ways without loss",
		rules: []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"},
		run: func(c *Checker) {
			c.v6Layout()
			for n, f := range map[string]func(*ssa.Function){"ConvertFSFlagsToStandard": c.v6ToStandard,
				"ConvertStandardFlagsToFS": c.v6FromStandard, "RawInodeToStat": c.v6Stat} {
				fn := c.prog.Func(v6Pkg, n)
				if fn == nil {
					c.anchor("function unixv6." + n + " not found")
					continue
				}
				c.guard("unixv6."+n, func() { f(fn) })
			}
		},
		floors: map[string]int{"roots": 3, "obligations": 1000, "constants": 10, "fields": 8},
		explain: "ConvertFSFlagsToStandard was interpreted for each of the 128 combinations of the seven high bits of the flags, ConvertStandardFlagsToFS for each of " +
			"the 128 sets of type bits, with and without the set-id bits and all others, both with nine arbitrary permission bits; RawInodeToStat with arbitrary " +
			"fields for each type and set-id combination. Every bit of the result and every field is compared with the layout of Unix v6, and so are the exported constants and the offsets of the fields of the on-disk structures.",
		assumptions: []string{"time.Unix makes the point in time its arguments denote. A mode of a character device without ModeDevice may be refused or accepted."}})
}
