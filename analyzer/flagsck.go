package main

// C42: flags mean what they are documented to mean.

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// documented values of the flag constants
var flagValues = map[string]int64{
	"S_IXOTH": 1, "S_IWOTH": 2, "S_IROTH": 4, "S_IXGRP": 010, "S_IWGRP": 020, "S_IRGRP": 040,
	"S_IXUSR": 0100, "S_IWUSR": 0200, "S_IRUSR": 0400, "S_ISVTX": 01000, "S_ISGID": 02000, "S_ISUID": 04000,
	"S_IFIFO": 0x1000, "S_IFCHR": 0x2000, "S_IFDIR": 0x4000, "S_IFREG": 0x8000,
	"S_IFBLK": 0x6000, "S_IFLNK": 0xa000, "S_IFSOCK": 0xc000, "S_IFMT": 0xf000,
	"S_IEXEC": 0100, "S_IWRITE": 0200, "S_IREAD": 0400, "S_IRWXO": 7, "S_IRWXG": 070, "S_IRWXU": 0700,
	"DefaultFileModeFlags": 0644, "DefaultDirModeFlags": 1<<31 | 0755,
	"O_RDONLY": 0, "O_WRONLY": 1, "O_RDWR": 2, "O_APPEND": 8, "O_CREATE": 0x200, "O_TRUNC": 0x400, "O_EXCL": 0x800,
	"O_SYNC": 0x2000, "O_NOFOLLOW": 0x100000, "O_DIRECTORY": 0x200000, "O_TMPFILE": 0x800000, "O_NOATIME": 0x1000000,
	"O_PATH": 0x2000000, "O_ACCMODE": 3,
	"MountFlagsAllowRead": 1, "MountFlagsAllowWrite": 2, "MountFlagsAllowInsert": 4, "MountFlagsAllowDelete": 8,
	"MountFlagsAllowAdminister": 16, "MountFlagsPreserveTimestamps": 32, "MountFlagsCustomStart": 64,
	"MountFlagsAllowReadWrite": 3, "MountFlagsAllowAll": 31, "MountFlagsMask": 63,
}

// bits of os.FileMode
const (
	modeDir, modeSymlink, modeDevice, modePipe, modeSocket, modeSetuid, modeSetgid, modeChar, modeSticky, modeIrregular = 31, 27, 26, 25, 24, 23, 22, 21, 20, 19
)

var modeTypeBits = []uint{modeDir, modeSymlink, modeDevice, modePipe, modeSocket, modeChar, modeIrregular}

// orOf is the constraint that one of some 0/1 values is 1.
func orOf(ps ...Poly) Rel {
	s := Const(-1)
	for _, p := range ps {
		s = s.Add(p)
	}
	return Rel{s, GE}
}

func (c *Checker) flags() {
	const rule = "C42"
	pkg := c.prog.Pkg("")
	if pkg == nil {
		c.anchor("root package not found")
		return
	}
	for _, n := range sortedKeys(flagValues) {
		k, ok := pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		c.stats.Counts["constants"]++
		v, exact := constant.Int64Val(constant.ToInt(k.Val()))
		if !exact || v != flagValues[n] {
			c.add(Finding{rule: rule, pos: c.prog.position(k.Pos()), fn: n, msg: fmt.Sprintf("the value of %s is %s, documented is %#x", n, k.Val(), flagValues[n])})
		}
	}

	// Query methods.
	one := func(k uint) func(st *State, p Poly) Rel {
		return func(st *State, p Poly) Rel { return Eq(st.bitOf(p, k), Const(1)) }
	}
	xor01 := func(st *State, p Poly) Rel {
		// Both bits at once are excluded.
		return Eq(st.bitOf(p, 0).Add(st.bitOf(p, 1)), Const(1))
	}
	access := func(st *State, p Poly) { st.assume(Le(st.bitOf(p, 0).Add(st.bitOf(p, 1)), Const(1))) }
	types1 := func(st *State, p Poly) {
		s := Const(0)
		for _, k := range modeTypeBits {
			if k != modeChar {
				s = s.Add(st.bitOf(p, k))
			}
		}
		st.assume(Le(s, Const(1)))
		st.assume(Le(st.bitOf(p, modeChar), st.bitOf(p, modeDevice)))
	}
	type query struct {
		typ, name string
		pre       func(st *State, p Poly)
		want      func(st *State, p Poly) Rel
	}
	for _, q := range []query{
		{"IOFlags", "Append", nil, one(3)},
		{"IOFlags", "Read", access, func(st *State, p Poly) Rel { return Eq(st.bitOf(p, 0), Const(0)) }},
		{"IOFlags", "Write", access, xor01},
		{"IOFlags", "Create", nil, one(9)},
		{"IOFlags", "Truncate", nil, one(10)},
		{"IOFlags", "Exclusive", nil, one(11)},
		{"IOFlags", "Synchronous", nil, one(13)},
		{"IOFlags", "NoFollow", nil, one(20)},
		{"IOFlags", "RequiresWritePerm", access, func(st *State, p Poly) Rel {
			return orOf(st.bitOf(p, 0), st.bitOf(p, 1), st.bitOf(p, 10))
		}},
		{"MountFlags", "CanRead", nil, one(0)},
		{"MountFlags", "CanWrite", nil, one(1)},
		{"MountFlags", "CanDelete", nil, one(3)},
		{"FileStat", "IsDir", types1, one(modeDir)},
		{"FileStat", "IsSymlink", types1, one(modeSymlink)},
		{"FileStat", "IsFile", types1, func(st *State, p Poly) Rel {
			s := Const(0)
			for _, k := range modeTypeBits {
				s = s.Add(st.bitOf(p, k))
			}
			return Eq(s, Const(0))
		}},
	} {
		fn := c.prog.ValueMethod("", q.typ, q.name)
		if fn == nil {
			c.anchor("method " + q.typ + "." + q.name + " not found")
			continue
		}
		c.flagQuery(rule, fn, q.pre, q.want)
	}
	c.osFlags(rule)
}

// flagQuery checks a method that tells something about the bits of its receiver.
func (c *Checker) flagQuery(rule string, fn *ssa.Function, pre func(*State, Poly), want func(*State, Poly) Rel) {
	c.guard(fn.String(), func() {
		c.prog.reset()
		ip := c.newInterp()
		st := NewState()
		args := c.freshArgs(ip, st, fn)
		var p Poly
		switch x := args[0].(type) {
		case IntV:
			p = x.p
		default:
			pv, ok := c.modeField(ip, st, args[0], fn)
			if !ok {
				c.anchor("the mode of the receiver of " + fn.String() + " was not found")
				return
			}
			p = pv
		}
		if pre != nil {
			pre(st, p)
		}
		n := 0
		for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
			if s.status != returned || len(s.results) != 1 {
				continue
			}
			b, ok := s.results[0].(BoolV)
			if !ok {
				continue
			}
			yes, no := s.fork(b.r)
			ip.Obligations += 2
			n++
			if yes != nil && !yes.prove(want(yes, p)) {
				ip.reportAt(yes, nil, rule, "the answer may be true although it must be false")
			}
			if no != nil {
				// want false: assuming it must be contradictory.
				t := no.clone()
				if t.assume(want(t, p)) {
					ip.reportAt(no, nil, rule, "the answer may be false although it must be true")
				}
			}
		}
		if n > 0 {
			c.stats.Counts["queries"]++
		}
		c.keepRule(ip, rule)
	})
}

// modeField finds the field of type os.FileMode of a struct (or what a pointer refers to).
func (c *Checker) modeField(ip *Interp, st *State, v Value, fn *ssa.Function) (Poly, bool) {
	t := fn.Params[0].Type()
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return Poly{}, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.TypeString(types.Unalias(s.Field(i).Type()), nil) != "io/fs.FileMode" {
			continue
		}
		if ptr {
			x, ok := ip.loadCell(st, v.(PtrV).obj, fieldPath("", i), s.Field(i).Type()).(IntV)
			return x.p, ok
		}
		x, ok := v.(StructV).f[i].(IntV)
		return x.p, ok
	}
	return Poly{}, false
}

func (c *Checker) osFlags(rule string) {
	fn := c.prog.Func("", "OSFlagsToIOFlags")
	if fn == nil {
		c.anchor("function disko.OSFlagsToIOFlags not found")
		return
	}
	osPkg := fn.Pkg.Pkg.Imports()
	vals := map[string]int64{}
	for _, p := range osPkg {
		if p.Path() == "os" {
			for _, n := range []string{"O_WRONLY", "O_RDWR", "O_APPEND", "O_CREATE", "O_EXCL", "O_SYNC", "O_TRUNC"} {
				if k, ok := p.Scope().Lookup(n).(*types.Const); ok {
					vals[n], _ = constant.Int64Val(constant.ToInt(k.Val()))
				}
			}
		}
	}
	if len(vals) != 7 {
		c.anchor("the constants of package os were not found")
		return
	}
	for mode := int64(0); mode < 3; mode++ {
		c.guard(fn.String(), func() {
			c.prog.reset()
			ip := c.newInterp()
			st := NewState()
			args := c.freshArgs(ip, st, fn)
			in := args[0].(IntV).p
			bit := func(name string) Poly {
				for k := uint(0); k < 32; k++ {
					if vals[name]&(1<<k) != 0 {
						return st.bitOf(in, k)
					}
				}
				return Const(0)
			}
			// Flags of several bits are given in full or not at all.
			for _, n := range sortedKeys(vals) {
				for k := uint(0); k < 32; k++ {
					if vals[n]&(1<<k) != 0 {
						st.assume(Eq(st.bitOf(in, k), bit(n)))
					}
				}
			}
			st.assume(Eq(bit("O_WRONLY"), Const(mode&1)))
			st.assume(Eq(bit("O_RDWR"), Const(mode>>1)))
			want := map[uint]Poly{0: bit("O_WRONLY"), 1: bit("O_RDWR"), 3: bit("O_APPEND"), 9: bit("O_CREATE"), 10: bit("O_TRUNC"), 11: bit("O_EXCL"), 13: bit("O_SYNC")}
			n := 0
			for _, s := range ip.Run(ip.rootOn(st, fn, args)) {
				if s.status != returned {
					continue
				}
				v, ok := s.results[0].(IntV)
				if !ok {
					continue
				}
				n++
				for k := uint(0); k < 62; k++ {
					w, ok := want[k]
					if !ok {
						w = Const(0)
					}
					ip.Obligations++
					if !s.proveEq(s.bitOf(v.p, k), w) {
						ip.reportAt(s, nil, rule, fmt.Sprintf("bit %d of the converted flags may be wrong", k))
					}
				}
			}
			if n > 0 {
				c.stats.Counts["queries"]++
			}
			c.keepRule(ip, rule)
		})
	}
}

func init() {
	register(&check{id: "C42", explain: "The values of all flag constants were evaluated and compared with the documented ones; OSFlagsToIOFlags and every query method of IOFlags and MountFlags were interpreted for an arbitrary word of flags, each bit of the result compared with its meaning.", title: "Mode and open flags have their documented, non-overlapping meaning", run: func(c *Checker) {
		c.once("flags", func(c *Checker) { c.flags() })
	}, floors: map[string]int{"constants": 45, "queries": 16}})
}
