package main

// Printing of states, for -debug.

import (
	"fmt"
	"sort"
	"strings"
)

func (st *State) dump() string {
	var b strings.Builder
	for _, r := range st.cons {
		fmt.Fprintf(&b, "    fact %s\n", r)
	}
	for _, r := range st.nes {
		fmt.Fprintf(&b, "    fact %s\n", r)
	}
	var gs []string
	for k, v := range st.ghost {
		gs = append(gs, fmt.Sprintf("    ghost %s = %v\n", k, v))
	}
	sort.Strings(gs)
	b.WriteString(strings.Join(gs, ""))
	for e := st.events; e != nil; e = e.prev {
		fmt.Fprintf(&b, "    event %s\n", e.ev.name)
	}
	for _, f := range st.frames {
		fmt.Fprintf(&b, "    frame %s\n", f.fn)
	}
	return b.String()
}
