package main

import (
	"fmt"
	"runtime/debug"
	"sort"
)

// Checker collects the results of the analyses a check consists of.
type Checker struct {
	prog     *Program
	findings []Finding
	seen     map[string]bool
	stats    *Stats
	debug    bool
	// shared holds the results of analyses that several properties use.
	shared map[string]*Checker
}

// Stats counts what was analysed.
type Stats struct {
	Roots       []string
	Obligations map[string]int
	Functions   map[string]bool
	Calls       map[string]int
	Loops       int
	Unmodelled  map[string]int
	Counts      map[string]int
}

func newStats() *Stats {
	return &Stats{Obligations: map[string]int{}, Functions: map[string]bool{}, Calls: map[string]int{}, Unmodelled: map[string]int{}, Counts: map[string]int{}}
}

func NewChecker(p *Program) *Checker {
	return &Checker{prog: p, seen: map[string]bool{}, stats: newStats()}
}

func (c *Checker) sub() *Checker {
	n := NewChecker(c.prog)
	n.debug = c.debug
	return n
}

// once runs an analysis used by several properties and takes over its results.
func (c *Checker) once(key string, f func(c *Checker)) {
	s := c.shared[key]
	if s == nil {
		s = c.sub()
		f(s)
		if c.shared != nil {
			c.shared[key] = s
		}
	}
	c.merge(s)
}

func (c *Checker) merge(o *Checker) {
	for _, f := range o.findings {
		c.add(f)
	}
	s, t := c.stats, o.stats
	s.Roots = append(s.Roots, t.Roots...)
	for k, v := range t.Obligations {
		s.Obligations[k] += v
	}
	for k := range t.Functions {
		s.Functions[k] = true
	}
	for k, v := range t.Calls {
		s.Calls[k] += v
	}
	for k, v := range t.Unmodelled {
		s.Unmodelled[k] += v
	}
	for k, v := range t.Counts {
		s.Counts[k] += v
	}
	s.Loops += t.Loops
}

func (c *Checker) add(f Finding) {
	k := f.rule + "|" + f.pos + "|" + f.msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.findings = append(c.findings, f)
}

// anchor reports that something the check relies on was not found.
func (c *Checker) anchor(msg string) {
	c.add(Finding{rule: "anchor", pos: "?", msg: msg})
}

// guard runs an analysis; failing to complete it is a finding.
func (c *Checker) guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetExceeded); ok {
				c.add(Finding{rule: "undecided", pos: what, msg: what + ": " + b.why})
				return
			}
			msg := fmt.Sprint(r)
			if c.debug {
				msg += "\n" + string(debug.Stack())
			}
			c.add(Finding{rule: "undecided", pos: what, msg: what + ": internal error: " + msg})
		}
	}()
	c.stats.Roots = append(c.stats.Roots, what)
	f()
}

func (c *Checker) newInterp() *Interp {
	ip := NewInterp(c.prog)
	ip.Debug = c.debug
	return ip
}

// collect takes over the findings and statistics of an interpreter.
func (c *Checker) collect(ip *Interp) {
	for _, f := range ip.findings {
		c.add(f)
	}
	root := "?"
	if ip.rootFn != nil {
		root = ip.rootFn.String()
	}
	c.stats.Obligations[root] += ip.Obligations
	for f := range ip.FnsSeen {
		c.stats.Functions[f.String()] = true
	}
	for k, v := range ip.CallsSeen {
		c.stats.Calls[k] += v
	}
	for k, v := range ip.Unmodelled {
		c.stats.Unmodelled[k] += v
	}
	c.stats.Loops += ip.Loops
}

func (c *Checker) proveRel(ip *Interp, st *State, rule string, r Rel, msg string) bool {
	ip.Obligations++
	if st.prove(r) {
		return true
	}
	ip.report(st, rule, fmt.Sprintf("%s (cannot establish %s)", msg, r))
	return false
}

func (c *Checker) proveEq(ip *Interp, st *State, rule string, a, b Poly, msg string) bool {
	ip.Obligations++
	if st.proveEq(a, b) {
		return true
	}
	ip.report(st, rule, fmt.Sprintf("%s (%s and %s may differ)", msg, a, b))
	return false
}

// sameVal checks that two values are equal.
func (c *Checker) sameVal(ip *Interp, st *State, rule string, a, b Value, msg string) bool {
	ip.Obligations++
	x, ok := a.(IntV)
	y, ok2 := b.(IntV)
	if ok && ok2 && st.proveEq(x.p, y.p) {
		return true
	}
	if !ok && !ok2 && valueEq(a, b) {
		return true
	}
	ip.report(st, rule, fmt.Sprintf("%s (%s, expected %s)", msg, showVal(a), showVal(b)))
	return false
}

func (c *Checker) dump() {
	sort.Slice(c.findings, func(i, j int) bool { return c.findings[i].rule < c.findings[j].rule })
	for _, f := range c.findings {
		fmt.Printf("%s %s %s: %s\n", f.rule, f.pos, f.fn, f.msg)
		if c.debug {
			for _, l := range f.path {
				fmt.Println("    " + l)
			}
		}
	}
}
