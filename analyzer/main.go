package main

// Command line: decide one property for the repository's current source.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// check says how a property is decided.
type check struct {
	id    string
	title string
	// run performs the analyses.
	run func(c *Checker)
	// rules whose findings count as violations of this property, besides "anchor" and "undecided".
	rules []string
	// floors are the least counts that the analysis must reach; they guard against checks that have become
	// vacuous.
	floors map[string]int
	// what is reported in the evidence
	explain     string
	assumptions []string
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

func main() {
	repo := flag.String("repo", "/repo", "directory of the repository")
	id := flag.String("check", "", "property to decide; empty: all, as text")
	evidence := flag.String("evidence", "", "evidence file to write")
	replay := flag.String("replay", "", "file to write violations to")
	known := flag.String("known", "", "file of known findings")
	dbg := flag.Bool("debug", os.Getenv("DEBUG") != "", "print paths")
	list := flag.Bool("list", false, "list the properties that have a check")
	flag.Parse()
	if *list {
		for _, k := range sortedKeys(checks) {
			fmt.Println(k, checks[k].title)
		}
		return
	}
	start := time.Now()
	var ids []string
	for _, k := range strings.Split(*id, ",") {
		if k == "" {
			continue
		}
		if checks[k] == nil {
			fmt.Fprintln(os.Stderr, "unknown property", k)
			os.Exit(2)
		}
		ids = append(ids, k)
	}
	if len(ids) == 0 {
		ids = sortedKeys(checks)
	}
	p, err := LoadProgram(*repo)
	bad := false
	cache := map[string]*Checker{}
	for _, k := range ids {
		def := checks[k]
		c := &Checker{}
		if err != nil {
			c = NewChecker(nil)
			c.add(Finding{rule: "load", pos: "?", msg: err.Error()})
		} else {
			c = NewChecker(p)
			c.debug = *dbg
			c.shared = cache
			def.run(c)
		}
		fs := def.select_(c)
		for _, n := range sortedKeys(def.floors) {
			if got := c.count(n); got < def.floors[n] && err == nil {
				fs = append(fs, Finding{rule: "floor", pos: "?", msg: fmt.Sprintf("only %d %s were analysed, at least %d are there", got, n, def.floors[n])})
			}
		}
		knownLines, unknown := applyKnown(*known, k, fs)
		for _, l := range knownLines {
			fmt.Println(l)
		}
		if len(unknown) > 0 {
			bad = true
			rp := *replay
			if rp == "" {
				rp = "-"
			} else {
				writeReport(rp, def, unknown)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", k, rp)
			for i, f := range unknown {
				if i >= 20 {
					fmt.Printf("  ... %d more\n", len(unknown)-i)
					break
				}
				fmt.Printf("  %s [%s] %s: %s\n", f.pos, f.rule, f.fn, f.msg)
				if *dbg {
					for _, l := range f.path {
						fmt.Println("      " + l)
					}
				}
			}
		} else {
			fmt.Printf("OK property=%s roots=%d obligations=%d\n", k, len(c.stats.Roots), c.count("obligations"))
		}
		if *evidence != "" {
			writeEvidence(*evidence, def, c, len(unknown), time.Since(start).Seconds(), knownLines)
		}
	}
	if bad {
		os.Exit(1)
	}
}

func (d *check) select_(c *Checker) []Finding {
	var out []Finding
	for _, f := range c.findings {
		ok := f.rule == "anchor" || f.rule == "undecided" || f.rule == "load" || f.rule == d.id
		for _, r := range d.rules {
			if f.rule == r {
				ok = true
			}
		}
		if ok {
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].pos < out[j].pos })
	return out
}

// count gives a statistic by name.
func (c *Checker) count(n string) int {
	switch n {
	case "roots":
		return len(c.stats.Roots)
	case "functions":
		return len(c.stats.Functions)
	case "obligations":
		t := 0
		for _, v := range c.stats.Obligations {
			t += v
		}
		return t
	case "calls":
		t := 0
		for _, v := range c.stats.Calls {
			t += v
		}
		return t
	case "loops":
		return c.stats.Loops
	}
	return c.stats.Counts[n]
}

// applyKnown separates the findings listed as known. A line of the file is
// "KNOWN-FINDING: property=<id> rule=<rule> fn=<function> <text>": it stands for findings of that rule in
// that function whose message contains the text up to " -- ".
func applyKnown(file, id string, fs []Finding) (lines []string, unknown []Finding) {
	type entry struct{ rule, fn, text, line string }
	var es []entry
	if file != "" {
		if f, err := os.Open(file); err == nil {
			sc := bufio.NewScanner(f)
			for sc.Scan() {
				l := strings.TrimSpace(sc.Text())
				if !strings.HasPrefix(l, "KNOWN-FINDING: property="+id+" ") {
					continue
				}
				rest := strings.TrimPrefix(l, "KNOWN-FINDING: property="+id+" ")
				var e entry
				e.line = l
				for _, w := range strings.SplitN(rest, " ", 3) {
					switch {
					case strings.HasPrefix(w, "rule="):
						e.rule = w[5:]
					case strings.HasPrefix(w, "fn="):
						e.fn = w[3:]
					default:
						e.text = w
					}
				}
				if i := strings.Index(e.text, " -- "); i >= 0 {
					e.text = e.text[:i]
				}
				es = append(es, e)
			}
			f.Close()
		}
	}
	for _, f := range fs {
		known := false
		for _, e := range es {
			if e.rule == f.rule && e.fn == f.fn && strings.Contains(f.msg, e.text) {
				known = true
			}
		}
		if !known {
			unknown = append(unknown, f)
		}
	}
	for _, e := range es {
		lines = append(lines, e.line)
	}
	return
}

func writeReport(path string, d *check, fs []Finding) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n\n", d.id, d.title)
	for i, f := range fs {
		fmt.Fprintf(&sb, "%d. %s\n   rule %s, in %s\n   %s\n", i+1, f.pos, f.rule, f.fn, f.msg)
		for _, l := range f.path {
			fmt.Fprintf(&sb, "     %s\n", l)
		}
	}
	fmt.Fprintf(&sb, "\nTo see this again: /verif/run.sh %s\n", d.id)
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	_ = os.WriteFile(path, []byte(sb.String()), 0o644)
}

func writeEvidence(path string, d *check, c *Checker, violations int, wall float64, known []string) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fns := sortedKeys(c.stats.Functions)
	cov := map[string]interface{}{
		"explanation":        d.explain,
		"entry_points":       c.stats.Roots,
		"functions_analysed": fns,
		"obligations":        c.count("obligations"),
		"loops_solved":       c.stats.Loops,
		"calls_by_callee":    c.stats.Calls,
	}
	if len(c.stats.Unmodelled) > 0 {
		cov["calls_treated_as_unknown"] = c.stats.Unmodelled
	}
	for k, v := range c.stats.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	cov["findings"] = len(c.findings)
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	ev := map[string]interface{}{
		"property": d.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": violations,
	}
	as := append([]string{
		"integer arithmetic on 64-bit quantities does not overflow (file and disk sizes stay below 2^48)",
		"the standard library and third-party functions behave as their models in analyzer/models.go say",
	}, d.assumptions...)
	ev["assumptions"] = as
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}
