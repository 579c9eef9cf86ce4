package main

// Emptiness of polyhedra: the entailment test of the linear-inequality domain. A conjunction of linear
// inequalities over monomials is tested for emptiness over the rationals with an exact simplex tableau,
// after relevance filtering and after multiplying inequalities by nonnegative atoms where a product
// monomial occurs. "Empty" is always exact; "not empty" may be an over-approximation.

import (
	"math/big"
	"sort"
	"strings"
)

type numeric[T any] interface {
	Add(T) T
	Mul(T) T
	Div(T) T
	Neg() T
	Sign() int
}

// ---- int64 rationals -----------------------------------------------------------

type ratOverflow struct{}

type frac struct{ n, d int64 }

func mkFrac(n, d int64) frac {
	if d == 1 {
		return frac{n, 1}
	}
	if n == 0 {
		return frac{0, 1}
	}
	if d < 0 {
		n, d = -n, -d
	}
	g := int64(gcd64(uabs(n), uabs(d)))
	if g > 1 {
		n /= g
		d /= g
	}
	return frac{n, d}
}

func mustMul(a, b int64) int64 {
	r, ok := mulOv(a, b)
	if !ok {
		panic(ratOverflow{})
	}
	return r
}

func mustAdd(a, b int64) int64 {
	r, ok := addOv(a, b)
	if !ok {
		panic(ratOverflow{})
	}
	return r
}

func (a frac) Add(b frac) frac {
	if a.d == 1 && b.d == 1 {
		return frac{mustAdd(a.n, b.n), 1}
	}
	return mkFrac(mustAdd(mustMul(a.n, b.d), mustMul(b.n, a.d)), mustMul(a.d, b.d))
}
func (a frac) Mul(b frac) frac {
	if a.n == 0 || b.n == 0 {
		return frac{0, 1}
	}
	return mkFrac(mustMul(a.n, b.n), mustMul(a.d, b.d))
}
func (a frac) Div(b frac) frac { return mkFrac(mustMul(a.n, b.d), mustMul(a.d, b.n)) }
func (a frac) Neg() frac       { return frac{-a.n, a.d} }
func (a frac) Sign() int {
	if a.n > 0 {
		return 1
	} else if a.n < 0 {
		return -1
	}
	return 0
}

// ---- arbitrary precision ----------------------------------------------------------

type bigRat struct{ r *big.Rat }

func (a bigRat) Add(b bigRat) bigRat { return bigRat{new(big.Rat).Add(a.r, b.r)} }
func (a bigRat) Mul(b bigRat) bigRat { return bigRat{new(big.Rat).Mul(a.r, b.r)} }
func (a bigRat) Div(b bigRat) bigRat { return bigRat{new(big.Rat).Quo(a.r, b.r)} }
func (a bigRat) Neg() bigRat         { return bigRat{new(big.Rat).Neg(a.r)} }
func (a bigRat) Sign() int           { return a.r.Sign() }

// ---- tableau --------------------------------------------------------------------------

// lpFeasible tells if the inequalities (p >= 0) and equalities (p == 0) have a rational solution, treating
// every monomial as an independent variable.
func lpFeasible(rels []Rel) (feasible bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ratOverflow); ok {
				feasible = simplex(rels, func(v int64) bigRat { return bigRat{new(big.Rat).SetInt64(v)} })
				return
			}
			panic(r)
		}
	}()
	return simplex(rels, func(v int64) frac { return frac{v, 1} })
}

const maxPivots = 2000

func simplex[T numeric[T]](rels []Rel, from func(int64) T) bool {
	varIdx := map[MonoID]int{}
	for _, r := range rels {
		for _, t := range r.p.t {
			if _, ok := varIdx[t.m]; !ok {
				varIdx[t.m] = len(varIdx)
			}
		}
	}
	n := len(varIdx)
	m := len(rels)
	// Variables 0..n-1 are free, n..n+m-1 are slacks with lower bound -c (and the same upper bound for
	// equalities).
	rows := make([][]T, m)
	lower := make([]T, n+m)
	isEq := make([]bool, n+m)
	basic := make([]int, m)   // row -> variable
	colVar := make([]int, n)  // column -> nonbasic variable
	rowOf := make([]int, n+m) // variable -> row or -1
	val := make([]T, n+m)
	zero := from(0)
	one := from(1)
	for i := range rowOf {
		rowOf[i] = -1
		val[i] = zero
	}
	for j := 0; j < n; j++ {
		colVar[j] = j
	}
	for i, r := range rels {
		row := make([]T, n)
		for j := range row {
			row[j] = zero
		}
		for _, t := range r.p.t {
			row[varIdx[t.m]] = from(t.k)
		}
		rows[i] = row
		basic[i] = n + i
		rowOf[n+i] = i
		lower[n+i] = from(r.p.c).Neg()
		isEq[n+i] = r.op == EQ
	}
	for pivots := 0; ; pivots++ {
		if pivots > maxPivots {
			return true // Give up: not shown empty.
		}
		// Find the violated basic variable with the smallest index.
		bad, badRow, needUp := -1, -1, false
		for i := 0; i < m; i++ {
			v := basic[i]
			if v < n {
				continue
			}
			d := val[v].Add(lower[v].Neg()).Sign()
			if d < 0 && (bad < 0 || v < bad) {
				bad, badRow, needUp = v, i, true
			} else if d > 0 && isEq[v] && (bad < 0 || v < bad) {
				bad, badRow, needUp = v, i, false
			}
		}
		if bad < 0 {
			return true
		}
		// Find a nonbasic variable that can move in the right direction.
		col, colBest := -1, 0
		for j := 0; j < n; j++ {
			s := rows[badRow][j].Sign()
			if s == 0 {
				continue
			}
			v := colVar[j]
			ok := false
			if v < n {
				ok = true
			} else if !isEq[v] {
				up := (s > 0) == needUp
				// A slack can always increase; it can decrease only if above its bound.
				if up {
					ok = true
				} else {
					ok = val[v].Add(lower[v].Neg()).Sign() > 0
				}
			}
			if ok && (col < 0 || v < colBest) {
				col, colBest = j, v
			}
		}
		if col < 0 {
			return false
		}
		// Pivot: the entering variable becomes basic in badRow, the leaving one gets its bound value.
		enter := colVar[col]
		coef := rows[badRow][col]
		target := lower[bad]
		delta := target.Add(val[bad].Neg()).Div(coef)
		val[bad] = target
		val[enter] = val[enter].Add(delta)
		for i := 0; i < m; i++ {
			if i != badRow && rows[i][col].Sign() != 0 {
				val[basic[i]] = val[basic[i]].Add(rows[i][col].Mul(delta))
			}
		}
		// Solve badRow for enter: bad = coef*enter + rest  =>  enter = bad/coef - rest/coef
		inv := one.Div(coef)
		pr := rows[badRow]
		for j := 0; j < n; j++ {
			if j == col {
				pr[j] = inv
			} else if pr[j].Sign() != 0 {
				pr[j] = pr[j].Mul(inv).Neg()
			}
		}
		for i := 0; i < m; i++ {
			if i == badRow {
				continue
			}
			f := rows[i][col]
			if f.Sign() == 0 {
				continue
			}
			ri := rows[i]
			for j := 0; j < n; j++ {
				if j == col {
					ri[j] = f.Mul(pr[j])
				} else if pr[j].Sign() != 0 {
					ri[j] = ri[j].Add(f.Mul(pr[j]))
				}
			}
		}
		basic[badRow] = enter
		colVar[col] = bad
		rowOf[enter] = badRow
		rowOf[bad] = -1
	}
}

var (
	lpCache   = map[string]bool{}
	lpQueries int
	lpRuns    int
)

// infeasible tells if the conjunction of `cons` and `goal` has no solution. goal may be EQ or GE.
func infeasible(cons []Rel, goal []Rel) bool {
	lpQueries++
	// Trivial cases first.
	var g []Rel
	for _, r := range goal {
		t, ok := r.tighten()
		if !ok {
			return true
		}
		if c, isc := t.p.IsConst(); isc {
			if (t.op == GE && c < 0) || (t.op == EQ && c != 0) || (t.op == NE && c == 0) {
				return true
			}
			continue
		}
		if t.op == NE {
			continue // Not usable here.
		}
		lo, hi, hasLo, hasHi := t.p.Bounds()
		if t.op == GE && hasHi && hi < 0 {
			return true
		}
		if t.op == EQ && ((hasHi && hi < 0) || (hasLo && lo > 0)) {
			return true
		}
		g = append(g, t)
	}
	if len(goal) > 0 && len(g) == 0 {
		return false
	}

	// Relevance: constraints connected to the goal by shared monomials or atoms.
	sel := selectRelevant(cons, g)
	sel = append(sel, g...)
	sel = saturate(sel, len(g))
	// Atom and monomial bounds.
	seen := map[MonoID]bool{}
	var bnds []Rel
	for _, r := range sel {
		for _, t := range r.p.t {
			if seen[t.m] {
				continue
			}
			seen[t.m] = true
			lo, hi, hasLo, hasHi := monoBounds(t.m)
			mp := Poly{t: []term{{t.m, 1}}}
			if hasLo {
				bnds = append(bnds, Rel{mp.AddConst(-lo), GE})
			}
			if hasHi && hi < 1<<62 {
				bnds = append(bnds, Rel{Const(hi).Sub(mp), GE})
			}
		}
	}
	all := append(sel, bnds...)
	keys := make([]string, len(all))
	for i, r := range all {
		k := r.p.Key()
		if r.op == EQ {
			k = "=" + k
		}
		keys[i] = k
	}
	sort.Strings(keys)
	key := strings.Join(keys, "|")
	if v, ok := lpCache[key]; ok {
		return v
	}
	lpRuns++
	res := !lpFeasible(dedupe(all))
	if len(lpCache) > 200000 {
		lpCache = map[string]bool{}
	}
	lpCache[key] = res
	return res
}

func dedupe(rs []Rel) []Rel {
	seen := map[string]bool{}
	out := rs[:0:0]
	for _, r := range rs {
		k := r.p.Key()
		if r.op == EQ {
			k = "=" + k
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	return out
}

// maxRelevant bounds the number of constraints considered in one query.
const maxRelevant = 120

func selectRelevant(cons []Rel, goal []Rel) []Rel {
	inAtoms := map[Atom]bool{}
	for _, r := range goal {
		r.p.Atoms(func(a Atom) { inAtoms[a] = true })
	}
	used := make([]bool, len(cons))
	var out []Rel
	if len(goal) == 0 {
		for _, r := range cons {
			if r.op != NE {
				out = append(out, r)
			}
		}
		return out
	}
	for round := 0; round < 6; round++ {
		grew := false
		var newAtoms []Atom
		for i := len(cons) - 1; i >= 0; i-- {
			if used[i] || cons[i].op == NE {
				continue
			}
			hit := false
			cons[i].p.Atoms(func(a Atom) {
				if inAtoms[a] {
					hit = true
				}
			})
			if !hit {
				continue
			}
			used[i] = true
			grew = true
			out = append(out, cons[i])
			cons[i].p.Atoms(func(a Atom) {
				if !inAtoms[a] {
					newAtoms = append(newAtoms, a)
				}
			})
			if len(out) >= maxRelevant {
				return out
			}
		}
		for _, a := range newAtoms {
			inAtoms[a] = true
		}
		if !grew {
			break
		}
	}
	return out
}

// saturate adds products of constraints with nonnegative atoms wherever a product monomial occurs in the
// system, so that e.g. i+1 <= n yields i*b+b <= n*b.
func saturate(rels []Rel, nGoal int) []Rel {
	var prods []MonoID
	seen := map[MonoID]bool{}
	collect := func(rs []Rel) {
		for _, r := range rs {
			for _, t := range r.p.t {
				if len(monos[t.m].atoms) >= 2 && !seen[t.m] {
					seen[t.m] = true
					prods = append(prods, t.m)
				}
			}
		}
	}
	collect(rels)
	if len(prods) == 0 {
		return rels
	}
	type job struct {
		i int
		a Atom
	}
	done := map[job]bool{}
	out := rels
	const maxProducts = 160
	added := 0
	// A multiplier atom is any atom occurring in a product.
	mult := map[Atom]bool{}
	for _, m := range prods {
		for _, a := range monos[m].atoms {
			mult[a] = true
		}
	}
	var multList []Atom
	for a := range mult {
		multList = append(multList, a)
	}
	sort.Slice(multList, func(i, j int) bool { return multList[i] < multList[j] })
	base := len(rels)
	for _, a := range multList {
		nonneg := atoms[a].HasLo && atoms[a].Lo >= 0
		// Atoms that occur together with a in some product.
		partner := map[Atom]bool{}
		for _, m := range prods {
			has := false
			for _, b := range monos[m].atoms {
				if b == a {
					has = true
				}
			}
			if !has {
				continue
			}
			cnt := 0
			for _, b := range monos[m].atoms {
				if b == a && cnt == 0 {
					cnt++
					continue
				}
				partner[b] = true
			}
		}
		for round := 0; round < 2; round++ {
			grown := false
			for i := base - 1; i >= 0; i-- {
				r := rels[i]
				if r.op == GE && !nonneg {
					continue
				}
				hit := false
				deg := 0
				for _, t := range r.p.t {
					as := monos[t.m].atoms
					if len(as) > deg {
						deg = len(as)
					}
					for _, b := range as {
						if partner[b] {
							hit = true
						}
					}
				}
				if !hit || deg > 2 {
					continue
				}
				j := job{i, a}
				if done[j] {
					continue
				}
				done[j] = true
				if added >= maxProducts {
					return out
				}
				added++
				out = append(out, Rel{r.p.Mul(AtomPoly(a)), r.op})
				// Its other atoms now occur in products too.
				if deg == 1 {
					for _, t := range r.p.t {
						if b := monos[t.m].atoms[0]; !partner[b] {
							partner[b] = true
							grown = true
						}
					}
				}
			}
			if !grown {
				break
			}
		}
	}
	return out
}
