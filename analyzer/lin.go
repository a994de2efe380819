package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Linear inequalities over integer variables: the domain of the bounds
// analysis. A constraint is  sum c*x + k <= 0.

type lterm struct{ v, c int }

type lin struct {
	t []lterm // sorted by variable, no zero coefficient
	k int
}

func lconst(k int) lin { return lin{k: k} }
func lvar(v int) lin   { return lin{t: []lterm{{v, 1}}} }

func (a lin) add(b lin, m int) lin { // a + m*b
	if m == 0 {
		return a
	}
	out := lin{k: a.k + m*b.k}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || i < len(a.t) && a.t[i].v < b.t[j].v:
			out.t = append(out.t, a.t[i])
			i++
		case i == len(a.t) || b.t[j].v < a.t[i].v:
			out.t = append(out.t, lterm{b.t[j].v, m * b.t[j].c})
			j++
		default:
			if c := a.t[i].c + m*b.t[j].c; c != 0 {
				out.t = append(out.t, lterm{a.t[i].v, c})
			}
			i++
			j++
		}
	}
	return out
}

func (a lin) scale(m int) lin { return lin{}.add(a, m) }

func (a lin) coef(v int) int {
	for _, t := range a.t {
		if t.v == v {
			return t.c
		}
	}
	return 0
}

func gcd(a, b int) int {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// norm divides by the common factor and rounds (the variables are integers).
func (a lin) norm() lin {
	g := 0
	for _, t := range a.t {
		g = gcd(g, t.c)
	}
	if g <= 1 {
		return a
	}
	out := lin{}
	for _, t := range a.t {
		out.t = append(out.t, lterm{t.v, t.c / g})
	}
	// sum c x <= -k  =>  sum (c/g) x <= floor(-k/g)
	out.k = -int(math.Floor(float64(-a.k) / float64(g)))
	return out
}

func (a lin) key() string {
	var b strings.Builder
	for _, t := range a.t {
		fmt.Fprintf(&b, "%d*%d ", t.c, t.v)
	}
	return b.String()
}

func (a lin) rename(m map[int]int) lin {
	out := lin{k: a.k, t: make([]lterm, 0, len(a.t))}
	for _, t := range a.t {
		if n, ok := m[t.v]; ok {
			out.t = append(out.t, lterm{n, t.c})
		} else {
			out.t = append(out.t, t)
		}
	}
	sort.Slice(out.t, func(i, j int) bool { return out.t[i].v < out.t[j].v })
	// merge equal variables
	w := out.t[:0]
	for _, t := range out.t {
		if len(w) > 0 && w[len(w)-1].v == t.v {
			w[len(w)-1].c += t.c
		} else {
			w = append(w, t)
		}
	}
	x := w[:0]
	for _, t := range w {
		if t.c != 0 {
			x = append(x, t)
		}
	}
	out.t = x
	return out
}

// lsys is a conjunction of constraints.
type lsys struct {
	cons []lin
	idx  map[string]int // linear part -> position: only the tightest is kept
	bad  bool           // unsatisfiable
}

func newSys() *lsys { return &lsys{idx: map[string]int{}} }

func (s *lsys) clone() *lsys {
	o := &lsys{cons: append([]lin(nil), s.cons...), idx: make(map[string]int, len(s.idx)), bad: s.bad}
	for k, v := range s.idx {
		o.idx[k] = v
	}
	return o
}

func (s *lsys) add(c lin) {
	c = c.norm()
	if len(c.t) == 0 {
		if c.k > 0 {
			s.bad = true
		}
		return
	}
	k := c.key()
	if i, ok := s.idx[k]; ok {
		if c.k > s.cons[i].k {
			s.cons[i] = c
		}
		return
	}
	s.idx[k] = len(s.cons)
	s.cons = append(s.cons, c)
}

func (s *lsys) addEq(c lin) { s.add(c); s.add(c.scale(-1)) }

func (s *lsys) reindex() {
	s.idx = make(map[string]int, len(s.cons))
	for i, c := range s.cons {
		s.idx[c.key()] = i
	}
}

func (s *lsys) vars() map[int]bool {
	out := map[int]bool{}
	for _, c := range s.cons {
		for _, t := range c.t {
			out[t.v] = true
		}
	}
	return out
}

// elim projects a variable out.
func (s *lsys) elim(v int) {
	var pos, neg, rest []lin
	for _, c := range s.cons {
		switch k := c.coef(v); {
		case k > 0:
			pos = append(pos, c)
		case k < 0:
			neg = append(neg, c)
		default:
			rest = append(rest, c)
		}
	}
	if len(pos) == 0 && len(neg) == 0 {
		return
	}
	bad := s.bad
	s.cons, s.idx = nil, map[string]int{}
	for _, c := range rest {
		s.add(c)
	}
	s.bad = s.bad || bad
	// an equality gives a substitution
	for _, p := range pos {
		for _, n := range neg {
			if p.coef(v) == 1 && n.coef(v) == -1 && p.key() == n.scale(-1).key() && p.k == -n.k {
				for _, c := range append(append([]lin(nil), pos...), neg...) {
					s.add(c.add(p, -c.coef(v)))
				}
				return
			}
		}
	}
	for _, p := range pos {
		for _, n := range neg {
			s.add(p.scale(-n.coef(v)).add(n, p.coef(v)))
		}
	}
	if len(s.cons) > 60 {
		s.reduce()
	}
}

func (s *lsys) rename(m map[int]int) {
	old := s.cons
	s.cons, s.idx = nil, map[string]int{}
	for _, c := range old {
		s.add(c.rename(m))
	}
}

// reduce drops constraints that follow from the others.
func (s *lsys) reduce() {
	for i := len(s.cons) - 1; i >= 0; i-- {
		c := s.cons[i]
		o := &lsys{cons: append(append([]lin(nil), s.cons[:i]...), s.cons[i+1:]...)}
		if m, ok := o.max(lin{t: c.t}); ok && m <= -c.k {
			s.cons = o.cons
		}
	}
	s.reindex()
}

// component keeps the constraints connected with the variables of the objective.
func (s *lsys) component(obj lin) []lin {
	in := map[int]bool{}
	for _, t := range obj.t {
		in[t.v] = true
	}
	used := make([]bool, len(s.cons))
	var out []lin
	for ch := true; ch; {
		ch = false
		for i, c := range s.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range c.t {
				if in[t.v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, c)
				for _, t := range c.t {
					in[t.v] = true
				}
			}
		}
	}
	return out
}

// max is the greatest integer value the objective may have; ok is false if it
// has no bound. An unsatisfiable system has every bound.
func (s *lsys) max(obj lin) (int, bool) {
	if s.bad {
		return math.MinInt32, true
	}
	if len(obj.t) == 0 {
		return obj.k, true
	}
	cons := s.component(obj)
	v, st := lpMax(cons, obj)
	switch st {
	case lpUnbounded:
		// the dual is infeasible: unbounded or the system has no solution
		return 0, false
	case lpInfeasible:
		return math.MinInt32, true
	}
	return obj.k + int(math.Floor(v+1e-6)), true
}

// entails: does c hold wherever the system holds?
func (s *lsys) entails(c lin) bool {
	if s.bad {
		return true
	}
	c = c.norm()
	if len(c.t) == 0 && c.k <= 0 {
		return true
	}
	if i, ok := s.idx[c.key()]; ok && s.cons[i].k >= c.k {
		return true
	}
	m, ok := s.max(lin{t: c.t})
	if ok && m <= -c.k {
		return true
	}
	return !s.feasible()
}

// feasible: is there a (rational) solution?
func (s *lsys) feasible() bool {
	if s.bad {
		return false
	}
	// every component: maximise 0 is not enough for the dual, so look for a
	// contradiction by bounding one extra variable: max 0 s.t. cons
	_, st := lpMax(s.cons, lin{})
	if st == lpInfeasible {
		s.bad = true
		return false
	}
	return true
}

const (
	lpOK = iota
	lpUnbounded
	lpInfeasible
)

// lpMax solves max obj subject to cons through its dual
// min b.y, sum_i y_i a_i = c, y >= 0 (a_i x <= b_i), by the two-phase simplex method.
func lpMax(cons []lin, obj lin) (float64, int) {
	id := map[int]int{}
	for _, c := range cons {
		for _, t := range c.t {
			if _, ok := id[t.v]; !ok {
				id[t.v] = len(id)
			}
		}
	}
	for _, t := range obj.t {
		if _, ok := id[t.v]; !ok {
			return 0, lpUnbounded
		}
	}
	m, n := len(id), len(cons)
	// tableau: m rows, n columns, m artificials, rhs
	w := n + m + 1
	T := make([][]float64, m+1)
	for i := range T {
		T[i] = make([]float64, w)
	}
	for j, c := range cons {
		for _, t := range c.t {
			T[id[t.v]][j] = float64(t.c)
		}
	}
	for _, t := range obj.t {
		T[id[t.v]][w-1] = float64(t.c)
	}
	basis := make([]int, m)
	for i := 0; i < m; i++ {
		if T[i][w-1] < 0 {
			for j := range T[i] {
				T[i][j] = -T[i][j]
			}
		}
		T[i][n+i] = 1
		basis[i] = n + i
	}
	const eps = 1e-9
	pivot := func(r, c int) {
		p := T[r][c]
		for j := range T[r] {
			T[r][j] /= p
		}
		for i := range T {
			if i != r && math.Abs(T[i][c]) > eps {
				f := T[i][c]
				for j := range T[i] {
					T[i][j] -= f * T[r][j]
				}
			}
		}
		basis[r] = c
	}
	run := func(cols int) bool { // false: unbounded below
		for it := 0; it < 5000; it++ {
			c := -1
			for j := 0; j < cols; j++ { // Bland
				if T[m][j] < -eps {
					c = j
					break
				}
			}
			if c < 0 {
				return true
			}
			r := -1
			for i := 0; i < m; i++ {
				if T[i][c] > eps {
					if r < 0 || T[i][w-1]/T[i][c] < T[r][w-1]/T[r][c]-eps ||
						math.Abs(T[i][w-1]/T[i][c]-T[r][w-1]/T[r][c]) <= eps && basis[i] < basis[r] {
						r = i
					}
				}
			}
			if r < 0 {
				return false
			}
			pivot(r, c)
		}
		return true
	}
	// phase 1: minimise the artificials
	for i := 0; i < m; i++ {
		for j := 0; j < w; j++ {
			if j < n || j == w-1 {
				T[m][j] -= T[i][j]
			}
		}
	}
	run(n)
	if -T[m][w-1] > 1e-6 {
		return 0, lpUnbounded
	}
	for i := 0; i < m; i++ { // drive artificials out
		if basis[i] >= n {
			for j := 0; j < n; j++ {
				if math.Abs(T[i][j]) > 1e-7 {
					pivot(i, j)
					break
				}
			}
		}
	}
	// phase 2: min b.y with b = -k
	for j := range T[m] {
		T[m][j] = 0
	}
	for j, c := range cons {
		T[m][j] = float64(-c.k)
	}
	for i := 0; i < m; i++ {
		if b := basis[i]; b < n {
			f := T[m][b]
			if f != 0 {
				for j := range T[m] {
					T[m][j] -= f * T[i][j]
				}
			}
		}
	}
	if !run(n) {
		return 0, lpInfeasible
	}
	return -T[m][w-1], lpOK
}

// joinSys is the weakest of both among the candidates: the constraints of
// either side and bounds of variables and differences.
func joinSys(a, b *lsys) *lsys {
	if a.bad || !a.feasible() {
		return b.clone()
	}
	if b.bad || !b.feasible() {
		return a.clone()
	}
	if a.implies(b) {
		return b.clone()
	}
	if b.implies(a) {
		return a.clone()
	}
	out := newSys()
	seen := map[string]bool{}
	try := func(c lin) {
		k := c.key()
		if seen[k] {
			return
		}
		seen[k] = true
		o := lin{t: c.t}
		ma, ok := a.max(o)
		if !ok {
			return
		}
		mb, ok := b.max(o)
		if !ok {
			return
		}
		if mb > ma {
			ma = mb
		}
		o.k = -ma
		out.add(o)
	}
	for _, c := range a.cons {
		try(c)
	}
	for _, c := range b.cons {
		try(c)
	}
	va, vb := a.vars(), b.vars()
	var vs []int
	for v := range va {
		if vb[v] {
			vs = append(vs, v)
		}
	}
	sort.Ints(vs)
	for i, x := range vs {
		try(lvar(x))
		try(lvar(x).scale(-1))
		for _, y := range vs[:i] {
			try(lvar(x).add(lvar(y), -1))
			try(lvar(y).add(lvar(x), -1))
		}
	}
	if len(out.cons) > 24 {
		out.reduce()
	}
	return out
}

// widenSys keeps what is stable.
// The bounds and differences of the variables that anchor accepts are relaxed in
// a few steps instead of given up.
func widenSys(old, nw *lsys, anchor func(v int) bool) *lsys {
	if old.bad {
		return nw.clone()
	}
	out := newSys()
	lost := false
	for _, c := range old.cons {
		if nw.entails(c) {
			out.add(c)
		} else {
			lost = true
		}
	}
	if !lost {
		return out
	}
	// bounds and differences that followed from the constraints now lost
	try := func(c lin, relax bool) {
		m, ok := old.max(c)
		if !ok {
			return
		}
		n, ok := nw.max(c)
		if !ok || n > m && !relax {
			return
		}
		// a few steps, so that it ends
		for _, t := range []int{m, -2, -1, 0, 1, 2} {
			if t >= m && t >= n {
				c.k = -t
				out.add(c)
				return
			}
		}
	}
	vs := sortedVars(old)
	for i, x := range vs {
		try(lvar(x), false)
		try(lvar(x).scale(-1), true)
		for _, y := range vs[:i] {
			r := anchor(x) || anchor(y)
			try(lvar(x).add(lvar(y), -1), r)
			try(lvar(y).add(lvar(x), -1), r)
		}
	}
	out.reduce()
	return out
}

// plainWiden keeps the constraints that are stable and adds none.
func plainWiden(old, nw *lsys) *lsys {
	if old.bad {
		return nw.clone()
	}
	out := newSys()
	for _, c := range old.cons {
		if nw.entails(c) {
			out.add(c)
		}
	}
	return out
}

func sortedVars(s *lsys) []int {
	var vs []int
	for v := range s.vars() {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	return vs
}

// implies: does every constraint of b hold in a?
func (s *lsys) implies(b *lsys) bool {
	if b.bad {
		return !s.feasible()
	}
	for _, c := range b.cons {
		if !s.entails(c) {
			return false
		}
	}
	return true
}
