package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = check{"specificity", checkC21} }

// Symbolic specificities: the components of the parts of a selector are
// arbitrary numbers of which only the order is known. A component is an atom
// "spec:<component>.<rank>"; the rank orders the numbers of one component, rank 0
// is the number 0. Sums are terms.

func specNum(comp, rank int) Val {
	if rank == 0 {
		return VC{constant.MakeInt64(0), types.Typ[types.Int]}
	}
	return VAtom{"spec", fmt.Sprintf("%d.%d", comp, rank), Rigid}
}

func specRank(v Val) (comp, rank int, ok bool) {
	if n, isC := constInt(v); isC {
		if n <= 0 {
			return -1, n, true
		}
		return 0, 0, false
	}
	a, isA := v.(VAtom)
	if !isA || a.Kind != "spec" {
		return 0, 0, false
	}
	x, y, _ := strings.Cut(a.Name, ".")
	comp, e1 := strconv.Atoi(x)
	rank, e2 := strconv.Atoi(y)
	return comp, rank, e1 == nil && e2 == nil
}

// specCompare decides a comparison of two symbolic components.
func specCompare(a, b Val, op token.Token) tri {
	// the sign of a difference
	if t, ok := a.(VTerm); ok && t.Op == "-" && len(t.Args) == 2 {
		if n, isC := constInt(b); isC && n == 0 {
			return specCompare(t.Args[0], t.Args[1], op)
		}
	}
	if t, ok := b.(VTerm); ok && t.Op == "-" && len(t.Args) == 2 {
		if n, isC := constInt(a); isC && n == 0 {
			return specCompare(t.Args[1], t.Args[0], op)
		}
	}
	ca, ra, ok1 := specRank(a)
	cb, rb, ok2 := specRank(b)
	if !ok1 || !ok2 || ca >= 0 && cb >= 0 && ca != cb {
		return Maybe
	}
	return tb(constant.Compare(constant.MakeInt64(int64(ra)), op, constant.MakeInt64(int64(rb))))
}

// linear renders a sum as its constant and its sorted summands.
func linear(v Val) string {
	k := 0
	var as []string
	bad := false
	var walk func(v Val)
	walk = func(v Val) {
		if n, ok := constInt(v); ok {
			k += n
			return
		}
		switch t := v.(type) {
		case VAtom:
			as = append(as, t.Name)
			return
		case VTerm:
			if t.Op == "+" {
				for _, a := range t.Args {
					walk(a)
				}
				return
			}
		}
		bad = true
	}
	walk(v)
	if bad {
		return "?" + clip(key(v))
	}
	sort.Strings(as)
	return strings.Join(append(as, strconv.Itoa(k)), "+")
}

type specCase struct {
	x        *Ctx
	w        *World
	children [][3]Val
}

func (s *specCase) child(i int) Val { return VAtom{"obj", fmt.Sprintf("part%d", i), Rigid} }

func (s *specCase) specType() types.Type {
	m := s.x.P.Prog.MethodSets.MethodSet(s.x.P.Sel)
	for i := 0; i < m.Len(); i++ {
		if f := m.At(i).Obj(); f.Name() == "Specificity" {
			return f.Type().(*types.Signature).Results().At(0).Type()
		}
	}
	return nil
}

func (s *specCase) vec(v [3]Val) Val {
	t := s.specType()
	switch u := t.Underlying().(type) {
	case *types.Array:
		out := VStruct{T: t}
		for i := 0; i < int(u.Len()) && i < 3; i++ {
			out.F = append(out.F, v[i])
		}
		return out
	case *types.Struct:
		out := VStruct{T: t}
		for i := 0; i < u.NumFields() && i < 3; i++ {
			out.F = append(out.F, v[i])
		}
		return out
	}
	return VTop{"specificity"}
}

// specRun interprets a function and returns the vectors (or single value) it may give.
func (x *Ctx) specRun(rule, name string, fn *ssa.Function, children [][3]Val, args func(s *specCase, c *Config) []Val, judge func(s *specCase, ret Val) string) {
	x.task(func() func() {
		w := newWorld(x.P, rule+": "+name)
		w.E.Spec = true
		s := &specCase{x: x, w: w, children: children}
		w.E.OnIface = func(c *Config, method string, recv Val, in ssa.Instruction, _ []Val) ([]*Config, bool) {
			a, ok := recv.(VAtom)
			if !ok || a.Kind != "obj" || !strings.HasPrefix(a.Name, "part") {
				return nil, false
			}
			n, _ := strconv.Atoi(strings.TrimPrefix(a.Name, "part"))
			switch method {
			case "Specificity":
				return w.E.deliver(c, s.vec(children[n])), true
			case "PseudoElement":
				return w.E.deliver(c, vstr("")), true
			case "String":
				return w.E.deliver(c, VAtom{"str", a.Name, Rigid}), true
			}
			return nil, false
		}
		bad := ""
		var outs []*cont
		if fn == nil {
			bad = "function not found"
		} else {
			outs = w.call(w.start(), fn, func(k *cont) []Val { return args(s, k.c) })
			if len(outs) == 0 {
				bad = "it never returns"
			}
		}
		for _, k := range outs {
			if len(k.ret) != 1 {
				bad = "unexpected results"
				break
			}
			if b := judge(s, k.ret[0]); b != "" && bad == "" {
				bad = b + tr(k.c.traceString())
			}
		}
		if len(w.E.Panics) > 0 && bad == "" {
			for _, m := range sortedKeys(w.E.Panics) {
				bad = m
			}
		}
		return func() {
			site := ""
			if fn != nil {
				site = x.P.pos(fn.Pos())
			}
			x.ob(rule, site+" "+name, bad == "", bad)
			x.absorb(rule+": "+name, w.E)
		}
	})
}

func (s *specCase) want(v [3]Val) func(ret Val) string {
	return func(ret Val) string {
		st, ok := ret.(VStruct)
		if !ok || len(st.F) < 3 {
			return "the result is not known: " + clip(key(ret))
		}
		for i := 0; i < 3; i++ {
			if a, b := linear(st.F[i]), linear(v[i]); a != b {
				return fmt.Sprintf("component %c is %s, it should be %s", 'A'+i, a, b)
			}
		}
		return ""
	}
}

func constVec(a, b, c int) [3]Val { return [3]Val{vint(a), vint(b), vint(c)} }

func sumVec(k [3]int, vs ...[3]Val) [3]Val {
	var out [3]Val
	for i := range out {
		t := VTerm{"+", []Val{vint(k[i])}}
		for _, v := range vs {
			t.Args = append(t.Args, v[i])
		}
		out[i] = t
	}
	return out
}

// partVec is the specificity of part i: three numbers of which nothing is known.
func partVec(i int) [3]Val {
	return [3]Val{VAtom{"part", fmt.Sprintf("p%d.A", i), Rigid}, VAtom{"part", fmt.Sprintf("p%d.B", i), Rigid}, VAtom{"part", fmt.Sprintf("p%d.C", i), Rigid}}
}

func checkC21(x *Ctx) {
	x.rule("Abstract interpretation of the Specificity method of every kind of selector, with parts whose specificities are arbitrary numbers: sums are compared as symbolic sums, the greatest of several arguments for every order the components can have relative to each other. " +
		"The comparison of two specificities is interpreted for every relation of their components.")
	x.assume("component arithmetic does not overflow")
	const k1, k2, k3, k4 = "specificity of a simple selector", "specificity of a compound or complex selector", "specificity of a selector list argument", "comparing and adding"
	method := func(t *types.Named) *ssa.Function { return x.P.method(t, "Specificity") }
	n := 0
	for _, t := range x.P.SelTypes {
		t := t
		name := t.Obj().Name()
		fn := method(t)
		switch {
		case name == "CompoundSelector":
			for n := 0; n <= 6; n++ {
				for _, pe := range []Val{vstr(""), VAtom{"pe", "pe", Rigid}} {
					n, pe := n, pe
					var ch [][3]Val
					for i := 0; i < n; i++ {
						ch = append(ch, partVec(i))
					}
					plus := [3]int{}
					peName := "without"
					if key(pe) != key(vstr("")) {
						plus[2] = 1
						peName = "with"
					}
					x.specRun(k2, fmt.Sprintf("%s of %d parts %s pseudo-element", name, n, peName), fn, ch, func(s *specCase, c *Config) []Val {
						var subs []Val
						for i := 0; i < n; i++ {
							subs = append(subs, s.child(i))
						}
						return []Val{s.w.compound(c, pe, subs...).(VIface).V}
					}, func(s *specCase, ret Val) string { return s.want(sumVec(plus, ch...))(ret) })
				}
			}
			// the same part several times
			for _, order := range [][]int{{0, 0}, {0, 1, 0}, {0, 1, 1}, {0, 0, 1, 1}, {0, 0, 0}} {
				order := order
				ch := [][3]Val{partVec(0), partVec(1)}
				var vs [][3]Val
				for _, i := range order {
					vs = append(vs, ch[i])
				}
				x.specRun(k2, fmt.Sprintf("%s of equal parts %v", name, order), fn, ch, func(s *specCase, c *Config) []Val {
					var subs []Val
					for _, i := range order {
						subs = append(subs, s.child(i))
					}
					return []Val{s.w.compound(c, vstr(""), subs...).(VIface).V}
				}, func(s *specCase, ret Val) string { return s.want(sumVec([3]int{}, vs...))(ret) })
			}
		case name == "CombinedSelector":
			for _, comb := range []byte{' ', '>', '+', '~', 'x'} {
				comb := comb
				ch := [][3]Val{partVec(0), partVec(1)}
				x.specRun(k2, fmt.Sprintf("%s with %q", name, comb), fn, ch, func(s *specCase, c *Config) []Val {
					return []Val{s.w.combined(c, s.child(0), comb, s.child(1)).(VIface).V}
				}, func(s *specCase, ret Val) string { return s.want(sumVec([3]int{}, ch...))(ret) })
				x.specRun(k2, fmt.Sprintf("%s with %q and equal sides", name, comb), fn, ch, func(s *specCase, c *Config) []Val {
					return []Val{s.w.combined(c, s.child(0), comb, s.child(0)).(VIface).V}
				}, func(s *specCase, ret Val) string { return s.want(sumVec([3]int{}, ch[0], ch[0]))(ret) })
			}
		case x.listField(t) >= 0:
			x.specList(k3, t, fn, strings.Contains(name, "Where"))
		default:
			want := constVec(0, 1, 0)
			switch name {
			case "TagSelector":
				want = constVec(0, 0, 1)
			case "IdSelector":
				want = constVec(1, 0, 0)
			}
			for _, vary := range x.boolFields(t, name) {
				vary := vary
				x.specRun(k1, strings.TrimSpace(name+" "+vary), fn, nil, func(s *specCase, c *Config) []Val {
					return []Val{s.w.instance(c, t, vary).(VIface).V}
				}, func(s *specCase, ret Val) string { return s.want(want)(ret) })
			}
		}
		n++
	}
	x.Extra["kinds of selectors"] = n
	x.specOrder(k4)
	x.runTasks()
}

// boolFields names the variations of a kind: none, and each yes/no field set.
func (x *Ctx) boolFields(t *types.Named, path string) []string {
	out := []string{""}
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Embedded() {
				walk(f.Type(), path+"."+f.Name())
			} else if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				out = append(out, path+"."+f.Name())
			}
		}
	}
	walk(t, path)
	return out
}

// listField finds the field that holds the arguments of a pseudo-class.
func (x *Ctx) listField(t *types.Named) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if isSliceOf(st.Field(i).Type(), x.P.Sel) {
			return i
		}
	}
	return -1
}

// specList: the specificity of a pseudo-class with a list of selectors.
func (x *Ctx) specList(rule string, t *types.Named, fn *ssa.Function, zeroed bool) {
	name := t.Obj().Name()
	li := x.listField(t)
	run := func(ranks [][3]int) {
		var ch [][3]Val
		best := [3]int{}
		for _, r := range ranks {
			var v [3]Val
			for i := 0; i < 3; i++ {
				v[i] = specNum(i, r[i])
			}
			ch = append(ch, v)
			for i := 0; i < 3; i++ {
				if r[i] != best[i] {
					if r[i] > best[i] {
						best = r
					}
					break
				}
			}
		}
		var want [3]Val
		for i := range want {
			want[i] = specNum(i, best[i])
			if zeroed {
				want[i] = vint(0)
			}
		}
		x.specRun(rule, fmt.Sprintf("%s of %v", name, ranks), fn, ch, func(s *specCase, c *Config) []Val {
			v := s.w.instVal(c, t, name, "", 0).(VStruct)
			v.F = append([]Val(nil), v.F...)
			var items []Item
			for i := range ch {
				items = append(items, one(s.child(i)))
			}
			v.F[li] = c.newSeq(items)
			return []Val{v}
		}, func(s *specCase, ret Val) string { return s.want(want)(ret) })
	}
	run(nil)
	rel := [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {1, 2}, {2, 1}}
	for _, a := range rel {
		run([][3]int{{a[0], a[0], a[1]}})
		for _, b := range rel {
			for _, c := range rel {
				run([][3]int{{a[0], b[0], c[0]}, {a[1], b[1], c[1]}})
			}
		}
	}
	// three and more arguments: every order of the deciding component
	perms := [][]int{{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}, {1, 1, 2}, {1, 2, 1}, {2, 1, 1}, {2, 2, 1}, {2, 1, 2}, {1, 2, 2}}
	for _, p := range perms {
		for i := 0; i < 3; i++ {
			rs := make([][3]int, 3)
			for k := range rs {
				rs[k] = [3]int{1, 1, 1}
				rs[k][i] = p[k]
				for j := i + 1; j < 3; j++ {
					rs[k][j] = 4 - p[k] // the less significant components point the other way
				}
			}
			run(rs)
		}
	}
	for n := 4; n <= 8; n++ {
		for at := 0; at < n; at++ {
			rs := make([][3]int, n)
			for k := range rs {
				rs[k] = [3]int{1, 2, 2}
			}
			rs[at] = [3]int{2, 1, 1}
			run(rs)
		}
	}
}

// specOrder: comparing and adding specificities.
func (x *Ctx) specOrder(rule string) {
	s := &specCase{x: x}
	st, ok := s.specType().(*types.Named)
	if !ok {
		return
	}
	less, add := x.P.method(st, "Less"), x.P.method(st, "Add")
	if less != nil {
		rel := [][2]int{{1, 1}, {1, 2}, {2, 1}, {0, 1}, {1, 0}}
		for _, a := range rel {
			for _, b := range rel {
				for _, c := range rel {
					l, r := [3]int{a[0], b[0], c[0]}, [3]int{a[1], b[1], c[1]}
					want := false
					for i := 0; i < 3; i++ {
						if l[i] != r[i] {
							want = l[i] < r[i]
							break
						}
					}
					vec := func(v [3]int) [3]Val { return [3]Val{specNum(0, v[0]), specNum(1, v[1]), specNum(2, v[2])} }
					x.specRun(rule, fmt.Sprintf("Less %v %v", l, r), less, nil, func(s *specCase, _ *Config) []Val {
						return []Val{s.vec(vec(l)), s.vec(vec(r))}
					}, func(_ *specCase, ret Val) string {
						if b, ok := constBool(ret); !ok || b != want {
							return fmt.Sprintf("the comparison gives %s, it should be %v", clip(key(ret)), want)
						}
						return ""
					})
				}
			}
		}
	}
	if add != nil {
		x.specRun(rule, "Add", add, nil, func(s *specCase, _ *Config) []Val {
			return []Val{s.vec(partVec(0)), s.vec(partVec(1))}
		}, func(s *specCase, ret Val) string { return s.want(sumVec([3]int{}, partVec(0), partVec(1)))(ret) })
	}
}
