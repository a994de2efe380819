package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = check{"independence", checkC23}
	checks["C24"] = check{"classes of a selector", checkC24}
	checks["C26"] = check{"replacement of rules", checkC26}
}

// rulesOf calls Rules and gives, for every outcome, the map it returns.
func (w *World) rulesOf(from []*cont) (out []*cont, maps []*Obj) {
	for _, k := range w.call(from, w.P.method(w.P.Merger, "Rules"), func(k *cont) []Val { return []Val{k.ret[0]} }) {
		if m, ok := k.ret[0].(VMap); ok && k.c.heap[m.Obj] != nil {
			out = append(out, k)
			maps = append(maps, k.c.heap[m.Obj])
			continue
		}
		if isNil(k.ret[0]) {
			out = append(out, k)
			maps = append(maps, &Obj{Kind: 'm'})
			continue
		}
		w.E.problem(k.c, "Rules gives something unknown")
	}
	return out, maps
}

// shape writes a value with the lists it refers to.
func (c *Config) shape(v Val) string {
	var b strings.Builder
	c.writeShape(&b, v, 0)
	return b.String()
}

func (c *Config) writeShape(b *strings.Builder, v Val, d int) {
	if d > 20 {
		b.WriteString("...")
		return
	}
	list := func(l []Val) {
		for i, x := range l {
			if i > 0 {
				b.WriteByte(' ')
			}
			c.writeShape(b, x, d+1)
		}
	}
	switch t := v.(type) {
	case VStruct:
		b.WriteString(shortType(t.T) + "{")
		list(t.F)
		b.WriteByte('}')
	case VIface:
		c.writeShape(b, t.V, d)
	case VTuple:
		list(t)
	case VSlice:
		b.WriteByte('[')
		if o := c.heap[t.Obj]; o != nil {
			if o.Clob {
				b.WriteString("overwritten: ")
			}
			for i, it := range o.Items {
				if i > 0 {
					b.WriteByte(' ')
				}
				c.writeShape(b, it.V, d+1)
				if it.Min == 0 {
					b.WriteByte('?')
				}
				if it.Max > 1 {
					b.WriteByte('*')
				}
			}
		}
		b.WriteByte(']')
	case VMap:
		b.WriteByte('{')
		if o := c.heap[t.Obj]; o != nil {
			b.WriteString(c.shapeMap(o))
		}
		b.WriteByte('}')
	case VPtr:
		b.WriteByte('&')
		if o := c.heap[t.Obj]; o != nil && o.Kind == 'c' {
			c.writeShape(b, project(o.V, t.Path), d+1)
		}
	case VC:
		if t.C == nil {
			if _, ok := t.T.Underlying().(*types.Slice); ok {
				b.WriteString("[]")
				return
			}
			b.WriteString("nil")
			return
		}
		b.WriteString(t.C.ExactString())
	case VTerm:
		b.WriteString(t.Op + "(")
		list(t.Args)
		b.WriteByte(')')
	default:
		b.WriteString(key(v))
	}
}

// ruleFor finds the rule of a class in a map of rules: the shapes of its
// possible values and whether it may be missing.
func ruleFor(c *Config, o *Obj, tok Val) (vals []string, missing bool) {
	missing = true
	for _, en := range o.Ents {
		switch eq(en.K, tok) {
		case Yes:
			if en.Must && !en.Many {
				return []string{c.shape(en.V)}, false
			}
			vals = append(vals, c.shape(en.V))
		case Maybe:
			vals = append(vals, c.shape(en.V))
		}
	}
	return vals, missing
}

// selSpec describes a selector and the classes it requires.
type selSpec struct {
	name string
	req  string // classes required, separated by blanks
	mk   func(w *World, c *Config) Val
}

// group builds a selector that has a list of selectors as argument.
func (w *World) group(c *Config, t *types.Named, name string, subs ...Val) Val {
	st, ok := t.Underlying().(*types.Struct)
	s := VStruct{T: t}
	if !ok {
		return VIface{t, zero(t)}
	}
	done := false
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if sl, ok := ft.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), w.P.Sel) && !done {
			var items []Item
			for _, x := range subs {
				items = append(items, one(x))
			}
			s.F = append(s.F, c.newSeq(items))
			done = true
			continue
		}
		if isBasicString(ft) {
			s.F = append(s.F, vstr(name))
			continue
		}
		s.F = append(s.F, zero(ft))
	}
	return VIface{t, s}
}

func (x *Ctx) selSpecs() []selSpec {
	cls := func(n string) func(w *World, c *Config) Val {
		return func(w *World, c *Config) Val { return w.classSel(tokAtom(n)) }
	}
	inst := func(t *types.Named) func(w *World, c *Config) Val {
		return func(w *World, c *Config) Val { return w.instance(c, t, "") }
	}
	tag := func(w *World, c *Config) Val { return w.tagSel("li") }
	type mk = func(w *World, c *Config) Val
	comp := func(pe string, l ...mk) mk {
		return func(w *World, c *Config) Val {
			var subs []Val
			for _, f := range l {
				subs = append(subs, f(w, c))
			}
			return w.compound(c, vstr(pe), subs...)
		}
	}
	comb := func(a mk, op byte, b mk) mk {
		return func(w *World, c *Config) Val { return w.combined(c, a(w, c), op, b(w, c)) }
	}
	grp := func(t *types.Named, name string, l ...mk) mk {
		return func(w *World, c *Config) Val {
			var subs []Val
			for _, f := range l {
				subs = append(subs, f(w, c))
			}
			return w.group(c, t, name, subs...)
		}
	}
	is, where, rel := x.sel("IsPseudoClassSelector"), x.sel("WherePseudoClassSelector"), x.sel("RelativePseudoClassSelector")
	if is == nil || where == nil || rel == nil || x.sel("TagSelector") == nil {
		return nil
	}
	isF := func(l ...mk) mk { return grp(is, "is", l...) }
	whF := func(l ...mk) mk { return grp(where, "where", l...) }
	notF := func(l ...mk) mk { return grp(rel, "not", l...) }
	hasF := func(l ...mk) mk { return grp(rel, "has", l...) }
	a, b, d := cls("a"), cls("b"), cls("d")
	l := []selSpec{
		{".a", "a", a},
		{"li", "", tag},
		{"*", "", comp("")},
		{"li.a", "a", comp("", tag, a)},
		{".a.b", "a b", comp("", a, b)},
		{".a.b.d", "a b d", comp("", a, b, d)},
		{".a::before", "a", comp("before", a)},
		{":is(.a)", "a", isF(a)},
		{":where(.a)", "a", whF(a)},
		{":is(.a, .b)", "a b", isF(a, b)},
		{":where(.a, li, .b)", "a b", whF(a, tag, b)},
		{":not(.a)", "", notF(a)},
		{":has(.a)", "", hasF(a)},
		{":haschild(.a)", "", grp(rel, "haschild", a)},
		{".b:not(.a)", "b", comp("", b, notF(a))},
		{".b:has(.a)", "b", comp("", b, hasF(a))},
		{":not(:is(.a)) .b", "b", comb(comp("", notF(isF(a))), ' ', b)},
		{":is(.a):where(.b)", "a b", comp("", isF(a), whF(b))},
		{":is(:where(.a .b))", "a b", isF(whF(comb(a, ' ', b)))},
		{":is(.a:not(.b))", "a", isF(comp("", a, notF(b)))},
		{":where(.a > :not(.b))", "a", whF(comb(a, '>', comp("", notF(b))))},
		{".a .b .d", "a b d", comb(comb(a, ' ', b), ' ', d)},
		{".a > li + .b.d", "a b d", comb(comb(a, '>', tag), '+', comp("", b, d))},
		{".a > (.b ~ .d)", "a b d", comb(a, '>', comb(b, '~', d))},
		{":where(.a > :not([hidden]) ~ .b)", "a b", whF(comb(comb(a, '>', comp("", notF(tag))), '~', b))},
	}
	for _, op := range []byte{' ', '>', '+', '~'} {
		l = append(l,
			selSpec{fmt.Sprintf(".a %c .b", op), "a b", comb(a, op, b)},
			selSpec{fmt.Sprintf(".a %c li", op), "a", comb(a, op, tag)},
			selSpec{fmt.Sprintf("li %c .a", op), "a", comb(tag, op, a)},
			selSpec{fmt.Sprintf("li:hover %c .a::before", op), "a", comb(comp("", tag), op, comp("before", a))},
		)
	}
	// every kind of selector before and after the class
	for _, t := range x.P.SelTypes {
		n := t.Obj().Name()
		switch n {
		case "ClassSelector", "CombinedSelector", "CompoundSelector", is.Obj().Name(), where.Obj().Name(), rel.Obj().Name():
			continue
		}
		if _, ok := t.Underlying().(*types.Struct); !ok {
			continue
		}
		o := inst(t)
		l = append(l, selSpec{".a combined with " + n, "a", comp("", a, o)})
		if x.Deep {
			l = append(l,
				selSpec{n + " before .a", "a", comp("", o, a)},
				selSpec{n + " .a", "a", comb(o, ' ', a)},
				selSpec{".a > " + n, "a", comb(a, '>', o)},
				selSpec{":is(" + n + ", .a)", "a", isF(o, a)},
				selSpec{n + " alone", "", o},
			)
		}
	}
	return l
}

const addRule = "AddRules and Rules are interpreted abstractly on the SSA form with selectors built from the selector types of the package; names of classes are arbitrary individuals."

func checkC24(x *Ctx) {
	x.rule(addRule + " C24: after adding one rule the classes with a rule are exactly the ones the selector requires, each under its unchanged name, with that rule. Slicing back over the SSA form from every place that stores the name of a class selector: no call or character arithmetic on the way, or in a function whose result is used, changes case.")
	for _, sp := range x.selSpecs() {
		x.classesOf("C24", "a rule is found under exactly the classes its selector requires", sp)
	}
	x.classNames()
}

// classesOf adds a rule with the selector and reads the classes that have it.
func (x *Ctx) classesOf(id, rule string, sp selSpec) {
	site := x.fsite(x.P.method(x.P.Merger, "AddRules"))
	x.task(func() func() {
		w := newWorld(x.P, id)
		w.E.Unord = 1
		w.props = stdProps()
		var want string
		m := w.merger()
		m = w.addRules(m, func(c *Config) []Item {
			r := w.rule(c, sp.mk(w, c), vstr("cond"), []Item{one(w.decl(propVal("p"), vstr("1px"))), one(w.decl(propVal("--x"), vstr("2px")))})
			want = c.shape(r)
			return []Item{one(r)}
		})
		ok, detail := true, ""
		out, maps := w.rulesOf(m)
		if len(out) == 0 {
			ok, detail = false, "AddRules or Rules never returns"
		}
		req := strings.Fields(sp.req)
		for i, o := range maps {
			for _, t := range req {
				vals, missing := ruleFor(out[i].c, o, tokAtom(t))
				switch {
				case missing:
					ok, detail = false, fmt.Sprintf("class %s of selector %s does not lead to the rule; classes with a rule: %s", t, sp.name, entKeys(o))
				case vals[0] != want:
					ok, detail = false, fmt.Sprintf("class %s of selector %s leads to %s instead of %s", t, sp.name, clip(vals[0]), clip(want))
				}
			}
			for _, en := range o.Ents {
				known := false
				for _, t := range req {
					if eq(en.K, tokAtom(t)) == Yes {
						known = true
					}
				}
				if !known {
					ok, detail = false, fmt.Sprintf("the rule of selector %s is recorded under %s", sp.name, clip(key(en.K)))
				}
			}
		}
		return func() {
			x.absorb(id+"/"+sp.name, w.E)
			x.ob(rule, sp.name+" "+site, ok, detail)
		}
	})
}

func entKeys(o *Obj) string {
	var l []string
	for _, en := range o.Ents {
		l = append(l, clip(key(en.K)))
	}
	if len(l) == 0 {
		return "none"
	}
	return strings.Join(l, ", ")
}

// ---- C26

func checkC26(x *Ctx) {
	x.rule(addRule + " C26: after adding stylesheets in which several rules name one class, the last of them is its rule; rules of other classes are the ones they had.")
	site := x.fsite(x.P.method(x.P.Merger, "AddRules"))
	P := x.P
	type rl struct {
		sel  string // classes, "a" or "a b" (list of a compound)
		prop string
		cond string
	}
	run := func(name string, sheets [][]rl, want map[string]rl) {
		x.task(func() func() {
			w := newWorld(P, "C26")
			w.E.Unord = 1
			w.props = stdProps()
			mk := func(c *Config, r rl) Val {
				var sel Val
				cl := strings.Fields(r.sel)
				if len(cl) == 1 && cl[0] == "o*" {
					sel = w.classSel(tokAtom("o*"))
				} else if len(cl) == 1 {
					sel = w.classSel(tokAtom(cl[0]))
				} else {
					var subs []Val
					for _, t := range cl {
						subs = append(subs, w.classSel(tokAtom(t)))
					}
					sel = w.compound(c, vstr(""), subs...)
				}
				var decls []Item
				if r.prop != "" {
					decls = []Item{one(w.decl(propVal(r.prop), vstr("1px")))}
				}
				return w.rule(c, sel, vstr(r.cond), decls)
			}
			m := w.merger()
			for _, s := range sheets {
				s := s
				m = w.addRules(m, func(c *Config) []Item {
					var items []Item
					for _, r := range s {
						v := mk(c, r)
						if r.sel == "o*" {
							items = append(items, gap(v))
						} else {
							items = append(items, one(v))
						}
					}
					return items
				})
			}
			ok, detail := true, ""
			out, maps := w.rulesOf(m)
			if len(out) == 0 {
				ok, detail = false, "AddRules or Rules never returns"
			}
			for i, o := range maps {
				for t, r := range want {
					vals, missing := ruleFor(out[i].c, o, tokAtom(t))
					exp := out[i].c.shape(mk(out[i].c, r))
					switch {
					case missing:
						ok, detail = false, fmt.Sprintf("class %s has no rule afterwards", t)
					case vals[0] != exp:
						ok, detail = false, fmt.Sprintf("class %s has the rule %s instead of %s", t, clip(vals[0]), clip(exp))
					}
				}
			}
			return func() {
				x.absorb("C26/"+name, w.E)
				x.ob("the last rule of a class counts, others stay", name+" "+site, ok, detail)
			}
		})
	}
	p, q, r := rl{"a", "p", ""}, rl{"a", "q", ""}, rl{"b", "r", ""}
	one := func(l ...rl) [][]rl { return [][]rl{l} }
	run("twice in one stylesheet", one(p, q), map[string]rl{"a": q})
	run("twice in one stylesheet, others between", one(p, r, rl{"o*", "p", ""}, q), map[string]rl{"a": q, "b": r})
	run("three times", one(p, q, p), map[string]rl{"a": p})
	run("the same rule under another condition later", one(p, rl{"a", "p", "c1"}), map[string]rl{"a": {"a", "p", "c1"}})
	run("a conditional rule first", one(rl{"a", "p", "c1"}, p), map[string]rl{"a": p})
	run("an empty rule last", one(p, rl{"a", "", ""}), map[string]rl{"a": {"a", "", ""}})
	run("a rule of another class after an empty rule", one(rl{"b", "", ""}, p), map[string]rl{"a": p, "b": {"b", "", ""}})
	run("an empty rule replaced, others after it", one(rl{"a", "", ""}, r, p), map[string]rl{"a": p, "b": r})
	run("a conditional rule, then another class", one(rl{"b", "q", "c1"}, p), map[string]rl{"a": p, "b": {"b", "q", "c1"}})
	run("two classes", one(p, r), map[string]rl{"a": p, "b": r})
	run("in a compound with another", one(p, r, rl{"a b", "q", ""}), map[string]rl{"a": {"a b", "q", ""}, "b": {"a b", "q", ""}})
	run("alone after a compound", one(rl{"a b", "q", ""}, p), map[string]rl{"a": p, "b": {"a b", "q", ""}})
	run("second stylesheet replaces", [][]rl{{p}, {q}}, map[string]rl{"a": q})
	run("second stylesheet replaces, third puts back", [][]rl{{p}, {q}, {p}}, map[string]rl{"a": p})
	run("second stylesheet names another", [][]rl{{p}, {r}}, map[string]rl{"a": p, "b": r})
	run("second stylesheet is empty", [][]rl{{p}, {}}, map[string]rl{"a": p})
	run("second stylesheet with a condition replaces", [][]rl{{p}, {{"a", "p", "c1"}}}, map[string]rl{"a": {"a", "p", "c1"}})
	run("second stylesheet without condition replaces", [][]rl{{{"a", "p", "c1"}}, {p}}, map[string]rl{"a": p})
	run("second stylesheet among any others", [][]rl{{{"o*", "p", ""}, p, r, {"o*", "p", ""}}, {{"o*", "q", ""}, q, {"o*", "q", ""}}}, map[string]rl{"a": q, "b": r})
	run("first and second among any others", [][]rl{{{"o*", "p", ""}, p, {"o*", "p", ""}}, {{"o*", "q", ""}}}, map[string]rl{"a": p})
}

// ---- C23

func checkC23(x *Ctx) {
	x.rule("Effect analysis: over the call graph of the module (static calls, function values of known origin, interface calls resolved to all implementations in the module) no function reachable from an exported method of Merger or SimpleCache ends the process; NewMerger does so only on the path where reading the property table failed. Package-level variables, and what is reached through them, are written only by initialisers or under a sync.Once. What the constructors give out is allocated by the call, not the memory of a package variable. By abstract interpretation, adding rules to one merger writes to nothing another merger holds.")
	P := x.P
	// (1) nothing ends the process
	reach := map[*ssa.Function]string{}
	var walk func(f *ssa.Function, via string)
	walk = func(f *ssa.Function, via string) {
		if f == nil || len(f.Blocks) == 0 || !(P.inModule(f) || f.Synthetic != "") {
			return
		}
		if _, ok := reach[f]; ok {
			return
		}
		reach[f] = via
		x.Fns[f] = true
		for _, g := range P.callees(f) {
			walk(g, via+" > "+f.Name())
		}
	}
	roots := append(x.exported(P.Merger), x.exported(P.SimpleCache)...)
	for _, f := range roots {
		walk(f, "")
	}
	walk(P.Root.Func("NewCache"), "")
	for f, via := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if n := exitCall(in); n != "" {
					x.ob("no call ends the process", x.fsite(f), false, n+" at "+P.instrPos(in)+" is reached via"+via+" > "+f.Name())
				}
			}
		}
	}
	x.ob("no call ends the process", fmt.Sprintf("%d functions reachable from %d exported methods", len(reach), len(roots)), len(roots) > 0, "no exported methods")
	// NewMerger succeeds when the table was read
	w := newWorld(P, "C23")
	w.props = stdProps()
	w.E.Unord = 1
	for _, cache := range []string{"", "any"} {
		w.cache = cache
		m := w.call(w.start(), P.Root.Func("NewMerger"), func(*cont) []Val {
			c := Val(VC{nil, P.CacheIface})
			if cache != "" {
				c = VAtom{"obj", "cache", Rigid}
			}
			return []Val{c, VTerm{"bool:keepSort", nil}}
		})
		bad := ""
		for ev := range w.E.Events {
			if strings.HasPrefix(ev, "exit|") {
				bad = ev
			}
		}
		for p := range w.E.Panics {
			bad = p
		}
		for _, k := range m {
			if isNil(k.ret[0]) {
				bad = "NewMerger gives nil"
			}
		}
		x.ob("creating a merger succeeds when the property table is readable", x.fsite(P.Root.Func("NewMerger")), len(m) > 0 && bad == "", "with a readable table NewMerger may end in "+bad)
	}
	x.absorb("C23/NewMerger", w.E)
	// (2) package variables
	x.globalWrites()
	x.freshResults()
	// (3) two mergers
	for _, b := range usages(x) {
		w := newWorld(P, "C23")
		b.w = w
		w.cache = "any"
		w.props = stdProps()
		w.E.Unord = 1
		m1 := w.merger()
		if len(m1) == 0 {
			continue
		}
		m1 = w.addRules(m1, b.sheet(w))
		if len(m1) == 0 {
			x.ob("mergers share nothing that is written", b.describe(), false, "AddRules never returns")
			continue
		}
		for _, k := range m1 {
			k.c.share(k.ret[0], "merger")
		}
		first := m1[0]
		ok, n := true, 0
		for _, from := range m1 {
			one := []*cont{from}
			out, maps := w.rulesOf(one)
			if len(out) == 0 {
				continue
			}
			// Rules may copy entry by entry, with any of the entries that stand
			// for several: all that can come out before may come out after
			before := map[string]bool{}
			for i := range out {
				before[out[i].c.shapeMap(maps[i])] = true
			}
			w.E.Accesses = map[string]Access{}
			m2 := w.call(one, P.Root.Func("NewMerger"), func(*cont) []Val { return []Val{VAtom{"obj", "cache", Rigid}, vbool(false)} })
			w.sheetSeq = func(c *Config) (Val, Val) { return c.newSeq(b.sheet(w)(c)), nilErr }
			m3 := w.call(m2, P.method(P.Merger, "AddRules"), func(k *cont) []Val {
				return []Val{k.ret[0], VAtom{"obj", "reader", Rigid}, VTerm{"inline", nil}}
			})
			for _, k := range sortedKeys(w.E.Accesses) {
				a := w.E.Accesses[k]
				if a.Write && strings.HasPrefix(a.Obj, "merger") && ok {
					ok = false
					x.ob("mergers share nothing that is written", b.describe(), false, fmt.Sprintf("%s on one merger writes %s%s of another at %s", a.Entry, a.Obj, a.Path, a.Pos))
				}
			}
			for _, k := range m3 {
				k.ret, k.id = first.ret, first.id
			}
			out, maps = w.rulesOf(m3)
			for i := range out {
				n++
				if s := out[i].c.shapeMap(maps[i]); !before[s] && ok {
					ok = false
					x.ob("mergers share nothing that is written", b.describe(), false, "adding rules to one merger changes the rules of another")
				}
			}
		}
		x.ob("mergers share nothing that is written", b.describe(), n > 0, "the scenario cannot be explored")
		x.absorb("C23/"+b.describe(), w.E)
	}
}

// freshResults checks that what the constructors of mergers and caches give out
// is allocated by the call: no result, and no merger, cache or map of rules inside
// it, is the memory of a package variable.
func (x *Ctx) freshResults() {
	const rule = "constructors give out memory of their own"
	ef := newEffects(x.P, nil)
	state := func(t types.Type) bool {
		for {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			t = p.Elem()
		}
		if types.Identical(t, x.P.Merger) || types.Identical(t, x.P.SimpleCache) || types.Identical(t, x.P.CacheIface) {
			return true
		}
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(m.Elem(), x.P.CssRule)
	}
	n := 0
	for _, f := range x.P.Funcs {
		if f.Package() != x.P.Root || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		rs := f.Signature.Results()
		give := false
		for i := 0; i < rs.Len(); i++ {
			give = give || state(rs.At(i).Type())
		}
		if !give {
			continue
		}
		n++
		x.Fns[f] = true
		bad := ""
		sum := ef.sum[f]
		for i := 0; i < rs.Len(); i++ {
			for o := range sum.ret[i] {
				if o.kind == oGlobal && state(rs.At(i).Type()) {
					bad = f.Name() + " may give out memory of the package variable " + o.g.Name()
				}
			}
		}
		for o := range sum.fresh {
			if o.kind == oGlobal && state(o.g.Type()) {
				bad = f.Name() + " gives out memory that refers to the package variable " + o.g.Name()
			}
		}
		x.ob(rule, x.fsite(f), bad == "", bad)
	}
	if n == 0 {
		x.ob(rule, "merge", false, "anchor: no constructor found")
	}
}

// shapeMap writes the content of a map.
func (c *Config) shapeMap(o *Obj) string {
	m := map[string]bool{}
	for _, en := range o.Ents {
		m[c.shape(en.K)+"="+c.shape(en.V)+fmt.Sprint(en.Must, en.Many)] = true
	}
	return strings.Join(sortedKeys(m), "\n")
}

func exitCall(in ssa.Instruction) string {
	cc, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	f := cc.Common().StaticCallee()
	if f == nil {
		return ""
	}
	switch n := extName(f); n {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "syscall.Exit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "syscall.Kill", "(*os.Process).Kill",
		"log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
		return n
	}
	return ""
}

// callees lists the functions a function may call or hand out.
func (p *Program) callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(ssa.CallInstruction); ok {
				c := cc.Common()
				if c.IsInvoke() {
					for _, g := range p.implementations(c) {
						add(g)
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					add(g)
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		add(a)
	}
	return out
}

// implementations resolves an interface call to the methods of the module's types.
func (p *Program) implementations(c *ssa.CallCommon) []*ssa.Function {
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, sp := range p.Pkgs {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{nt, types.NewPointer(nt)} {
				if types.Implements(t, iface) {
					if g := p.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); g != nil {
						out = append(out, g)
					}
					break
				}
			}
		}
	}
	return out
}

// globalWrites checks that package-level variables are only written while the
// package is initialised or under a sync.Once.
func (x *Ctx) globalWrites() {
	P := x.P
	// functions run only by initialisers or once
	initOnly := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range P.Funcs {
		for _, g := range P.callees(f) {
			callers[g] = append(callers[g], f)
		}
	}
	once := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := cc.Common().StaticCallee()
				if g == nil {
					continue
				}
				n := extName(g)
				if g.Origin() != nil {
					n = extName(g.Origin())
				}
				if n == "(*sync.Once).Do" || n == "sync.OnceFunc" || n == "sync.OnceValue" || n == "sync.OnceValues" {
					for _, a := range cc.Common().Args {
						switch t := a.(type) {
						case *ssa.Function:
							once[t] = true
						case *ssa.MakeClosure:
							once[t.Fn.(*ssa.Function)] = true
						}
					}
				}
			}
		}
	}
	isInit := func(f *ssa.Function) bool {
		return f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") || f.Name() == "init"
	}
	for changed := true; changed; {
		changed = false
		for _, f := range P.Funcs {
			if initOnly[f] {
				continue
			}
			ok := isInit(f) || once[f]
			if !ok && f.Object() != nil && !f.Object().Exported() || !ok && f.Parent() != nil {
				ok = len(callers[f]) > 0
				for _, g := range callers[f] {
					if !initOnly[g] {
						ok = false
					}
				}
			}
			if ok {
				initOnly[f] = true
				changed = true
			}
		}
	}
	// values that refer to memory of a package variable
	refs := map[ssa.Value]*ssa.Global{}
	params := map[*ssa.Parameter]*ssa.Global{}
	rets := map[*ssa.Function]*ssa.Global{}
	origin := func(v ssa.Value) *ssa.Global {
		if g, ok := v.(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			return g
		}
		if p, ok := v.(*ssa.Parameter); ok {
			return params[p]
		}
		return refs[v]
	}
	isRef := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			return true
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value, g *ssa.Global) {
			if g != nil && refs[v] == nil {
				refs[v] = g
				changed = true
			}
		}
		for _, f := range P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch t := in.(type) {
					case *ssa.UnOp:
						if isRef(t.Type()) || hasRefType(t.Type()) {
							set(t, origin(t.X))
						}
					case *ssa.FieldAddr:
						set(t, origin(t.X))
					case *ssa.IndexAddr:
						set(t, origin(t.X))
					case *ssa.Slice:
						set(t, origin(t.X))
					case *ssa.Phi:
						for _, e := range t.Edges {
							set(t, origin(e))
						}
					case *ssa.ChangeType:
						set(t, origin(t.X))
					case *ssa.MakeInterface:
						if isRef(t.X.Type()) {
							set(t, origin(t.X))
						}
					case *ssa.TypeAssert:
						set(t, origin(t.X))
					case *ssa.Extract:
						if isRef(t.Type()) {
							set(t, origin(t.Tuple))
						}
					case *ssa.Lookup:
						if isRef(t.Type()) || hasRefType(t.Type()) {
							set(t, origin(t.X))
						}
					case *ssa.Field:
						if isRef(t.Type()) || hasRefType(t.Type()) {
							set(t, origin(t.X))
						}
					case *ssa.Return:
						for _, r := range t.Results {
							if g := origin(r); g != nil && rets[f] == nil && isRef(r.Type()) {
								rets[f] = g
								changed = true
							}
						}
					case ssa.CallInstruction:
						callee := t.Common().StaticCallee()
						if callee == nil {
							continue
						}
						for i, a := range t.Common().Args {
							if g := origin(a); g != nil && i < len(callee.Params) && params[callee.Params[i]] == nil {
								params[callee.Params[i]] = g
								changed = true
							}
						}
						if v, ok := in.(ssa.Value); ok {
							set(v, rets[callee])
						}
					}
				}
			}
		}
	}
	n := 0
	for _, f := range P.Funcs {
		if initOnly[f] || f.Pkg == nil && f.Origin() == nil && f.Parent() == nil {
			continue
		}
		if pk := P.pkgOf(f); pk == "scripts/twMergeTests" || pk == "internal/props/gen" {
			continue // generators, not part of the library
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var g *ssa.Global
				what := ""
				switch t := in.(type) {
				case *ssa.Store:
					g, what = origin(t.Addr), "assigned"
				case *ssa.MapUpdate:
					g, what = origin(t.Map), "changed"
				case *ssa.Call:
					if bi, ok := t.Call.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear", "copy":
							g, what = origin(t.Call.Args[0]), "changed"
						case "append":
							if gg := origin(t.Call.Args[0]); gg != nil {
								g, what = gg, "appended to in place"
							}
						}
					} else if callee := t.Call.StaticCallee(); callee != nil && len(callee.Blocks) == 0 && len(t.Call.Args) > 0 {
						nm := extName(callee)
						if o := callee.Origin(); o != nil {
							nm = extName(o)
						}
						if nm == "encoding/json.Unmarshal" {
							g, what = origin(t.Call.Args[1]), "changed by "+nm
						} else if mutates(nm) {
							g, what = origin(t.Call.Args[0]), "changed by "+nm
						}
					}
				}
				n++
				if g != nil {
					x.ob("package variables are set only during initialisation", x.fsite(f), false, fmt.Sprintf("package variable %s is %s at %s", g.Name(), what, P.instrPos(in)))
				}
			}
		}
	}
	x.ob("package variables are set only during initialisation", fmt.Sprintf("%d functions", len(P.Funcs)), true, "")
	x.count("instructions checked for writes to package variables", n)
}

// mutates: external functions that change what their first argument refers to.
func mutates(n string) bool {
	for _, p := range []string{"sort.", "slices.Sort", "slices.Reverse", "slices.Compact", "slices.Delete", "slices.Insert", "slices.Replace", "maps.Copy", "maps.DeleteFunc",
		"(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Delete", "(*sync.Map).Swap", "(*sync.Map).Clear", "(*sync.Map).LoadAndDelete", "(*sync.Map).CompareAnd",
		"(*bytes.Buffer).Write", "(*bytes.Buffer).Reset", "(*strings.Builder).Write", "(*strings.Builder).Reset"} {
		if strings.HasPrefix(n, p) {
			return !strings.HasPrefix(n, "sort.Search") && !strings.HasSuffix(n, "AreSorted")
		}
	}
	return strings.HasPrefix(n, "(*sync/atomic.") && (strings.HasSuffix(n, ").Store") || strings.HasSuffix(n, ").Add") || strings.HasSuffix(n, "Swap"))
}

func hasRefType(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			return true
		}
		if hasRefType(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (p *Program) pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg == nil {
		return "?"
	}
	return strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/")
}
