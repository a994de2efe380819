package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const aiRule = "Abstract interpretation of NewMerger, AddRules and Merge (SSA form, every branch, loops to a fixpoint; no code is run) over an abstract stylesheet and an abstract class list: " +
	"distinguished classes and properties are arbitrary individuals, every gap between them holds any number of other classes, known or unknown to the stylesheet."

func init() {
	checks["C05"] = check{"output is a subset of the input", checkC05}
	checks["C06"] = check{"unknown classes are kept", checkC06}
	checks["C07"] = check{"last wins", checkC07}
	checks["C08"] = check{"circumstances", checkC08}
	checks["C09"] = check{"declarations and shorthands", checkC09}
	checks["C10"] = check{"importance", checkC10}
	checks["C11"] = check{"custom properties", checkC11}
	checks["C25"] = check{"keep order", checkC25}
	checks["C04"] = check{"determinism", checkC04}
}

func (x *Ctx) mergeAssumptions() {
	x.assume("escaping keeps different texts different where its table is computed at start-up")
	x.assume("names of properties and circumstances do not run together ambiguously when the program concatenates them into keys")
	x.assume("functions of the standard library behave as documented (models in models.go); unescaping undoes escaping of a class name")
	x.assume("two lists that share memory are treated as independent copies when one is extended by append")
}

// ---- selector templates

func selWith(types ...*types.Named) selFn {
	return func(w *World, c *Config, tok Val) Val {
		subs := []Val{w.classSel(tok)}
		for _, t := range types {
			subs = append(subs, w.instance(c, t, ""))
		}
		return w.compound(c, vstr(""), subs...)
	}
}

func selVary(t *types.Named, vary string) selFn {
	return func(w *World, c *Config, tok Val) Val {
		return w.compound(c, vstr(""), w.classSel(tok), w.instance(c, t, vary))
	}
}

func selPE(pe string, ts ...*types.Named) selFn {
	return func(w *World, c *Config, tok Val) Val {
		subs := []Val{w.classSel(tok)}
		for _, t := range ts {
			subs = append(subs, w.instance(c, t, ""))
		}
		return w.compound(c, VAtom{"pe", pe, Rigid}, subs...)
	}
}

// selComb: class, combinator, tag
func selComb(comb byte, tag string, ts ...*types.Named) selFn {
	return func(w *World, c *Config, tok Val) Val {
		first := w.classSel(tok)
		if len(ts) > 0 {
			first = selWith(ts...)(w, c, tok)
		}
		return w.combined(c, first, comb, w.tagSel(tag))
	}
}

func (w *World) tagSel(tag string) Val {
	t := w.selType("TagSelector")
	v := w.instVal(&Config{heap: map[int]*Obj{}, E: w.E}, t, "TagSelector", "", 0).(VStruct)
	for i := range v.F {
		if a, ok := v.F[i].(VAtom); ok && a.Kind == "str" {
			v.F[i] = VAtom{"tag", tag, Rigid}
		}
	}
	return VIface{t, v}
}

func (x *Ctx) sel(name string) *types.Named {
	for _, t := range x.P.SelTypes {
		if t.Obj().Name() == name {
			return t
		}
	}
	x.ob("anchor", "internal/cascadia", false, "selector type "+name+" not found")
	return nil
}

// pseudoTypes are the kinds of pseudo-class selectors: every Sel type that is
// neither a basic kind nor a container.
func (x *Ctx) pseudoTypes() []*types.Named {
	var out []*types.Named
	for _, t := range x.P.SelTypes {
		switch t.Obj().Name() {
		case "ClassSelector", "IdSelector", "TagSelector", "AttrSelector", "CompoundSelector", "CombinedSelector":
			continue
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			continue
		}
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// ---- C05

func checkC05(x *Ctx) {
	x.rule(aiRule + " C05: in every abstract result each piece is one of the input's classes or a single separating space, and no distinguished class occurs twice.")
	x.mergeAssumptions()
	uniq := func(rule, name string, f func(b *mb), toks ...string) {
		x.mcase(rule, name, func(b *mb) {
			f(b)
			b.extra = func(out []*cont) (bool, string) {
				for _, k := range out {
					list, _, _ := b.w.result(k.ret)
					for _, t := range toks {
						n := 0
						for _, o := range list {
							if eq(o.v, tokAtom(t)) != No {
								n += o.max
							}
						}
						if n > 1 {
							return false, fmt.Sprintf("class %s may occur more than once; result %s%s", t, clip(key(k.ret[0])), tr(k.c.traceString()))
						}
					}
				}
				return true, ""
			}
		})
	}
	for _, ks := range []bool{false, true} {
		n := fmt.Sprintf("keepSort=%v", ks)
		uniq("only input classes", "known class among any others, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p", "*o*").in("n+ a n*")
		}, "a")
		uniq("only input classes", "known class written twice, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p", "*o*").in("g* a g* a g*")
		}, "a")
		uniq("only input classes", "unknown class written twice, "+n, func(b *mb) {
			b.keepSort = ks
			b.in("g* a g* a g*").keep("a")
		}, "a")
		uniq("only input classes", "class that is important and uses a variable, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p:var(--x) !important", "q", "--x:1px").in("g* a g* a g*")
		}, "a")
		uniq("only input classes", "class that only defines a variable, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("v", "", nil, "--x:1px").class("a", "", nil, "p:var(--x)").in("g* v a v g*")
		}, "a", "v")
	}
	for _, ks := range []bool{false, true} {
		n := fmt.Sprintf("keepSort=%v", ks)
		uniq("only input classes", "two known classes, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p").class("b", "", nil, "q").in("a b").keep("a b")
		}, "a", "b")
		uniq("only input classes", "three classes, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p").class("b", "", nil, "p").in("a z b").keep("b z").drop("a")
		}, "z", "b")
		uniq("only input classes", "unknown classes twice, "+n, func(b *mb) {
			b.keepSort = ks
			b.in("a b a").keep("a b")
		}, "a", "b")
	}
	uniq("only input classes", "one class", func(b *mb) { b.class("a", "", nil, "p").in("a").keep("a") }, "a")
	uniq("only input classes", "one unknown class", func(b *mb) { b.in("a").keep("a") }, "a")
	uniq("only input classes", "no class", func(b *mb) { b.class("a", "", nil, "p").in("").drop("a") })
}

// ---- C06

func checkC06(x *Ctx) {
	x.rule(aiRule + " C06: a distinguished class without rule is in every abstract result.")
	x.mergeAssumptions()
	const r = "unknown class kept"
	for _, ks := range []bool{false, true} {
		n := fmt.Sprintf("keepSort=%v", ks)
		x.mcase(r, "among any others, "+n, func(b *mb) { b.keepSort = ks; b.in("n* t n*").keep("t") })
		x.mcase(r, "two unknown among any others, "+n, func(b *mb) { b.keepSort = ks; b.in("g* t g* z g*").keep("t z") })
		x.mcase(r, "written twice, "+n, func(b *mb) { b.keepSort = ks; b.in("g* t g* t g*").keep("t") })
		x.mcase(r, "next to a known class, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p").in("t a").keep("t a")
		})
		x.mcase(r, "after a known class, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p").in("a t").keep("t a")
		})
		x.mcase(r, "alone, "+n, func(b *mb) { b.keepSort = ks; b.in("t").keep("t") })
		x.mcase(r, "only unknown, "+n, func(b *mb) { b.keepSort = ks; b.in("t z").keep("t z") })
		x.mcase(r, "with a cache, "+n, func(b *mb) { b.keepSort = ks; b.cache = "miss"; b.in("f* t f*").keep("t") })
		x.mcase(r, "with important and variable rules around, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p!").class("v", "", nil, "--x:1px").class("c", "c1", selPE("before"), "p:var(--x)")
			b.in("v t a c z").keep("t z a")
		})
	}
}

// ---- C07

func checkC07(x *Ctx) {
	x.rule(aiRule + " C07: a class all of whose properties are set again later under the same circumstances is in no abstract result; the last class that sets a property under some circumstances is in every one.")
	x.mergeAssumptions()
	hover, focus := x.sel("HoverPseudoClassSelector"), x.sel("FocusPseudoClassSelector")
	attrT := x.sel("AttrSelector")
	if hover == nil || focus == nil || attrT == nil {
		return
	}
	type tmpl struct {
		name string
		cond string
		sel  selFn
	}
	tmpls := []tmpl{
		{"no condition", "", plainSel},
		{"inside an at-rule", "c1", plainSel},
		{"pseudo-class", "", selWith(hover)},
		{"pseudo-class inside an at-rule", "c1", selWith(hover)},
		{"two pseudo-classes", "", selWith(hover, focus)},
		{"pseudo-element", "", selPE("before")},
		{"pseudo-class and pseudo-element inside an at-rule", "c1", selPE("before", hover)},
		{"child combinator", "", selComb('>', "x")},
		{"child combinator inside an at-rule", "c1", selComb('>', "x")},
		{"descendant of a class with pseudo-class", "", selComb(' ', "x", hover)},
		{"attribute", "", selWith(attrT)},
	}
	for _, ks := range []bool{false, true} {
		for _, t := range tmpls {
			if ks && t.name != "no condition" && !x.Deep {
				continue
			}
			n := fmt.Sprintf("%s, keepSort=%v", t.name, ks)
			x.mcase("conflicting earlier class dropped", n, func(b *mb) {
				b.keepSort = ks
				b.class("a", t.cond, t.sel, "p").class("b", t.cond, t.sel, "p").in("g* a g* b g*").drop("a")
			})
			x.mcase("last class kept", n, func(b *mb) {
				b.keepSort = ks
				b.class("a", t.cond, t.sel, "p").class("b", t.cond, t.sel, "p").in("g* a g* b f*").keep("b")
			})
		}
		n := fmt.Sprintf("keepSort=%v", ks)
		x.mcase("conflicting earlier class dropped", "overridden by two later classes together, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p", "q").class("b", "", nil, "p").class("c", "", nil, "q").in("g* a g* b f* c f*").drop("a").keep("b c")
		})
		x.mcase("conflicting earlier class dropped", "property outside the table, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "u").class("b", "", nil, "u").in("g* a g* b f*").drop("a").keep("b")
		})
		x.mcase("last class kept", "written again later, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p").class("b", "", nil, "p").in("g* a f* b f* a f*").drop("b").keep("a")
		})
		x.mcase("last class kept", "identical rules, "+n, func(b *mb) {
			b.keepSort = ks
			b.class("a", "", nil, "p").class("b", "", nil, "p").class("c", "", nil, "p").in("a b c").drop("a b").keep("c")
		})
	}
	for _, ds := range [][]string{{"p", "q"}, {"p", "q", "u"}, {"p", "p"}, {"p", "q", "x1", "x2", "u"}, {"s", "p"}, {"p:2px", "q:1px"}, {"p!", "q!"}, {"p:var(--z)", "q"}} {
		x.mcase("conflicting earlier class dropped", "identical rules with "+strings.Join(ds, " "), func(b *mb) {
			b.class("a", "", nil, ds...).class("b", "", nil, ds...).in("f* a f* b f*").drop("a").keep("b")
		})
	}
	for _, ds := range [][]string{{"p", "q"}, {"q", "p"}, {"q", "p", "u"}, {"u", "q", "p"}, {"*o*", "p", "*o*"}, {"--z:1px", "p"}, {"p", "--z:1px"}, {"p!"}, {"q!", "p"}, {"p:unset"}} {
		x.mcase("conflicting earlier class dropped", "the later class declares "+strings.Join(ds, " "), func(b *mb) {
			b.class("a", "", nil, "p").class("b", "", nil, ds...).in("g* a f* b f*").drop("a").keep("b")
		})
	}
	for _, ds := range [][]string{{"p", "q"}, {"q", "p"}, {"p", "q", "u"}, {"p", "p"}} {
		x.mcase("conflicting earlier class dropped", "the earlier class declares "+strings.Join(ds, " "), func(b *mb) {
			b.class("a", "", nil, ds...).class("b", "", nil, "u", "q", "p").in("f* a b").drop("a").keep("b")
		})
	}
	x.mcase("last class kept", "arbitrary classes before", func(b *mb) { b.class("b", "", nil, "p").in("n* b f*").keep("b") })
	x.mcase("last class kept", "alone", func(b *mb) { b.class("b", "", nil, "p").in("b").keep("b") })
	for _, ds := range [][]string{{"p:var(--y)"}, {"p:var(--y) var(--z)"}, {"p:var(--y) var(--z)", "q"}, {"p:var(--y, var(--z)) var(--w)"}, {"u:var(--y) var(--z)"}, {"s:var(--y) var(--z)"}} {
		x.mcase("last class kept", "the class declares "+strings.Join(ds, " "), func(b *mb) {
			b.class("a", "", nil, "p", "u").class("b", "", nil, ds...).in("g* a f* b f*").keep("b")
		})
	}
	x.mcase("last class kept", "important class earlier", func(b *mb) {
		b.class("a", "", nil, "p!").class("b", "", nil, "p").in("f* a f* b f*").keep("a b")
	})
	x.mcase("conflicting earlier class dropped", "with a cache", func(b *mb) {
		b.cache = "miss"
		b.class("a", "", nil, "p").class("b", "", nil, "p").in("f* a f* b f*").drop("a").keep("b")
	})
	x.mcase("conflicting earlier class dropped", "variable used by both", func(b *mb) {
		b.class("a", "", nil, "p:var(--x)").class("b", "", nil, "p:var(--x)").in("f* a f* b f*").drop("a").keep("b")
	})
	// one rule for several classes
	x.mcase("last class kept", "pseudo-classes in a different order conflict", func(b *mb) {
		b.class("a", "", selWith(hover, focus), "p").class("b", "", selWith(focus, hover), "p").in("f* a f* b f*").drop("a").keep("b")
	})
}

// ---- C08

func checkC08(x *Ctx) {
	x.rule(aiRule + " C08: two classes whose rules set the same property under different circumstances are both in every abstract result, for every kind of pseudo-class the parser knows, every at-rule condition, pseudo-element and combinator; the order of pseudo-classes makes no difference.")
	x.mergeAssumptions()
	hover := x.sel("HoverPseudoClassSelector")
	focus := x.sel("FocusPseudoClassSelector")
	attrT := x.sel("AttrSelector")
	if hover == nil || focus == nil || attrT == nil {
		return
	}
	const r = "different circumstances, both kept"
	both := func(name string, ca string, sa selFn, cb string, sb selFn) {
		x.mcase(r, name, func(b *mb) {
			b.class("a", ca, sa, "p").class("b", cb, sb, "p").in("f* a f* b f*").keep("a b")
		})
		x.mcase(r, name+", other order", func(b *mb) {
			b.class("a", ca, sa, "p").class("b", cb, sb, "p").in("f* b f* a f*").keep("a b")
		})
	}
	both("at-rule or none", "c1", plainSel, "", plainSel)
	both("two at-rules", "c1", plainSel, "c2", plainSel)
	both("at-rule and pseudo-class", "c1", selWith(hover), "", selWith(hover))
	both("two at-rules and pseudo-class", "c1", selWith(hover), "c2", selWith(hover))
	both("at-rule and pseudo-element", "c1", selPE("before"), "", selPE("before"))
	both("at-rule and combinator", "c1", selComb('>', "x"), "", selComb('>', "x"))
	both("two at-rules and combinator", "c1", selComb(' ', "x"), "c2", selComb(' ', "x"))
	both("at-rule and attribute", "c1", selWith(attrT), "", selWith(attrT))
	both("pseudo-element or none", "", selPE("before"), "", plainSel)
	both("two pseudo-elements", "", selPE("before"), "", selPE("after"))
	both("two pseudo-elements of a pseudo-class", "", selPE("before", hover), "", selPE("after", hover))
	both("pseudo-element of a pseudo-class or pseudo-class alone", "", selPE("before", hover), "", selWith(hover))
	both("pseudo-element of a pseudo-class or pseudo-element alone", "", selPE("before", hover), "", selPE("before"))
	both("pseudo-element of an attribute selector", "", selPE("before", attrT), "", selWith(attrT))
	both("attribute or none", "", selWith(attrT), "", plainSel)
	for _, cb := range []byte{' ', '>', '+', '~'} {
		both(fmt.Sprintf("combinator %q or none", cb), "", selComb(cb, "x"), "", plainSel)
		for _, c2 := range []byte{' ', '>', '+', '~'} {
			if c2 > cb {
				both(fmt.Sprintf("combinators %q and %q", cb, c2), "", selComb(cb, "x"), "", selComb(c2, "x"))
			}
		}
	}
	both("combinator, different elements", "", selComb('>', "x"), "", selComb('>', "y"))
	both("combinator, pseudo-class or none", "", selComb('>', "x", hover), "", selComb('>', "x"))
	both("combinator or pseudo-class", "", selComb('>', "x", hover), "", selWith(hover))
	both("class on the right of a combinator", "", func(w *World, c *Config, tok Val) Val {
		return w.combined(c, w.tagSel("x"), ' ', w.classSel(tok))
	}, "", plainSel)
	both("class on the right of a combinator, different elements", "", func(w *World, c *Config, tok Val) Val {
		return w.combined(c, w.tagSel("x"), ' ', w.classSel(tok))
	}, "", func(w *World, c *Config, tok Val) Val {
		return w.combined(c, w.tagSel("y"), ' ', w.classSel(tok))
	})
	both("tag before the class", "", func(w *World, c *Config, tok Val) Val {
		return w.compound(c, vstr(""), w.tagSel("x"), w.classSel(tok))
	}, "", plainSel)
	ps := x.pseudoTypes()
	n := 0
	for _, t := range ps {
		if t.Obj().Name() == "SelectorGroup" {
			continue
		}
		n++
		both("pseudo-class "+t.Obj().Name()+" or none", "", selWith(t), "", plainSel)
		other := hover
		if t == hover {
			other = focus
		}
		if !carriesName(t) { // it carries its name, which C19 keeps apart from the others
			both("pseudo-classes "+t.Obj().Name()+" and "+other.Obj().Name(), "", selWith(t), "", selWith(other))
		}
		both("pseudo-class "+t.Obj().Name()+" added to "+other.Obj().Name(), "", selWith(other, t), "", selWith(other))
		if x.Deep {
			for _, t2 := range ps {
				if t2.Obj().Name() > t.Obj().Name() && !carriesName(t) && !carriesName(t2) {
					both("pseudo-classes "+t.Obj().Name()+" and "+t2.Obj().Name(), "", selWith(t), "", selWith(t2))
				}
			}
		}
		for _, f := range ownFields(t) {
			both("pseudo-classes "+t.Obj().Name()+" that differ in "+f, "", selVary(t, ""), "", selVary(t, t.Obj().Name()+"."+f))
		}
	}
	x.Extra["pseudo_class_kinds"] = n
	x.ob("anchor", "internal/cascadia", n >= 15, fmt.Sprintf("only %d kinds of pseudo-classes found", n))
	// the same pseudo-classes in another order are the same circumstances
	for _, t := range ps {
		other := hover
		if t == hover {
			other = focus
		}
		switch t.Obj().Name() {
		case "IsPseudoClassSelector", "WherePseudoClassSelector":
			continue // kept apart: part of the element's identity, not a state of it
		}
		x.mcase("order of pseudo-classes is irrelevant", t.Obj().Name()+" and "+other.Obj().Name(), func(b *mb) {
			b.class("a", "", selWith(t, other), "p").class("b", "", selWith(other, t), "p").in("f* a f* b f*").drop("a").keep("b")
		})
		x.mcase("order of pseudo-classes is irrelevant", t.Obj().Name()+" and "+other.Obj().Name()+" with a pseudo-element inside an at-rule", func(b *mb) {
			b.class("a", "c1", selPE("before", t, other), "p").class("b", "c1", selPE("before", other, t), "p").in("f* a f* b f*").drop("a").keep("b")
		})
	}
}

// carriesName: the kind stands for several pseudo-classes and holds their name.
func carriesName(t *types.Named) bool {
	for _, f := range ownFields(t) {
		if f == "name" {
			return true
		}
	}
	return false
}

// ownFields are the fields of a selector type that distinguish its values.
func ownFields(t *types.Named) []string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Embedded() {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// ---- C09

func checkC09(x *Ctx) {
	x.tableLoader("every longhand of the table is kept")
	x.rule(aiRule + " C09: a class that is the last to set a property is in every abstract result, wherever the declaration stands, and the shorthand table (abstract: an arbitrary shorthand s with longhands x1, x2 and a shorthand S over s) is expanded down to longhands.")
	x.mergeAssumptions()
	const k = "last setter of one property kept"
	const d = "covered class dropped"
	for _, pos := range [][]string{{"p", "*o*"}, {"*o*", "p"}, {"*o*", "p", "*o*"}, {"q", "p"}, {"p", "q"}, {"u", "p"}, {"p", "u"}, {"--x:1px", "p"}, {"p", "--x:1px"}, {"q!", "p"}, {"p", "q!"}, {"q:var(--x)", "p"}} {
		x.mcase(k, strings.Join(pos, " ")+" overridden except p", func(b *mb) {
			b.class("a", "", nil, pos...).class("b", "", nil, "q", "u", "q!").in("h* a f* b f*").keep("a b")
		})
	}
	x.mcase(k, "property outside the table", func(b *mb) { b.class("a", "", nil, "p", "u").class("b", "", nil, "p").in("g* a f* b f*").keep("a b") })
	x.mcase(k, "property outside the table first", func(b *mb) { b.class("a", "", nil, "u", "p").class("b", "", nil, "p").in("g* a f* b f*").keep("a b") })
	x.mcase(k, "shorthand", func(b *mb) { b.class("a", "", nil, "s").in("g* a f*").keep("a") })
	x.mcase(k, "shorthand of shorthand", func(b *mb) { b.class("a", "", nil, "S").in("g* a f*").keep("a") })
	for _, l := range []string{"x1", "x2"} {
		x.mcase(k, "shorthand overridden in "+l+" only", func(b *mb) { b.class("a", "", nil, "s").class("b", "", nil, l).in("g* a f* b f*").keep("a b") })
		x.mcase(k, "shorthand of shorthand overridden in "+l+" only", func(b *mb) {
			b.class("a", "", nil, "S").class("b", "", nil, l, "q").in("g* a f* b f*").keep("a b")
		})
		x.mcase(d, l+" overridden by the shorthand", func(b *mb) {
			b.class("a", "", nil, l).class("b", "", nil, "s").in("g* a f* b f*").drop("a").keep("b")
		})
		x.mcase(d, l+" overridden by the shorthand of the shorthand", func(b *mb) {
			b.class("a", "", nil, l).class("b", "", nil, "S").in("g* a f* b f*").drop("a").keep("b")
		})
	}
	x.mcase(d, "shorthand overridden in all longhands", func(b *mb) {
		b.class("a", "", nil, "s").class("b", "", nil, "x1").class("c", "", nil, "x2").in("g* a f* b f* c f*").drop("a").keep("b c")
	})
	x.mcase(d, "shorthand overridden by itself", func(b *mb) {
		b.class("a", "", nil, "s").class("b", "", nil, "s").in("g* a f* b f*").drop("a").keep("b")
	})
	x.mcase(d, "shorthand overridden by the shorthand above it", func(b *mb) {
		b.class("a", "", nil, "s").class("b", "", nil, "S").in("g* a f* b f*").drop("a").keep("b")
	})
	x.mcase(k, "shorthand above overridden by the shorthand below", func(b *mb) {
		b.class("a", "", nil, "S").class("b", "", nil, "s").in("g* a f* b f*").keep("a b")
	})
	x.mcase(d, "shorthand above overridden in everything", func(b *mb) {
		b.class("a", "", nil, "S").class("b", "", nil, "s", "q").in("g* a f* b f*").drop("a").keep("b")
	})
	x.mcase(k, "arbitrary other declarations around", func(b *mb) {
		b.class("a", "", nil, "*q?", "*s?", "*o*?", "p", "*q?", "*u?").in("f* a f*").keep("a")
	})
	x.mcase(k, "two declarations of one property", func(b *mb) { b.class("a", "", nil, "p", "p").in("g* a f*").keep("a") })
	x.mcase(k, "under a condition", func(b *mb) {
		b.class("a", "c1", nil, "q", "s").class("b", "c1", nil, "q", "x1").in("f* a f* b f*").keep("a b")
	})
}

// ---- C10

func checkC10(x *Ctx) {
	x.rule(aiRule + " C10: the last class that sets a property with !important is in every abstract result, whatever ordinary declarations follow, for every spelling of !important.")
	x.mergeAssumptions()
	const k = "important declaration kept"
	sp := []string{"10px !important", "10px!important", "10px ! important", "10px !IMPORTANT", "10px !Important", "10px !  important", "10px!\timportant", "var(--z)!important", "1px solid red !important"}
	for _, v := range sp {
		x.mcase(k, fmt.Sprintf("value %q", v), func(b *mb) {
			b.class("a", "", nil, "p:"+v).class("b", "", nil, "p").in("g* a g* b g*").keep("a")
		})
		x.mcase("of two important classes the later one", fmt.Sprintf("value %q", v), func(b *mb) {
			b.class("a", "", nil, "p:"+v).class("b", "", nil, "p:"+v).in("f* a f* b f*").drop("a").keep("b")
		})
	}
	hover := x.sel("HoverPseudoClassSelector")
	if hover == nil {
		return
	}
	x.mcase(k, "any classes before", func(b *mb) { b.class("a", "", nil, "p!").in("n* a g*").keep("a") })
	x.mcase(k, "other declarations in the class", func(b *mb) {
		b.class("a", "", nil, "q", "p!", "q").class("b", "", nil, "p", "q").in("g* a g* b f*").keep("a b")
	})
	x.mcase(k, "importance before an ordinary declaration", func(b *mb) {
		b.class("a", "", nil, "p!", "q").class("b", "", nil, "p", "q").in("g* a f* b f*").keep("a b")
	})
	x.mcase(k, "shorthand against longhand", func(b *mb) {
		b.class("a", "", nil, "s!").class("b", "", nil, "x1", "x2").in("g* a g* b g*").keep("a")
	})
	x.mcase(k, "longhand against shorthand", func(b *mb) {
		b.class("a", "", nil, "x2!").class("b", "", nil, "s").in("g* a g* b f*").keep("a b")
	})
	x.mcase(k, "under conditions", func(b *mb) {
		b.class("a", "c1", selWith(hover), "p!").class("b", "c1", selWith(hover), "p").in("g* a g* b g*").keep("a")
	})
	x.mcase(k, "different conditions", func(b *mb) {
		b.class("a", "c1", nil, "p!").class("b", "", nil, "p!").in("f* a f* b f*").keep("a b")
	})
	x.mcase(k, "property outside the table", func(b *mb) {
		b.class("a", "", nil, "u!").class("b", "", nil, "u").in("g* a g* b f*").keep("a b")
	})
	for _, ds := range [][]string{{"--x:2px"}, {"q", "--x:2px"}, {"p", "q", "--x:2px"}} {
		x.mcase(k, "custom property defined again by "+strings.Join(ds, " "), func(b *mb) {
			b.class("a", "", nil, "--x:1px !important").class("b", "", nil, ds...).class("c", "", nil, "u:var(--x)").in("f* a b c").keep("a c")
		})
	}
	for _, ds := range [][]string{{"p"}, {"p", "q"}, {"p", "q", "u"}, {"p", "q", "u", "x1", "x2"}, {"q", "p"}, {"*o*", "p", "*o*"}} {
		x.mcase(k, "the later class declares "+strings.Join(ds, " "), func(b *mb) {
			b.class("a", "", nil, "p!").class("b", "", nil, ds...).in("a b").keep("a b")
		})
		x.mcase(k, "the later class declares, after others, "+strings.Join(ds, " "), func(b *mb) {
			b.class("a", "", nil, "p!", "u").class("b", "", nil, ds...).in("f* a b").keep("a b")
		})
	}
	x.mcase(k, "several ordinary classes after", func(b *mb) {
		b.class("a", "", nil, "p!").class("b", "", nil, "p").class("c", "", nil, "p").in("a b c").keep("a c").drop("b")
	})
	x.mcase(k, "important after ordinary", func(b *mb) {
		b.class("a", "", nil, "p").class("b", "", nil, "p!").in("g* a g* b f*").keep("b").drop("a")
	})
	const s = "importance belongs to one declaration"
	x.mcase(s, "ordinary declaration after an important one", func(b *mb) {
		b.class("y", "", nil, "q!").class("a", "", nil, "p!", "q").in("f* y f* a f*").keep("y a")
	})
	x.mcase(s, "ordinary declaration before an important one", func(b *mb) {
		b.class("y", "", nil, "q!").class("a", "", nil, "q", "p!").in("f* y f* a f*").keep("y a")
	})
	x.mcase(s, "ordinary class after a class with an important declaration", func(b *mb) {
		b.class("y", "", nil, "q!").class("a", "", nil, "p!").class("z", "", nil, "q").in("y a z").keep("y a z")
	})
	x.mcase(s, "class without important declarations between", func(b *mb) {
		b.class("a", "", nil, "p!").class("b", "", nil, "q").class("c", "", nil, "q").in("a b c").keep("a c").drop("b")
	})
	x.mcase(s, "two properties, importance on one", func(b *mb) {
		b.class("a", "", nil, "p!", "q").class("b", "", nil, "p!").class("c", "", nil, "q").in("a b c").drop("a").keep("b c")
	})
	x.mcase("of two important classes the later one", "under conditions", func(b *mb) {
		b.class("a", "c1", selWith(hover), "p!").class("b", "c1", selWith(hover), "p!").in("f* a f* b f*").drop("a").keep("b")
	})
	x.mcase("of two important classes the later one", "shorthand", func(b *mb) {
		b.class("a", "", nil, "x1!").class("b", "", nil, "s!").in("f* a f* b f*").drop("a").keep("b")
	})
}

// ---- C11

func checkC11(x *Ctx) {
	x.rule(aiRule + " C11: the last class that defines a custom property used by a kept declaration is in every abstract result.")
	x.mergeAssumptions()
	const k = "definition of a used custom property kept"
	hover := x.sel("HoverPseudoClassSelector")
	if hover == nil {
		return
	}
	for _, v := range []string{"var(--x)", "var(--x,1px)", "var(--x, 1px)", "var( --x )", "VAR(--x)", "calc(1px + var(--x))", "var(--y) var(--x)", "var(--y) var(--z) var(--x)", "var(--y, var(--x))", "rgb(0 0 0 / var(--x))", "var(--x) !important", "var(--x)!important", "var(--x) var(--x)", "1px var(\t--x)"} {
		for _, in := range []string{"f* v f* a f*", "f* a f* v f*"} {
			x.mcase(k, fmt.Sprintf("used as %q, %s", v, in), func(b *mb) {
				b.class("v", "", nil, "--x:1px").class("a", "", nil, "p:"+v).in(in).keep("v a")
			})
		}
	}
	for _, ds := range [][]string{{"--x:1px", "--y:2px"}, {"--y:2px", "--x:1px"}, {"q", "--x:1px"}, {"--x:1px", "q"}, {"--x:1px !important"}, {"q!", "--x:1px"}} {
		x.mcase(k, "defined in "+strings.Join(ds, " "), func(b *mb) {
			b.class("v", "", nil, ds...).class("a", "", nil, "p:var(--x)").class("w", "", nil, "q!").in("f* v f* a f* w f*").keep("v a")
		})
	}
	for _, n := range []string{"--X", "--Gap", "--tw-Ring-Color", "--x1", "--1", "--x_y", "--_x", "---x", "--\u00e9t\u00e9", "--x.y", "--x/2", "--a:b"} {
		if strings.Contains(n, ":") {
			continue
		}
		x.mcase(k, fmt.Sprintf("named %q", n), func(b *mb) {
			b.class("v", "", nil, n+":1px").class("a", "", nil, "p:var("+n+")").in("f* v f* a f*").keep("v a")
		})
		x.mcase(k, fmt.Sprintf("named %q with a fallback", n), func(b *mb) {
			b.class("v", "", nil, n+":1px").class("a", "", nil, "p:calc(2*var( "+n+" , 0px))").in("f* v f* a f*").keep("v a")
		})
	}
	type ctx struct {
		name string
		cond string
		sel  selFn
	}
	cs := []ctx{{"plain", "", plainSel}, {"at-rule", "c1", plainSel}, {"pseudo-class", "", selWith(hover)}, {"pseudo-element", "", selPE("before")}, {"child", "", selComb('>', "x")}}
	for _, def := range cs {
		for _, use := range cs {
			x.mcase(k, "defined "+def.name+", used "+use.name, func(b *mb) {
				b.class("v", def.cond, def.sel, "--x:1px").class("a", use.cond, use.sel, "p:var(--x)").in("f* v f* a f*").keep("v a")
			})
		}
	}
	x.mcase(k, "used in an overridden-but-important declaration", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("a", "", nil, "p:var(--x) !important").class("b", "", nil, "p").in("f* v f* a f* b f*").keep("v a b")
	})
	x.mcase(k, "use overridden by another use", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("w", "", nil, "--y:1px").class("a", "", nil, "p:var(--y)").class("b", "", nil, "p:var(--x)").in("f* v f* w f* a f* b f*").keep("v b")
	})
	x.mcase(k, "the last of two definitions", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("w", "", nil, "--x:2px").class("a", "", nil, "p:var(--x)").in("f* v f* w f* a f*").keep("w a")
	})
	x.mcase(k, "the last of two definitions, after the use", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("w", "", nil, "--x:2px").class("a", "", nil, "p:var(--x)").in("f* v f* a f* w f*").keep("w a")
	})
	x.mcase(k, "definitions in two circumstances", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("w", "c1", nil, "--x:2px").class("a", "", nil, "p:var(--x)").in("f* v f* w f* a f*").keep("v w a")
	})
	x.mcase(k, "used in the definition of another custom property", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("w", "", nil, "--y:var(--x)").class("a", "", nil, "p:var(--y)").in("f* v f* w f* a f*").keep("v w a")
	})
	x.mcase(k, "used in the definition of another custom property, reverse order", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("w", "", nil, "--y:calc(1px*var(--x))").class("a", "", nil, "p:var(--y)").in("f* a f* w f* v f*").keep("v w a")
	})
	x.mcase(k, "used by a shorthand that is partly overridden", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("a", "", nil, "s:var(--x)").class("b", "", nil, "x1").in("f* v f* a f* b f*").keep("v a b")
	})
	x.mcase(k, "used by a property outside the table", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("a", "", nil, "u:var(--x)").in("f* v f* a f*").keep("v a")
	})
	x.mcase(k, "used by one of several declarations", func(b *mb) {
		b.class("v", "", nil, "--x:1px").class("a", "", nil, "q", "p:var(--x)", "u").in("f* v f* a f*").keep("v a")
	})
	x.mcase(k, "defined and used by the same class", func(b *mb) {
		b.class("v", "", nil, "--x:1px", "p:var(--x)").in("f* v f*").keep("v")
	})
	x.mcase(k, "defined by the user of another", func(b *mb) {
		b.class("v", "", nil, "--x:1px", "p:var(--y)").class("w", "", nil, "--y:1px", "p:var(--x)").in("f* v f* w f*").keep("v w")
	})
	x.mcase(k, "with a cache and arbitrary classes between", func(b *mb) {
		b.cache = "miss"
		b.class("v", "", nil, "--x:1px").class("a", "", nil, "p:var(--x)").in("g* v g* a f*").keep("v a")
	})
	x.mcase(k, "with keepSort", func(b *mb) {
		b.keepSort = true
		b.class("v", "", nil, "--x:1px").class("a", "", nil, "p:var(--x)").in("f* a f* v f*").keep("v a")
	})
}

// ---- C25

func checkC25(x *Ctx) {
	x.rule(aiRule + " C25: with the keep-order option two distinguished classes that are both kept stand in the abstract result in the order of their last occurrences in the input; comparison functions given to sorts are evaluated abstractly on the two.")
	x.mergeAssumptions()
	const r = "order of the input"
	two := func(name string, in string, first, second string, f func(b *mb)) {
		x.mcase(r, name, func(b *mb) {
			b.keepSort = true
			f(b)
			b.in(in).keep(first + " " + second)
			b.order = [2]string{first, second}
		})
	}
	for _, pair := range [][2]string{{"a", "b"}, {"b", "a"}} {
		in := "f* " + pair[0] + " f* " + pair[1] + " f*"
		n := pair[0] + " before " + pair[1]
		two("two known classes, "+n, in, pair[0], pair[1], func(b *mb) { b.class("a", "", nil, "p").class("b", "", nil, "q") })
		two("known and unknown, "+n, in, pair[0], pair[1], func(b *mb) { b.class("a", "", nil, "p") })
		two("unknown and known, "+n, in, pair[0], pair[1], func(b *mb) { b.class("b", "", nil, "p") })
		two("two unknown, "+n, in, pair[0], pair[1], func(b *mb) {})
		two("adjacent, "+n, pair[0]+" "+pair[1], pair[0], pair[1], func(b *mb) { b.class("a", "", nil, "p").class("b", "", nil, "q") })
		two("important and ordinary, "+n, in, pair[0], pair[1], func(b *mb) { b.class("a", "", nil, "p!").class("b", "", nil, "p", "q", "u!") })
		two("variable and user, "+n, in, pair[0], pair[1], func(b *mb) { b.class("a", "", nil, "--x:1px").class("b", "", nil, "p:var(--x)") })
		two("under conditions, "+n, in, pair[0], pair[1], func(b *mb) { b.class("a", "c1", nil, "p").class("b", "c2", nil, "p") })
		two("with a cache, "+n, in, pair[0], pair[1], func(b *mb) { b.cache = "miss"; b.class("a", "", nil, "p").class("b", "", nil, "q") })
		two("first written twice, last occurrence counts, "+n, "f* "+pair[1]+" f* "+pair[0]+" f* "+pair[1]+" f*", pair[0], pair[1], func(b *mb) { b.class("a", "", nil, "p").class("b", "", nil, "q") })
		two("unknown written twice, last occurrence counts, "+n, "f* "+pair[1]+" f* "+pair[0]+" f* "+pair[1]+" f*", pair[0], pair[1], func(b *mb) {})
	}
}

// ---- C04

func checkC04(x *Ctx) {
	x.rule(aiRule + " C04: every case is interpreted twice, with hash maps walked in ascending and in descending order of their distinguished entries; the sets of abstract results must be the same. Calls whose outcome varies between runs (time, randomness, environment, goroutines) do not occur.")
	x.mergeAssumptions()
	hover := x.sel("HoverPseudoClassSelector")
	if hover == nil {
		return
	}
	type cs struct {
		name string
		f    func(b *mb)
	}
	cases := []cs{
		{"three kept classes", func(b *mb) { b.class("a", "", nil, "p").class("b", "", nil, "q").class("c", "", nil, "u").in("a b c") }},
		{"three kept classes, others between", func(b *mb) {
			b.class("a", "", nil, "p").class("b", "", nil, "q").class("c", "", nil, "u").in("f* c f* b f* a f*")
		}},
		{"unknown and known", func(b *mb) { b.class("a", "", nil, "p").class("b", "", nil, "q").in("t a z b") }},
		{"conflicts", func(b *mb) {
			b.class("a", "", nil, "p", "q").class("b", "", nil, "s", "q").class("c", "", nil, "x1", "p").in("a b c")
		}},
		{"important", func(b *mb) {
			b.class("a", "", nil, "p!", "q").class("b", "", nil, "p", "q!").class("c", "", nil, "p", "q").in("a b c")
		}},
		{"custom properties", func(b *mb) {
			b.class("v", "", nil, "--x:1px", "--y:2px").class("w", "", nil, "--y:3px").class("a", "", nil, "p:var(--x)").class("b", "", nil, "q:var(--y)").in("v w a b")
		}},
		{"custom properties in circumstances", func(b *mb) {
			b.class("v", "c1", nil, "--x:1px").class("w", "", nil, "--x:3px").class("a", "", selWith(hover), "p:var(--x)").class("b", "c1", nil, "q:var(--x)").in("v w a b")
		}},
		{"classes written twice", func(b *mb) {
			b.class("a", "", nil, "p").class("b", "", nil, "p").class("c", "", nil, "q").in("a b c a t t")
		}},
		{"circumstances", func(b *mb) {
			b.class("a", "c1", nil, "p").class("b", "", selWith(hover), "p").class("c", "", nil, "p").class("d", "", selPE("before"), "p").in("d c b a")
		}},
	}
	for _, ks := range []bool{false, true} {
		for _, c := range cases {
			var res [2][]string
			var site [2]map[string]string
			for i := 0; i < 2; i++ {
				b := &mb{x: x, keepSort: ks, unord: i + 1}
				c.f(b)
				out := b.run()
				x.absorb("determinism/"+c.name, b.w.E)
				site[i] = map[string]string{}
				for _, k := range out {
					s := key(k.ret[0])
					res[i] = append(res[i], s)
					site[i][s] = k.c.traceString()
				}
				sort.Strings(res[i])
				for ev := range b.w.E.Events {
					if strings.HasPrefix(ev, "nondet|") || strings.HasPrefix(ev, "go|") {
						x.ob("no source of variation", c.name+" "+x.mergeSite(), false, "Merge calls "+ev)
					}
				}
			}
			a, bb := dedupe(res[0]), dedupe(res[1])
			ok := strings.Join(a, "\n") == strings.Join(bb, "\n") && len(a) > 0
			d := ""
			if !ok {
				d = fmt.Sprintf("the result depends on the order in which a map is walked: ascending %v, descending %v", a, bb)
			}
			x.ob("same results in either map order", fmt.Sprintf("%s, keepSort=%v %s", c.name, ks, x.mergeSite()), ok, d)
		}
	}
	x.ob("no source of variation", x.mergeSite(), true, "")
}

func dedupe(l []string) []string {
	var out []string
	for i, s := range l {
		if i == 0 || l[i-1] != s {
			out = append(out, s)
		}
	}
	return out
}
