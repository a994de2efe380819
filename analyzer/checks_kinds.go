package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: every kind of selector the parser makes is handled by every consumer.

func init() { checks["C20"] = check{"every kind of selector is handled", checkC20} }

// kind is a selector value the parser makes, what it was read by, and the number
// of its parts.
type kind struct {
	construct
	names []string
	parts int
}

func (k kind) String() string {
	n := k.T.Obj().Name()
	if len(k.names) > 0 {
		n = ":" + strings.Join(k.names, " or :") + " (" + n + ")"
	} else if ops := sortedKeys(k.said(opFact)); len(ops) > 0 && n == "AttrSelector" {
		n += " " + strings.Join(ops, " ")
	}
	if n == "CombinedSelector" {
		for _, f := range k.V.F {
			if c, ok := constInt(f); ok {
				n += fmt.Sprintf(" %q", rune(c))
			}
		}
	}
	return n
}

// kinds collects the different selector values the parser makes.
func (x *Ctx) kinds() []kind {
	h := &harvest{}
	x.harvestSelectors(h)
	x.absorb("the parser over an arbitrary text", h.e)
	var out []kind
	done := map[string]bool{}
	for _, id := range sortedKeys(h.seen) {
		k := h.seen[id]
		if k.T == nil {
			continue
		}
		if st, ok := h.resolve(k.Facts, k.V).(VStruct); ok {
			k.V = st
		}
		names := sortedKeys(k.said(nameFact))
		d := fmt.Sprint(k.T, key(k.V), names, sortedKeys(k.said(opFact)))
		if k.T.Obj().Name() != "AttrSelector" {
			d = fmt.Sprint(k.T, abstracted(k.V), names)
		}
		if done[d] {
			continue
		}
		done[d] = true
		out = append(out, kind{k, names, countParts(k.V, 1, false)})
	}
	for _, t := range x.P.SelTypes {
		if _, ok := t.Underlying().(*types.Slice); ok {
			out = append(out, kind{construct: construct{T: t, Site: x.P.pos(t.Obj().Pos())}, parts: 1})
		}
	}
	return out
}

// value builds the selector; part gives its parts.
func (k kind) value(w *World, c *Config, n int, part func() Val) Val {
	list := func() Val {
		var items []Item
		for i := 0; i < n; i++ {
			items = append(items, one(part()))
		}
		return c.newSeq(items)
	}
	var build func(v Val, t types.Type, path string) Val
	build = func(v Val, t types.Type, path string) Val {
		switch u := v.(type) {
		case VStruct:
			st, ok := t.Underlying().(*types.Struct)
			if !ok || st.NumFields() != len(u.F) {
				return v
			}
			o := VStruct{T: u.T}
			for i, f := range u.F {
				o.F = append(o.F, build(f, st.Field(i).Type(), path+"."+st.Field(i).Name()))
			}
			return o
		case VAtom:
			if u.Kind == "list" {
				return list()
			}
			if key(u) == key(anyPart) {
				return part()
			}
			if key(u) == key(anyElement) {
				return vstr("")
			}
		case VC:
			return v
		}
		if isNil(v) {
			return v
		}
		return w.fieldVal(c, t, path, false, 0)
	}
	if k.V.T == nil {
		return VIface{k.T, list()}
	}
	return VIface{k.T, build(k.V, k.T, k.T.Obj().Name())}
}

func checkC20(x *Ctx) {
	const r1, r2, r3, r4 = "matching handles it", "two classes under it conflict", "a class under it does not conflict with the class alone", "its classes are found"
	x.rule("The selector values the parser can make are collected by abstract interpretation over an arbitrary text (as for C19). For each of them: no method of its type, interpreted with arbitrary parts on an arbitrary node, reaches a panic; " +
		"two classes combined with the same pseudo-class conflict in Merge and do not conflict with the class alone; the classes in its parts lead to the rule in AddRules exactly if the parts are required.")
	x.mergeAssumptions()
	ks := x.kinds()
	pseudo := map[string]bool{}
	for _, k := range ks {
		k := k
		x.task(func() func() { return x.consumers(r1, k) })
		switch k.T.Obj().Name() {
		case "CompoundSelector":
			continue // C24
		case "CombinedSelector":
			x.classesOf("C20", r4, selSpec{k.String(), "a b", func(w *World, c *Config) Val { return k.value(w, c, 2, classParts(w)) }})
			continue
		}
		if len(k.names) == 0 {
			continue
		}
		if _, ok := k.V.T.(*types.Named); !ok {
			continue
		}
		name := k.names[0]
		pseudo[name] = true
		with := func(w *World, c *Config, tok Val) Val {
			i := 0
			return w.compound(c, vstr(""), w.classSel(tok), k.value(w, c, 2, func() Val {
				i++
				return w.tagSel(fmt.Sprintf("x%d", i))
			}))
		}
		x.mcase(r2, k.String(), func(b *mb) {
			b.class("a", "", with, "p").class("b", "", with, "p").in("f* a f* b f*").drop("a").keep("b")
		})
		x.mcase(r3, k.String(), func(b *mb) {
			b.class("a", "", with, "p").class("b", "", nil, "p").in("f* a f* b f*").keep("a b")
		})
		x.mcase(r3, k.String()+" later", func(b *mb) {
			b.class("a", "", nil, "p").class("b", "", with, "p").in("f* a f* b f*").keep("a b")
		})
		if k.parts == 0 {
			continue
		}
		req, known := map[string]string{"is": "a b", "where": "a b", "not": "", "has": "", "haschild": ""}[name]
		if !known {
			continue
		}
		x.classesOf("C20", r4, selSpec{"tag" + k.String(), req, func(w *World, c *Config) Val {
			return w.compound(c, vstr(""), w.tagSel("t"), k.value(w, c, 2, classParts(w)))
		}})
	}
	x.ob("kinds are found", "internal/cascadia", len(pseudo) >= 15, fmt.Sprintf("only %d names of pseudo-classes found", len(pseudo)))
	x.Extra["kinds"] = len(ks)
	x.Extra["pseudo-classes"] = sortedKeys(pseudo)
}

func classParts(w *World) func() Val {
	n := 0
	return func() Val {
		n++
		return w.classSel(tokAtom(string(rune('a' + n - 1))))
	}
}

// consumers interprets every method of the kind that needs no more than a node.
func (x *Ctx) consumers(rule string, k kind) func() {
	w := newWorld(x.P, "consumers of "+k.String())
	w.E.OnIface = func(c *Config, method string, recv Val, in ssa.Instruction, _ []Val) ([]*Config, bool) {
		a, ok := recv.(VAtom)
		if !ok || a.Kind != "obj" || !strings.HasPrefix(a.Name, "part") {
			return nil, false
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil, false
		}
		return w.E.deliver(c, unknownOf(ci.Common().Signature().Results().At(0).Type(), 0)), true
	}
	w.E.OnCall = func(c *Config, fn *ssa.Function, in ssa.Instruction, args []Val) ([]*Config, bool) {
		if len(fn.Blocks) == 0 || mayPanic(x.P, fn, map[*ssa.Function]bool{}) {
			return nil, false
		}
		var r Val
		switch res := fn.Signature.Results(); res.Len() {
		case 0:
		case 1:
			r = unknownOf(res.At(0).Type(), 0)
		default:
			t := VTuple{}
			for i := 0; i < res.Len(); i++ {
				t = append(t, unknownOf(res.At(i).Type(), 0))
			}
			r = t
		}
		return w.E.deliver(c, r), true
	}
	w.E.MaxSteps = 100_000
	detail := ""
	ms := types.NewMethodSet(k.T)
	iface := x.P.Sel.Underlying().(*types.Interface).Complete()
	n := 0
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			if k.V.T == nil { // a list is no selector itself
				continue
			}
			detail = "it has no method " + m.Name()
			continue
		}
		fn := x.P.Prog.MethodValue(sel)
		for parts := 1; parts <= 2; parts++ {
			n++
			w.E.Panics = map[string]string{}
			p := 0
			out := w.call(w.start(), fn, func(kc *cont) []Val {
				v := k.value(w, kc.c, parts, func() Val {
					p++
					return VAtom{"obj", fmt.Sprintf("part%d", p-1), Rigid}
				}).(VIface)
				args := []Val{v.V}
				for j := 0; j < m.Type().(*types.Signature).Params().Len(); j++ {
					args = append(args, VTop{"node"})
				}
				return args
			})
			for _, at := range sortedKeys(w.E.Panics) {
				if strings.HasPrefix(at, "panic at") {
					detail = m.Name() + " reaches the " + at + ": " + w.E.Panics[at]
				}
			}
			if len(out) == 0 && detail == "" {
				detail = m.Name() + " never returns"
			}
		}
	}
	return func() {
		x.absorb("consumers of "+k.String(), w.E)
		x.ob(rule, k.Site+" "+k.String(), detail == "", detail)
	}
}

// mayPanic: the function or one it uses has an explicit panic.
func mayPanic(p *Program, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || !p.inModule(fn) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Panic); ok {
				return true
			}
			for _, op := range in.Operands(nil) {
				switch f := (*op).(type) {
				case *ssa.Function:
					if mayPanic(p, f, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}
