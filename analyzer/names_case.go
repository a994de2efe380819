package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// classNames checks that the name of a class is not changed in case.
func (x *Ctx) classNames() { x.keepsCase("ClassSelector", "class") }

// keepsCase checks that the text stored in a kind of selector is not changed in
// case: nothing that computes it, in the function that builds the selector or in
// a function whose result it uses, changes the case of text or characters.
func (x *Ctx) keepsCase(kind, what string) {
	rule := what + " names keep their case"
	t := x.sel(kind)
	if t == nil {
		x.ob(rule, "internal/cascadia", false, "anchor: no "+what+" selector")
		return
	}
	n := 0
	for _, f := range x.P.Funcs {
		if pk := f.Package(); pk != x.P.Casc {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isStringT(st.Val.Type()) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), t) {
					continue
				}
				n++
				x.Fns[f] = true
				bad := x.caseChange(st.Val, map[ssa.Value]bool{}, map[*ssa.Function]bool{})
				x.ob(rule, x.P.instrPos(in), bad == "", "the name stored in the "+what+" selector is changed in case: "+bad)
			}
		}
	}
	x.ob(rule, "internal/cascadia", n > 0, "anchor: no place where a "+what+" selector gets its name")
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// caseChange follows a value back to what it is computed from.
func (x *Ctx) caseChange(v ssa.Value, seen map[ssa.Value]bool, fns map[*ssa.Function]bool) string {
	if v == nil || seen[v] {
		return ""
	}
	seen[v] = true
	if in, ok := v.(ssa.Instruction); ok {
		if s := changesCase(in); s != "" {
			return s + " at " + x.P.instrPos(in)
		}
	}
	back := func(vs ...ssa.Value) string {
		for _, o := range vs {
			if s := x.caseChange(o, seen, fns); s != "" {
				return s
			}
		}
		return ""
	}
	switch t := v.(type) {
	case *ssa.Phi:
		return back(t.Edges...)
	case *ssa.Extract:
		return back(t.Tuple)
	case *ssa.Convert:
		return back(t.X)
	case *ssa.ChangeType:
		return back(t.X)
	case *ssa.Slice:
		return back(t.X)
	case *ssa.BinOp:
		return back(t.X, t.Y)
	case *ssa.MakeInterface:
		return back(t.X)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if a, ok := t.X.(*ssa.Alloc); ok && a.Referrers() != nil {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						if d := back(s.Val); d != "" {
							return d
						}
					}
				}
			}
		}
	case *ssa.Call:
		if g := t.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && x.P.inModule(g) {
			if s := x.caseIn(g, fns); s != "" {
				return s
			}
		}
		for _, a := range t.Call.Args {
			if isStringT(a.Type()) {
				if s := back(a); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

// caseIn looks for changes of case in a function and all it calls. Functions that
// only answer a question are left aside, as are values that are only compared.
func (x *Ctx) caseIn(f *ssa.Function, fns map[*ssa.Function]bool) string {
	if fns[f] || !x.P.inModule(f) {
		return ""
	}
	fns[f] = true
	if rs := f.Signature.Results(); rs.Len() == 1 {
		if b, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return ""
		}
	}
	x.Fns[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s := changesCase(in); s != "" {
				if v, ok := in.(ssa.Value); !ok || !onlyCompared(v, map[ssa.Value]bool{}) {
					return s + " at " + x.P.instrPos(in)
				}
			}
		}
	}
	for _, g := range x.P.callees(f) {
		if s := x.caseIn(g, fns); s != "" {
			return s
		}
	}
	return ""
}

func onlyCompared(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch t := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			switch t.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				if !onlyCompared(t, seen) {
					return false
				}
			}
		case *ssa.Phi:
			if !onlyCompared(t, seen) {
				return false
			}
		case *ssa.Convert:
			if !onlyCompared(t, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// changesCase recognises calls and arithmetic that change the case of letters.
func changesCase(in ssa.Instruction) string {
	switch t := in.(type) {
	case ssa.CallInstruction:
		g := t.Common().StaticCallee()
		if g == nil {
			return ""
		}
		n := extName(g)
		for _, p := range []string{"strings.", "bytes.", "unicode."} {
			if r, ok := strings.CutPrefix(n, p); ok {
				for _, c := range []string{"ToLower", "ToUpper", "ToTitle", "Title", "SimpleFold", "To"} {
					if r == c || strings.HasPrefix(r, c) && strings.HasSuffix(r, "Special") {
						return n
					}
				}
			}
		}
	case *ssa.BinOp:
		switch t.Op {
		case token.ADD, token.SUB, token.OR, token.XOR, token.AND_NOT, token.AND:
			if !charT(t.Type()) {
				return ""
			}
			for _, o := range []ssa.Value{t.X, t.Y} {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					k, _ := constant.Int64Val(c.Value)
					if k < 0 {
						k = -k
					}
					if k == 32 || t.Op == token.AND && (k == 223 || k == 95) {
						return "arithmetic on characters"
					}
				}
			}
		}
	}
	return ""
}

func charT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32 || b.Kind() == types.UntypedRune)
}
