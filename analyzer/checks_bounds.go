package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = check{"no crash on any text", checkC17}
	checks["C18"] = check{"accepted only if understood", checkC18}
}

// bounds runs the analysis over what the roots reach.
func (x *Ctx) bounds(roots []*ssa.Function) *Z {
	if len(roots) == 0 {
		x.ob("anchor", "module", false, "none of the functions that turn text into selectors or rules was found")
	}
	z := newZ(x.P, zReach(x.P, roots))
	z.solve()
	for _, f := range z.order {
		if f.entry == nil {
			continue
		}
		x.Fns[f.fn] = true
		if os.Getenv("ZSUM") != "" {
			fmt.Fprintln(os.Stderr, "ENT", f.fn.Name(), f.top, f.dump(&zst{s: f.entry}))
			for _, k := range sortedKeys(f.cases) {
				c := f.cases[k]
				fmt.Fprintln(os.Stderr, "SUM", f.fn.Name(), k, f.dump(&zst{s: c.s}))
			}
		}
	}
	return z
}

// each visits the obligations of the analysed functions.
func (z *Z) each(do func(f *zfn, o *zob)) {
	for _, f := range z.order {
		if f.entry == nil {
			continue
		}
		ks := sortedKeys(f.results)
		sort.Strings(ks)
		for _, k := range ks {
			do(f, f.results[k])
		}
	}
}

func checkC17(x *Ctx) {
	z := x.bounds(append(apiRoots(x.P), parseRoots(x.P)...))
	z.each(func(f *zfn, o *zob) {
		switch o.rule {
		case ruleErr, ruleLook, ruleLeft:
			return
		}
		x.ob(o.rule, o.site, o.ok, o.detail)
	})
}

func checkC18(x *Ctx) {
	roots := parseRoots(x.P)
	z := x.bounds(roots)
	top := map[*ssa.Function]bool{}
	for _, r := range roots {
		top[r] = true
	}
	z.each(func(f *zfn, o *zob) {
		switch o.rule {
		case ruleErr, ruleLook:
			x.ob(o.rule, o.site, o.ok, o.detail)
		case ruleLeft:
			if top[f.fn] {
				x.ob(o.rule, o.site, o.ok, o.detail)
			}
		}
	})
	z.required(x)
	z.termination(x)
}

// required: where one caller fails because a function says no, no caller may
// ignore what that function says.
func (z *Z) required(x *Ctx) {
	sites := map[*zfn][]*ssa.Call{}
	fails := map[*zfn]*ssa.Call{}
	for _, f := range z.order {
		if f.entry == nil {
			continue
		}
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !isBoolType(c.Type()) {
					continue
				}
				g, _ := z.callee(c.Common())
				if g == nil {
					continue
				}
				sites[g] = append(sites[g], c)
				if failsOnFalse(c) {
					fails[g] = c
				}
			}
		}
	}
	for _, g := range z.order {
		if fails[g] == nil {
			continue
		}
		for _, c := range sites[g] {
			x.ob("what must be found is looked at", x.P.instrPos(c)+" "+g.fn.Name(), (&zfn{z: z}).used(c, 0, 1),
				"the result of "+g.fn.Name()+" is dropped, though "+fails[g].Parent().Name()+" fails when it is false")
		}
	}
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// failsOnFalse: the branch taken when the call returns false returns an error.
func failsOnFalse(c *ssa.Call) bool {
	var look func(v ssa.Value, neg bool) bool
	look = func(v ssa.Value, neg bool) bool {
		for _, r := range *v.Referrers() {
			switch t := r.(type) {
			case *ssa.UnOp:
				if t.Op == token.NOT && look(t, !neg) {
					return true
				}
			case *ssa.If:
				b := t.Block().Succs[1]
				if neg {
					b = t.Block().Succs[0]
				}
				for n := 0; n < 5; n++ {
					switch l := b.Instrs[len(b.Instrs)-1].(type) {
					case *ssa.Jump:
						b = b.Succs[0]
						continue
					case *ssa.Return:
						if k := len(l.Results); k > 0 && isErrorType(l.Results[k-1].Type()) {
							switch e := l.Results[k-1].(type) {
							case *ssa.UnOp:
								if _, ok := e.X.(*ssa.Global); ok {
									return true
								}
							case *ssa.MakeInterface:
								return true
							case *ssa.Call:
								if f := e.Call.StaticCallee(); f != nil && zNonNilName(f.String()) {
									return true
								}
							}
						}
					}
					break
				}
			}
		}
		return false
	}
	return look(c, false)
}

// termination judges the loops and the recursion of the analysed functions.
func (z *Z) termination(x *Ctx) {
	for _, f := range z.order {
		if f.entry == nil {
			continue
		}
		for _, b := range f.rpo {
			l := f.loops[b]
			if l == nil || l.readsInput(z) {
				continue
			}
			x.ob("every repetition comes closer to the end of the loop", x.P.instrPos(b.Instrs[0])+" "+f.fn.RelString(nil), f.ended(l),
				"no bounded quantity is found that changes in one direction on every way back to the start of the loop")
		}
	}
	z.recursion(func(fs []*zfn, ok bool, detail string) {
		names := ""
		for _, f := range fs {
			names += " " + f.fn.Name()
		}
		x.ob("recursion reads something before it repeats", x.P.pos(fs[0].fn.Pos())+names, ok, detail)
	})
}

// readsInput: a loop that takes the next item of the stylesheet in every step.
func (l *zloop) readsInput(z *Z) bool {
	free := map[*ssa.BasicBlock]bool{}
	for b := range l.body {
		free[b] = true
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if fn := c.Common().StaticCallee(); fn != nil && fn.Pkg != nil && !z.P.inModule(fn) && fn.Name() == "Next" {
					free[b] = false
				}
			}
		}
	}
	return !cyclic(free, l.head)
}

// apiRoots: the exported functions and methods of the package users import.
func apiRoots(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Object() != nil && f.Object().Exported() && f.Object().Pkg().Path() == modPath {
			out = append(out, f)
		}
	}
	return out
}

// parseRoots: the exported functions that turn a text into a selector.
func parseRoots(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Pkg == nil || f.Pkg.Pkg.Name() != "cascadia" {
			continue
		}
		s := f.Signature
		if s.Params().Len() < 1 || !isString(s.Params().At(0).Type()) || s.Results().Len() < 2 || !isErrorType(s.Results().At(s.Results().Len()-1).Type()) {
			continue
		}
		out = append(out, f)
	}
	return out
}
