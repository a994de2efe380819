package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"

	"golang.org/x/tools/go/ssa"
)

// Calls that pass on a part of what they were given: 2 the argument is a proper
// part (an element, a field, the result of a method that returns one) of a
// parameter of the caller, 1 it is the parameter itself, 0 neither is known.
// Values of the program are finite trees (selectors are never changed, see C27),
// so parts of parts come to an end.

type partCtx struct {
	P    *Program
	z    *Z
	busy map[partKey]bool
	memo map[partKey]int8
}

type partKey struct {
	v ssa.Value
	p int
}

func minPart(a, b int8) int8 {
	if a < b {
		return a
	}
	return b
}

// level of a value relative to parameter p of its function.
func (c *partCtx) level(v ssa.Value, p ssa.Value, n int) int8 {
	k := partKey{v, n}
	if r, ok := c.memo[k]; ok {
		return r
	}
	if c.busy[k] {
		return 2 // assumed while it is being computed
	}
	c.busy[k] = true
	r := c.level0(v, p, n)
	delete(c.busy, k)
	if len(c.busy) == 0 || r == 0 {
		c.memo[k] = r
	}
	return r
}

func (c *partCtx) level0(v ssa.Value, p ssa.Value, n int) int8 {
	if v == p {
		return 1
	}
	in := func(x ssa.Value) int8 { // something inside x
		if c.level(x, p, n) > 0 {
			return 2
		}
		return 0
	}
	elem := func(x ssa.Value) int8 { // something that x is put into
		if c.level(x, p, n) == 2 {
			return 2
		}
		return 0
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.IsNil() {
			return 2
		}
	case *ssa.TypeAssert:
		return c.level(t.X, p, n)
	case *ssa.MakeInterface:
		return c.level(t.X, p, n)
	case *ssa.ChangeInterface:
		return c.level(t.X, p, n)
	case *ssa.ChangeType:
		return c.level(t.X, p, n)
	case *ssa.Slice:
		return c.level(t.X, p, n)
	case *ssa.Field:
		return in(t.X)
	case *ssa.FieldAddr:
		return in(t.X)
	case *ssa.Index:
		return in(t.X)
	case *ssa.IndexAddr:
		return in(t.X)
	case *ssa.Lookup:
		return in(t.X)
	case *ssa.Extract:
		switch u := t.Tuple.(type) {
		case *ssa.TypeAssert:
			if t.Index == 0 {
				return c.level(u.X, p, n)
			}
		case *ssa.Lookup:
			if t.Index == 0 {
				return in(u.X)
			}
		case *ssa.Next:
			if r, ok := u.Iter.(*ssa.Range); ok {
				return in(r.X)
			}
		case *ssa.Call:
			return c.result(u, t.Index, p, n)
		}
	case *ssa.Call:
		return c.result(t, 0, p, n)
	case *ssa.Phi:
		r := int8(2)
		for _, e := range t.Edges {
			r = minPart(r, c.level(e, p, n))
		}
		return r
	case *ssa.MakeSlice:
		// a list made here: what is copied and stored into it
		r := int8(2)
		for _, ref := range *t.Referrers() {
			switch u := ref.(type) {
			case *ssa.IndexAddr:
				for _, rr := range *u.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == u {
						r = minPart(r, elem(s.Val))
					}
				}
			case *ssa.Call:
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && u.Call.Args[0] == t {
					r = minPart(r, c.level(u.Call.Args[1], p, n))
				}
			case *ssa.Store, *ssa.MakeClosure:
				return 0
			}
		}
		return r
	case *ssa.Alloc:
		// a local copy: what is stored into it
		r, some := int8(2), false
		for _, ref := range *t.Referrers() {
			switch u := ref.(type) {
			case *ssa.Store:
				if u.Addr == t {
					r, some = minPart(r, c.level(u.Val, p, n)), true
				} else {
					return 0
				}
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef, *ssa.Slice:
				if a, ok := u.(ssa.Value); ok {
					for _, rr := range *a.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == a {
							r, some = minPart(r, elem(s.Val)), true
						}
					}
				}
			case *ssa.Call:
			case *ssa.MakeClosure:
			default:
				return 0
			}
		}
		if !some {
			return 0
		}
		return r
	case *ssa.UnOp:
		if t.Op == token.MUL {
			return c.level(t.X, p, n)
		}
	}
	return 0
}

// result of a call: every function it may go to returns a part of an argument.
func (c *partCtx) result(call *ssa.Call, idx int, p ssa.Value, n int) int8 {
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return minPart(c.level(cc.Args[0], p, n), c.level(cc.Args[1], p, n))
	}
	if g := cc.StaticCallee(); g != nil {
		switch extName(g) {
		case "slices.Clone", "slices.Clip", "slices.Grow", "slices.Compact":
			return c.level(cc.Args[0], p, n)
		}
	}
	fs, args := c.targets(cc)
	if len(fs) == 0 {
		return 0
	}
	out := int8(2)
	for _, g := range fs {
		if len(g.Blocks) == 0 {
			return 0
		}
		best := int8(0)
		for j, q := range g.Params {
			if j >= len(args) {
				break
			}
			a := c.level(args[j], p, n)
			if a == 0 {
				continue
			}
			r := int8(2)
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if idx >= len(ret.Results) {
						return 0
					}
					r = minPart(r, c.level(ret.Results[idx], q, j))
				}
			}
			if r == 0 {
				continue
			}
			if r == 2 || a == 2 {
				best = 2
			} else if best < 1 {
				best = 1
			}
		}
		out = minPart(out, best)
	}
	return out
}

func (c *partCtx) targets(cc *ssa.CallCommon) (fs []*ssa.Function, args []ssa.Value) {
	if cc.IsInvoke() {
		return c.P.implementations(cc), append([]ssa.Value{cc.Value}, cc.Args...)
	}
	if g, _ := c.z.callee(cc); g != nil {
		return []*ssa.Function{g.fn}, cc.Args
	}
	if g := cc.StaticCallee(); g != nil {
		return []*ssa.Function{g}, cc.Args
	}
	return nil, nil
}

// parts notes for every call among the analysed functions which parameters get a
// part of the caller's parameter of the same position.
func (z *Z) parts() {
	c := &partCtx{P: z.P, z: z, busy: map[partKey]bool{}, memo: map[partKey]int8{}}
	type seenKey struct {
		e [2]*zfn
		f string
	}
	first := map[seenKey]bool{}
	for _, f := range z.order {
		if f.entry == nil {
			continue
		}
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				fs, args := c.targets(call.Common())
				for _, g := range fs {
					h := z.fns[g]
					if h == nil || h.entry == nil {
						continue
					}
					k := [2]*zfn{f, h}
					old := z.recur[k]
					if old == nil {
						old = map[string]int8{}
						z.recur[k] = old
					}
					_, plain := in.(*ssa.Call)
					if call.Common().IsInvoke() || !plain {
						for n := range old { // a call that shows no other progress
							if n[0] != '^' {
								old[n] = 0
							}
						}
					}
					for i := range g.Params {
						name := fmt.Sprint("^part", i)
						l := int8(0)
						if i < len(f.fn.Params) && i < len(args) {
							l = c.level(args[i], f.fn.Params[i], i)
						}
						sk := seenKey{k, name}
						if !first[sk] {
							first[sk] = true
							old[name] = l
						} else {
							old[name] = minPart(old[name], l)
						}
					}
				}
			}
		}
	}
}

// regexpOf is the pattern of a compiled expression: a constant given to
// MustCompile, directly or through a package variable only its initialiser sets.
func (z *Z) regexpOf(v ssa.Value) *regexp.Regexp {
	if u, ok := z.root(v).(*ssa.UnOp); ok && u.Op == token.MUL {
		g, ok := u.X.(*ssa.Global)
		if !ok {
			return nil
		}
		v = nil
		for _, f := range z.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op != g {
							continue
						}
						switch t := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if t.Addr != g || v != nil {
								return nil
							}
							v = t.Val
						default:
							return nil
						}
					}
				}
			}
		}
		if v == nil && g.Pkg != nil {
			if ini := g.Pkg.Func("init"); ini != nil {
				for _, b := range ini.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							if v != nil {
								return nil
							}
							v = s.Val
						}
					}
				}
			}
		}
	}
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "regexp.MustCompile" {
		return nil
	}
	k, ok := c.Call.Args[0].(*ssa.Const)
	if !ok || k.Value == nil {
		return nil
	}
	r, err := regexp.Compile(constant.StringVal(k.Value))
	if err != nil {
		return nil
	}
	return r
}

// groups: the value is one match of FindAll…Submatch, whose length is known.
func (z *Z) groups(v *ssa.UnOp) (int64, bool) {
	a, ok := v.X.(*ssa.IndexAddr)
	if !ok {
		return 0, false
	}
	c, ok := z.root(a.X).(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return 0, false
	}
	per := int64(0)
	switch c.Call.StaticCallee().String() {
	case "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindAllSubmatch":
		per = 1
	case "(*regexp.Regexp).FindAllStringSubmatchIndex", "(*regexp.Regexp).FindAllSubmatchIndex":
		per = 2
	case "(*regexp.Regexp).FindAllStringIndex", "(*regexp.Regexp).FindAllIndex":
		return 2, true
	default:
		return 0, false
	}
	r := z.regexpOf(c.Call.Args[0])
	if r == nil {
		return 0, false
	}
	return per * int64(r.NumSubexp()+1), true
}

// worklist: the loop takes the first or last element off a list in every round
// and adds only parts of that element.
func (f *zfn) worklist(l *zloop) bool {
	c := &partCtx{P: f.z.P, z: f.z, busy: map[partKey]bool{}, memo: map[partKey]int8{}}
	for _, in := range l.head.Instrs {
		w, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := w.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		// how the element is taken off
		isLast := func(v ssa.Value) bool {
			b, ok := v.(*ssa.BinOp)
			if !ok || b.Op != token.SUB || !isIntConst(b.Y, 1) {
				return false
			}
			n, ok := b.X.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := n.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && n.Call.Args[0] == w
		}
		for _, end := range []bool{true, false} {
			var taken []ssa.Value
			for _, r := range *w.Referrers() {
				a, ok := r.(*ssa.IndexAddr)
				if !ok || a.X != w || !(end && isLast(a.Index) || !end && isIntConst(a.Index, 0)) {
					continue
				}
				for _, u := range *a.Referrers() {
					if u, ok := u.(*ssa.UnOp); ok && u.Op == token.MUL {
						taken = append(taken, u)
					}
				}
			}
			partOf := func(v ssa.Value, depth int8) bool {
				for i, t := range taken {
					if c.level(v, t, i) >= depth {
						return true
					}
				}
				return false
			}
			busy := map[ssa.Value]bool{}
			var good func(v ssa.Value) bool
			good = func(v ssa.Value) bool {
				if busy[v] {
					return true
				}
				busy[v] = true
				switch t := v.(type) {
				case *ssa.Slice:
					if t.X != w || t.Max != nil {
						return false
					}
					if end {
						return t.Low == nil && t.High != nil && isLast(t.High)
					}
					return t.High == nil && t.Low != nil && isIntConst(t.Low, 1)
				case *ssa.Phi:
					if t == w {
						return false
					}
					for _, e := range t.Edges {
						if !good(e) {
							return false
						}
					}
					return true
				case *ssa.Call:
					b, ok := t.Call.Value.(*ssa.Builtin)
					return ok && b.Name() == "append" && good(t.Call.Args[0]) && partOf(t.Call.Args[1], 2)
				}
				return false
			}
			ok := true
			for i, p := range l.head.Preds {
				if l.body[p] && !good(w.Edges[i]) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	k, exact := constant.Int64Val(c.Value)
	return exact && k == n
}
