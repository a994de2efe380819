package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A write-effect analysis over the SSA form. For every function of the module a
// summary is computed to a fixpoint: which memory it may write, in terms of what
// it was given (parameters, captured variables, package variables), what its
// results may refer to, and what it links together. Memory is named by origins:
// depth 0 is what a value refers to directly, depth 1 what is referred to there,
// depth 2 all that is reached from there.

type okind byte

const (
	oParam okind = iota
	oFree
	oGlobal
	oFresh // allocated at a site of the function itself (or by a call made there)
	oUnknown
)

type origin struct {
	kind  okind
	idx   int
	g     *ssa.Global
	site  ssa.Instruction
	depth int
}

func (o origin) String() string {
	switch o.kind {
	case oParam:
		return fmt.Sprintf("param%d.%d", o.idx, o.depth)
	case oFree:
		return fmt.Sprintf("free%d.%d", o.idx, o.depth)
	case oGlobal:
		return "global " + o.g.Name()
	case oFresh:
		return "fresh"
	}
	return "unknown"
}

type oset map[origin]bool

func (s oset) add(t oset) bool {
	ch := false
	for o := range t {
		if !s[o] {
			s[o] = true
			ch = true
		}
	}
	return ch
}

type paramCall struct {
	idx  int // parameter called
	free bool
	args []oset
	in   ssa.Instruction
}

type summary struct {
	writes map[origin]string // origin -> description of the writing construct
	mapped map[mapWrite]string
	ret    []oset
	links  map[origin]oset // what may be reached from an origin after the call, beyond what was there
	fresh  oset            // what is reachable from memory the function allocated and hands out
	calls  map[string]paramCall
}

// mapWrite: entries of a map of some type are set or removed.
type mapWrite struct {
	o origin
	t string
}

type effects struct {
	mapTypes map[string]types.Type
	sites    map[*ssa.Function]map[site]bool
	canHold  map[string]bool
	p        *Program
	sum      map[*ssa.Function]*summary
	taken    map[string][]*ssa.Function // address-taken functions by signature
	unknowns map[string]bool
	changed  bool

	// merging: calls of this interface, locks, pools and what runs under a
	// sync.Once are left aside
	cacheIface types.Type
}

// pointery reports whether values of a type refer to memory that can be written.
func pointery(t types.Type) bool { return pointeryD(t, 0) }
func pointeryD(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointeryD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointeryD(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointeryD(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// site: what a function is given at a call.
type site struct {
	caller *ssa.Function
	param  int
	o      origin
}

// holds reports whether memory of type want can be reached from a value of type t
// (without reflection or unsafe code).
func (ef *effects) holds(t, want types.Type) bool {
	k := t.String() + "|" + want.String()
	if r, ok := ef.canHold[k]; ok {
		return r
	}
	r := generic(want) || ef.reaches(t, want, map[types.Type]bool{})
	ef.canHold[k] = r
	return r
}

func (ef *effects) reaches(t, want types.Type, seen map[types.Type]bool) bool {
	if types.Identical(t.Underlying(), want.Underlying()) {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		return ef.reaches(u.Elem(), want, seen)
	case *types.Slice:
		return ef.reaches(u.Elem(), want, seen)
	case *types.Array:
		return ef.reaches(u.Elem(), want, seen)
	case *types.Map:
		return ef.reaches(u.Key(), want, seen) || ef.reaches(u.Elem(), want, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ef.reaches(u.Field(i).Type(), want, seen) {
				return true
			}
		}
		return false
	case *types.Interface:
		// an interface of the module is implemented by its types
		n, ok := t.(*types.Named)
		if !ok || u.NumMethods() == 0 || n.Obj().Pkg() == nil {
			return true
		}
		mine := false
		for _, sp := range ef.p.Pkgs {
			mine = mine || sp.Pkg == n.Obj().Pkg()
		}
		if !mine {
			return true
		}
		for _, sp := range ef.p.Pkgs {
			for _, m := range sp.Members {
				tn, ok := m.(*ssa.Type)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				if (types.Implements(tn.Type(), u) || types.Implements(types.NewPointer(tn.Type()), u)) && ef.reaches(tn.Type(), want, seen) {
					return true
				}
			}
		}
		return false
	}
	return true
}

func generic(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return true
	}
	for _, e := range []types.Type{m.Key(), m.Elem()} {
		if _, ok := e.(*types.TypeParam); ok {
			return true
		}
	}
	return false
}

// givenFresh: wherever an internal function is called, the parameter is memory
// that the caller has made itself, or a parameter of which the same holds.
func (ef *effects) givenFresh(f *ssa.Function, param int, seen map[string]bool) bool {
	k := fmt.Sprint(f.String(), param)
	if seen[k] {
		return true
	}
	seen[k] = true
	if f.Object() == nil || f.Object().Exported() || f.Signature.Recv() != nil {
		return false
	}
	for _, fs := range ef.taken {
		for _, g := range fs {
			if g == f {
				return false
			}
		}
	}
	for s := range ef.sites[f] {
		if s.param != param {
			continue
		}
		switch {
		case s.o.kind == oFresh:
		case s.o.kind == oParam && s.o.depth == 0:
			if !ef.givenFresh(s.caller, s.o.idx, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func sigKey(s *types.Signature) string {
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(s.Params().At(i).Type().String() + ",")
	}
	b.WriteString("->")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(s.Results().At(i).Type().String() + ",")
	}
	return b.String()
}

func newEffects(p *Program, cacheIface types.Type) *effects {
	ef := &effects{cacheIface: cacheIface, mapTypes: map[string]types.Type{}, sites: map[*ssa.Function]map[site]bool{}, canHold: map[string]bool{}, p: p, sum: map[*ssa.Function]*summary{}, taken: map[string][]*ssa.Function{}, unknowns: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	take := func(v ssa.Value) {
		if f, ok := v.(*ssa.Function); ok && !seen[f] {
			seen[f] = true
			ef.taken[sigKey(f.Signature)] = append(ef.taken[sigKey(f.Signature)], f)
		}
	}
	for _, f := range p.Funcs {
		ef.sum[f] = &summary{writes: map[origin]string{}, mapped: map[mapWrite]string{}, links: map[origin]oset{}, fresh: oset{}, calls: map[string]paramCall{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			ef.sum[f].ret = append(ef.sum[f].ret, oset{})
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					take(mc.Fn)
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for i, op := range in.Operands(nil) {
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() {
						continue
					}
					take(*op)
				}
			}
		}
	}
	for round := 0; round < 40; round++ {
		ef.changed = false
		for _, f := range p.Funcs {
			ef.function(f)
		}
		if !ef.changed {
			return ef
		}
	}
	ef.unknowns["the effect summaries did not settle"] = true
	return ef
}

type fnState struct {
	ef   *effects
	f    *ssa.Function
	s    *summary
	val  map[ssa.Value]oset
	cont map[origin]oset // contents of origins
	ch   bool
}

func (ef *effects) function(f *ssa.Function) {
	st := &fnState{ef: ef, f: f, s: ef.sum[f], val: map[ssa.Value]oset{}, cont: map[origin]oset{}}
	for i, p := range f.Params {
		if pointery(p.Type()) {
			st.val[p] = oset{origin{kind: oParam, idx: i}: true}
		}
	}
	for i, p := range f.FreeVars {
		st.val[p] = oset{origin{kind: oFree, idx: i}: true}
	}
	for round := 0; round < 60; round++ {
		st.ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st.instr(in)
			}
		}
		if !st.ch {
			break
		}
	}
	// what the function hands out or links
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			for i, v := range r.Results {
				for o := range st.of(v) {
					st.export(o, ef.sum[f].ret[i])
				}
			}
		}
	}
	for o, c := range st.cont {
		if o.kind == oFresh {
			continue
		}
		for x := range c {
			if x.kind == o.kind && x.idx == o.idx && x.g == o.g && x.depth == min(o.depth+1, 2) {
				continue
			}
			l := ef.sum[f].links[o]
			if l == nil {
				l = oset{}
				ef.sum[f].links[o] = l
			}
			st.export(x, l)
		}
	}
}

// export records an origin in a set of the summary; memory allocated here
// becomes the one fresh origin of the summary, with all that is reached from it.
func (st *fnState) export(o origin, into oset) {
	ef := st.ef
	if o.kind != oFresh {
		if !into[o] {
			into[o] = true
			ef.changed = true
		}
		return
	}
	fr := origin{kind: oFresh}
	if !into[fr] {
		into[fr] = true
		ef.changed = true
	}
	for x := range st.closure(oset{o: true}) {
		if x.kind == oFresh {
			continue
		}
		if !st.s.fresh[x] {
			st.s.fresh[x] = true
			ef.changed = true
		}
	}
}

// of gives the origins of a value.
func (st *fnState) of(v ssa.Value) oset {
	switch x := v.(type) {
	case *ssa.Global:
		return oset{origin{kind: oGlobal, g: x}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return st.val[v]
}

func (st *fnState) put(v ssa.Value, s oset) {
	if len(s) == 0 || !pointery(v.Type()) {
		return
	}
	m := st.val[v]
	if m == nil {
		m = oset{}
		st.val[v] = m
	}
	if m.add(s) {
		st.ch = true
	}
}

// contents of a set of origins: what a load through them can give.
func (st *fnState) load(s oset) oset {
	out := oset{}
	for o := range s {
		switch o.kind {
		case oFresh:
		case oUnknown:
			out[o] = true
		default:
			d := o
			if d.depth < 2 {
				d.depth++
			}
			out[d] = true
			if d.depth == 2 {
				out.add(st.cont[d])
			}
		}
		out.add(st.cont[o])
	}
	return out
}

func (st *fnState) closure(s oset) oset {
	out := oset{}
	out.add(s)
	for {
		n := len(out)
		out.add(st.load(out))
		if len(out) == n {
			return out
		}
	}
}

func (st *fnState) link(dst, src oset) {
	if len(src) == 0 {
		return
	}
	for o := range dst {
		m := st.cont[o]
		if m == nil {
			m = oset{}
			st.cont[o] = m
		}
		if m.add(src) {
			st.ch = true
		}
	}
}

func (st *fnState) write(dst oset, what string) {
	for o := range dst {
		if o.kind == oFresh {
			continue
		}
		if st.s.writes[o] == "" {
			st.s.writes[o] = what
			st.ef.changed = true
		}
	}
}

// writeMap: entries of a map are set. A parameter whose type cannot hold such a
// map is not where it lies.
func (st *fnState) writeMap(dst oset, t types.Type, what string) {
	k := t.Underlying().String()
	st.ef.mapTypes[k] = t.Underlying()
	for o := range dst {
		if o.kind == oFresh || o.kind == oParam && !st.ef.holds(st.f.Params[o.idx].Type(), t) {
			continue
		}
		if st.s.mapped[mapWrite{o, k}] == "" {
			st.s.mapped[mapWrite{o, k}] = what
			st.ef.changed = true
		}
	}
}

func (st *fnState) where(in ssa.Instruction) string {
	return st.ef.p.instrPos(in) + " in " + st.f.Name()
}

func fresh(in ssa.Instruction) oset { return oset{origin{kind: oFresh, site: in}: true} }

func (st *fnState) instr(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		st.put(in.(ssa.Value), fresh(in))
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			st.put(x, st.of(b))
		}
	case *ssa.MakeInterface:
		st.put(x, st.of(x.X))
	case *ssa.ChangeType:
		st.put(x, st.of(x.X))
	case *ssa.ChangeInterface:
		st.put(x, st.of(x.X))
	case *ssa.Convert:
		if pointery(x.X.Type()) {
			st.put(x, st.of(x.X))
		} else {
			st.put(x, fresh(x)) // a string becomes a fresh list of bytes
		}
	case *ssa.MultiConvert:
		st.put(x, st.of(x.X))
		if !pointery(x.X.Type()) {
			st.put(x, fresh(x))
		}
	case *ssa.SliceToArrayPointer:
		st.put(x, st.of(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			st.put(x, st.of(e))
		}
	case *ssa.Select, *ssa.TypeAssert:
		var v ssa.Value
		if ta, ok := in.(*ssa.TypeAssert); ok {
			v = ta.X
			st.put(ta, st.of(v))
		} else {
			st.put(in.(ssa.Value), oset{origin{kind: oUnknown}: true})
		}
	case *ssa.Extract:
		st.put(x, st.of(x.Tuple))
	case *ssa.Field:
		st.put(x, st.of(x.X))
	case *ssa.Index:
		st.put(x, st.of(x.X))
	case *ssa.FieldAddr:
		st.put(x, st.of(x.X))
	case *ssa.IndexAddr:
		st.put(x, st.of(x.X))
	case *ssa.Slice:
		st.put(x, st.of(x.X))
	case *ssa.Lookup:
		st.put(x, st.load(st.of(x.X)))
	case *ssa.Range:
		st.put(x, st.of(x.X))
	case *ssa.Next:
		st.put(x, st.load(st.of(x.Iter)))
	case *ssa.UnOp:
		switch x.Op.String() {
		case "*", "<-":
			st.put(x, st.load(st.of(x.X)))
		}
	case *ssa.Store:
		a := st.of(x.Addr)
		st.write(a, st.where(in)+": assignment")
		if pointery(x.Val.Type()) {
			st.link(a, st.of(x.Val))
		}
	case *ssa.MapUpdate:
		a := st.of(x.Map)
		st.writeMap(a, x.Map.Type(), st.where(in)+": map assignment")
		if pointery(x.Value.Type()) {
			st.link(a, st.of(x.Value))
		}
		if pointery(x.Key.Type()) {
			st.link(a, st.of(x.Key))
		}
	case *ssa.Send:
		st.link(st.of(x.Chan), st.of(x.X))
	case *ssa.Call:
		st.call(x, x.Common())
	case *ssa.Defer:
		st.call(x, x.Common())
	case *ssa.Go:
		st.call(x, x.Common())
	}
}

// full reports whether a slice has no spare capacity that another list may use.
func full(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	return s.High == s.Max || sameConst(s.High, s.Max) || sameLen(s.High, s.Max)
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

func sameLen(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	f, ok1 := x.Call.Value.(*ssa.Builtin)
	g, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && f.Name() == "len" && g.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
}

func (st *fnState) call(in ssa.CallInstruction, cc *ssa.CallCommon) {
	v, _ := in.(ssa.Value)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			dst := st.of(cc.Args[0])
			if !full(cc.Args[0]) && !isNilConst(cc.Args[0]) {
				if _, grows := cc.Args[1].(*ssa.Const); !grows {
					st.write(dst, st.where(in)+": append (may write into spare capacity)")
				}
			}
			var elems oset
			if el, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && pointery(el.Elem()) {
				elems = oset{}
				elems.add(st.load(dst))
				elems.add(st.load(st.of(cc.Args[1])))
			}
			if v != nil {
				res := oset{}
				res.add(fresh(in))
				if !full(cc.Args[0]) {
					res.add(dst)
				}
				st.put(v, res)
				st.link(res, elems)
			}
		case "copy":
			dst := st.of(cc.Args[0])
			st.write(dst, st.where(in)+": copy")
			if el, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && pointery(el.Elem()) {
				st.link(dst, st.load(st.of(cc.Args[1])))
			}
		case "delete", "clear", "close":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				st.writeMap(st.of(cc.Args[0]), cc.Args[0].Type(), st.where(in)+": "+b.Name())
				return
			}
			st.write(st.of(cc.Args[0]), st.where(in)+": "+b.Name())
		case "min", "max", "len", "cap", "print", "println", "panic", "recover":
		}
		return
	}
	if cc.IsInvoke() {
		if st.ef.cacheIface != nil && types.Identical(cc.Value.Type(), st.ef.cacheIface) {
			return
		}
		recv := st.of(cc.Value)
		impls := st.ef.impls(cc)
		if len(impls) == 0 {
			st.external(in, "interface method "+cc.Method.FullName(), append([]ssa.Value{cc.Value}, cc.Args...))
			return
		}
		for _, fn := range impls {
			args := []oset{recv}
			for _, a := range cc.Args {
				args = append(args, st.of(a))
			}
			st.apply(in, fn, args, nil, append([]ssa.Value{cc.Value}, cc.Args...))
		}
		return
	}
	var args []oset
	for _, a := range cc.Args {
		args = append(args, st.of(a))
	}
	if fn := cc.StaticCallee(); fn != nil {
		if st.ef.sum[fn] == nil {
			st.external(in, extName(fn), cc.Args)
			return
		}
		cl := anyOf(st.of(cc.Value))
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			cl = st.bound(mc)
		}
		st.apply(in, fn, args, cl, cc.Args)
		return
	}
	// a function value
	switch f := st.source(cc.Value).(type) {
	case *ssa.MakeClosure:
		st.apply(in, f.Fn.(*ssa.Function), args, st.bound(f), cc.Args)
		return
	case *ssa.Function:
		if st.ef.sum[f] != nil {
			st.apply(in, f, args, nil, cc.Args)
		} else {
			st.external(in, extName(f), cc.Args)
		}
		return
	}
	if only := paramOnly(st.of(cc.Value)); only != nil {
		k := fmt.Sprint(only.kind, only.idx, in.Pos())
		pc, ok := st.s.calls[k]
		if !ok {
			pc = paramCall{idx: only.idx, free: only.kind == oFree, in: in}
			for range args {
				pc.args = append(pc.args, oset{})
			}
			st.s.calls[k] = pc
			st.ef.changed = true
		}
		for i, a := range args {
			if pc.args[i].add(exportable(st.closure(a))) {
				st.ef.changed = true
			}
		}
		if v != nil {
			res := oset{}
			res.add(st.closure(st.of(cc.Value)))
			for _, a := range args {
				res.add(st.closure(a))
			}
			res.add(fresh(in))
			st.put(v, res)
		}
		return
	}
	if st.itself(cc.Value) {
		st.apply(in, st.f, args, func(i int) oset { return oset{origin{kind: oFree, idx: i}: true} }, cc.Args)
		return
	}
	cands := st.ef.taken[sigKey(cc.Signature())]
	for _, fn := range cands {
		if st.ef.sum[fn] != nil {
			st.apply(in, fn, args, anyOf(st.closure(st.of(cc.Value))), cc.Args)
		} else {
			st.external(in, extName(fn), cc.Args)
		}
	}
}

func exportable(s oset) oset {
	out := oset{}
	for o := range s {
		if o.kind == oFresh {
			o = origin{kind: oFresh}
		}
		out[o] = true
	}
	return out
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// source follows a function value to the one place it comes from.
func (st *fnState) source(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return v
			}
			var only ssa.Value
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					if only != nil && only != s.Val {
						return v
					}
					only = s.Val
				}
			}
			if only == nil {
				return v
			}
			v = only
		default:
			return v
		}
	}
	return v
}

// itself reports whether a function value is the closure that runs: it is read
// from a captured variable that is only ever set to that closure.
func (st *fnState) itself(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || st.f.Parent() == nil {
		return false
	}
	idx := -1
	for i, fv := range st.f.FreeVars {
		if u.X == fv {
			idx = i
		}
	}
	if idx < 0 {
		return false
	}
	var mc *ssa.MakeClosure
	for _, b := range st.f.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == st.f {
				if mc != nil {
					return false
				}
				mc = m
			}
		}
	}
	if mc == nil {
		return false
	}
	al, ok := mc.Bindings[idx].(*ssa.Alloc)
	if !ok {
		return false
	}
	stores := 0
	for _, r := range *al.Referrers() {
		switch t := r.(type) {
		case *ssa.Store:
			if t.Addr != al || t.Val != mc {
				return false
			}
			stores++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// captured: the closure must only read it
			g := t.Fn.(*ssa.Function)
			for i, bnd := range t.Bindings {
				if bnd != al {
					continue
				}
				for _, r := range *g.FreeVars[i].Referrers() {
					switch r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return stores == 1
}

func paramOnly(s oset) *origin {
	if len(s) != 1 {
		return nil
	}
	for o := range s {
		if (o.kind == oParam || o.kind == oFree) && o.depth == 0 {
			return &o
		}
	}
	return nil
}

// impls lists the methods of the module an interface call may reach.
func (ef *effects) impls(cc *ssa.CallCommon) []*ssa.Function {
	iface, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, sp := range ef.p.Pkgs {
		for _, m := range sp.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if !types.Implements(t, iface) {
					continue
				}
				sel := ef.p.Prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
				if sel == nil {
					continue
				}
				fn := ef.p.Prog.MethodValue(sel)
				if fn == nil || seen[fn] {
					continue
				}
				seen[fn] = true
				if ef.sum[fn] == nil {
					// a wrapper made on demand: analyse what it wraps
					ef.sum[fn] = &summary{writes: map[origin]string{}, mapped: map[mapWrite]string{}, links: map[origin]oset{}, fresh: oset{}, calls: map[string]paramCall{}}
					for i := 0; i < fn.Signature.Results().Len(); i++ {
						ef.sum[fn].ret = append(ef.sum[fn].ret, oset{})
					}
					ef.p.Funcs = append(ef.p.Funcs, fn)
					ef.changed = true
				}
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// captured gives what a captured variable of a called function is.
type captured func(idx int) oset

func anyOf(s oset) captured { return func(int) oset { return s } }

func (st *fnState) bound(mc *ssa.MakeClosure) captured {
	if mc.Parent() != st.f {
		return anyOf(st.closure(st.of(mc)))
	}
	return func(i int) oset {
		if i < len(mc.Bindings) {
			return st.of(mc.Bindings[i])
		}
		return st.of(mc)
	}
}

// apply uses the summary of a function at a call.
func (st *fnState) apply(in ssa.CallInstruction, fn *ssa.Function, args []oset, closure captured, vals []ssa.Value) {
	s := st.ef.sum[fn]
	v, _ := in.(ssa.Value)
	mapO := func(o origin) oset {
		switch o.kind {
		case oParam:
			if o.idx >= len(args) {
				return nil
			}
			return st.reach(args[o.idx], o.depth)
		case oFree:
			if closure == nil {
				return nil
			}
			return st.reach(closure(o.idx), o.depth)
		case oFresh:
			return fresh(in)
		}
		return oset{o: true}
	}
	for i, a := range args {
		for o := range a {
			if o.kind == oFresh {
				o = origin{kind: oFresh}
			}
			if st.ef.sites[fn] == nil {
				st.ef.sites[fn] = map[site]bool{}
			}
			st.ef.sites[fn][site{st.f, i, o}] = true
		}
	}
	for o, what := range s.writes {
		st.write(mapO(o), chainAt(st, in, what))
	}
	for m, what := range s.mapped {
		st.writeMap(mapO(m.o), st.ef.mapTypes[m.t], chainAt(st, in, what))
	}
	for o, l := range s.links {
		src := oset{}
		for x := range l {
			src.add(mapO(x))
		}
		st.link(mapO(o), src)
	}
	if len(s.fresh) > 0 {
		src := oset{}
		for x := range s.fresh {
			src.add(mapO(x))
		}
		st.link(fresh(in), src)
	}
	for _, k := range sortedKeys(s.calls) {
		pc := s.calls[k]
		if pc.free || pc.idx >= len(vals) {
			continue
		}
		var a2 []oset
		for _, a := range pc.args {
			m := oset{}
			for o := range a {
				m.add(mapO(o))
			}
			a2 = append(a2, m)
		}
		switch f := st.source(vals[pc.idx]).(type) {
		case *ssa.MakeClosure:
			st.apply(in, f.Fn.(*ssa.Function), a2, st.bound(f), nil)
		case *ssa.Function:
			if st.ef.sum[f] != nil {
				st.apply(in, f, a2, nil, nil)
			}
		default:
			if only := paramOnly(st.of(vals[pc.idx])); only != nil {
				k := fmt.Sprint(only.kind, only.idx, pc.in.Pos())
				my, ok := st.s.calls[k]
				if !ok {
					my = paramCall{idx: only.idx, free: only.kind == oFree, in: pc.in}
					for range a2 {
						my.args = append(my.args, oset{})
					}
					st.s.calls[k] = my
					st.ef.changed = true
				}
				for i, a := range a2 {
					if my.args[i].add(exportable(a)) {
						st.ef.changed = true
					}
				}
				continue
			}
			for _, fn := range st.ef.taken[sigKey(pc.in.(ssa.CallInstruction).Common().Signature())] {
				if st.ef.sum[fn] != nil {
					st.apply(in, fn, a2, anyOf(st.closure(st.of(vals[pc.idx]))), nil)
				}
			}
		}
	}
	if v == nil {
		return
	}
	res := oset{}
	for _, r := range s.ret {
		for o := range r {
			res.add(mapO(o))
		}
	}
	st.put(v, res)
}

// reach gives the memory some steps away, or any number of steps beyond one.
func (st *fnState) reach(s oset, depth int) oset {
	switch depth {
	case 0:
		return s
	case 1:
		return st.load(s)
	}
	return st.closure(st.load(st.load(s)))
}

// deep gives all memory beyond the first step.
func (st *fnState) deep(s oset) oset { return st.closure(st.load(s)) }

func chainAt(st *fnState, in ssa.Instruction, what string) string {
	if strings.Count(what, " < ") > 6 {
		return what
	}
	return what + " < called at " + st.where(in)
}

// readers are functions outside the module that write nothing they are given.
var extWriters = map[string][]int{
	"sort.Strings": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0}, "sort.Ints": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0},
	"slices.Compact": {0}, "slices.CompactFunc": {0}, "slices.Delete": {0}, "slices.DeleteFunc": {0}, "slices.Insert": {0}, "slices.Replace": {0},
	"slices.Grow": {}, "slices.Clip": {}, "slices.Clone": {},
	"maps.Copy": {0}, "maps.DeleteFunc": {0}, "maps.Insert": {0},
	"fmt.Fprintf": {0}, "fmt.Fprint": {0}, "fmt.Fprintln": {0}, "io.WriteString": {0}, "io.Copy": {0},
	"encoding/json.Unmarshal":                    {1},
	"golang.org/x/net/html.Render":               {0},
	"(*golang.org/x/net/html.Node).AppendChild":  {0, 1},
	"(*golang.org/x/net/html.Node).InsertBefore": {0, 1, 2},
	"(*golang.org/x/net/html.Node).RemoveChild":  {0, 1},
}

// results that may refer to what an argument refers to
var extKeeps = map[string]bool{
	"slices.Compact": true, "slices.CompactFunc": true, "slices.Delete": true, "slices.DeleteFunc": true, "slices.Insert": true, "slices.Replace": true,
	"slices.Grow": true, "slices.Clip": true, "bytes.TrimSpace": true, "bytes.Trim": true, "bytes.TrimLeft": true, "bytes.TrimRight": true, "bytes.TrimPrefix": true, "bytes.TrimSuffix": true,
}

var readPrefixes = []string{"strings.", "strconv.", "bytes.", "unicode.", "unicode/utf8.", "fmt.Sprint", "fmt.Errorf", "errors.", "regexp.", "(*regexp.Regexp).", "slices.", "maps.", "sort.Search", "(*strings.Replacer).",
	"golang.org/x/net/html.", "(golang.org/x/net/html.", "(*golang.org/x/net/html.Node).Descendants", "(*golang.org/x/net/html.Node).ChildNodes", "(*golang.org/x/net/html.Node).Ancestors", "cmp.", "math.", "reflect.DeepEqual", "reflect.TypeOf", "os.", "log.", "(reflect.", "encoding/json.Marshal", "encoding/json.Valid", "path.", "path/filepath.", "iter.", "(golang.org/x/net/html/atom.", "time.", "runtime.", "(fmt.", "(io.", "io.ReadAll"}

var selfWriters = []string{"(*strings.Builder).", "(*bytes.Buffer).", "(*strings.Reader).", "(*bytes.Reader).", "(*bufio.", "(*sync.", "(*sync/atomic.", "sync/atomic.", "(*github.com/tdewolff/", "(*encoding/json.Decoder)", "(*encoding/json.Encoder)", "(*golang.org/x/net/html.Tokenizer)", "(*os.", "(*log."}

func (st *fnState) external(in ssa.CallInstruction, name string, vals []ssa.Value) {
	v, _ := in.(ssa.Value)
	all := oset{}
	for _, a := range vals {
		all.add(st.closure(st.of(a)))
	}
	res := oset{}
	res.add(fresh(in))
	if idx, ok := extWriters[name]; ok {
		for _, i := range idx {
			if i < len(vals) {
				st.write(st.of(vals[i]), st.where(in)+": "+name)
			}
		}
		if extKeeps[name] {
			res.add(st.of(vals[0]))
		}
		st.link(fresh(in), st.deep(all))
		if v != nil {
			st.put(v, res)
		}
		st.callbacks(in, vals)
		return
	}
	if extKeeps[name] {
		res.add(st.of(vals[0]))
		if v != nil {
			st.put(v, res)
		}
		return
	}
	if st.ef.cacheIface != nil && (strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "sync.Once")) && !strings.HasPrefix(name, "(*sync.Map)") {
		if v != nil {
			st.put(v, res)
		}
		return
	}
	for _, p := range selfWriters {
		if strings.HasPrefix(name, p) && len(vals) > 0 {
			st.write(st.of(vals[0]), st.where(in)+": "+name)
			st.link(st.of(vals[0]), all)
			if v != nil {
				res.add(st.closure(st.of(vals[0])))
				st.put(v, res)
			}
			st.callbacks(in, vals)
			return
		}
	}
	for _, p := range readPrefixes {
		if strings.HasPrefix(name, p) {
			st.link(fresh(in), all)
			if v != nil {
				st.put(v, res)
			}
			st.callbacks(in, vals)
			return
		}
	}
	if strings.HasPrefix(name, "interface method ") {
		switch {
		case strings.HasSuffix(name, ".Error"), strings.HasSuffix(name, ".String"), strings.HasPrefix(name, "interface method (sort.Interface)"):
			return
		}
		// an implementation outside the module: writes its receiver at most
		st.write(st.of(vals[0]), st.where(in)+": "+name)
		if v != nil {
			res.add(all)
			st.put(v, res)
		}
		return
	}
	if len(all) > 0 {
		// nothing is known about the function: it may write all it is given
		st.write(all, st.where(in)+": call of "+name+", of which nothing is known")
	}
	if v != nil {
		res.add(all)
		st.put(v, res)
	}
	st.callbacks(in, vals)
}

// callbacks: functions handed to a library are called by it with parts of the other arguments.
func (st *fnState) callbacks(in ssa.CallInstruction, vals []ssa.Value) {
	for i, a := range vals {
		sig, ok := a.Type().Underlying().(*types.Signature)
		if !ok {
			continue
		}
		given := oset{}
		for j, b := range vals {
			if j != i {
				given.add(st.closure(st.of(b)))
			}
		}
		var args []oset
		for k := 0; k < sig.Params().Len(); k++ {
			args = append(args, given)
		}
		switch f := st.source(a).(type) {
		case *ssa.MakeClosure:
			st.apply(in, f.Fn.(*ssa.Function), args, st.bound(f), nil)
		case *ssa.Function:
			if st.ef.sum[f] != nil {
				st.apply(in, f, args, nil, nil)
			}
		default:
			for _, fn := range st.ef.taken[sigKey(sig)] {
				if st.ef.sum[fn] != nil {
					st.apply(in, fn, args, anyOf(st.closure(st.of(a))), nil)
				}
			}
		}
	}
}

func init() { checks["C27"] = check{"selectors are immutable", checkC27} }

// immutable reports whether a type is a selector, a rule, or a document node, or
// a list of or pointer to such.
func (x *Ctx) immutable(t types.Type, nodes bool) bool {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		return x.immutable(u.Elem(), nodes)
	case *types.Slice:
		if p, ok := u.Elem().(*types.Pointer); ok && !nodes && strings.HasSuffix(p.Elem().String(), "html.Node") {
			return false
		}
		return x.immutable(u.Elem(), nodes)
	case *types.Named:
		if u.Obj().Pkg() == nil {
			return false
		}
		if u == x.P.CssRule || u == x.P.CssDecl {
			return true
		}
		if u.Obj().Pkg().Path() == "golang.org/x/net/html" && u.Obj().Name() == "Node" {
			return true
		}
		if u.Obj().Pkg() != x.P.Casc.Pkg {
			return false
		}
		for _, st := range x.P.SelTypes {
			if st == u {
				return true
			}
		}
		if i, ok := u.Underlying().(*types.Interface); ok {
			// interfaces that selectors implement
			for _, st := range x.P.SelTypes {
				if i.NumMethods() > 0 && types.Implements(st, i) {
					return true
				}
			}
			return false
		}
		if sl, ok := u.Underlying().(*types.Slice); ok {
			return x.immutable(sl.Elem(), nodes)
		}
		if st, ok := u.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
			// a part of selectors
			for _, t := range x.P.SelTypes {
				if s, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Embedded() && s.Field(i).Type() == u {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func checkC27(x *Ctx) {
	x.rule("Write-effect analysis over the SSA form (effects.go): for every function of the module a summary of the memory it may write, in terms of what it is given, to a fixpoint over all calls, closures and interface calls. " +
		"No exported function or method of the selector package, and no function of the merging package, that takes a selector, a rule, declarations or a document node writes memory reached from it, and none of them writes a package variable.")
	x.assume("functions outside the module write what the list in effects.go says; values reached only through reflection or unsafe are not written")
	ef := newEffects(x.P, nil)
	for _, u := range sortedKeys(ef.unknowns) {
		x.ob("undecided construct", "effects", false, u)
	}
	n := 0
	for _, f := range x.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "wrapper") || f.Name() == "init" {
			continue
		}
		pk := f.Package()
		if o := f.Origin(); o != nil {
			pk = o.Package()
		}
		if pk == nil {
			continue
		}
		var roots bool
		switch pk {
		case x.P.Casc:
			roots = f.Object() != nil && f.Object().Exported() || f.Signature.Recv() != nil && f.Signature.Recv().Type() != nil && x.immutable(f.Signature.Recv().Type(), true) && !isPtr(f.Signature.Recv().Type())
		case x.P.Root:
			roots = true
		}
		if !roots {
			continue
		}
		x.Fns[f] = true
		exported := f.Object() != nil && f.Object().Exported()
		s := ef.sum[f]
		any := false
		for i, p := range f.Params {
			if !x.immutable(p.Type(), exported) || !pointery(p.Type()) {
				continue
			}
			any = true
			n++
			bad := ""
			for d := 0; d < 3; d++ {
				o := origin{kind: oParam, idx: i, depth: d}
				w := s.writes[o]
				if w != "" && d == 0 && pk == x.P.Root && ef.givenFresh(f, i, map[string]bool{}) {
					w = ""
				}
				for _, k := range sortedKeys(ef.mapTypes) {
					if mw := s.mapped[mapWrite{o, k}]; mw != "" && w == "" {
						w = mw
					}
				}
				if w != "" && bad == "" {
					bad = fmt.Sprintf("%s may write memory of its %s %s: %s", f.Name(), shortType(p.Type()), p.Name(), w)
				}
			}
			x.ob("what is given is not written", x.P.pos(f.Pos())+" "+f.Name()+"("+p.Name()+")", bad == "", bad)
		}
		if !any && !(pk == x.P.Casc && f.Signature.Recv() != nil && x.immutable(f.Signature.Recv().Type(), true)) {
			continue
		}
		var gl []string
		for o, w := range s.writes {
			if o.kind == oGlobal || o.kind == oUnknown {
				gl = append(gl, o.String()+": "+w)
			}
		}
		for m, w := range s.mapped {
			if m.o.kind == oGlobal || m.o.kind == oUnknown {
				gl = append(gl, m.o.String()+": "+w)
			}
		}
		sort.Strings(gl)
		bad := ""
		if len(gl) > 0 {
			bad = f.Name() + " may write memory that outlives the call: " + gl[0]
		}
		x.ob("no package variable is written", x.P.pos(f.Pos())+" "+f.Name(), bad == "", bad)
	}
	x.Extra["parameters"] = n
	if n == 0 {
		x.ob("anchor", "internal/cascadia", false, "no function that takes a selector found")
	}
}

func isPtr(t types.Type) bool { _, ok := t.(*types.Pointer); return ok }
