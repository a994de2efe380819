package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The bounds analysis: an abstract interpretation of the functions of the
// module with linear inequalities over integers, lengths and the integer and
// string fields reachable from parameters. Calls are analysed through summaries
// (one case for each combination of nil/non-nil and true/false results), entry
// states of unexported functions are the join of their call sites.

type zkey struct {
	kind byte
	v    ssa.Value
	i    int
	s    string
}

type zval struct {
	v ssa.Value
	i int // result number of a call
	s string
}

type zst struct {
	s     *lsys
	known map[zval]int8 // 1: true or not nil, 0: false or nil
	err   bool          // an error was returned to this path
	facts map[zfact]int8
	chars map[ssa.Value]int // values that are a character of a text: its variable
}

// zfact: a character of a text equals a value, or a function says yes to it.
type zfact struct {
	c  int
	k  int
	v  ssa.Value
	fn *ssa.Function
}

func (a *zst) clone() *zst {
	o := &zst{s: a.s.clone(), known: make(map[zval]int8, len(a.known)), err: a.err}
	for k, v := range a.known {
		o.known[k] = v
	}
	if len(a.facts) > 0 {
		o.facts = make(map[zfact]int8, len(a.facts))
		for k, v := range a.facts {
			o.facts[k] = v
		}
	}
	if len(a.chars) > 0 {
		o.chars = make(map[ssa.Value]int, len(a.chars))
		for k, v := range a.chars {
			o.chars[k] = v
		}
	}
	return o
}

type zcase struct {
	res  []int8 // per result: -1 unknown, 0, 1
	err  bool
	done string // text parameters of which everything was read
	s    *lsys
	n    int
}

func (c *zcase) key() string { return fmt.Sprint(c.res, c.err, c.done) }

type zloop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	backs []*ssa.BasicBlock
	mods  map[string]bool // locations changed in the loop
}

type zfn struct {
	z        *Z
	fn       *ssa.Function
	params   []ssa.Value // parameters, then roots captured from the enclosing function
	top      bool        // any arguments
	entry    *lsys       // over P, Q, M, N; nil: not reached
	entryN   int
	cases    map[string]*zcase
	callers  map[*zfn]bool
	live     map[*ssa.BasicBlock]map[ssa.Value]bool
	in       map[*ssa.BasicBlock]map[string]*zst
	visits   map[*ssa.BasicBlock]int
	edges    map[[2]int]map[string]*zst
	loops    map[*ssa.BasicBlock]*zloop
	rpo      []*ssa.BasicBlock
	mods     map[int]map[string]bool
	dirty    bool
	sliceNil bool
	hasText  bool            // has a text parameter
	next     *lsys           // the entry state found by the current decreasing round
	calls    map[string]bool // weak or strict recursive calls: callee name + strictness

	report  bool
	narrow  bool
	backSt  map[*ssa.BasicBlock][]*zst
	results map[string]*zob
}

type zob struct {
	rule, site, detail string
	ok                 bool
}

type Z struct {
	P        *Program
	ids      map[zkey]int
	keys     []zkey
	fns      map[*ssa.Function]*zfn
	order    []*zfn
	queue    []*zfn
	inQ      map[*zfn]bool
	obs      map[string]*zob
	cells    map[ssa.Value]ssa.Value
	pureMemo map[*ssa.Function]bool
	shrink   bool
	recur    map[[2]*zfn]map[string]int8
	Steps    int
}

func (z *Z) id(k zkey) int {
	if i, ok := z.ids[k]; ok {
		return i
	}
	i := len(z.keys)
	z.ids[k] = i
	z.keys = append(z.keys, k)
	return i
}

func zIsInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// zWide: arithmetic in this type is treated as exact.
func zWide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.Int32 || b.Kind() == types.UntypedInt || b.Kind() == types.UntypedRune)
}

func zRange(t types.Type) (lo, hi int, okLo, okHi bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true, true
	case types.Uint16:
		return 0, 65535, true, true
	case types.Uint32, types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false
	case types.Int8:
		return -128, 127, true, true
	}
	return
}

func zHasLen(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

func zNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func zIsBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zIsSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func zTracked(t types.Type) bool { return zIsBool(t) || zNilable(t) }

// tracked: slices only where the function compares one with nil.
func (f *zfn) tracked(t types.Type) bool { return zTracked(t) || f.sliceNil && zIsSlice(t) }

func zArrayLen(t types.Type) (int, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return int(a.Len()), true
	}
	return 0, false
}

// ---- expressions

func (z *Z) num(st *zst, v ssa.Value) lin { return z.numI(st, v, 0) }

func (z *Z) numI(st *zst, v ssa.Value, i int) lin {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value != nil && c.Value.Kind() == constant.Int {
			if n, exact := constant.Int64Val(c.Value); exact && n > -(1<<40) && n < 1<<40 {
				return lconst(int(n))
			}
		}
		if c.Value == nil {
			return lconst(0)
		}
	}
	x := lvar(z.id(zkey{'v', v, i, ""}))
	t := v.Type()
	if tup, ok := t.(*types.Tuple); ok {
		t = tup.At(i).Type()
	}
	lo, hi, okLo, okHi := zRange(t)
	if okLo {
		st.s.add(lconst(lo).add(x, -1))
	}
	if okHi {
		st.s.add(x.add(lconst(hi), -1))
	}
	return x
}

func (z *Z) length(st *zst, v ssa.Value) lin { return z.lengthI(st, v, 0) }

func (z *Z) lengthI(st *zst, v ssa.Value, i int) lin {
	if n, ok := zArrayLen(v.Type()); ok {
		return lconst(n)
	}
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return lconst(0)
		}
		if c.Value.Kind() == constant.String {
			return lconst(len(constant.StringVal(c.Value)))
		}
	}
	x := lvar(z.id(zkey{'l', v, i, ""}))
	st.s.add(x.scale(-1))
	return x
}

// root follows single-assignment cells (captured variables) to the value they hold.
func (z *Z) root(v ssa.Value) ssa.Value {
	for n := 0; n < 20; n++ {
		if r, ok := z.cells[v]; ok {
			if r == nil || r == v {
				return v
			}
			v = r
			continue
		}
		var next ssa.Value
		switch t := v.(type) {
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if a, ok := z.root(t.X).(*ssa.Alloc); ok {
					next = z.single(a)
				}
			}
		case *ssa.FreeVar:
			next = z.binding(t)
		case *ssa.ChangeType:
			next = t.X
		}
		z.cells[v] = next
		if next == nil {
			return v
		}
		v = next
	}
	return v
}

// binding finds what a captured variable is bound to (one closure only).
func (z *Z) binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	i := -1
	for k, x := range fn.FreeVars {
		if x == fv {
			i = k
		}
	}
	if fn.Parent() == nil || i < 0 {
		return nil
	}
	var out ssa.Value
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				out = mc.Bindings[i]
				n++
			}
		}
	}
	if n != 1 {
		return nil
	}
	return out
}

// single is the only value ever stored in a cell that holds a pointer or string.
func (z *Z) single(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	ok := true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch t := r.(type) {
			case *ssa.Store:
				if t.Addr == v {
					val = t.Val
					n++
				} else {
					ok = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := t.Fn.(*ssa.Function)
				for k, b := range t.Bindings {
					if b == v {
						visit(fn.FreeVars[k])
					}
				}
			default:
				ok = false
			}
		}
	}
	visit(a)
	if !ok || n != 1 {
		return nil
	}
	if _, isP := val.Type().Underlying().(*types.Pointer); !isP && !zHasLen(val.Type()) && !isSig(val.Type()) {
		return nil
	}
	if _, isParam := val.(*ssa.Parameter); isParam {
		return val
	}
	// assigned before any closure can run: it must dominate nothing else here; only
	// values defined once outside loops are followed
	if in, isI := val.(ssa.Instruction); isI && in.Block() != nil && in.Block().Index == 0 {
		return val
	}
	if _, isI := val.(*ssa.MakeClosure); isI {
		return val
	}
	return nil
}

func isSig(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

// loc resolves an address to a root and a path of fields.
func (z *Z) loc(addr ssa.Value) (ssa.Value, string, bool) {
	switch t := addr.(type) {
	case *ssa.FieldAddr:
		r, p, ok := z.loc(t.X)
		return r, p + "." + fmt.Sprint(t.Field), ok
	case *ssa.IndexAddr, *ssa.Phi, *ssa.Const:
		return addr, "", false
	}
	r := z.root(addr)
	if _, isPhi := r.(*ssa.Phi); isPhi {
		return r, "", false
	}
	if r != addr {
		if fa, isF := r.(*ssa.FieldAddr); isF {
			return z.loc(fa)
		}
	}
	return r, "", true
}

func (z *Z) memKey(t types.Type, root ssa.Value, path string) (zkey, bool) {
	switch {
	case zIsInt(t):
		return zkey{'m', root, 0, path}, true
	case zHasLen(t):
		return zkey{'n', root, 0, path}, true
	}
	return zkey{}, false
}

func (st *zst) forget(z *Z, keep func(k zkey) bool) {
	for v := range st.s.vars() {
		if !keep(z.keys[v]) {
			st.s.elim(v)
		}
	}
}

// define forgets what a value was in an earlier iteration.
func (st *zst) define(z *Z, v ssa.Value) {
	for x := range st.s.vars() {
		if k := z.keys[x]; k.v == v && (k.kind == 'v' || k.kind == 'l' || (k.kind == 'm' || k.kind == 'n') && ownObject(v)) {
			st.s.elim(x)
		}
	}
	for k := range st.known {
		if k.v == v {
			delete(st.known, k)
		}
	}
	delete(st.chars, v)
	st.dropChars(z, func(k zkey) bool { return k.v == v })
	for k := range st.facts {
		if k.v == v {
			delete(st.facts, k)
		}
	}
}

// dropChars forgets characters of texts.
func (st *zst) dropChars(z *Z, which func(k zkey) bool) {
	for x := range st.s.vars() {
		if k := z.keys[x]; k.kind == 'c' && which(k) {
			st.s.elim(x)
		}
	}
	for k := range st.facts {
		if which(z.keys[k.c]) {
			delete(st.facts, k)
		}
	}
	for v, c := range st.chars {
		if which(z.keys[c]) {
			delete(st.chars, v)
		}
	}
}

// dropText forgets the characters of the texts some locations hold.
func (st *zst) dropText(z *Z, which func(k zkey) bool) {
	st.dropChars(z, func(k zkey) bool {
		var n int
		fmt.Sscan(k.s, &n)
		return which(z.keys[n])
	})
}

// char names the character a lookup gives.
func (f *zfn) char(st *zst, x ssa.Value, text, index ssa.Value) {
	z := f.z
	if !f.inLoop(x) {
		return
	}
	var n int
	if u, ok := text.(*ssa.UnOp); ok && u.Op == token.MUL {
		r, p, ok := z.loc(u.X)
		if !ok {
			return
		}
		k, ok := z.memKey(text.Type(), r, p)
		if !ok {
			return
		}
		n = z.id(k)
	} else {
		n = z.id(zkey{'l', text, 0, ""})
	}
	if _, ok := index.(*ssa.Const); ok {
		return
	}
	e := z.num(st, index)
	id := -1
	ns := fmt.Sprint(n)
	try := func(c int) {
		k := z.keys[c]
		if id >= 0 || k.kind != 'c' || k.s != ns {
			return
		}
		d := lvar(z.id(zkey{'v', k.v, 0, ""})).add(e, -1)
		if st.s.entails(d) && st.s.entails(d.scale(-1)) {
			id = c
		}
	}
	for c := range st.s.vars() {
		try(c)
	}
	if id < 0 {
		id = z.id(zkey{'c', index, 0, ns})
	}
	st.s.addEq(z.num(st, x).add(lvar(id), -1))
	if st.chars == nil {
		st.chars = map[ssa.Value]int{}
	}
	st.chars[x] = id
}

func (f *zfn) inLoop(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, l := range f.loops {
		if l.body[in.Block()] {
			return true
		}
	}
	return false
}

// fact turns a test of a character into a fact; neg tells that it is the opposite.
func (f *zfn) fact(st *zst, v ssa.Value) (k zfact, neg, ok bool) {
	switch t := v.(type) {
	case *ssa.BinOp:
		if t.Op != token.EQL && t.Op != token.NEQ {
			return
		}
		for _, p := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
			c, have := st.chars[p[0]]
			if !have {
				continue
			}
			if n, isC := p[1].(*ssa.Const); isC {
				i, exact := constant.Int64Val(n.Value)
				return zfact{c: c, k: int(i)}, t.Op == token.NEQ, exact
			}
			return zfact{c: c, v: p[1]}, t.Op == token.NEQ, true
		}
	case *ssa.Call:
		fn := t.Call.StaticCallee()
		if fn == nil || len(t.Call.Args) != 1 || !f.z.pure(fn, 0) {
			return
		}
		if c, have := st.chars[t.Call.Args[0]]; have {
			return zfact{c: c, fn: fn}, false, true
		}
	}
	return
}

// pure: the result depends on the argument only.
func (z *Z) pure(fn *ssa.Function, depth int) bool {
	if r, ok := z.pureMemo[fn]; ok {
		return r
	}
	ok := depth < 6 && len(fn.Blocks) > 0 && len(fn.FreeVars) == 0
	z.pureMemo[fn] = false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType:
			case *ssa.UnOp:
				if t.Op == token.MUL || t.Op == token.ARROW {
					ok = false
				}
			case *ssa.Call:
				g := t.Call.StaticCallee()
				if g == nil || !z.pure(g, depth+1) && !strings.HasPrefix(g.String(), "unicode.") {
					ok = false
				}
			default:
				ok = false
			}
		}
	}
	z.pureMemo[fn] = ok
	return ok
}

func ownObject(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Call, *ssa.Extract:
		return true
	}
	return false
}

func isAlloc(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func localRoot(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && !zEscapes(a)
}

var zEscMemo = map[*ssa.Alloc]bool{}

// zEscapes: is the address of the variable stored or captured somewhere?
func zEscapes(a *ssa.Alloc) bool {
	if r, ok := zEscMemo[a]; ok {
		return r
	}
	esc := false
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch t := r.(type) {
			case *ssa.Store:
				if t.Val == v {
					esc = true
				}
			case *ssa.FieldAddr:
				visit(t)
			case *ssa.IndexAddr, *ssa.UnOp, *ssa.DebugRef, *ssa.Slice:
			case ssa.CallInstruction:
				if _, ok := t.Common().Value.(*ssa.Function); !ok {
					if _, isB := t.Common().Value.(*ssa.Builtin); !isB {
						esc = true
					}
				}
			default:
				esc = true
			}
		}
	}
	visit(a)
	zEscMemo[a] = esc
	return esc
}

// killAlias forgets the locations a store to (root, path) may change besides that one.
func (st *zst) killAlias(z *Z, root ssa.Value, path string) {
	st.dropText(z, func(k zkey) bool {
		return k.kind == 'n' && (k.v == root && (k.s == path || path == "") || k.v != root && zMayAlias(k.v, root))
	})
	for x := range st.s.vars() {
		k := z.keys[x]
		if (k.kind == 'm' || k.kind == 'n') && k.v != root && zMayAlias(k.v, root) {
			st.s.elim(x)
		}
	}
	for k := range st.known {
		if k.s != "" && k.s[0] != '!' && k.v != root && zMayAlias(k.v, root) {
			delete(st.known, k)
		}
	}
}

func zMayAlias(a, b ssa.Value) bool {
	if isAlloc(a) && isAlloc(b) || localRoot(a) || localRoot(b) {
		return false
	}
	pa, ok1 := a.Type().Underlying().(*types.Pointer)
	pb, ok2 := b.Type().Underlying().(*types.Pointer)
	if ok1 && ok2 {
		_, sa := pa.Elem().Underlying().(*types.Struct)
		_, sb := pb.Elem().Underlying().(*types.Struct)
		if sa && sb {
			return types.Identical(pa.Elem(), pb.Elem())
		}
	}
	return true
}

// killAll forgets every location other functions may change.
func (st *zst) killAll(z *Z) {
	st.dropText(z, func(k zkey) bool { return k.kind == 'n' && !localRoot(k.v) })
	for x := range st.s.vars() {
		k := z.keys[x]
		if (k.kind == 'm' || k.kind == 'n') && !localRoot(k.v) {
			st.s.elim(x)
		}
	}
	for k := range st.known {
		if k.s != "" && k.s[0] != '!' && !localRoot(k.v) {
			delete(st.known, k)
		}
	}
}

// ---- knowledge about booleans and nil

func (f *zfn) truth(st *zst, v ssa.Value) int8 {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return 0
		}
		if t.Value.Kind() == constant.Bool {
			if constant.BoolVal(t.Value) {
				return 1
			}
			return 0
		}
		return -1
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Function, *ssa.MakeMap, *ssa.MakeChan, *ssa.Global:
		return 1
	case *ssa.MakeSlice:
		if f.sliceNil {
			return 1
		}
	case *ssa.UnOp:
		if t.Op == token.NOT {
			if k := f.truth(st, t.X); k >= 0 {
				return 1 - k
			}
		}
		if g, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL && f.z.setOnce(g) {
			return 1
		}
	case *ssa.ChangeInterface:
		return f.truth(st, t.X)
	case *ssa.ChangeType:
		return f.truth(st, t.X)
	case *ssa.Extract:
		if k, ok := st.known[zval{t.Tuple, t.Index, ""}]; ok {
			return k
		}
	}
	if k, ok := st.known[zval{v, 0, ""}]; ok {
		return k
	}
	if len(st.facts) > 0 {
		if k, neg, ok := f.fact(st, v); ok {
			if r, ok := st.facts[k]; ok {
				if neg {
					return 1 - r
				}
				return r
			}
		}
	}
	return -1
}

// setOnce: a package variable that only its initialiser sets, to a value that is not nil.
func (z *Z) setOnce(g *ssa.Global) bool {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		// error variables of the standard library
		return g.Pkg != nil && types.Implements(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
	}
	n := 0
	good := true
	for _, f := range append(append([]*ssa.Function(nil), z.P.Funcs...), g.Pkg.Func("init")) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch t := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if t.Addr != g || f.Name() != "init" {
							good = false
							break
						}
						n++
						switch v := t.Val.(type) {
						case *ssa.Call:
							if c := v.Call.StaticCallee(); c == nil || !zNonNilCall(c) {
								good = false
							}
						case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap:
						default:
							good = false
						}
					default:
						good = false
					}
				}
			}
		}
	}
	return good && n >= 1
}

func zNonNilCall(c *ssa.Function) bool {
	switch c.String() {
	case "errors.New", "fmt.Errorf", "regexp.MustCompile":
		return true
	}
	return false
}

func (st *zst) set(v zval, k int8) bool {
	if old, ok := st.known[v]; ok && old != k {
		return false
	}
	st.known[v] = k
	return true
}

// assume refines a state by the truth of a boolean value; nil if impossible.
func (f *zfn) assume(st *zst, v ssa.Value, truth bool) *zst {
	k := int8(0)
	if truth {
		k = 1
	}
	if t := f.truth(st, v); t >= 0 {
		if t != k {
			return nil
		}
		return st
	}
	z := f.z
	switch t := v.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			return f.assume(st, t.X, !truth)
		}
	case *ssa.BinOp:
		op := t.Op
		if !truth {
			op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
		}
		switch {
		case zIsInt(t.X.Type()):
			d := z.num(st, t.X).add(z.num(st, t.Y), -1)
			if c, ok := t.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
				if k, ok := st.known[zval{t.X, 0, "!0"}]; ok && (k == 1 && op == token.EQL || k == 0 && op == token.NEQ) {
					return nil
				}
			}
			switch op {
			case token.EQL:
				st.s.addEq(d)
			case token.NEQ:
				if st.s.entails(d) {
					st.s.add(d.add(lconst(1), 1))
				} else if st.s.entails(d.scale(-1)) {
					st.s.add(d.scale(-1).add(lconst(1), 1))
				} else if c, ok := t.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
					st.known[zval{t.X, 0, "!0"}] = 1
				}
			case token.LSS:
				st.s.add(d.add(lconst(1), 1))
			case token.LEQ:
				st.s.add(d)
			case token.GTR:
				st.s.add(d.scale(-1).add(lconst(1), 1))
			case token.GEQ:
				st.s.add(d.scale(-1))
			}
			if !st.s.feasible() {
				return nil
			}
		case zHasLen(t.X.Type()) && !zIsSlice(t.X.Type()) && (op == token.EQL || op == token.NEQ):
			d := z.length(st, t.X).add(z.length(st, t.Y), -1)
			if op == token.EQL {
				if isString(t.X.Type()) {
					st.s.addEq(d)
				}
			} else if isEmptyConst(t.Y) {
				st.s.add(z.length(st, t.X).scale(-1).add(lconst(1), 1))
			} else if isEmptyConst(t.X) {
				st.s.add(z.length(st, t.Y).scale(-1).add(lconst(1), 1))
			}
			if !st.s.feasible() {
				return nil
			}
		case (zNilable(t.X.Type()) || zIsSlice(t.X.Type())) && (op == token.EQL || op == token.NEQ):
			x, y := t.X, t.Y
			if zNilConst(x) {
				x, y = y, x
			}
			if zNilConst(y) {
				n := int8(0)
				if op == token.NEQ {
					n = 1
				}
				if r := f.truth(st, x); r >= 0 {
					if r != n {
						return nil
					}
				} else if !f.learn(st, x, n) {
					return nil
				}
				if n == 0 && zIsSlice(x.Type()) {
					st.s.add(z.length(st, x))
					if !st.s.feasible() {
						return nil
					}
				}
			}
		case zIsBool(t.X.Type()) && (op == token.EQL || op == token.NEQ):
			for _, p := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
				if r := f.truth(st, p[0]); r >= 0 {
					if st = f.assume(st, p[1], (r == 1) == (op == token.EQL)); st == nil {
						return nil
					}
					break
				}
			}
		}
	case *ssa.Call:
		if c := t.Call.StaticCallee(); c != nil && truth {
			switch c.String() {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
				st.s.add(z.length(st, t.Call.Args[1]).add(z.length(st, t.Call.Args[0]), -1))
			case "strings.EqualFold":
			case "strings.ContainsRune", "strings.ContainsAny":
				st.s.add(lconst(1).add(z.length(st, t.Call.Args[0]), -1))
			}
			if !st.s.feasible() {
				return nil
			}
		}
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok && truth {
			if fn := c.Call.StaticCallee(); fn != nil && (fn.String() == "strings.CutPrefix" || fn.String() == "strings.CutSuffix") {
				st.s.addEq(z.lengthI(st, t.Tuple, 0).add(z.length(st, c.Call.Args[0]), -1).add(z.length(st, c.Call.Args[1]), 1))
			}
		}
	}
	if !f.learn(st, v, k) {
		return nil
	}
	return st
}

func (f *zfn) learn(st *zst, v ssa.Value, k int8) bool {
	if fk, neg, ok := f.fact(st, v); ok {
		if st.facts == nil {
			st.facts = map[zfact]int8{}
		}
		st.facts[fk] = k
		if neg {
			st.facts[fk] = 1 - k
		}
	}
	if e, ok := v.(*ssa.Extract); ok {
		if !st.set(zval{e.Tuple, e.Index, ""}, k) {
			return false
		}
	}
	if ci, ok := v.(*ssa.ChangeInterface); ok {
		f.learn(st, ci.X, k)
	}
	return st.set(zval{v, 0, ""}, k)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isEmptyConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == ""
}

func zNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// ---- control flow

// zReach lists the functions of the module that calls from the roots may reach.
func zReach(p *Program, roots []*ssa.Function) map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		in[f] = true
	}
	seen := map[*ssa.Function]bool{}
	names := map[string]bool{}
	var todo []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && in[f] && !seen[f] {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	for _, r := range roots {
		push(r)
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					n := c.Common().Method.Name()
					key := n + "|" + c.Common().Value.Type().String()
					if !names[key] {
						names[key] = true
						it, _ := c.Common().Value.Type().Underlying().(*types.Interface)
						for _, g := range p.Funcs {
							if r := g.Signature.Recv(); r != nil && g.Name() == n && it != nil && types.Implements(r.Type(), it) {
								push(g)
							}
						}
					}
				}
				if mi, ok := ins.(*ssa.MakeInterface); ok {
					// formatting functions call these
					ms := p.Prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						switch ms.At(i).Obj().Name() {
						case "String", "Error", "Less", "Swap", "Len":
							push(p.Prog.MethodValue(ms.At(i)))
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						push(g)
						if o := g.Origin(); o != nil {
							push(o)
						}
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			push(g)
		}
	}
	return seen
}

func newZ(p *Program, reach map[*ssa.Function]bool) *Z {
	z := &Z{P: p, ids: map[zkey]int{}, fns: map[*ssa.Function]*zfn{}, inQ: map[*zfn]bool{}, obs: map[string]*zob{}, cells: map[ssa.Value]ssa.Value{}, pureMemo: map[*ssa.Function]bool{}, recur: map[[2]*zfn]map[string]int8{}}
	invoked := map[string]bool{}
	used := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() {
						invoked[c.Common().Method.Name()] = true
					}
					callee = c.Common().Value
				}
				switch in.(type) {
				case *ssa.Defer, *ssa.Go:
					callee = nil
				}
				mc, _ := in.(*ssa.MakeClosure)
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee && (mc == nil || mc.Fn != g) {
						used[g] = true
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if reach[f] {
			z.add(f)
		}
	}
	for _, f := range z.order {
		fn := f.fn
		switch {
		case fn.Parent() != nil:
			// a closure: called directly only?
			f.top = !z.directOnly(fn)
		case fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "main":
			f.top = true
		case fn.Object() == nil || fn.Synthetic != "":
			f.top = true
		case fn.Object().Exported() || used[fn] || fn.Signature.Recv() != nil && invoked[fn.Name()]:
			f.top = true
		}
	}
	z.modSets()
	return z
}

// directOnly: the function literal is only ever called (or given to sort.Slice as
// the order of the elements), never passed on.
func (z *Z) directOnly(fn *ssa.Function) bool {
	var uses func(v ssa.Value, refs []ssa.Instruction) bool
	uses = func(v ssa.Value, refs []ssa.Instruction) bool {
		for _, r := range refs {
			switch t := r.(type) {
			case *ssa.Call:
				for i, a := range t.Call.Args {
					if a == v && !(i == 1 && z.lessFunc(&t.Call) != nil) {
						return false
					}
				}
			case *ssa.Store:
				// kept in a variable of its own
				a, ok := t.Addr.(*ssa.Alloc)
				if !ok || t.Val != v || z.single(a) != v {
					return false
				}
				for _, q := range *a.Referrers() {
					if u, ok := q.(*ssa.UnOp); ok && !uses(u, *u.Referrers()) {
						return false
					}
					if mc, ok := q.(*ssa.MakeClosure); ok {
						g := mc.Fn.(*ssa.Function)
						for k, b := range mc.Bindings {
							if b != a {
								continue
							}
							for _, q := range *g.FreeVars[k].Referrers() {
								if u, ok := q.(*ssa.UnOp); ok && !uses(u, *u.Referrers()) {
									return false
								}
							}
						}
					}
				}
			case *ssa.MakeClosure, *ssa.DebugRef:
				if mc, ok := t.(*ssa.MakeClosure); ok && mc.Fn != v {
					// captured by value: not a form SSA uses
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				if !uses(mc, *mc.Referrers()) {
					return false
				}
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(fn) && !uses(fn, []ssa.Instruction{in}) {
					return false
				}
			}
		}
	}
	return true
}

func (z *Z) add(fn *ssa.Function) {
	f := &zfn{z: z, fn: fn, cases: map[string]*zcase{}, callers: map[*zfn]bool{}, mods: map[int]map[string]bool{}, calls: map[string]bool{}}
	for _, p := range fn.Params {
		f.params = append(f.params, p)
	}
	z.fns[fn] = f
	z.order = append(z.order, f)
	// roots from the enclosing function
	seen := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				var cand []ssa.Value
				cand = append(cand, z.root(*op))
				if r, _, ok := z.loc(*op); ok {
					cand = append(cand, r)
				}
				for _, r := range cand {
					var par *ssa.Function
					switch t := r.(type) {
					case *ssa.Parameter:
						par = t.Parent()
					case *ssa.Alloc:
						par = t.Parent()
					case ssa.Instruction:
						par = t.Parent()
					}
					if par != nil && par != fn && !seen[r] {
						seen[r] = true
						f.params = append(f.params, r)
					}
				}
			}
		}
	}
	f.prepare()
}

func (f *zfn) prepare() {
	fn := f.fn
	for _, p := range fn.Params {
		if isString(p.Type()) {
			f.hasText = true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.BinOp); ok && zIsSlice(c.X.Type()) {
				f.sliceNil = true
			}
		}
	}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var po []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		po = append(po, b)
	}
	dfs(fn.Blocks[0])
	for i := len(po) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, po[i])
	}
	// loops: retreating edges (a target that does not dominate makes an
	// irreducible loop, which is treated the same way)
	num := map[*ssa.BasicBlock]int{}
	for i, b := range f.rpo {
		num[b] = i
	}
	f.loops = map[*ssa.BasicBlock]*zloop{}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if num[s] > num[b] {
				continue
			}
			l := f.loops[s]
			if l == nil {
				l = &zloop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				f.loops[s] = l
			}
			l.backs = append(l.backs, b)
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	// liveness of values
	f.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.rpo {
		f.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.rpo) - 1; i >= 0; i-- {
			b := f.rpo[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range f.live[s] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, phi)
					for k, p := range s.Preds {
						if p == b {
							zUse(cur, phi.Edges[k])
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if phi, ok := in.(*ssa.Phi); ok {
					// defined on the edge, so live at the start of the block
					cur[phi] = true
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						zUse(cur, *op)
					}
				}
			}
			for v := range cur {
				if !f.live[b][v] {
					f.live[b][v] = true
					ch = true
				}
			}
		}
	}
}

// zUse marks a value and what refinements of it speak about.
func zUse(m map[ssa.Value]bool, v ssa.Value) {
	if m[v] {
		return
	}
	m[v] = true
	switch t := v.(type) {
	case *ssa.BinOp:
		zUse(m, t.X)
		zUse(m, t.Y)
	case *ssa.UnOp:
		if t.Op == token.NOT {
			zUse(m, t.X)
		}
	case *ssa.Extract:
		m[t.Tuple] = true
		if c, ok := t.Tuple.(*ssa.Call); ok && zIsBool(t.Type()) {
			for _, a := range c.Call.Args {
				m[a] = true
			}
		}
	case *ssa.Call:
		if zIsBool(t.Type()) {
			for _, a := range t.Call.Args {
				m[a] = true
			}
		}
	case *ssa.ChangeInterface:
		zUse(m, t.X)
	}
}

// modSets finds which fields of their parameters functions may change.
func (z *Z) modSets() {
	put := func(f *zfn, root ssa.Value, path string) bool {
		if localRoot(root) && root.(*ssa.Alloc).Parent() == f.fn {
			return false
		}
		for i, p := range f.params {
			if p == root {
				if f.mods[i] == nil {
					f.mods[i] = map[string]bool{}
				}
				if f.mods[i][path] {
					return false
				}
				f.mods[i][path] = true
				return true
			}
		}
		if isAlloc(root) && root.(*ssa.Alloc).Parent() == f.fn {
			return false // a new object of its own
		}
		if f.dirty {
			return false
		}
		f.dirty = true
		return true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range z.order {
			for _, b := range f.fn.Blocks {
				for _, in := range b.Instrs {
					switch t := in.(type) {
					case *ssa.Store:
						if r, p, ok := z.loc(t.Addr); ok {
							if put(f, r, p) {
								ch = true
							}
						} else if z.elementStore(t.Addr) {
							// elements of slices and arrays are not tracked
						} else if !f.dirty {
							f.dirty, ch = true, true
						}
					case ssa.CallInstruction:
						c := t.Common()
						g, dyn := z.callee(c)
						if g != nil {
							for i, ps := range g.mods {
								act := z.actual(g, c, i)
								r, p, ok := z.loc(act)
								for q := range ps {
									if ok && put(f, r, p+q) {
										ch = true
									} else if !ok && !f.dirty {
										f.dirty, ch = true, true
									}
								}
							}
							if g.dirty && !f.dirty {
								f.dirty, ch = true, true
							}
						} else if dyn && !f.dirty {
							f.dirty, ch = true, true
						}
					}
				}
			}
		}
	}
}

// elementStore: an address of a whole element (not of a field of a struct that is tracked).
func (z *Z) elementStore(addr ssa.Value) bool {
	_, ok := addr.(*ssa.IndexAddr)
	return ok
}

// callee resolves a call to an analysed function; dyn tells that the call may
// change objects of the module.
func (z *Z) callee(c *ssa.CallCommon) (g *zfn, dyn bool) {
	if c.IsInvoke() {
		// String, Error, Match and the like: module code
		return nil, z.moduleMethod(c)
	}
	switch t := z.root(c.Value).(type) {
	case *ssa.Function:
		if g := z.fns[t]; g != nil {
			return g, false
		}
		// an outside function changes the module's objects only through functions it gets
		for _, a := range c.Args {
			if isSig(a.Type()) {
				return nil, true
			}
		}
		return nil, false
	case *ssa.MakeClosure:
		if g := z.fns[t.Fn.(*ssa.Function)]; g != nil {
			return g, false
		}
	case *ssa.Builtin:
		return nil, false
	}
	return nil, true
}

// moduleMethod: may the method be one of the module's own?
func (z *Z) moduleMethod(c *ssa.CallCommon) bool {
	for _, f := range z.order {
		if f.fn.Signature.Recv() != nil && f.fn.Name() == c.Method.Name() && (f.dirty || len(f.mods) > 0) {
			return true
		}
	}
	return false
}

// actual is the value a parameter (or captured root) of the callee stands for.
func (z *Z) actual(g *zfn, c *ssa.CallCommon, i int) ssa.Value {
	if i < len(g.fn.Params) {
		if i < len(c.Args) {
			return c.Args[i]
		}
		return nil
	}
	return g.params[i]
}

// fields lists the tracked fields of the struct a pointer points to.
func zFields(t types.Type) []zval {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		if zIsInt(p.Elem()) || zHasLen(p.Elem()) {
			return []zval{{nil, 0, ""}}
		}
		return nil
	}
	var out []zval
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if zIsInt(ft) || zHasLen(ft) {
			out = append(out, zval{nil, i, fmt.Sprintf(".%d", i)})
		}
	}
	return out
}

func zFieldType(t types.Type, f zval) types.Type {
	p := t.Underlying().(*types.Pointer)
	if st, ok := p.Elem().Underlying().(*types.Struct); ok && f.s != "" {
		return st.Field(f.i).Type()
	}
	return p.Elem()
}

// ---- analysis

func (f *zfn) stateKey(st *zst) string {
	ks := make([]string, 0, len(st.known))
	for k, v := range st.known {
		n := ""
		if k.v != nil {
			n = k.v.Name()
		}
		ks = append(ks, fmt.Sprintf("%s.%d%s=%d", n, k.i, k.s, v))
	}
	sort.Strings(ks)
	return fmt.Sprint(st.err, strings.Join(ks, ","))
}

// trim drops what is dead at the start of a block.
func (f *zfn) trim(st *zst, b *ssa.BasicBlock) {
	live := f.live[b]
	isParam := func(v ssa.Value) bool {
		for _, p := range f.params {
			if p == v {
				return true
			}
		}
		return false
	}
	st.forget(f.z, func(k zkey) bool {
		switch k.kind {
		case 'v', 'l':
			return live[k.v] || isParam(k.v)
		case 'm', 'n':
			if isParam(k.v) {
				return true
			}
			if _, isG := k.v.(*ssa.Global); isG {
				return true
			}
			if f.hasText && ownObject(k.v) {
				if p, ok := k.v.Type().Underlying().(*types.Pointer); ok {
					if _, ok := p.Elem().Underlying().(*types.Struct); ok {
						return true
					}
				}
			}
			return f.rootLive(k.v, live)
		case 'o':
			return true
		case 'c':
			return live[k.v] || isParam(k.v)
		case 'g':
			l := f.loops[f.fn.Blocks[k.i]]
			return l != nil && l.body[b]
		}
		return false
	})
	st.dropChars(f.z, func(k zkey) bool { return !live[k.v] && !isParam(k.v) })
	for v := range st.chars {
		if !live[v] {
			delete(st.chars, v)
		}
	}
	for k := range st.facts {
		if k.v != nil && !live[k.v] && !isParam(k.v) {
			delete(st.facts, k)
		}
	}
	for k := range st.known {
		if k.s == "!again" {
			if l := f.loops[f.fn.Blocks[k.i]]; l == nil || !l.body[b] {
				delete(st.known, k)
			}
			continue
		}
		if k.s != "!done" && !(live[k.v] || k.s != "" && f.rootLive(k.v, live)) {
			delete(st.known, k)
		}
	}
}

// rootLive: can the object still be reached?
func (f *zfn) rootLive(r ssa.Value, live map[ssa.Value]bool) bool {
	if live[r] {
		return true
	}
	for v := range live {
		switch v.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.FreeVar, *ssa.MakeClosure:
			if q, _, ok := f.z.loc(v); ok && q == r || f.z.root(v) == r {
				return true
			}
		}
		if mc, ok := v.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if b == r || f.z.root(b) == r {
					return true
				}
			}
		}
	}
	return false
}

// join makes the state cover another one too.
func (a *zst) join(b *zst) {
	a.s = joinSys(a.s, b.s)
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || w != v {
			delete(a.facts, k)
		}
	}
	for k, v := range a.chars {
		if w, ok := b.chars[k]; !ok || w != v {
			delete(a.chars, k)
		}
	}
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func mergeInto(m map[string]*zst, key string, st *zst) {
	if old, ok := m[key]; ok {
		old.join(st)
		return
	}
	m[key] = st
}

// capStates joins states until there are few enough.
func (f *zfn) capStates(m map[string]*zst) map[string]*zst {
	if len(m) <= 48 {
		return m
	}
	out := map[string]*zst{}
	for _, k := range sortedKeys(m) {
		st := m[k]
		st.known = map[zval]int8{}
		mergeInto(out, f.stateKey(st), st)
	}
	return out
}

func (f *zfn) entryState() *zst {
	z := f.z
	st := &zst{s: newSys(), known: map[zval]int8{}}
	if f.entry != nil && !f.top {
		st.s = f.entry.clone()
	}
	ren := map[int]int{}
	for i, p := range f.params {
		if zIsInt(p.Type()) {
			ren[z.id(zkey{'P', nil, i, ""})] = z.id(zkey{'v', p, 0, ""})
		}
		if zHasLen(p.Type()) {
			ren[z.id(zkey{'Q', nil, i, ""})] = z.id(zkey{'l', p, 0, ""})
		}
		for _, fl := range zFields(p.Type()) {
			if k, ok := z.memKey(zFieldType(p.Type(), fl), p, fl.s); ok {
				kind := byte('M')
				if k.kind == 'n' {
					kind = 'N'
				}
				ren[z.id(zkey{kind, nil, i, fl.s})] = z.id(k)
			}
		}
	}
	st.s.rename(ren)
	for i, p := range f.params {
		for _, fl := range zFields(p.Type()) {
			if k, ok := z.memKey(zFieldType(p.Type(), fl), p, fl.s); ok {
				kind := byte('M')
				if k.kind == 'n' {
					kind = 'N'
					st.s.add(lvar(z.id(k)).scale(-1))
				}
				o := z.id(zkey{'o', nil, i, string(kind) + fl.s})
				st.s.addEq(lvar(o).add(lvar(z.id(k)), -1))
			}
		}
	}
	return st
}

// solve runs the function to a fixpoint.
func (f *zfn) solve() {
	f.in = map[*ssa.BasicBlock]map[string]*zst{}
	f.visits = map[*ssa.BasicBlock]int{}
	f.edges = map[[2]int]map[string]*zst{}
	f.cases = map[string]*zcase{}
	e := f.entryState()
	start := f.fn.Blocks[0]
	num := map[*ssa.BasicBlock]int{}
	for i, b := range f.rpo {
		num[b] = i
	}
	work := map[int]bool{0: true}
	f.in[start] = map[string]*zst{f.stateKey(e): e}
	for len(work) > 0 {
		n := -1
		for k := range work {
			if n < 0 || k < n {
				n = k
			}
		}
		delete(work, n)
		b := f.rpo[n]
		outs := f.block(b)
		f.z.Steps++
		if os.Getenv("ZFN") == f.fn.Name() {
			for k, st := range f.in[b] {
				fmt.Fprintln(os.Stderr, "IN", b.Index, k, f.dump(st), st.facts, st.chars)
			}
			for i, m := range outs {
				for _, st := range m {
					fmt.Fprintln(os.Stderr, "   OUT", b.Succs[i].Index, f.dump(st), st.facts)
				}
			}
		}
		if os.Getenv("ZDEBUG") == "2" {
			n, c := 0, 0
			for _, st := range f.in[b] {
				n++
				c += len(st.s.cons)
			}
			fmt.Fprintln(os.Stderr, "block", f.fn.Name(), b.Index, "states", n, "constraints", c, "visits", f.visits[b])
		}
		for i, s := range b.Succs {
			m := outs[i]
			f.edges[[2]int{b.Index, i}] = m
			if f.update(s, false) {
				work[num[s]] = true
			}
		}
	}
	// decreasing iteration
	f.narrow = true
	for round := 0; round < 2; round++ {
		for _, b := range f.rpo {
			if b != start {
				f.update(b, true)
			}
			outs := f.block(b)
			for i := range b.Succs {
				f.edges[[2]int{b.Index, i}] = outs[i]
			}
		}
	}
	f.narrow = false
	// the results
	f.cases = map[string]*zcase{}
	for _, b := range f.rpo {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, k := range sortedKeys(f.in[b]) {
				for _, st := range f.run(b, f.in[b][k].clone()) {
					f.ret(st, r)
				}
			}
		}
	}
}

// update recomputes the state at the start of a block.
func (f *zfn) update(b *ssa.BasicBlock, narrow bool) bool {
	nw := map[string]*zst{}
	for _, p := range b.Preds {
		for i, s := range p.Succs {
			if s != b {
				continue
			}
			m := f.edges[[2]int{p.Index, i}]
			for _, k := range sortedKeys(m) {
				st := m[k]
				if old, ok := nw[k]; ok {
					old.join(st)
				} else {
					nw[k] = st.clone()
				}
			}
		}
	}
	nw = f.capStates(nw)
	old := f.in[b]
	if narrow {
		f.in[b] = nw
		return true
	}
	if f.loops[b] != nil {
		f.visits[b]++
		for k, st := range nw {
			o, ok := old[k]
			if !ok {
				continue
			}
			if f.visits[b] > 3 {
				nw := plainWiden(o.s, st.s)
				if f.visits[b] < 25 {
					nw = widenSys(o.s, st.s, f.z.anchor)
				}
				st.join(&zst{s: nw, facts: o.facts, chars: o.chars})
				st.s = nw
			} else {
				st.join(o)
			}
		}
		for k, o := range old {
			if _, ok := nw[k]; !ok {
				nw[k] = o
			}
		}
	}
	changed := len(old) != len(nw)
	if !changed {
		for k, st := range nw {
			o, ok := old[k]
			if !ok || len(o.facts) != len(st.facts) || len(o.chars) != len(st.chars) || !o.s.implies(st.s) || !st.s.implies(o.s) {
				changed = true
				break
			}
		}
	}
	if changed {
		f.in[b] = nw
	}
	return changed
}

// block runs a block and delivers the states on its outgoing edges.
func (f *zfn) block(b *ssa.BasicBlock) []map[string]*zst {
	outs := make([]map[string]*zst, len(b.Succs))
	for i := range outs {
		outs[i] = map[string]*zst{}
	}
	for _, k := range sortedKeys(f.in[b]) {
		st := f.in[b][k].clone()
		if f.loops[b] != nil {
			f.ghosts(st, b)
		}
		for _, st := range f.run(b, st) {
			switch t := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.If:
				for i, s := range b.Succs {
					c := st.clone()
					if c = f.assume(c, t.Cond, i == 0); c != nil {
						f.edge(outs[i], c, b, s, i)
					}
				}
			case *ssa.Jump:
				f.edge(outs[0], st, b, b.Succs[0], 0)
			}
		}
	}
	return outs
}

// zeroPhi: one of the values that come together is a constant.
func (f *zfn) zeroPhi(phi *ssa.Phi) bool {
	for _, e := range phi.Edges {
		if c, ok := e.(*ssa.Const); ok && c.Value != nil {
			return true
		}
		if p, ok := e.(*ssa.Phi); ok && p != phi && f.loops[p.Block()] == nil {
			for _, e := range p.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil {
					return true
				}
			}
		}
	}
	return false
}

// anchor: values at the start of the function or of the repetition.
func (z *Z) anchor(v int) bool {
	switch z.keys[v].kind {
	case 'o', 'g', 'M', 'N':
		return true
	}
	return false
}

// ghosts remembers the values of the candidates for a measure at the head of a loop.
func (f *zfn) ghosts(st *zst, b *ssa.BasicBlock) {
	z := f.z
	for x := range st.s.vars() {
		if k := z.keys[x]; k.kind == 'g' && k.i == b.Index {
			st.s.elim(x)
		}
	}
	for x := range st.s.vars() {
		if f.measure(z.keys[x], b) {
			st.s.addEq(lvar(z.id(zkey{'g', nil, b.Index, fmt.Sprint(x)})).add(lvar(x), -1))
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if zIsInt(phi.Type()) {
			x := z.id(zkey{'v', phi, 0, ""})
			st.s.addEq(lvar(z.id(zkey{'g', nil, b.Index, fmt.Sprint(x)})).add(lvar(x), -1))
		} else if zHasLen(phi.Type()) {
			x := z.id(zkey{'l', phi, 0, ""})
			st.s.addEq(lvar(z.id(zkey{'g', nil, b.Index, fmt.Sprint(x)})).add(lvar(x), -1))
		}
	}
}

// measure: variables that change from one iteration of the loop to the next.
func (f *zfn) measure(k zkey, b *ssa.BasicBlock) bool {
	switch k.kind {
	case 'v', 'l':
		p, ok := k.v.(*ssa.Phi)
		return ok && p.Block() == b
	case 'm', 'n':
		l := f.loops[b]
		if l.mods == nil {
			l.mods = map[string]bool{}
			put := func(r ssa.Value, p string) { l.mods[fmt.Sprintf("%p%s", r, p)] = true }
			for b := range l.body {
				for _, in := range b.Instrs {
					switch t := in.(type) {
					case *ssa.Store:
						if r, p, ok := f.z.loc(t.Addr); ok {
							put(r, p)
						}
					case ssa.CallInstruction:
						if g, _ := f.z.callee(t.Common()); g != nil {
							for i, ps := range g.mods {
								if r, p, ok := f.z.loc(f.z.actual(g, t.Common(), i)); ok {
									for q := range ps {
										put(r, p+q)
									}
								}
							}
						}
					}
				}
			}
		}
		return l.mods[fmt.Sprintf("%p%s", k.v, k.s)]
	}
	return false
}

// edge moves a state to the start of the next block.
func (f *zfn) edge(out map[string]*zst, st *zst, b, s *ssa.BasicBlock, _ int) {
	z := f.z
	idx := -1
	for i, p := range s.Preds {
		if p == b {
			idx = i
		}
	}
	ren := map[int]int{}
	kn := map[zval]int8{}
	var phis []*ssa.Phi
	for _, in := range s.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		v := phi.Edges[idx]
		switch {
		case zIsInt(phi.Type()):
			t, x := z.id(zkey{'T', phi, 0, ""}), z.id(zkey{'v', phi, 0, ""})
			st.s.addEq(lvar(t).add(z.num(st, v), -1))
			ren[t] = x
		case zHasLen(phi.Type()):
			t, x := z.id(zkey{'T', phi, 1, ""}), z.id(zkey{'l', phi, 0, ""})
			st.s.addEq(lvar(t).add(z.length(st, v), -1))
			ren[t] = x
		}
		if zIsInt(phi.Type()) && f.loops[s] == nil {
			// whether it is zero is kept apart
			if c, ok := v.(*ssa.Const); ok && c.Value != nil {
				kn[zval{phi, 0, "!0"}] = int8(min(1, abs(constant.Sign(c.Value))))
			} else if k, ok := st.known[zval{v, 0, "!0"}]; ok {
				kn[zval{phi, 0, "!0"}] = k
			} else if f.zeroPhi(phi) {
				e := z.num(st, v)
				if f.le(st, lconst(1), e) {
					kn[zval{phi, 0, "!0"}] = 1
				} else if f.le(st, e, lconst(0)) && f.le(st, lconst(0), e) {
					kn[zval{phi, 0, "!0"}] = 0
				}
			}
		}
		if f.tracked(phi.Type()) {
			if k := f.truth(st, v); k >= 0 {
				kn[zval{phi, 0, ""}] = k
			}
		}
	}
	for _, phi := range phis {
		st.define(z, phi)
	}
	st.s.rename(ren)
	for k, v := range kn {
		st.known[k] = v
	}
	if l := f.loops[s]; l != nil {
		delete(st.known, zval{nil, s.Index, "!again"})
		for _, bk := range l.backs {
			if bk == b {
				st.known[zval{nil, s.Index, "!again"}] = 1
			}
		}
	}
	if f.report && f.loops[s] != nil && st.s.feasible() {
		for _, bk := range f.loops[s].backs {
			if bk == b {
				f.backSt[s] = append(f.backSt[s], st.clone())
			}
		}
	}
	f.trim(st, s)
	if st.s.bad || !st.s.feasible() {
		return
	}
	mergeInto(out, f.stateKey(st), st)
}

// run executes the instructions of a block.
func (f *zfn) run(b *ssa.BasicBlock, st *zst) []*zst {
	cur := []*zst{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var next []*zst
		for _, s := range cur {
			next = append(next, f.instr(s, in)...)
		}
		cur = next
		if len(cur) == 0 {
			break
		}
		if len(cur) > 1 {
			m := map[string]*zst{}
			for _, s := range cur {
				mergeInto(m, f.stateKey(s), s)
			}
			m = f.capStates(m)
			cur = nil
			for _, k := range sortedKeys(m) {
				cur = append(cur, m[k])
			}
		}
	}
	return cur
}

func (f *zfn) check(in ssa.Instruction, rule string, ok bool, detail func() string) {
	if !f.report {
		return
	}
	site := f.z.P.instrPos(in)
	key := fmt.Sprintf("%s|%s|%p|%s", rule, site, in, detailKey(rule))
	o := f.results[key]
	if o == nil {
		o = &zob{rule: rule, site: site + " " + f.fn.RelString(nil), ok: true}
		f.results[key] = o
	}
	if !ok && o.ok {
		o.ok = false
		o.detail = detail()
	}
}

func detailKey(string) string { return "" }

// le checks a <= b.
func (f *zfn) le(st *zst, a, b lin) bool { return st.s.entails(a.add(b, -1)) }

func (f *zfn) str(st *zst, e lin) string {
	var parts []string
	for _, t := range e.t {
		parts = append(parts, fmt.Sprintf("%+d*%s", t.c, f.z.name(t.v)))
	}
	parts = append(parts, fmt.Sprintf("%+d", e.k))
	return strings.Join(parts, " ")
}

func (z *Z) name(v int) string {
	k := z.keys[v]
	n := ""
	if k.v != nil {
		n = k.v.Name()
	}
	switch k.kind {
	case 'v':
		return n
	case 'l':
		return "len(" + n + ")"
	case 'm':
		return n + k.s
	case 'n':
		return "len(" + n + k.s + ")"
	}
	return fmt.Sprintf("%c%s%d%s", k.kind, n, k.i, k.s)
}

func (f *zfn) dump(st *zst) string {
	var parts []string
	for _, c := range st.s.cons {
		parts = append(parts, f.str(st, c)+" <= 0")
	}
	sort.Strings(parts)
	return strings.Join(parts, "; ") + " | " + f.stateKey(st)
}

// index checks 0 <= i < n.
func (f *zfn) index(st *zst, in ssa.Instruction, i, n lin) {
	if !f.report {
		return
	}
	ok := f.le(st, lconst(0), i) && f.le(st, i.add(lconst(1), 1), n)
	f.check(in, "index within bounds", ok, func() string {
		return "it is not shown that the index " + f.str(st, i) + " is in 0.." + f.str(st, n) + "-1; known: " + clip(f.dump(st))
	})
	// afterwards it is (otherwise the program has stopped)
	_ = i
}

func (f *zfn) instr(st *zst, in ssa.Instruction) []*zst {
	z := f.z
	one := []*zst{st}
	if v, ok := in.(ssa.Value); ok {
		st.define(z, v)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		if p, ok := x.Type().Underlying().(*types.Pointer); ok {
			for _, fl := range zFields(x.Type()) {
				if k, ok := z.memKey(zFieldType(x.Type(), fl), x, fl.s); ok {
					st.s.addEq(lvar(z.id(k)))
				}
			}
			if s, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if zTracked(s.Field(i).Type()) {
						st.known[zval{x, 0, fmt.Sprintf(".%d", i)}] = 0
					}
				}
			} else if zTracked(p.Elem()) {
				st.known[zval{x, 0, "*"}] = 0
			}
		}
	case *ssa.BinOp:
		f.binop(st, x)
	case *ssa.UnOp:
		f.unop(st, x)
		if n, ok := z.groups(x); x.Op == token.MUL && ok {
			st.s.addEq(z.length(st, x).add(lconst(int(n)), -1))
		}
	case *ssa.Convert:
		from, to := x.X.Type(), x.Type()
		switch {
		case zIsInt(from) && zIsInt(to):
			_, hi, okLo, okHi := zRange(from)
			e := z.num(st, x.X)
			r := z.num(st, x)
			if zWide(to) && (zWide(from) || okLo && okHi) {
				st.s.addEq(r.add(e, -1))
			} else if okLo && okHi && hi <= 255 {
				st.s.addEq(r.add(e, -1))
			} else if tl, th, ok1, ok2 := zRange(to); ok1 && f.le(st, lconst(tl), e) && (!ok2 || f.le(st, e, lconst(th))) {
				st.s.addEq(r.add(e, -1))
			}
		case zHasLen(to) && zHasLen(from):
			if isString(to) != isString(from) && elemIsByte(from) && elemIsByte(to) {
				st.s.addEq(z.length(st, x).add(z.length(st, x.X), -1))
			} else if isString(to) == isString(from) {
				st.s.addEq(z.length(st, x).add(z.length(st, x.X), -1))
			}
		case isString(to) && zIsInt(from):
			l := z.length(st, x)
			st.s.add(lconst(1).add(l, -1))
			st.s.add(l.add(lconst(4), -1))
		}
	case *ssa.ChangeType:
		if zHasLen(x.Type()) {
			st.s.addEq(z.length(st, x).add(z.length(st, x.X), -1))
		} else if zIsInt(x.Type()) {
			st.s.addEq(z.num(st, x).add(z.num(st, x.X), -1))
		}
	case *ssa.FieldAddr:
		f.deref(st, in, x.X)
	case *ssa.IndexAddr:
		f.deref(st, in, x.X)
		f.index(st, in, z.num(st, x.Index), z.length(st, x.X))
	case *ssa.Index:
		f.index(st, in, z.num(st, x.Index), z.length(st, x.X))
		if zIsInt(x.Type()) {
			z.num(st, x)
		}
		if isString(x.X.Type()) {
			f.char(st, x, x.X, x.Index)
		}
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			f.index(st, in, z.num(st, x.Index), z.length(st, x.X))
			z.num(st, x)
			f.char(st, x, x.X, x.Index)
		} else {
			f.hashable(st, in, x.Index)
		}
	case *ssa.MapUpdate:
		f.hashable(st, in, x.Key)
		f.check(in, "no write to a nil map", f.truth(st, x.Map) != 0, func() string { return "the map is nil on this path" })
	case *ssa.Slice:
		f.slice(st, x)
	case *ssa.MakeSlice:
		l := z.num(st, x.Len)
		c := z.num(st, x.Cap)
		if f.report {
			f.check(in, "size of a new slice not negative", f.le(st, lconst(0), l) && f.le(st, l, c), func() string {
				return "it is not shown that 0 <= " + f.str(st, l) + " <= " + f.str(st, c) + "; known: " + clip(f.dump(st))
			})
		}
		st.s.addEq(z.length(st, x).add(l, -1))
	case *ssa.Store:
		f.deref(st, in, x.Addr)
		f.store(st, x)
	case *ssa.Call:
		return f.call(st, x)
	case *ssa.Defer, *ssa.Go:
	case *ssa.RunDefers:
		if z.defersModule(f.fn) {
			st.killAll(z)
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			f.check(in, "type assertion", z.assertSafe(x), func() string { return "nothing shows that the value has type " + x.AssertedType.String() })
		}
	case *ssa.Panic:
		f.check(in, "no explicit panic reached", false, func() string { return "a path reaches the panic; known: " + clip(f.dump(st)) })
		return nil
	case *ssa.Extract:
		tt := x.Type()
		ren := map[int]int{}
		for v := range st.s.vars() {
			if k := z.keys[v]; (k.kind == 'm' || k.kind == 'n') && k.v == x.Tuple && k.i == x.Index {
				ren[v] = z.id(zkey{k.kind, x, 0, k.s})
			}
		}
		st.s.rename(ren)
		switch {
		case zIsInt(tt):
			st.s.addEq(z.num(st, x).add(z.numI(st, x.Tuple, x.Index), -1))
		case zHasLen(tt):
			st.s.addEq(z.length(st, x).add(z.lengthI(st, x.Tuple, x.Index), -1))
		case zTracked(tt):
			if k, ok := st.known[zval{x.Tuple, x.Index, ""}]; ok {
				st.known[zval{x, 0, ""}] = k
			}
		}
	case *ssa.Next:
		if x.IsString {
			if r, ok := x.Iter.(*ssa.Range); ok {
				k := z.numI(st, x, 1)
				st.s.add(k.scale(-1))
				st.s.add(k.add(lconst(1), 1).add(z.length(st, r.X), -1))
				// only if there is a next character, but the key is not used otherwise
			}
		}
	case *ssa.SliceToArrayPointer:
		n, _ := zArrayLen(x.Type())
		f.check(in, "slice long enough for the array", f.le(st, lconst(n), z.length(st, x.X)), func() string { return "the slice may be shorter" })
	}
	return one
}

func elemIsByte(t types.Type) bool {
	if isString(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (f *zfn) deref(st *zst, in ssa.Instruction, p ssa.Value) {
	if !f.report || !zNilable(p.Type()) {
		return
	}
	k := f.truth(st, p)
	if k == 0 {
		f.check(in, "no nil pointer followed", false, func() string { return p.Name() + " is nil on this path" })
	}
}

func (f *zfn) hashable(st *zst, in ssa.Instruction, k ssa.Value) {
	if _, ok := k.Type().Underlying().(*types.Interface); !ok {
		return
	}
	mi, ok := k.(*ssa.MakeInterface)
	f.check(in, "map key comparable", ok && zComparable(mi.X.Type()), func() string { return "the key may hold a value that cannot be compared" })
}

// zComparable: comparing two values of the type cannot panic.
func zComparable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface, *types.Slice, *types.Map, *types.Signature:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !zComparable(u.Field(i).Type()) {
				return false
			}
		}
	case *types.Array:
		return zComparable(u.Elem())
	}
	return true
}

func (f *zfn) binop(st *zst, x *ssa.BinOp) {
	z := f.z
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if types.IsInterface(x.X.Type()) && types.IsInterface(x.Y.Type()) && !zNilConst(x.X) && !zNilConst(x.Y) {
			safe := false
			for _, v := range []ssa.Value{x.X, x.Y} {
				if mi, ok := v.(*ssa.MakeInterface); ok && zComparable(mi.X.Type()) {
					safe = true
				}
				if u, ok := v.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && z.setOnce(g) {
						safe = true // an error value, which is a pointer
					}
				}
			}
			f.check(x, "interface values comparable", safe, func() string { return "both sides may hold values that cannot be compared" })
		}
		t := st.clone()
		a := f.assume(t, x, true)
		t = st.clone()
		b := f.assume(t, x, false)
		if a == nil && b != nil {
			st.known[zval{x, 0, ""}] = 0
		} else if b == nil && a != nil {
			st.known[zval{x, 0, ""}] = 1
		}
		return
	}
	if isString(x.Type()) && x.Op == token.ADD {
		st.s.addEq(z.length(st, x).add(z.length(st, x.X), -1).add(z.length(st, x.Y), -1))
		return
	}
	if !zIsInt(x.Type()) {
		return
	}
	a, b := z.num(st, x.X), z.num(st, x.Y)
	if x.Op == token.QUO || x.Op == token.REM {
		if f.report {
			f.check(x, "no division by zero", f.le(st, lconst(1), b) || f.le(st, b, lconst(-1)) || st.known[zval{x.Y, 0, "!0"}] == 1, func() string { return "the divisor may be zero" })
		}
	}
	if x.Op == token.SHL || x.Op == token.SHR {
		if zWide(x.Y.Type()) && f.report {
			f.check(x, "shift count not negative", f.le(st, lconst(0), b), func() string { return "the shift count may be negative" })
		}
	}
	r := z.num(st, x)
	exact := zWide(x.Type())
	var e lin
	have := true
	switch x.Op {
	case token.ADD:
		e = a.add(b, 1)
	case token.SUB:
		e = a.add(b, -1)
	case token.MUL:
		if len(a.t) == 0 {
			e = b.scale(a.k)
		} else if len(b.t) == 0 {
			e = a.scale(b.k)
		} else {
			have = false
		}
	default:
		have = false
	}
	if have {
		if !exact {
			lo, hi, okLo, okHi := zRange(x.Type())
			exact = okLo && f.le(st, lconst(lo), e) && (!okHi || f.le(st, e, lconst(hi)))
		}
		if exact {
			st.s.addEq(r.add(e, -1))
		}
		return
	}
	nonneg := f.le(st, lconst(0), a)
	switch x.Op {
	case token.REM:
		if nonneg && f.le(st, lconst(1), b) {
			st.s.add(r.scale(-1))
			st.s.add(r.add(lconst(1), 1).add(b, -1))
			st.s.add(r.add(a, -1))
		}
	case token.QUO:
		if nonneg && f.le(st, lconst(1), b) {
			st.s.add(r.scale(-1))
			st.s.add(r.add(a, -1))
			if len(b.t) == 0 && b.k > 0 { // b*r <= a < b*r+b
				st.s.add(r.scale(b.k).add(a, -1))
				st.s.add(a.add(r, -b.k).add(lconst(b.k-1), -1))
			}
		}
	case token.SHR:
		if nonneg {
			st.s.add(r.scale(-1))
			st.s.add(r.add(a, -1))
			if len(b.t) == 0 && b.k >= 0 && b.k < 30 {
				p := 1 << b.k
				st.s.add(r.scale(p).add(a, -1))
				st.s.add(a.add(r, -p).add(lconst(p-1), -1))
			}
		}
	case token.AND:
		for _, o := range []lin{a, b} {
			if len(o.t) == 0 && o.k >= 0 {
				st.s.add(r.scale(-1))
				st.s.add(r.add(o, -1))
			}
		}
		if nonneg && f.le(st, lconst(0), b) {
			st.s.add(r.scale(-1))
			st.s.add(r.add(a, -1))
			st.s.add(r.add(b, -1))
		}
	case token.OR, token.XOR:
		if nonneg && f.le(st, lconst(0), b) {
			st.s.add(r.scale(-1))
		}
	}
}

func (f *zfn) unop(st *zst, x *ssa.UnOp) {
	z := f.z
	switch x.Op {
	case token.MUL:
		f.deref(st, x, x.X)
		root, path, ok := z.loc(x.X)
		if !ok {
			if zIsInt(x.Type()) {
				z.num(st, x)
			}
			return
		}
		if k, ok := z.memKey(x.Type(), root, path); ok {
			m := lvar(z.id(k))
			if k.kind == 'm' {
				r := z.num(st, x)
				st.s.addEq(r.add(m, -1))
			} else {
				st.s.addEq(z.length(st, x).add(m, -1))
			}
		} else if zTracked(x.Type()) {
			if path == "" {
				path = "*"
			}
			if k, ok := st.known[zval{root, 0, path}]; ok {
				st.known[zval{x, 0, ""}] = k
			}
		}
	case token.SUB:
		if zWide(x.Type()) {
			st.s.addEq(z.num(st, x).add(z.num(st, x.X), 1))
		}
	}
}

func (f *zfn) store(st *zst, x *ssa.Store) {
	z := f.z
	root, path, ok := z.loc(x.Addr)
	if !ok {
		if !z.elementStore(x.Addr) {
			st.killAll(z)
		} else {
			// an element of struct type may be what a tracked pointer points to
			if _, isS := x.Val.Type().Underlying().(*types.Struct); isS {
				st.killAll(z)
			}
		}
		return
	}
	st.killAlias(z, root, path)
	t := x.Val.Type()
	if k, ok := z.memKey(t, root, path); ok {
		var e lin
		if k.kind == 'm' {
			e = z.num(st, x.Val)
		} else {
			e = z.length(st, x.Val)
		}
		id := z.id(k)
		tmp := z.id(zkey{'T', root, 2, path})
		st.s.addEq(lvar(tmp).add(e, -1))
		st.s.elim(id)
		st.s.rename(map[int]int{tmp: id})
		return
	}
	p := path
	if p == "" {
		p = "*"
	}
	if zTracked(t) {
		delete(st.known, zval{root, 0, p})
		if k := f.truth(st, x.Val); k >= 0 {
			st.known[zval{root, 0, p}] = k
		}
		return
	}
	// a whole struct
	for v := range st.s.vars() {
		if k := z.keys[v]; (k.kind == 'm' || k.kind == 'n') && k.v == root && strings.HasPrefix(k.s, path) {
			st.s.elim(v)
		}
	}
	for k := range st.known {
		if k.v == root && k.s != "" && k.s[0] != '!' && (path == "" || strings.HasPrefix(k.s, path)) {
			delete(st.known, k)
		}
	}
	// a copy of another struct: *a = *b
	if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
		_ = u
	}
}

func (f *zfn) slice(st *zst, x *ssa.Slice) {
	z := f.z
	f.deref(st, x, x.X)
	n := z.length(st, x.X)
	lo, hi := lconst(0), n
	if x.Low != nil {
		lo = z.num(st, x.Low)
	}
	if x.High != nil {
		hi = z.num(st, x.High)
	}
	if f.report && (x.Low != nil || x.High != nil || x.Max != nil) {
		ok := f.le(st, lconst(0), lo) && f.le(st, lo, hi) && f.le(st, hi, n)
		if x.Max != nil {
			m := z.num(st, x.Max)
			ok = ok && f.le(st, hi, m) && f.le(st, m, n)
		}
		f.check(x, "slice bounds within the value", ok, func() string {
			return "it is not shown that 0 <= " + f.str(st, lo) + " <= " + f.str(st, hi) + " <= " + f.str(st, n) + "; known: " + clip(f.dump(st))
		})
	}
	st.s.addEq(z.length(st, x).add(hi, -1).add(lo, 1))
}

// assertSafe: every value that can arrive has the asserted type.
func (z *Z) assertSafe(x *ssa.TypeAssert) bool {
	// a value taken from a sync.Map: what is stored in that map
	v := x.X
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return types.Identical(mi.X.Type(), x.AssertedType)
	}
	isMapMethod := func(c *ssa.CallCommon, names string) bool {
		fn := c.StaticCallee()
		return fn != nil && fn.Signature.Recv() != nil && strings.HasPrefix(fn.String(), "(*sync.Map).") && strings.Contains(names, fn.Name())
	}
	field := func(v ssa.Value) (types.Type, int, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return nil, 0, false
		}
		return fa.X.Type(), fa.Field, true
	}
	var ft types.Type
	fi := -1
	switch t := v.(type) {
	case *ssa.Call:
		if !isMapMethod(&t.Call, "Load LoadAndDelete LoadOrStore Swap") {
			return false
		}
		var ok bool
		if ft, fi, ok = field(t.Call.Args[0]); !ok {
			return false
		}
	case *ssa.Parameter:
		return false
	default:
		return false
	}
	n := 0
	for _, f := range z.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				fn := c.Common().StaticCallee()
				if fn == nil || !strings.HasPrefix(fn.String(), "(*sync.Map).") {
					continue
				}
				t, i, ok := field(c.Common().Args[0])
				if !ok {
					return false
				}
				if !types.Identical(t, ft) || i != fi {
					continue
				}
				switch fn.Name() {
				case "Store", "LoadOrStore", "Swap":
					mi, ok := c.Common().Args[2].(*ssa.MakeInterface)
					if !ok || !types.Identical(mi.X.Type(), x.AssertedType) {
						return false
					}
					n++
				case "CompareAndSwap":
					return false
				}
			}
		}
	}
	return n > 0
}

// defersModule: does a deferred call run code of the module?
func (z *Z) defersModule(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if g, dyn := z.callee(d.Common()); g != nil || dyn {
					return true
				}
			}
		}
	}
	return false
}

// ---- calls

func (f *zfn) call(st *zst, x *ssa.Call) []*zst {
	z := f.z
	c := x.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		f.builtin(st, x, b.Name())
		return []*zst{st}
	}
	g, dyn := z.callee(c)
	if g != nil {
		return f.callKnown(st, x, g)
	}
	if g := z.lessFunc(c); g != nil {
		g.callers[f] = true
		var n lin
		have := false
		if mi, ok := z.root(c.Args[0]).(*ssa.MakeInterface); ok && zHasLen(mi.X.Type()) {
			n, have = z.length(st, mi.X), true
		}
		f.enter(st, g, c, func(e *lsys, i int, v int) bool {
			e.add(lvar(v).scale(-1))
			if have {
				e.add(lvar(v).add(lconst(1), 1).add(n, -1))
			}
			return true
		})
	}
	if dyn {
		st.killAll(z)
	}
	return f.callOutside(st, x)
}

func (f *zfn) builtin(st *zst, x *ssa.Call, name string) {
	z := f.z
	args := x.Call.Args
	switch name {
	case "len", "cap":
		r := z.num(st, x)
		st.s.add(r.scale(-1))
		if zHasLen(args[0].Type()) {
			l := z.length(st, args[0])
			if name == "len" {
				st.s.addEq(r.add(l, -1))
			} else {
				st.s.add(l.add(r, -1))
			}
		} else if n, ok := zArrayLen(args[0].Type()); ok {
			st.s.addEq(r.add(lconst(int(n)), -1))
		}
	case "append":
		e := z.length(st, x).add(z.length(st, args[0]), -1)
		if len(args) > 1 {
			e = e.add(z.length(st, args[1]), -1)
		}
		st.s.addEq(e)
	case "copy":
		r := z.num(st, x)
		st.s.add(r.scale(-1))
		st.s.add(r.add(z.length(st, args[0]), -1))
		st.s.add(r.add(z.length(st, args[1]), -1))
	case "min", "max":
		if zIsInt(x.Type()) {
			r := z.num(st, x)
			for _, a := range args {
				d := r.add(z.num(st, a), -1)
				if name == "max" {
					d = d.scale(-1)
				}
				st.s.add(d)
			}
			// a bound of all arguments on the other side is a bound of the result
			for v := range st.s.vars() {
				_ = v
			}
			lo := true
			for _, a := range args {
				if !f.le(st, lconst(0), z.num(st, a)) {
					lo = false
				}
			}
			if lo {
				st.s.add(r.scale(-1))
			}
		}
	}
}

// enter adds a call's state to the entry state of the callee.
func (f *zfn) enter(st *zst, g *zfn, c *ssa.CallCommon, bind func(e *lsys, i int, v int) bool) {
	z := f.z
	if g.top {
		if g.entry == nil {
			g.entry = newSys()
			z.enqueue(g)
		}
		return
	}
	e := st.s.clone()
	for i, p := range g.params {
		if bind != nil && zIsInt(p.Type()) && bind(e, i, z.id(zkey{'P', nil, i, ""})) {
			continue
		}
		act := z.actual(g, c, i)
		if bind != nil && i < len(g.fn.Params) {
			continue
		}
		if zIsInt(p.Type()) {
			v := z.id(zkey{'P', nil, i, ""})
			e.addEq(lvar(v).add(z.num(st, act), -1))
		}
		if zHasLen(p.Type()) {
			v := z.id(zkey{'Q', nil, i, ""})
			e.addEq(lvar(v).add(z.length(st, act), -1))
		}
		r, path, ok := z.loc(act)
		if !ok {
			continue
		}
		for _, fl := range zFields(p.Type()) {
			if k, ok := z.memKey(zFieldType(p.Type(), fl), r, path+fl.s); ok {
				kind := byte('M')
				if k.kind == 'n' {
					kind = 'N'
				}
				v := z.id(zkey{kind, nil, i, fl.s})
				e.addEq(lvar(v).add(lvar(z.id(k)), -1))
			}
		}
	}
	for _, c := range st.s.cons {
		e.add(c)
	}
	for v := range e.vars() {
		switch z.keys[v].kind {
		case 'P', 'Q', 'M', 'N':
		default:
			e.elim(v)
		}
	}
	switch {
	case z.shrink:
		if g.next == nil {
			g.next = e
		} else if !e.implies(g.next) {
			g.next = joinSys(g.next, e)
		}
	case g.entry == nil:
		g.entry = e
		z.enqueue(g)
	case !f.report && !e.implies(g.entry):
		g.entryN++
		if g.entryN > 6 {
			g.entry = widenSys(g.entry, joinSys(g.entry, e), z.anchor)
		} else {
			g.entry = joinSys(g.entry, e)
		}
		z.enqueue(g)
	}
}

// lessFunc is the function literal of a call to sort.Slice and the like.
func (z *Z) lessFunc(c *ssa.CallCommon) *zfn {
	fn := c.StaticCallee()
	if fn == nil || len(c.Args) != 2 {
		return nil
	}
	switch fn.String() {
	case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
	default:
		return nil
	}
	switch t := z.root(c.Args[1]).(type) {
	case *ssa.MakeClosure:
		return z.fns[t.Fn.(*ssa.Function)]
	case *ssa.Function:
		return z.fns[t]
	}
	return nil
}

// callKnown applies the summary of a function of the module.
func (f *zfn) callKnown(st *zst, x *ssa.Call, g *zfn) []*zst {
	z := f.z
	c := x.Common()
	g.callers[f] = true
	f.recurse(st, x, g)
	f.enter(st, g, c, nil)
	fact := int8(-1)
	if len(st.facts) > 0 {
		if k, _, ok := f.fact(st, x); ok {
			if r, ok := st.facts[k]; ok {
				fact = r
			}
		}
	}
	var out []*zst
	// assumptions about the result types
	sig := g.fn.Signature.Results()
	for _, ck := range sortedKeys(g.cases) {
		cs := g.cases[ck]
		if fact >= 0 && len(cs.res) == 1 && cs.res[0] >= 0 && cs.res[0] != fact {
			continue
		}
		n := st.clone()
		// rename what the callee may have changed
		toOld := map[int]int{}
		mapc := map[int]int{}
		var tmp []int
		for i, p := range g.params {
			act := z.actual(g, c, i)
			r, path, ok := z.loc(act)
			for _, fl := range zFields(p.Type()) {
				ft := zFieldType(p.Type(), fl)
				var cur, old, nw int
				kind, kind2 := byte('M'), byte('X')
				if zHasLen(ft) {
					kind, kind2 = 'N', 'Y'
				}
				old, nw = z.id(zkey{kind, nil, i, fl.s}), z.id(zkey{kind2, nil, i, fl.s})
				if ok {
					k, _ := z.memKey(ft, r, path+fl.s)
					cur = z.id(k)
				} else {
					cur = z.id(zkey{'T', p, 10, fl.s})
					tmp = append(tmp, cur)
				}
				if g.mods[i][fl.s] {
					t := z.id(zkey{'T', p, 11, fl.s})
					toOld[cur] = t
					mapc[old], mapc[nw] = t, cur
					tmp = append(tmp, t)
				} else {
					mapc[old], mapc[nw] = cur, cur
				}
			}
		}
		n.s.rename(toOld)
		if g.dirty {
			n.killAll(z)
		}
		// fields that are not tracked by the summary
		for i, ps := range g.mods {
			r, path, ok := z.loc(z.actual(g, c, i))
			if !ok {
				continue
			}
			n.killAlias(z, r, path+"#")
			n.dropText(z, func(k zkey) bool {
				if k.kind == 'n' && k.v == r {
					for q := range ps {
						if k.s == path+q || q == "" {
							return true
						}
					}
				}
				return false
			})
			for k := range n.known {
				if k.v == r && k.s != "" && k.s[0] != '!' {
					for q := range ps {
						if k.s == path+q || q == "" {
							delete(n.known, k)
						}
					}
				}
			}
		}
		// parameters and results
		for i, p := range g.params {
			act := z.actual(g, c, i)
			if zIsInt(p.Type()) {
				t := z.id(zkey{'T', p, 12, ""})
				n.s.addEq(lvar(t).add(z.num(n, act), -1))
				mapc[z.id(zkey{'P', nil, i, ""})] = t
				tmp = append(tmp, t)
			}
			if zHasLen(p.Type()) {
				t := z.id(zkey{'T', p, 13, ""})
				n.s.addEq(lvar(t).add(z.length(n, act), -1))
				mapc[z.id(zkey{'Q', nil, i, ""})] = t
				tmp = append(tmp, t)
			}
		}
		for i := 0; i < sig.Len(); i++ {
			mapc[z.id(zkey{'R', nil, i, ""})] = z.id(zkey{'v', x, i, ""})
			mapc[z.id(zkey{'S', nil, i, ""})] = z.id(zkey{'l', x, i, ""})
			if cs.res[i] >= 0 {
				n.known[zval{x, i, ""}] = cs.res[i]
				if fk, _, ok := f.fact(n, x); ok && sig.Len() == 1 {
					if n.facts == nil {
						n.facts = map[zfact]int8{}
					}
					n.facts[fk] = cs.res[i]
				}
			}
			for _, fl := range zFields(sig.At(i).Type()) {
				if k, ok := z.memKey(zFieldType(sig.At(i).Type(), fl), x, fl.s); ok {
					k.i = i
					mapc[z.id(zkey{'F', nil, i, string(k.kind) + fl.s})] = z.id(k)
				}
			}
		}
		for j := range g.fn.Params {
			if strings.Contains(cs.done, fmt.Sprintf("<%d>", j)) {
				n.known[zval{z.root(c.Args[j]), 0, "!done"}] = 1
			}
		}
		for _, cn := range cs.s.cons {
			n.s.add(cn.rename(mapc))
		}
		for _, t := range tmp {
			n.s.elim(t)
		}
		n.err = n.err || cs.err || f.errResult(cs, sig)
		if n.s.bad || !n.s.feasible() {
			continue
		}
		out = append(out, n)
	}
	if f.report && sig.Len() > 0 && isErrorType(sig.At(sig.Len()-1).Type()) {
		f.check(x, ruleLook, f.used(x, sig.Len()-1, sig.Len()), func() string { return "the error of " + g.fn.Name() + " is dropped" })
	}
	return out
}

// used: is result i of the call taken?
func (f *zfn) used(x *ssa.Call, i, n int) bool {
	if x.Referrers() == nil {
		return false
	}
	for _, r := range *x.Referrers() {
		if n == 1 {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				return true
			}
			continue
		}
		switch t := r.(type) {
		case *ssa.Extract:
			if t.Index == i {
				for _, q := range *t.Referrers() {
					if _, dbg := q.(*ssa.DebugRef); !dbg {
						return true
					}
				}
			}
		case *ssa.Return:
			return true
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (f *zfn) errResult(cs *zcase, sig *types.Tuple) bool {
	n := sig.Len()
	return n > 0 && isErrorType(sig.At(n-1).Type()) && cs.res[n-1] != 0
}

// recurse notes whether a call has made progress: per integer or text field of a
// common object 2 closer to the end, 1 not further away, 0 neither.
func (f *zfn) recurse(st *zst, x *ssa.Call, g *zfn) {
	if !f.report {
		return
	}
	z := f.z
	lv := map[string]int8{}
	for i, p := range f.params {
		for _, fl := range zFields(p.Type()) {
			ft := zFieldType(p.Type(), fl)
			for j, q := range g.params {
				if !types.Identical(p.Type(), q.Type()) {
					continue
				}
				r, path, ok := z.loc(z.actual(g, x.Common(), j))
				if !ok || r != p || path != "" {
					continue
				}
				key := p.Type().String() + fl.s
				if !zIsInt(ft) {
					o := lvar(z.id(zkey{'o', nil, i, "N" + fl.s}))
					cur := lvar(z.id(zkey{'n', p, 0, fl.s}))
					if f.le(st, cur.add(lconst(1), 1), o) {
						lv["-"+key] = 2
					} else if f.le(st, cur, o) {
						lv["-"+key] = 1
					}
					continue
				}
				o := lvar(z.id(zkey{'o', nil, i, "M" + fl.s}))
				cur := lvar(z.id(zkey{'m', p, 0, fl.s}))
				bounded := false
				for _, fb := range zFields(p.Type()) {
					if zHasLen(zFieldType(p.Type(), fb)) {
						if _, ok := st.s.max(cur.add(lvar(z.id(zkey{'n', p, 0, fb.s})), -1)); ok {
							bounded = true
						}
					}
				}
				if !bounded {
					continue
				}
				if f.le(st, o.add(lconst(1), 1), cur) {
					lv["+"+key] = 2
				} else if f.le(st, o, cur) {
					lv["+"+key] = 1
				}
			}
		}
	}
	k := [2]*zfn{f, g}
	old, ok := z.recur[k]
	if !ok {
		z.recur[k] = lv
		return
	}
	for f, l := range old {
		if lv[f] < l {
			old[f] = lv[f]
		}
	}
}

// recursion judges the cycles of the call graph: in one field no call of a cycle
// may go back, and every cycle must have a call that goes forward.
func (z *Z) recursion(report func(fs []*zfn, ok bool, detail string)) {
	z.parts()
	num := map[*zfn]int{}
	low := map[*zfn]int{}
	var stack []*zfn
	on := map[*zfn]bool{}
	succ := map[*zfn][]*zfn{}
	for k := range z.recur {
		succ[k[0]] = append(succ[k[0]], k[1])
	}
	for _, s := range succ {
		sort.Slice(s, func(i, j int) bool { return s[i].fn.String() < s[j].fn.String() })
	}
	var visit func(f *zfn)
	visit = func(f *zfn) {
		num[f] = len(num) + 1
		low[f] = num[f]
		stack = append(stack, f)
		on[f] = true
		for _, g := range succ[f] {
			if num[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && num[g] < low[f] {
				low[f] = num[g]
			}
		}
		if low[f] != num[f] {
			return
		}
		var scc []*zfn
		for {
			g := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[g] = false
			scc = append(scc, g)
			if g == f {
				break
			}
		}
		in := map[*zfn]bool{}
		for _, g := range scc {
			in[g] = true
		}
		var edges [][2]*zfn
		fields := map[string]bool{}
		for k, lv := range z.recur {
			if in[k[0]] && in[k[1]] {
				edges = append(edges, k)
				for n := range lv {
					fields[n] = true
				}
			}
		}
		if len(edges) == 0 {
			return
		}
		why := "no call of the cycle has an argument that gets closer to an end"
		for _, fl := range sortedKeys(fields) {
			bad := ""
			weak := map[*zfn][]*zfn{}
			for _, e := range edges {
				switch z.recur[e][fl] {
				case 0:
					bad = "the call of " + e[1].fn.Name() + " in " + e[0].fn.Name() + " may go back"
				case 1:
					weak[e[0]] = append(weak[e[0]], e[1])
				}
			}
			if bad == "" {
				state := map[*zfn]int{}
				var cyc func(g *zfn) bool
				cyc = func(g *zfn) bool {
					state[g] = 1
					for _, h := range weak[g] {
						if state[h] == 1 || state[h] == 0 && cyc(h) {
							return true
						}
					}
					state[g] = 2
					return false
				}
				for _, g := range scc {
					if bad == "" && state[g] == 0 && cyc(g) {
						bad = "there is a cycle of calls through " + g.fn.Name() + " that reads nothing"
					}
				}
			}
			if bad == "" {
				report(scc, true, "")
				return
			}
			why = bad
		}
		report(scc, false, why)
	}
	for _, f := range z.order {
		if num[f] == 0 {
			visit(f)
		}
	}
}

// ended looks for a measure of a loop: a tuple of differences, each bounded, of
// which the first that changes gets smaller on every way back to the head.
func (f *zfn) ended(l *zloop) bool {
	z := f.z
	rest := f.backSt[l.head]
	if len(rest) == 0 {
		return true // never repeated
	}
	// without the steps of a range over a map or string no way leads back
	free := map[*ssa.BasicBlock]bool{}
	for b := range l.body {
		free[b] = true
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				free[b] = false
			}
		}
	}
	if !cyclic(free, l.head) {
		return true
	}
	if f.worklist(l) {
		return true
	}
	for len(rest) > 0 {
		xs := map[int]int{} // variable -> ghost
		inv := map[int]bool{}
		for _, st := range rest {
			for v := range st.s.vars() {
				k := z.keys[v]
				if k.kind == 'g' && k.i == l.head.Index {
					var x int
					fmt.Sscan(k.s, &x)
					xs[x] = v
				}
			}
		}
		for _, st := range rest {
			for v := range st.s.vars() {
				k := z.keys[v]
				if _, ghost := xs[v]; ghost || !strings.ContainsRune("vlmn", rune(k.kind)) || f.measure(k, l.head) {
					continue
				}
				if k.kind == 'm' || k.kind == 'n' {
					inv[v] = true
					continue
				}
				if in, ok := k.v.(ssa.Instruction); ok && l.body[in.Block()] {
					continue
				}
				inv[v] = true
			}
		}
		type cand struct{ nw, old lin }
		var cands []cand
		for x, g := range xs {
			for _, s := range []int{1, -1} {
				nw, old := lvar(x).scale(s), lvar(g).scale(s)
				cands = append(cands, cand{nw, old})
				for y, h := range xs {
					if y != x {
						cands = append(cands, cand{nw.add(lvar(y), -s), old.add(lvar(h), -s)})
					}
				}
				for y := range inv {
					cands = append(cands, cand{nw.add(lvar(y), -s), old.add(lvar(y), -s)})
				}
			}
		}
		found := false
		for _, c := range cands {
			var keep []*zst
			good := true
			for _, st := range rest {
				if _, ok := st.s.max(c.old.scale(-1)); !ok || !f.le(st, c.nw, c.old) {
					good = false
					break
				}
				if !f.le(st, c.nw.add(lconst(1), 1), c.old) {
					keep = append(keep, st)
				}
			}
			if good && len(keep) < len(rest) {
				rest, found = keep, true
				break
			}
		}
		if !found {
			if os.Getenv("ZLOOP") != "" {
				for _, st := range rest {
					fmt.Fprintln(os.Stderr, "LOOP", f.fn.Name(), l.head.Index, f.dump(st), st.facts)
				}
			}
			return false
		}
	}
	return true
}

// cyclic: is there a cycle through the head inside the blocks?
func cyclic(in map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) bool {
	if !in[head] {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if !in[s] {
				continue
			}
			if s == head {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if dfs(s) {
					return true
				}
			}
		}
		return false
	}
	return dfs(head)
}

func (z *Z) enqueue(g *zfn) {
	if !z.inQ[g] {
		z.inQ[g] = true
		z.queue = append(z.queue, g)
	}
}

// ret adds a result to the summary.
func (f *zfn) ret(st *zst, r *ssa.Return) {
	states := []*zst{st}
	for _, v := range r.Results {
		if !zIsBool(v.Type()) {
			continue
		}
		var next []*zst
		for _, s := range states {
			if f.truth(s, v) >= 0 {
				next = append(next, s)
				continue
			}
			if a := f.assume(s.clone(), v, true); a != nil {
				next = append(next, a)
			}
			if b := f.assume(s.clone(), v, false); b != nil {
				next = append(next, b)
			}
		}
		states = next
	}
	z := f.z
	for _, s := range states {
		cs := &zcase{err: s.err, s: s.s.clone()}
		keep := map[int]bool{}
		for i, v := range r.Results {
			cs.res = append(cs.res, -1)
			if zTracked(v.Type()) {
				cs.res[i] = f.truth(s, v)
			}
			if zIsInt(v.Type()) {
				id := z.id(zkey{'R', nil, i, ""})
				cs.s.addEq(lvar(id).add(z.num(s, v), -1))
				keep[id] = true
			}
			if zHasLen(v.Type()) {
				id := z.id(zkey{'S', nil, i, ""})
				cs.s.addEq(lvar(id).add(z.length(s, v), -1))
				keep[id] = true
			}
		}
		for i, v := range r.Results {
			root, path, ok := z.loc(v)
			if _, isC := v.(*ssa.Const); isC || !ok {
				continue
			}
			for _, fl := range zFields(v.Type()) {
				if k, ok := z.memKey(zFieldType(v.Type(), fl), root, path+fl.s); ok {
					id := z.id(zkey{'F', nil, i, string(k.kind) + fl.s})
					cs.s.addEq(lvar(id).add(lvar(z.id(k)), -1))
					keep[id] = true
				}
			}
		}
		cs.done = f.allRead(s)
		for _, c := range s.s.cons {
			cs.s.add(c)
		}
		for i, p := range f.params {
			if zIsInt(p.Type()) {
				id := z.id(zkey{'P', nil, i, ""})
				cs.s.addEq(lvar(id).add(lvar(z.id(zkey{'v', p, 0, ""})), -1))
				keep[id] = true
			}
			if zHasLen(p.Type()) {
				id := z.id(zkey{'Q', nil, i, ""})
				cs.s.addEq(lvar(id).add(lvar(z.id(zkey{'l', p, 0, ""})), -1))
				keep[id] = true
			}
			for _, fl := range zFields(p.Type()) {
				k, ok := z.memKey(zFieldType(p.Type(), fl), p, fl.s)
				if !ok {
					continue
				}
				ok1, ok2 := byte('M'), byte('X')
				if k.kind == 'n' {
					ok1, ok2 = 'N', 'Y'
				}
				old, nw := z.id(zkey{ok1, nil, i, fl.s}), z.id(zkey{ok2, nil, i, fl.s})
				cs.s.addEq(lvar(old).add(lvar(z.id(zkey{'o', nil, i, string(ok1) + fl.s})), -1))
				cs.s.addEq(lvar(nw).add(lvar(z.id(k)), -1))
				keep[old], keep[nw] = true, true
			}
		}
		for v := range cs.s.vars() {
			if !keep[v] {
				cs.s.elim(v)
			}
		}
		if f.report {
			f.returns(s, r)
		}
		key := cs.key()
		if old := f.cases[key]; old != nil {
			old.s = joinSys(old.s, cs.s)
		} else {
			f.cases[key] = cs
		}
	}
}

// allRead names the text parameters that have been read to the end.
func (f *zfn) allRead(st *zst) string {
	z := f.z
	out := ""
	for i, p := range f.fn.Params {
		if !isString(p.Type()) {
			continue
		}
		ok := st.known[zval{p, 0, "!done"}] == 1
		if !ok {
			for v := range st.s.vars() {
				k := z.keys[v]
				if k.kind != 'm' || k.v == nil {
					continue
				}
				for w := range st.s.vars() {
					q := z.keys[w]
					if q.kind == 'n' && q.v == k.v && q.i == k.i && f.le(st, lvar(w), lvar(v)) && f.le(st, lvar(z.id(zkey{'l', p, 0, ""})), lvar(w)) {
						ok = true
					}
				}
			}
		}
		if ok {
			out += fmt.Sprintf("<%d>", i)
		}
	}
	return out
}

const (
	ruleLook = "error results looked at"
	ruleErr  = "an error found makes the function fail"

	ruleLeft = "accepted only when the whole text was read"
)

// returns checks what a function must not return.
func (f *zfn) returns(st *zst, r *ssa.Return) {
	n := len(r.Results)
	if n == 0 || !isErrorType(r.Results[n-1].Type()) {
		return
	}
	k := f.truth(st, r.Results[n-1])
	f.check(r, ruleErr, !st.err || k == 1, func() string {
		return "a path on which a call reported an error returns without an error; known: " + clip(f.dump(st))
	})
	if len(f.fn.Params) > 0 && isString(f.fn.Params[0].Type()) {
		f.check(r, ruleLeft, k == 1 || strings.Contains(f.allRead(st), "<0>"), func() string {
			return "a path returns without an error though nothing shows that the position has reached the end of the text; known: " + clip(f.dump(st))
		})
	}
}

// callOutside models functions outside the module.
func (f *zfn) callOutside(st *zst, x *ssa.Call) []*zst {
	z := f.z
	c := x.Common()
	name := ""
	if fn := c.StaticCallee(); fn != nil {
		name = fn.String()
		if fn.Origin() != nil {
			name = fn.Origin().String()
		}
	}
	args := c.Args
	if f.report && fnHasRecv(c) && len(args) > 0 && zNilable(args[0].Type()) {
		f.deref(st, x, args[0])
	}
	if c.IsInvoke() && f.report {
		k := f.truth(st, c.Value)
		f.check(x, "no method called on a nil interface", k != 0, func() string { return "the value is nil on this path" })
	}
	if zNonNilName(name) {
		st.known[zval{x, 0, ""}] = 1
	}
	L := func(i int) lin { return z.length(st, args[i]) }
	fork := func(fs ...func(s *zst)) []*zst {
		var out []*zst
		for i, g := range fs {
			n := st.clone()
			n.known[zval{x, 9, ""}] = int8(i)
			g(n)
			if n.s.feasible() {
				out = append(out, n)
			}
		}
		return out
	}
	switch name {
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		r := z.num(st, x)
		l0, l1 := L(0), L(1)
		return fork(func(s *zst) { s.s.addEq(r.add(lconst(1), 1)) }, func(s *zst) {
			s.s.add(r.scale(-1))
			s.s.add(r.add(l1, 1).add(l0, -1))
		})
	case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndexByte", "strings.LastIndexAny", "strings.LastIndexFunc",
		"bytes.IndexByte", "bytes.IndexRune", "bytes.IndexAny", "bytes.IndexFunc", "slices.Index", "slices.IndexFunc":
		r := z.num(st, x)
		l0 := L(0)
		return fork(func(s *zst) { s.s.addEq(r.add(lconst(1), 1)) }, func(s *zst) {
			s.s.add(r.scale(-1))
			s.s.add(r.add(lconst(1), 1).add(l0, -1))
		})
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.TrimFunc", "slices.Compact", "bytes.TrimSpace":
		st.s.add(z.length(st, x).add(L(0), -1))
	case "strings.Clone", "slices.Clone", "bytes.Clone":
		st.s.addEq(z.length(st, x).add(L(0), -1))
	case "strings.CutPrefix", "strings.CutSuffix":
		st.s.add(z.lengthI(st, x, 0).add(L(0), -1))
	case "strings.Cut":
		r0, r1 := z.lengthI(st, x, 0), z.lengthI(st, x, 1)
		st.s.add(r0.add(r1, 1).add(L(0), -1))
	case "strings.Count":
		st.s.add(z.num(st, x).scale(-1))
	case "strings.Compare", "cmp.Compare", "bytes.Compare":
		r := z.num(st, x)
		st.s.add(r.add(lconst(1), -1))
		st.s.add(r.scale(-1).add(lconst(1), -1))
	case "strings.Repeat", "bytes.Repeat":
		if f.report {
			n := z.num(st, args[1])
			f.check(x, "repeat count not negative", f.le(st, lconst(0), n), func() string { return "the count may be negative; known: " + clip(f.dump(st)) })
		}
	case "regexp.MustCompile", "regexp.MustCompilePOSIX":
		if f.report {
			ok := false
			if k, is := args[0].(*ssa.Const); is && k.Value != nil {
				_, err := regexp.Compile(constant.StringVal(k.Value))
				ok = err == nil
			}
			f.check(x, "no expression that may be malformed is compiled with "+name, ok, func() string { return "the expression is not a well-formed constant" })
		}
	case "template.Must", "text/template.Must", "html/template.Must":
		f.check(x, "no call that panics on an error", false, func() string { return name + " panics" })
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Truncate", "slices.Grow":
		if f.report {
			n := z.num(st, args[1])
			f.check(x, "count not negative", f.le(st, lconst(0), n), func() string { return "the count may be negative" })
		}
	case "strings.Split", "strings.SplitAfter":
		// at least one part unless both are empty
		if cst, ok := args[1].(*ssa.Const); ok && !isEmptyConst(cst) {
			st.s.add(lconst(1).add(z.length(st, x), -1))
		}
	case "strings.SplitN":
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString":
		r := z.numI(st, x, 1)
		l0 := L(0)
		st.s.add(r.scale(-1))
		st.s.add(r.add(lconst(4), -1))
		st.s.add(r.add(l0, -1))
		if st.s.entails(lconst(1).add(l0, -1)) {
			st.s.add(lconst(1).add(r, -1))
		}
		rr := z.numI(st, x, 0)
		st.s.add(rr.scale(-1))
	case "unicode/utf8.RuneLen":
		r := z.num(st, x)
		st.s.add(r.scale(-1).add(lconst(1), -1))
		st.s.add(r.add(lconst(4), -1))
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		r := z.num(st, x)
		st.s.add(r.scale(-1))
		st.s.add(r.add(L(0), -1))
	case "sort.SearchStrings", "sort.Search", "slices.BinarySearch":
		r := z.numI(st, x, 0)
		st.s.add(r.scale(-1))
		if name == "sort.Search" {
			st.s.add(r.add(z.num(st, args[0]), -1))
		} else {
			st.s.add(r.add(L(0), -1))
		}
	case "(*regexp.Regexp).FindStringSubmatchIndex", "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindIndex":
	}
	sig := c.Signature().Results()
	n := sig.Len()
	if n > 0 && isErrorType(sig.At(n-1).Type()) && !zNonNilName(name) {
		if f.report && zMustLook(name) {
			f.check(x, ruleLook, f.used(x, n-1, n), func() string { return "the error of " + name + " is dropped" })
		}
		if f.used(x, n-1, n) {
			a, b := st, st.clone()
			a.known[zval{x, n - 1, ""}] = 0
			b.known[zval{x, n - 1, ""}] = 1
			b.err = true
			if n > 1 && zNilable(sig.At(0).Type()) {
				a.known[zval{x, 0, ""}] = 1
				if name == "regexp.Compile" {
					b.known[zval{x, 0, ""}] = 0
				}
			}
			return []*zst{a, b}
		}
	}
	return []*zst{st}
}

func zNonNilName(name string) bool {
	switch name {
	case "errors.New", "fmt.Errorf", "regexp.MustCompile":
		return true
	}
	return false
}

// zMustLook: functions whose error says something about the text.
func zMustLook(name string) bool {
	switch name {
	case "regexp.Compile", "strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat", "strconv.Unquote":
		return true
	}
	return false
}

func fnHasRecv(c *ssa.CallCommon) bool {
	fn := c.StaticCallee()
	return fn != nil && fn.Signature.Recv() != nil
}

// ---- driver

func (z *Z) solve() {
	for _, f := range z.order {
		if f.top {
			f.entry = newSys()
			z.enqueue(f)
		}
	}
	rounds := map[*zfn]int{}
	for len(z.queue) > 0 {
		f := z.queue[0]
		z.queue = z.queue[1:]
		z.inQ[f] = false
		old := f.cases
		f.solve()
		rounds[f]++
		if os.Getenv("ZDEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solved", f.fn.Name(), rounds[f], len(f.cases))
		}
		changed := len(old) != len(f.cases)
		for k, c := range f.cases {
			o, ok := old[k]
			if !ok {
				changed = true
				continue
			}
			if !c.s.implies(o.s) {
				changed = true
				if rounds[f] > 8 {
					c.s = widenSys(o.s, joinSys(o.s, c.s), z.anchor)
				} else {
					c.s = joinSys(o.s, c.s)
				}
			} else if !o.s.implies(c.s) {
				c.s = o.s // keep the weaker one: results only grow
			}
		}
		for k, o := range old {
			if _, ok := f.cases[k]; !ok {
				f.cases[k] = o
			}
		}
		if changed {
			for g := range f.callers {
				z.enqueue(g)
			}
		}
		if rounds[f] > 60 {
			panic("bounds analysis does not settle in " + f.fn.String())
		}
	}
	// decreasing rounds: from states that cover every run, one more step of the
	// equations covers every run too
	for round := 0; round < 3; round++ {
		z.shrink = true
		for _, f := range z.order {
			f.next = nil
		}
		for _, f := range z.order {
			if f.entry != nil {
				f.pass()
			}
		}
		z.shrink = false
		for _, f := range z.order {
			if f.entry != nil && !f.top {
				f.entry = f.next
			}
		}
		for _, f := range z.order {
			if f.entry != nil {
				z.shrink = true
				f.solve()
				z.shrink = false
			}
		}
	}
	// a final pass over the stable states reports
	for _, f := range z.order {
		if f.entry == nil {
			continue
		}
		f.results = map[string]*zob{}
		f.backSt = map[*ssa.BasicBlock][]*zst{}
		f.report = true
		f.pass()
		f.report = false
	}
}

// pass runs every block once over the states found.
func (f *zfn) pass() {
	saved := f.cases
	f.cases = map[string]*zcase{}
	for k, c := range saved {
		d := *c
		f.cases[k] = &d
	}
	for _, b := range f.rpo {
		for _, k := range sortedKeys(f.in[b]) {
			st := f.in[b][k].clone()
			if f.loops[b] != nil {
				f.ghosts(st, b)
			}
			for _, s := range f.run(b, st) {
				switch r := b.Instrs[len(b.Instrs)-1].(type) {
				case *ssa.Return:
					f.ret(s, r)
				case *ssa.If:
					for i, to := range b.Succs {
						if c := f.assume(s.clone(), r.Cond, i == 0); c != nil && f.report {
							f.edge(map[string]*zst{}, c, b, to, i)
						}
					}
				case *ssa.Jump:
					if f.report {
						f.edge(map[string]*zst{}, s, b, b.Succs[0], 0)
					}
				}
			}
		}
	}
	f.cases = saved
}
