package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract interpreter. It explores, from an entry function with abstract
// arguments, every abstract state reachable over the SSA form of the module;
// calls inside the module are followed, calls outside are modelled. States at
// block entries are compared in a canonical form, so loops end when no new
// abstract state appears.

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	idx    int
	regs   map[ssa.Value]Val
	defers []deferred
	owned  bool

	// native frames run a model that calls back into the module
	native string
	nvals  []Val
	nstep  int
	resume func(c *Config, fr *Frame, ret Val) []*Config
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
	in   ssa.Instruction
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+4)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.owned = true
	return &n
}

type Config struct {
	E      *Engine
	frames []*Frame
	heap   map[int]*Obj
	next   int
	ghost  map[string]string
	assume map[string]bool
	facts  []VTerm // equalities assumed to hold
	trace  *traceNode
	steps  int
	last   string // the state passed last, "" after an event
}

type traceNode struct {
	msg  string
	prev *traceNode
}

func (c *Config) note(msg string) { c.trace = &traceNode{msg, c.trace} }

func (c *Config) traceString() string {
	var l []string
	for t := c.trace; t != nil; t = t.prev {
		l = append(l, t.msg)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	var out []string
	for _, s := range l {
		if len(out) == 0 || out[len(out)-1] != s {
			out = append(out, s)
		}
	}
	if len(out) > 14 {
		out = append(append(out[:6:6], "..."), out[len(out)-8:]...)
	}
	return strings.Join(out, " > ")
}

func (c *Config) fork() *Config {
	n := *c
	n.frames = make([]*Frame, len(c.frames))
	for i, f := range c.frames {
		f.owned = false
		n.frames[i] = f
	}
	n.heap = make(map[int]*Obj, len(c.heap))
	for k, v := range c.heap {
		n.heap[k] = v
	}
	if c.ghost != nil {
		n.ghost = make(map[string]string, len(c.ghost))
		for k, v := range c.ghost {
			n.ghost[k] = v
		}
	}
	if c.assume != nil {
		n.assume = make(map[string]bool, len(c.assume))
		for k, v := range c.assume {
			n.assume[k] = v
		}
	}
	return &n
}

func (c *Config) top() *Frame {
	i := len(c.frames) - 1
	f := c.frames[i]
	if !f.owned {
		f = f.clone()
		c.frames[i] = f
	}
	return f
}

func (c *Config) set(v ssa.Value, x Val) { c.top().regs[v] = x }

func (c *Config) alloc(o *Obj) int {
	c.next++
	c.heap[c.next] = o
	return c.next
}

// upd returns a private copy of an object for writing.
func (c *Config) upd(id int) *Obj {
	o := c.heap[id].copy()
	c.heap[id] = o
	return o
}

func (c *Config) setGhost(k, v string) {
	if c.ghost == nil {
		c.ghost = map[string]string{}
	}
	c.ghost[k] = v
}

// Access is one access to state shared between calls.
type Access struct {
	Obj   string // the object
	Path  string // the part of it ("" for the whole)
	Write bool
	Locks string
	Pos   string
	Entry string
}

type Engine struct {
	P        *Program
	Scenario string
	Entry    string
	Globals  map[*ssa.Global]int
	Text     bool // characters of unknown texts are terms
	Spec     bool // components of specificities are compared by rank
	Embed    Val  // content of an embedded JSON file
	initHeap map[int]*Obj
	nextInit int

	Edges    map[string]map[string]bool // steps between states without an event (if not nil)
	Limits   bool                       // counts are compared with large numbers: either may be the larger
	DeepFold bool                       // lists: items with equal content that stand for many are kept once
	Unord    int                        // map iteration: 0 any order, 1 ascending, 2 descending (distinguished entries only)
	MaxSteps int
	Steps    int
	States   int
	visited  map[string]bool
	Problems map[string]string // undecided constructs: message -> trace
	Accesses map[string]Access
	Events   map[string]bool
	FnSeen   map[*ssa.Function]bool
	Panics   map[string]string

	OnFinal  func(c *Config, ret []Val)
	OnCall   func(c *Config, fn *ssa.Function, in ssa.Instruction, args []Val) ([]*Config, bool)
	OnExt    func(c *Config, name string, in ssa.Instruction, args []Val) ([]*Config, bool)
	OnIface  func(c *Config, method string, recv Val, in ssa.Instruction, args []Val) ([]*Config, bool)
	Attr     func(pred string, v Val, arg string) tri // knowledge about atoms: prefix "--" and so on
	Split    func(c *Config, name string, args []Val) (Val, bool)
	OnRet    func(c *Config, fn *ssa.Function, v Val) Val
	OnMake   func(c *Config, in *ssa.MakeInterface, v Val) (Val, bool)
	OnExit   func(c *Config)
	OnLock   func(c *Config, mode string, acquire bool)
	OnAccess func(c *Config, a Access)
	Scan     func(c *Config, fn *ssa.Function, args []Val) (Val, bool)
	queue    []*Config
	live     map[*ssa.Function]*liveInfo
}

func newEngine(p *Program, scenario string) *Engine {
	return &Engine{P: p, Scenario: scenario, Globals: map[*ssa.Global]int{}, initHeap: map[int]*Obj{},
		MaxSteps: 5_000_000, visited: map[string]bool{}, Problems: map[string]string{}, Accesses: map[string]Access{},
		Events: map[string]bool{}, FnSeen: map[*ssa.Function]bool{}, Panics: map[string]string{}, live: map[*ssa.Function]*liveInfo{}}
}

// problem records a construct the interpreter cannot decide.
func (e *Engine) problem(c *Config, msg string) {
	if _, ok := e.Problems[msg]; !ok {
		tr := ""
		if c != nil {
			tr = c.traceString()
		}
		e.Problems[msg] = tr
	}
}

func (e *Engine) newConfig() *Config {
	c := &Config{E: e, heap: map[int]*Obj{}, next: 0}
	return c
}

// Run explores everything reachable from a call of fn.
func (e *Engine) Run(c *Config, fn *ssa.Function, args []Val) {
	if fn == nil || len(fn.Blocks) == 0 {
		e.problem(c, "entry function without body")
		return
	}
	for _, r := range e.push(c, fn, args, nil) {
		e.queue = append(e.queue, r)
	}
	for len(e.queue) > 0 {
		c := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.runOne(c)
		if e.Steps > e.MaxSteps {
			e.problem(c, "state budget exhausted")
			return
		}
	}
}

func (e *Engine) push(c *Config, fn *ssa.Function, args []Val, bind []Val) []*Config {
	e.FnSeen[fn] = true
	if len(c.frames) > 40 {
		e.problem(c, "call depth limit reached in "+fn.String())
		return nil
	}
	if len(c.frames) > 0 {
		c.pruneTop()
	}
	f := &Frame{fn: fn, block: fn.Blocks[0], regs: map[ssa.Value]Val{}, owned: true}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		} else {
			f.regs[p] = VTop{"missing argument"}
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			f.regs[fv] = bind[i]
		}
	}
	c.frames = append(c.frames, f)
	return []*Config{c}
}

// runOne runs a configuration until it forks, ends or reaches a known state.
func (e *Engine) runOne(c *Config) {
	for {
		e.Steps++
		if e.Steps > e.MaxSteps {
			return
		}
		f := c.frames[len(c.frames)-1]
		if f.native != "" {
			e.problem(c, "stuck native frame "+f.native)
			return
		}
		if f.idx >= len(f.block.Instrs) {
			e.problem(c, "fell off block in "+f.fn.String())
			return
		}
		in := f.block.Instrs[f.idx]
		next := e.exec(c, in)
		if len(next) == 0 {
			return
		}
		for _, n := range next[1:] {
			e.queue = append(e.queue, n)
		}
		c = next[0]
	}
}

func (e *Engine) get(c *Config, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			// zero value of a struct, array, pointer, ...
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return zero(x.Type())
			}
			return VC{nil, x.Type()}
		}
		return VC{x.Value, x.Type()}
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Builtin:
		return VFunc{Built: x.Name()}
	case *ssa.Global:
		return VPtr{e.global(c, x), ""}
	}
	f := c.frames[len(c.frames)-1]
	if r, ok := f.regs[v]; ok {
		return r
	}
	return VTop{"undefined " + v.Name()}
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := VStruct{T: t}
		if u.Len() > 64 {
			return VTop{"large array"}
		}
		for i := 0; i < int(u.Len()); i++ {
			s.F = append(s.F, zero(u.Elem()))
		}
		return s
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VC{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return VC{constant.MakeString(""), t}
		case u.Info()&types.IsNumeric != 0:
			return VC{constant.MakeInt64(0), t}
		}
	}
	return VC{nil, t}
}

// ---- globals

// global finds the abstract object of a package-level variable. Its content is
// taken from the initialisation of the package where that is a single call of
// an external function with constant arguments, or a constant; everything else
// is an unknown but fixed value.
func (e *Engine) global(c *Config, g *ssa.Global) int {
	id, ok := e.Globals[g]
	if !ok {
		e.nextInit++
		id = -e.nextInit
		e.Globals[g] = id
	}
	if c.heap[id] == nil {
		c.heap[id] = &Obj{Kind: 'c', V: e.globalInit(c, g), Shared: "package variable " + g.Name()}
	}
	return id
}

func (e *Engine) globalInit(c *Config, g *ssa.Global) Val {
	var stores []*ssa.Store
	pk := g.Package()
	if pk == nil || !strings.HasPrefix(pk.Pkg.Path(), modPath) {
		// variables of other packages, such as io.EOF
		return VAtom{"error", g.Pkg.Pkg.Path() + "." + g.Name(), Rigid}
	}
	for _, f := range e.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					stores = append(stores, s)
				}
			}
		}
	}
	if e.Embed != nil && len(stores) == 0 && e.P.isEmbed(g) {
		return e.Embed
	}
	if len(stores) == 0 {
		return zero(g.Type().(*types.Pointer).Elem())
	}
	unknown := VTerm{"nn:global:" + g.Name(), nil}
	if len(stores) > 1 {
		return unknown
	}
	if v, ok := e.table(c, g, stores[0]); ok {
		return v
	}
	return e.staticValue(stores[0].Val, unknown)
}

// table builds a package-level map or list literal of constants that is never
// changed after initialisation.
func (e *Engine) table(c *Config, g *ssa.Global, st *ssa.Store) (Val, bool) {
	if fn := st.Parent(); fn.Name() != "init" || fn.Parent() != nil {
		return nil, false
	}
	switch g.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Map, *types.Slice, *types.Array:
	default:
		return nil, false
	}
	for _, f := range e.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					if ld, ok := in.(*ssa.UnOp); ok && readOnly(ld, 0) || in == st {
						continue
					}
					return nil, false
				}
			}
		}
	}
	return e.literal(c, st.Val, 0)
}

// readOnly: nothing is written through the value and it is not passed on.
func readOnly(v ssa.Value, d int) bool {
	if v.Referrers() == nil || d > 4 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Index, *ssa.DebugRef:
		case *ssa.Range:
		case *ssa.IndexAddr:
			for _, rr := range *x.Referrers() {
				if ld, ok := rr.(*ssa.UnOp); !ok || ld.Op != token.MUL {
					return false
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// literal evaluates a composite literal of constants.
func (e *Engine) literal(c *Config, v ssa.Value, d int) (Val, bool) {
	if d > 6 {
		return nil, false
	}
	fresh := func(o *Obj) int {
		e.nextInit++
		c.heap[-e.nextInit] = o
		return -e.nextInit
	}
	switch x := v.(type) {
	case *ssa.Const:
		return e.get(nil, x), true
	case *ssa.Function:
		return VFunc{Fn: x}, true
	case *ssa.ChangeType:
		return e.literal(c, x.X, d+1)
	case *ssa.MakeInterface:
		r, ok := e.literal(c, x.X, d+1)
		return VIface{x.X.Type(), r}, ok
	case *ssa.MakeMap:
		o := &Obj{Kind: 'm', T: x.Type()}
		for _, r := range *x.Referrers() {
			switch u := r.(type) {
			case *ssa.Store, *ssa.DebugRef:
			case *ssa.MapUpdate:
				k, ok1 := e.literal(c, u.Key, d+1)
				w, ok2 := e.literal(c, u.Value, d+1)
				if !ok1 || !ok2 || !isRigid(k) {
					return nil, false
				}
				o.Ents = append(o.Ents, Ent{K: k, V: w, Must: true})
			default:
				return nil, false
			}
		}
		return VMap{fresh(o)}, true
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil, false
		}
		items, ok := e.elements(c, al, x, d)
		if !ok {
			return nil, false
		}
		return VSlice{fresh(&Obj{Kind: 's', Items: items})}, true
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Op != token.MUL {
			return nil, false
		}
		st, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		out, ok := zero(al.Type().(*types.Pointer).Elem()).(VStruct)
		if !ok || len(out.F) != st.NumFields() {
			return nil, false
		}
		for _, r := range *al.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				if r == x {
					continue
				}
				return nil, false
			}
			for _, rr := range *fa.Referrers() {
				s, ok := rr.(*ssa.Store)
				if !ok {
					return nil, false
				}
				f, ok := e.literal(c, s.Val, d+1)
				if !ok {
					return nil, false
				}
				out.F[fa.Field] = f
			}
		}
		return out, true
	}
	return nil, false
}

// elements evaluates the elements of an array literal.
func (e *Engine) elements(c *Config, al *ssa.Alloc, use ssa.Instruction, d int) ([]Item, bool) {
	arr, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || arr.Len() > 200 {
		return nil, false
	}
	vals := make([]Val, arr.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			if r == use {
				continue
			}
			return nil, false
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok || k.Int64() >= int64(len(vals)) {
			return nil, false
		}
		part := map[int]Val{}
		for _, rr := range *ia.Referrers() {
			switch u := rr.(type) {
			case *ssa.Store:
				v, ok := e.literal(c, u.Val, d+1)
				if !ok {
					return nil, false
				}
				vals[k.Int64()] = v
			case *ssa.FieldAddr:
				for _, q := range *u.Referrers() {
					s, ok := q.(*ssa.Store)
					if !ok {
						return nil, false
					}
					v, ok := e.literal(c, s.Val, d+1)
					if !ok {
						return nil, false
					}
					part[u.Field] = v
				}
			default:
				return nil, false
			}
		}
		if len(part) > 0 {
			st, ok := zero(arr.Elem()).(VStruct)
			if !ok {
				return nil, false
			}
			for i, v := range part {
				st.F[i] = v
			}
			vals[k.Int64()] = st
		}
	}
	var items []Item
	for _, v := range vals {
		if v == nil {
			v = zero(arr.Elem())
		}
		items = append(items, one(v))
	}
	return items, true
}

// staticValue evaluates an initialiser built from constants and external calls.
func (e *Engine) staticValue(v ssa.Value, def Val) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.get(nil, x)
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return VFunc{Fn: x.Fn.(*ssa.Function)}
		}
	case *ssa.ChangeType:
		return e.staticValue(x.X, def)
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil {
			return def
		}
		var args []Val
		for _, a := range x.Call.Args {
			if k, ok := a.(*ssa.Const); ok {
				args = append(args, e.get(nil, k))
			} else if s := varargStrings(a); s != nil {
				args = append(args, s...)
			} else {
				return def
			}
		}
		name := extName(fn)
		switch name {
		case "errors.New", "fmt.Errorf":
			return VTerm{"err:" + name, args}
		}
		return VTerm{"nn:" + name, args}
	}
	return def
}

// varargStrings recognises a literal list of constants passed as variadic argument.
func varargStrings(v ssa.Value) []Val {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]Val, arr.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok {
				cv, ok := st.Val.(*ssa.Const)
				if !ok || cv.Value == nil {
					return nil
				}
				out[k.Int64()] = VC{cv.Value, cv.Type()}
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil
		}
	}
	return out
}

// extName names a function outside the module, without type arguments.
func extName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			t, ptr = p.Elem(), "*"
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return "(" + ptr + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ")." + fn.Name()
		}
		return fn.String()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path() + "." + fn.Name()
	}
	return fn.String()
}

// ---- liveness

type liveInfo struct {
	in  []map[ssa.Value]bool
	out []map[ssa.Value]bool
}

func (e *Engine) liveness(fn *ssa.Function) *liveInfo {
	if l, ok := e.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	li := &liveInfo{make([]map[ssa.Value]bool, n), make([]map[ssa.Value]bool, n)}
	for i := range li.in {
		li.in[i] = map[ssa.Value]bool{}
		li.out[i] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := li.out[i]
			for _, s := range b.Succs {
				for v := range li.in[s.Index] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
						for _, in := range s.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							v := ph.Edges[pi]
							if track(v) && !out[v] {
								out[v] = true
								changed = true
							}
						}
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !li.in[i][v] {
					li.in[i][v] = true
					changed = true
				}
			}
		}
	}
	e.live[fn] = li
	return li
}

// pruneTop drops registers of the top frame that are dead after the current instruction.
func (c *Config) pruneTop() {
	f := c.frames[len(c.frames)-1]
	if f.native != "" {
		return
	}
	li := c.E.liveness(f.fn)
	keep := map[ssa.Value]bool{}
	for v := range li.out[f.block.Index] {
		keep[v] = true
	}
	for i := f.idx; i < len(f.block.Instrs); i++ {
		if _, ok := f.block.Instrs[i].(*ssa.DebugRef); ok {
			continue
		}
		for _, op := range f.block.Instrs[i].Operands(nil) {
			if *op != nil {
				keep[*op] = true
			}
		}
	}
	f = c.top()
	for v := range f.regs {
		if !keep[v] {
			delete(f.regs, v)
		}
	}
}

// stateKey renders the configuration canonically; unreachable objects are dropped.
func (c *Config) stateKey() string {
	var b strings.Builder
	k := &keyer{ids: map[int]int{}}
	for _, f := range c.frames {
		if f.native != "" {
			b.WriteString("N" + f.native + strconv.Itoa(f.nstep))
			wrList(k, &b, f.nvals, '(', ')')
			continue
		}
		b.WriteString(fmt.Sprintf("|%p:%d:%d", f.fn, f.block.Index, f.idx))
		names := make([]string, 0, len(f.regs))
		byName := make(map[string]Val, len(f.regs))
		for v, x := range f.regs {
			names = append(names, v.Name())
			byName[v.Name()] = x
		}
		sort.Strings(names)
		for _, n := range names {
			b.WriteString(n + "=")
			byName[n].wr(k, &b)
			b.WriteByte(';')
		}
		for _, d := range f.defers {
			b.WriteString(fmt.Sprintf("D%p", d.in))
			wrList(k, &b, d.args, '(', ')')
		}
	}
	// persistent objects (globals and scenario objects) have negative numbers
	var pers []int
	for id := range c.heap {
		if id < 0 {
			pers = append(pers, id)
		}
	}
	sort.Ints(pers)
	for _, id := range pers {
		k.obj(id)
	}
	for i := 0; i < len(k.queue); i++ {
		id := k.queue[i]
		o := c.heap[id]
		b.WriteString("\n" + strconv.Itoa(k.ids[id]) + "=")
		if o != nil {
			o.wr(k, &b)
		}
	}
	// lists that share memory: those of which one is alive share with nothing
	groups := map[int][]string{}
	for _, id := range k.queue {
		if o := c.heap[id]; o != nil && o.Kind == 's' {
			g := o.Base
			if g == 0 {
				g = id
			}
			groups[g] = append(groups[g], strconv.Itoa(k.ids[id]))
		}
	}
	var gl []string
	for _, l := range groups {
		if len(l) > 1 {
			gl = append(gl, strings.Join(l, "="))
		}
	}
	sort.Strings(gl)
	b.WriteString("\nS" + strings.Join(gl, ";"))
	for id := range c.heap {
		if id > 0 {
			if _, ok := k.ids[id]; !ok {
				delete(c.heap, id)
			}
		}
	}
	gs := make([]string, 0, len(c.ghost))
	for g, v := range c.ghost {
		gs = append(gs, g+"="+v)
	}
	sort.Strings(gs)
	b.WriteString("\nG" + strings.Join(gs, ";"))
	as := make([]string, 0, len(c.assume))
	for g, v := range c.assume {
		as = append(as, g+"="+strconv.FormatBool(v))
	}
	sort.Strings(as)
	b.WriteString("\nA" + strings.Join(as, ";"))
	return b.String()
}

// enter moves to a block: phis are evaluated, dead registers dropped, and the
// state is compared with those seen before.
func (e *Engine) enter(c *Config, to *ssa.BasicBlock) []*Config {
	f := c.top()
	from := f.block
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
			break
		}
	}
	vals := map[ssa.Value]Val{}
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		vals[ph] = e.get(c, ph.Edges[pi])
	}
	li := e.liveness(f.fn)
	for v := range f.regs {
		if !li.in[to.Index][v] {
			delete(f.regs, v)
		}
	}
	for v, x := range vals {
		f.regs[v] = x
	}
	f.block, f.idx = to, n
	if len(to.Preds) > 1 {
		k := c.stateKey()
		if e.Edges != nil {
			if c.last != "" {
				if e.Edges[c.last] == nil {
					e.Edges[c.last] = map[string]bool{}
				}
				e.Edges[c.last][k] = true
			}
			c.last = k
		}
		if e.visited[k] {
			return nil
		}
		e.visited[k] = true
		if dbgStates != nil {
			dbgStates(k)
		}
		e.States++
	}
	return []*Config{c}
}

// deliver hands the result of a call to whoever made it.
func (e *Engine) deliver(c *Config, v Val) []*Config {
	if len(c.frames) == 0 {
		var ret []Val
		if t, ok := v.(VTuple); ok {
			ret = t
		} else if v != nil {
			ret = []Val{v}
		}
		if e.OnFinal != nil {
			e.OnFinal(c, ret)
		}
		return nil
	}
	f := c.top()
	if f.native != "" {
		return f.resume(c, f, v)
	}
	in := f.block.Instrs[f.idx]
	if _, ok := in.(*ssa.RunDefers); ok {
		return []*Config{c}
	}
	if sv, ok := in.(ssa.Value); ok && v != nil {
		f.regs[sv] = v
	}
	f.idx++
	return []*Config{c}
}

// native pushes a native frame; resume is called with nil first.
func (e *Engine) native(c *Config, name string, vals []Val, resume func(c *Config, fr *Frame, ret Val) []*Config) []*Config {
	c.pruneTop()
	c.frames = append(c.frames, &Frame{native: name, nvals: vals, resume: resume, owned: true, regs: map[ssa.Value]Val{}})
	return resume(c, c.frames[len(c.frames)-1], nil)
}

func (c *Config) pop() { c.frames = c.frames[:len(c.frames)-1] }

func (c *Config) curInstr() ssa.Instruction {
	for i := len(c.frames) - 1; i >= 0; i-- {
		f := c.frames[i]
		if f.native == "" && f.idx < len(f.block.Instrs) {
			return f.block.Instrs[f.idx]
		}
	}
	return nil
}

func (c *Config) where() string { return c.E.P.instrPos(c.curInstr()) }

// ---- locks

// locksHeld lists the mutexes held, as "name:mode".
func (c *Config) locksHeld() []string {
	var out []string
	var walk func(v Val, path string)
	walk = func(v Val, path string) {
		switch t := v.(type) {
		case VTerm:
			if strings.HasPrefix(t.Op, "mutex:") {
				out = append(out, path+strings.TrimPrefix(t.Op, "mutex"))
			}
		case VStruct:
			st, _ := t.T.Underlying().(*types.Struct)
			for i, x := range t.F {
				n := strconv.Itoa(i)
				if st != nil && i < st.NumFields() {
					n = st.Field(i).Name()
				}
				walk(x, path+"."+n)
			}
		}
	}
	for id, o := range c.heap {
		if o.Kind == 'c' {
			name := o.Shared
			if name == "" {
				name = "local" + strconv.Itoa(id)
			}
			walk(o.V, name)
		}
	}
	sort.Strings(out)
	return out
}

func (e *Engine) access(c *Config, obj, path string, write bool) {
	pos := c.where()
	a := Access{Obj: obj, Path: path, Write: write, Locks: strings.Join(c.locksHeld(), ","), Pos: pos, Entry: e.Entry}
	e.Accesses[fmt.Sprint(a)] = a
	if e.OnAccess != nil {
		e.OnAccess(c, a)
	}
}

func (e *Engine) event(kind, msg string) { e.Events[kind+"|"+msg] = true }

// ---- memory

func (e *Engine) load(c *Config, p Val) []valCfg {
	ptr, ok := p.(VPtr)
	if !ok {
		if a, ok := p.(VAtom); ok {
			return []valCfg{{c, mkTerm("deref", a)}}
		}
		if t, ok := p.(VTerm); ok {
			return []valCfg{{c, mkTerm("deref", t)}}
		}
		return []valCfg{{c, VTop{"load through unknown pointer"}}}
	}
	o := c.heap[ptr.Obj]
	if o == nil {
		return []valCfg{{c, VTop{"load from unknown object"}}}
	}
	if o.Shared != "" {
		e.access(c, o.Shared, fieldLoc(o, ptr.Path), false)
	}
	if o.Kind == 's' {
		slot, rest := splitSlot(ptr.Path)
		if slot < 0 || slot >= len(o.Items) {
			return []valCfg{{c, VTop{"load from unknown element"}}}
		}
		return []valCfg{{c, project(o.Items[slot].V, rest)}}
	}
	return []valCfg{{c, project(o.V, ptr.Path)}}
}

// fieldLoc names the location inside a shared object for reports and for the race rule.
func fieldLoc(o *Obj, path string) string {
	if o.Kind == 's' {
		// elements of a list are one location; fields of elements are told apart
		_, rest := splitSlot(path)
		return rest
	}
	if path == "" || o.T == nil {
		return path
	}
	t := o.T
	out := ""
	for _, s := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		i, err := strconv.Atoi(s)
		st, ok := t.Underlying().(*types.Struct)
		if err != nil || !ok || i >= st.NumFields() {
			return out + "." + s
		}
		out += "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	return out
}

func splitSlot(path string) (int, string) {
	if !strings.HasPrefix(path, "[") {
		return -1, path
	}
	i := strings.IndexByte(path, ']')
	n, err := strconv.Atoi(path[1:i])
	if err != nil {
		return -1, path
	}
	return n, path[i+1:]
}

func project(v Val, path string) Val {
	if path == "" {
		return v
	}
	p := strings.Split(strings.TrimPrefix(path, "."), ".")
	for _, s := range p {
		i, err := strconv.Atoi(s)
		if err != nil {
			return VTop{"path"}
		}
		v = field(v, i)
	}
	return v
}

func field(v Val, i int) Val {
	switch t := v.(type) {
	case VStruct:
		if i < len(t.F) {
			return t.F[i]
		}
	case VAtom, VTerm:
		return mkTerm("field"+strconv.Itoa(i), v)
	}
	return VTop{"field of unknown"}
}

func inject(v Val, path string, x Val) Val {
	if path == "" {
		return x
	}
	p := strings.SplitN(strings.TrimPrefix(path, "."), ".", 2)
	i, err := strconv.Atoi(p[0])
	s, ok := v.(VStruct)
	if err != nil || !ok || i >= len(s.F) {
		return VTop{"store into unknown"}
	}
	rest := ""
	if len(p) > 1 {
		rest = "." + p[1]
	}
	n := VStruct{s.T, append([]Val(nil), s.F...)}
	n.F[i] = inject(s.F[i], rest, x)
	return n
}

type valCfg struct {
	c *Config
	v Val
}

func (e *Engine) store(c *Config, p, x Val) {
	ptr, ok := p.(VPtr)
	if !ok {
		e.problem(c, "store through an unknown pointer at "+c.where())
		return
	}
	o := c.heap[ptr.Obj]
	if o == nil {
		e.problem(c, "store to an unknown object at "+c.where())
		return
	}
	if o.Shared != "" {
		e.access(c, o.Shared, fieldLoc(o, ptr.Path), true)
	}
	if o.Shared != "" {
		c.share(x, o.Shared+fieldLoc(o, ptr.Path))
		o = c.heap[ptr.Obj]
	}
	o = c.upd(ptr.Obj)
	if o.Kind == 's' {
		slot, rest := splitSlot(ptr.Path)
		if slot < 0 || slot >= len(o.Items) {
			e.problem(c, "store to an unknown element at "+c.where())
			return
		}
		o.Items = append([]Item(nil), o.Items...)
		it := o.Items[slot]
		nv := inject(it.V, rest, x)
		if it.Max == 1 {
			o.Items[slot].V = nv
		} else if key(nv) != key(it.V) {
			o.Items[slot].Min = 0
			o.Items = append(o.Items[:slot+1:slot+1], append([]Item{{nv, 0, many}}, o.Items[slot+1:]...)...)
		}
		o.Uniq = false
		return
	}
	o.V = inject(o.V, ptr.Path, x)
}

// seq returns the content of a slice value.
func (c *Config) seq(v Val) (*Obj, bool) {
	if isNil(v) {
		return &Obj{Kind: 's'}, true
	}
	if s, ok := v.(VSlice); ok {
		if o := c.heap[s.Obj]; o != nil {
			return o, true
		}
	}
	return nil, false
}

// readSeq is seq for a reading access by the program.
func (e *Engine) readSeq(c *Config, v Val) (*Obj, bool) {
	o, ok := c.seq(v)
	if ok && o.Shared != "" {
		e.access(c, o.Shared, "", false)
	}
	return o, ok
}

func (c *Config) newSeq(items []Item) VSlice {
	return VSlice{c.alloc(&Obj{Kind: 's', Items: items})}
}

// ---- execution of one instruction

func (e *Engine) exec(c *Config, in ssa.Instruction) []*Config {
	next := func(v Val) []*Config {
		f := c.top()
		if sv, ok := in.(ssa.Value); ok {
			f.regs[sv] = v
		}
		f.idx++
		return []*Config{c}
	}
	multi := func(vs []valCfg) []*Config {
		var out []*Config
		for _, vc := range vs {
			f := vc.c.top()
			f.regs[in.(ssa.Value)] = vc.v
			f.idx++
			out = append(out, vc.c)
		}
		return out
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		c.top().idx++
		return []*Config{c}
	case *ssa.Alloc:
		return next(VPtr{c.alloc(&Obj{Kind: 'c', V: zero(x.Type().(*types.Pointer).Elem()), T: x.Type().(*types.Pointer).Elem()}), ""})
	case *ssa.BinOp:
		return multi(e.binop(c, x))
	case *ssa.UnOp:
		v := e.get(c, x.X)
		switch x.Op {
		case token.MUL:
			return multi(e.load(c, v))
		case token.NOT:
			if b, ok := constBool(v); ok {
				return next(vbool(!b))
			}
			if t, ok := v.(VTerm); ok && t.Op == "!" {
				return next(t.Args[0])
			}
			if _, ok := v.(VTop); ok {
				return next(v)
			}
			return next(mkTerm("!", v))
		case token.SUB:
			if k, ok := v.(VC); ok && k.C != nil {
				return next(VC{constant.UnaryOp(token.SUB, k.C, 0), k.T})
			}
			return next(mkTerm("neg", v))
		default:
			if x.Op == token.ARROW {
				e.problem(c, "channel receive at "+e.P.instrPos(in))
			}
			return next(VTop{"unary " + x.Op.String()})
		}
	case *ssa.Call:
		return e.call(c, x, &x.Call)
	case *ssa.ChangeInterface:
		return next(e.get(c, x.X))
	case *ssa.ChangeType:
		return next(retype(e.get(c, x.X), x.Type()))
	case *ssa.Convert:
		return next(e.convert(c, e.get(c, x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		if t, ok := e.get(c, x.Tuple).(VTuple); ok && x.Index < len(t) {
			return next(t[x.Index])
		}
		return next(VTop{"extract"})
	case *ssa.Field:
		return next(field(e.get(c, x.X), x.Field))
	case *ssa.FieldAddr:
		switch p := e.get(c, x.X).(type) {
		case VPtr:
			return next(VPtr{p.Obj, p.Path + "." + strconv.Itoa(x.Field)})
		case VC:
			e.Panics["nil dereference at "+e.P.instrPos(in)] = c.traceString()
			return nil
		default:
			return next(VTop{"field address"})
		}
	case *ssa.Index:
		return multi(e.index(c, e.get(c, x.X), e.get(c, x.Index), x.Index))
	case *ssa.IndexAddr:
		return multi(e.indexAddr(c, x))
	case *ssa.Lookup:
		return multi(e.lookup(c, x))
	case *ssa.MakeClosure:
		f := VFunc{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.get(c, b))
		}
		return next(f)
	case *ssa.MakeInterface:
		v := e.get(c, x.X)
		if types.IsInterface(x.X.Type()) {
			return next(v)
		}
		if e.OnMake != nil {
			if r, ok := e.OnMake(c, x, v); ok {
				return next(r)
			}
		}
		return next(VIface{x.X.Type(), v})
	case *ssa.MakeMap:
		return next(VMap{c.alloc(&Obj{Kind: 'm', T: x.Type()})})
	case *ssa.MakeSlice:
		if n, ok := constInt(e.get(c, x.Len)); ok && n <= 16 {
			var items []Item
			for i := 0; i < n; i++ {
				items = append(items, one(zero(x.Type().Underlying().(*types.Slice).Elem())))
			}
			return next(c.newSeq(items))
		}
		// a slice of unknown length filled later
		l := e.get(c, x.Len)
		o := &Obj{Kind: 's', Items: []Item{gap(zero(x.Type().Underlying().(*types.Slice).Elem()))}}
		if vl, ok := l.(VLen); ok {
			if src := c.heap[vl.Obj]; src != nil {
				o.Items = nil
				for _, it := range src.Items {
					o.Items = append(o.Items, Item{zero(x.Type().Underlying().(*types.Slice).Elem()), it.Min, it.Max})
				}
			}
		}
		return next(VSlice{c.alloc(o)})
	case *ssa.MapUpdate:
		return e.mapUpdate(c, x)
	case *ssa.Next:
		return e.next(c, x)
	case *ssa.Range:
		v := e.get(c, x.X)
		if m, ok := v.(VMap); ok {
			o := c.heap[m.Obj]
			if o.Shared != "" {
				e.access(c, o.Shared, "", false)
			}
			return next(VIter{c.alloc(&Obj{Kind: 'i', Src: m.Obj})})
		}
		if isNil(v) {
			return next(VIter{c.alloc(&Obj{Kind: 'i', Src: c.alloc(&Obj{Kind: 'm'})})})
		}
		return next(mkTerm("range", v))
	case *ssa.Phi:
		return next(VTop{"stray phi"})
	case *ssa.Slice:
		return multi(e.slice(c, x))
	case *ssa.Store:
		e.store(c, e.get(c, x.Addr), e.get(c, x.Val))
		c.top().idx++
		return []*Config{c}
	case *ssa.TypeAssert:
		return multi(e.typeAssert(c, x))
	case *ssa.Jump:
		return e.enter(c, c.top().block.Succs[0])
	case *ssa.If:
		return e.branch(c, x)
	case *ssa.Return:
		return e.ret(c, x)
	case *ssa.Defer:
		d := deferred{in: in, call: &x.Call}
		if x.Call.IsInvoke() {
			d.fn = e.get(c, x.Call.Value)
		} else {
			d.fn = e.get(c, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.get(c, a))
		}
		f := c.top()
		f.defers = append(append([]deferred(nil), f.defers...), d)
		f.idx++
		return []*Config{c}
	case *ssa.RunDefers:
		f := c.top()
		if len(f.defers) == 0 {
			f.idx++
			return []*Config{c}
		}
		d := f.defers[len(f.defers)-1]
		f.defers = append([]deferred(nil), f.defers[:len(f.defers)-1]...)
		return e.apply(c, d.in, d.call, d.fn, d.args)
	case *ssa.Panic:
		e.Panics["panic at "+e.P.instrPos(in)] = c.traceString()
		return nil
	case *ssa.Go:
		e.event("go", e.P.instrPos(in))
		e.problem(c, "goroutine started at "+e.P.instrPos(in))
		c.top().idx++
		return []*Config{c}
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		e.problem(c, "channel operation at "+e.P.instrPos(in))
		return nil
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		return next(VTop{"conversion"})
	}
	e.problem(c, fmt.Sprintf("instruction %T at %s", in, e.P.instrPos(in)))
	return nil
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case VC:
		return VC{x.C, t}
	case VStruct:
		return VStruct{t, x.F}
	}
	return v
}

func (e *Engine) convert(c *Config, v Val, from, to types.Type) Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if k, ok := v.(VC); ok && k.C != nil && fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return VC{k.C, to}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return VC{k.C, to}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if n, ok := constant.Int64Val(k.C); ok {
				return vstr(string(rune(n)))
			}
		case fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0:
			return VC{k.C, to}
		}
		return VTop{"conversion"}
	}
	if k, ok := v.(VC); ok && k.C != nil && k.C.Kind() == constant.String {
		return mkTerm("bytes", v)
	}
	if t, ok := v.(VTerm); ok && t.Op == "bytes" && tok && tb.Info()&types.IsString != 0 {
		return t.Args[0]
	}
	if fok && fb.Info()&types.IsString != 0 {
		if tok {
			return v
		}
		return mkTerm("bytes", v)
	}
	if tok && tb.Info()&types.IsString != 0 {
		if fok && fb.Info()&types.IsInteger != 0 {
			return mkTerm("runestr", v)
		}
		if isNil(v) {
			return vstr("")
		}
		return mkTerm("conv", v)
	}
	return v
}

// ---- arithmetic and comparison

func (e *Engine) binop(c *Config, x *ssa.BinOp) []valCfg {
	a, b := e.get(c, x.X), e.get(c, x.Y)
	if e.Spec {
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if t := specCompare(a, b, x.Op); t != Maybe {
				return []valCfg{{c, triVal(t)}}
			}
		}
	}
	if e.Limits && (limit(x.X, b) || limit(x.Y, a)) {
		// the scripts nest and repeat a few times, real input as often as it likes
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return []valCfg{{c.fork(), vbool(true)}, {c, vbool(false)}}
		}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		if r, ok := e.lenCompare(c, x, a, b); ok {
			return r
		}
		t := eq(a, b)
		if t == Maybe && (e.natCompare(a, b, token.GTR) == Yes || e.natCompare(a, b, token.LSS) == Yes) {
			t = No
		}
		if t == Maybe {
			if t = posCompare(c, token.EQL, a, b); t == Maybe {
				t = posCompare(c, token.EQL, b, a)
			}
		}
		if s, ok := x.X.Type().Underlying().(*types.Basic); ok && s.Info()&types.IsString != 0 && t == Maybe && e.Attr != nil {
			if k, ok := constStr(b); ok {
				t = e.Attr("eq", a, k)
			} else if k, ok := constStr(a); ok {
				t = e.Attr("eq", b, k)
			}
		}
		if t == Maybe {
			v := Val(mkTerm("==", sorted2(a, b)...))
			if x.Op == token.NEQ {
				v = mkTerm("!", v)
			}
			return []valCfg{{c, v}}
		}
		if x.Op == token.NEQ {
			t = Yes - t
		}
		return []valCfg{{c, triVal(t)}}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if t := posCompare(c, x.Op, a, b); t != Maybe {
			return []valCfg{{c, triVal(t)}}
		}
		if ka, ok := a.(VC); ok && ka.C != nil {
			if kb, ok := b.(VC); ok && kb.C != nil {
				return []valCfg{{c, vbool(constant.Compare(ka.C, x.Op, kb.C))}}
			}
		}
		if r, ok := e.lenCompare(c, x, a, b); ok {
			return r
		}
		if pa, ok := a.(VPos); ok {
			if pb, ok := b.(VPos); ok && pa.Obj == pb.Obj {
				o := c.heap[pa.Obj]
				if pa.Slot != pb.Slot || pa.Slot < len(o.Items) && o.Items[pa.Slot].Max == 1 {
					n := constant.Compare(constant.MakeInt64(int64(pa.Slot)), x.Op, constant.MakeInt64(int64(pb.Slot)))
					return []valCfg{{c, vbool(n)}}
				}
			}
		}
		if t := e.natCompare(a, b, x.Op); t != Maybe {
			return []valCfg{{c, triVal(t)}}
		}
		return []valCfg{{c, mkTerm(x.Op.String(), a, b)}}
	case token.ADD:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			if isTop(a) && isTop(b) {
				return []valCfg{{c, VTop{"string"}}}
			}
			return []valCfg{{c, concat(a, b)}}
		}
	}
	if ka, ok := a.(VC); ok && ka.C != nil {
		if kb, ok := b.(VC); ok && kb.C != nil {
			switch x.Op {
			case token.QUO, token.REM:
				if constant.Sign(kb.C) == 0 {
					e.Panics["division by zero at "+e.P.instrPos(x)] = c.traceString()
					return nil
				}
				if ka.C.Kind() == constant.Int && kb.C.Kind() == constant.Int {
					op := x.Op
					if op == token.QUO {
						op = token.QUO_ASSIGN
					}
					return []valCfg{{c, VC{constant.BinaryOp(ka.C, op, kb.C), x.Type()}}}
				}
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
				if ka.C.Kind() == constant.Int && kb.C.Kind() == constant.Int {
					r := constant.BinaryOp(ka.C, x.Op, kb.C)
					if n, ok := constant.Int64Val(r); ok && (n > 40 || n < -40) && x.Op == token.ADD {
						if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
							return []valCfg{{c, VTop{"counter"}}}
						}
					}
					return []valCfg{{c, VC{r, x.Type()}}}
				}
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(kb.C); ok && n < 64 {
					return []valCfg{{c, VC{constant.Shift(ka.C, x.Op, uint(n)), x.Type()}}}
				}
			}
		}
	}
	if x.Op == token.ADD || x.Op == token.SUB {
		if r, ok := e.posArith(c, x, a, b); ok {
			return r
		}
		if k, ok := constInt(b); ok && k == 0 {
			return []valCfg{{c, a}}
		}
		if k, ok := constInt(a); ok && k == 0 && x.Op == token.ADD {
			return []valCfg{{c, b}}
		}
	}
	if isTop(a) || isTop(b) {
		return []valCfg{{c, VTop{"arithmetic"}}}
	}
	return []valCfg{{c, mkTerm(x.Op.String(), a, b)}}
}

func isTop(v Val) bool { _, ok := v.(VTop); return ok }

func sorted2(a, b Val) []Val {
	if key(a) > key(b) {
		return []Val{b, a}
	}
	return []Val{a, b}
}

// natCompare compares a length or position with a constant.
func (e *Engine) natCompare(a, b Val, op token.Token) tri {
	nonneg := func(v Val) bool {
		switch t := v.(type) {
		case VLen, VPos:
			return true
		case VTerm:
			return t.Op == "len"
		}
		return false
	}
	if n, ok := constInt(b); ok && nonneg(a) {
		switch {
		case op == token.GEQ && n <= 0, op == token.GTR && n < 0:
			return Yes
		case op == token.LSS && n <= 0, op == token.LEQ && n < 0:
			return No
		}
	}
	if n, ok := constInt(a); ok && nonneg(b) {
		switch {
		case op == token.LEQ && n <= 0, op == token.LSS && n < 0:
			return Yes
		case op == token.GTR && n <= 0, op == token.GEQ && n < 0:
			return No
		}
	}
	return Maybe
}

// firsts lists the slots at which the first element of a sequence may be; end is len(items).
func firsts(items []Item, from int) []int {
	var out []int
	for i := from; i < len(items); i++ {
		out = append(out, i)
		if items[i].Min > 0 {
			return out
		}
	}
	return append(out, len(items))
}

// lasts lists the slots before a slot; -1 is before the beginning.
func lasts(items []Item, from int) []int {
	var out []int
	for i := from; i >= 0; i-- {
		out = append(out, i)
		if items[i].Min > 0 {
			return out
		}
	}
	return append(out, -1)
}

// lenCompare decides comparisons of an index with the length of a sequence. The
// constant 0 as index is resolved to the possible positions of a first element.
func (e *Engine) lenCompare(c *Config, x *ssa.BinOp, a, b Val) ([]valCfg, bool) {
	op := x.Op
	la, aok := a.(VLen)
	lb, bok := b.(VLen)
	idx, l, idxOperand := a, lb, x.X
	if aok && !bok {
		idx, l, idxOperand = b, la, x.Y
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	} else if !bok || aok {
		return nil, false
	}
	o := c.heap[l.Obj]
	if o == nil {
		return nil, false
	}
	result := func(slot int) (bool, bool) { // is the comparison true at that slot?
		end := slot == len(o.Items)
		switch op {
		case token.LSS, token.NEQ:
			return !end, true
		case token.GEQ, token.EQL:
			return end, true
		case token.LEQ:
			return true, true
		case token.GTR:
			return false, true
		}
		return false, false
	}
	if p, ok := idx.(VPos); ok {
		if p.Obj != l.Obj {
			return nil, false
		}
		if r, ok := result(p.Slot); ok {
			return []valCfg{{c, vbool(r)}}, true
		}
		return nil, false
	}
	n, ok := constInt(idx)
	if !ok {
		return nil, false
	}
	// len(s) compared with a constant: emptiness is decided by splitting the state
	minLen := 0
	unbounded := false
	maxLen := 0
	for _, it := range o.Items {
		minLen += it.Min
		if it.Max > 1 {
			unbounded = true
		}
		maxLen++
	}
	if n == 0 {
		if _, isConst := idxOperand.(*ssa.Const); isConst && (op == token.EQL || op == token.NEQ || op == token.LSS || op == token.GEQ) {
			// 0 == len: split into empty and non-empty
			if minLen > 0 {
				r, _ := result(0)
				return []valCfg{{c, vbool(r)}}, true
			}
			if len(o.Items) == 0 {
				r, _ := result(len(o.Items))
				return []valCfg{{c, vbool(r)}}, true
			}
			var out []valCfg
			c1 := c.fork()
			o1 := c1.upd(l.Obj)
			o1.Items = nil
			r1 := op == token.EQL || op == token.GEQ
			out = append(out, valCfg{c1, vbool(r1)})
			out = append(out, valCfg{c, vbool(!r1)})
			return out, true
		}
		var out []valCfg
		for _, s := range firsts(o.Items, 0) {
			if o.Unord {
				// any element may come first
			}
			r, ok := result(s)
			if !ok {
				return nil, false
			}
			ci := c.fork()
			if _, isConst := idxOperand.(*ssa.Const); !isConst {
				ci.set(idxOperand, VPos{l.Obj, s, 'z'})
			}
			out = append(out, valCfg{ci, vbool(r)})
		}
		return out, true
	}
	switch op {
	case token.LSS: // n < len
		if minLen > n {
			return []valCfg{{c, vbool(true)}}, true
		}
		if !unbounded && maxLen <= n {
			return []valCfg{{c, vbool(false)}}, true
		}
		if n < 0 {
			return []valCfg{{c, vbool(true)}}, true
		}
	case token.LEQ:
		if minLen >= n {
			return []valCfg{{c, vbool(true)}}, true
		}
		if !unbounded && maxLen < n {
			return []valCfg{{c, vbool(false)}}, true
		}
	case token.GTR: // n > len
		if minLen >= n {
			return []valCfg{{c, vbool(false)}}, true
		}
		if !unbounded && maxLen < n {
			return []valCfg{{c, vbool(true)}}, true
		}
	case token.GEQ:
		if minLen > n {
			return []valCfg{{c, vbool(false)}}, true
		}
		if !unbounded && maxLen <= n {
			return []valCfg{{c, vbool(true)}}, true
		}
	case token.EQL, token.NEQ:
		if n < 0 || minLen > n || !unbounded && maxLen < n {
			return []valCfg{{c, vbool(op == token.NEQ)}}, true
		}
	}
	return []valCfg{{c, VTop{"length"}}}, true
}

// posCompare decides the comparison of a position in a list with a number from
// what must stand before it.
func posCompare(c *Config, op token.Token, a, b Val) tri {
	p, ok := a.(VPos)
	n, isN := constInt(b)
	if !ok || !isN {
		p, ok = b.(VPos)
		n, isN = constInt(a)
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !ok || !isN || c.heap[p.Obj] == nil {
		return Maybe
	}
	lo, hi := 0, 0
	for i, it := range c.heap[p.Obj].Items {
		if i < p.Slot {
			lo += it.Min
		}
		if i < p.Slot || i == p.Slot && it.Max > 1 {
			hi += it.Max
		}
	}
	switch p.At {
	case 'z':
		lo, hi = 0, 0
	case 'p':
		lo = max(lo, 1)
	}
	yes := func(y, n bool) tri {
		if y {
			return Yes
		}
		if n {
			return No
		}
		return Maybe
	}
	switch op {
	case token.EQL:
		return yes(lo == n && hi == n, n < lo || n > hi)
	case token.LSS:
		return yes(hi < n, lo >= n)
	case token.LEQ:
		return yes(hi <= n, lo > n)
	case token.GTR:
		return yes(lo > n, hi <= n)
	case token.GEQ:
		return yes(lo >= n, hi < n)
	}
	return Maybe
}

func (e *Engine) posArith(c *Config, x *ssa.BinOp, a, b Val) ([]valCfg, bool) {
	k, ok := constInt(b)
	if !ok {
		if k, ok = constInt(a); !ok || x.Op != token.ADD {
			return nil, false
		}
		a, b = b, a
	}
	if x.Op == token.SUB {
		k = -k
	}
	switch t := a.(type) {
	case VPos:
		o := c.heap[t.Obj]
		if o == nil {
			return nil, false
		}
		var slots []int
		switch k {
		case 1:
			if t.Slot >= len(o.Items) {
				return []valCfg{{c, VTop{"past the end"}}}, true
			}
			if o.Items[t.Slot].Max > 1 {
				slots = append(slots, t.Slot)
			}
			slots = append(slots, firsts(o.Items, t.Slot+1)...)
		case -1:
			if t.Slot < len(o.Items) && o.Items[t.Slot].Max > 1 {
				slots = append(slots, t.Slot)
			}
			slots = append(slots, lasts(o.Items, t.Slot-1)...)
		default:
			return []valCfg{{c, VTop{"position"}}}, true
		}
		var out []valCfg
		for _, s := range slots {
			at := byte(0)
			if k == 1 {
				at = 'p'
			}
			v := Val(VPos{t.Obj, s, at})
			if s < 0 {
				v = vint(-1)
			}
			out = append(out, valCfg{c.fork(), v})
		}
		return out, true
	case VLen:
		o := c.heap[t.Obj]
		if o == nil || k != -1 {
			return nil, false
		}
		var out []valCfg
		for _, s := range lasts(o.Items, len(o.Items)-1) {
			v := Val(VPos{t.Obj, s, 0})
			if s < 0 {
				v = vint(-1)
			}
			out = append(out, valCfg{c.fork(), v})
		}
		return out, true
	}
	return nil, false
}

// ---- sequences

// slots finds the slots an index may denote.
func (e *Engine) slots(c *Config, o *Obj, id int, idx Val) []int {
	if p, ok := idx.(VPos); ok && p.Obj == id {
		if p.Slot < len(o.Items) {
			return []int{p.Slot}
		}
		return nil
	}
	if n, ok := constInt(idx); ok && !o.Unord {
		if n < 0 {
			return nil
		}
		if l, ok := exactLen(o); ok {
			if n < l {
				return []int{n}
			}
			return nil
		}
		// the n-th element: skip exact prefixes
		var out []int
		pos := 0 // smallest possible index of the slot
		exact := true
		for i, it := range o.Items {
			if exact && it.Min == 1 && it.Max == 1 {
				if pos == n {
					return append(out, i)
				}
				pos++
				continue
			}
			exact = false
			out = append(out, i)
			if n == 0 && it.Min > 0 {
				return out
			}
		}
		return out
	}
	var out []int
	for i := range o.Items {
		out = append(out, i)
	}
	return out
}

// limit: a count, or the length of a list, is compared with a number larger than
// the analysed inputs are.
func limit(v ssa.Value, k Val) bool {
	n, ok := constInt(k)
	if !ok || n < 8 {
		return false
	}
	if t, ok := v.Type().Underlying().(*types.Basic); !ok || t.Kind() != types.Int {
		return false
	}
	if call, ok := v.(*ssa.Call); ok {
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return false
		}
		_, ok = call.Call.Args[0].Type().Underlying().(*types.Slice)
		return ok
	}
	return isCounter(v)
}

// isCounter: the variable of a counting loop.
func isCounter(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, ok := b.Y.(*ssa.Const); ok {
			v = b.X
		}
	}
	_, ok := v.(*ssa.Phi)
	return ok
}

func (e *Engine) indexAddr(c *Config, x *ssa.IndexAddr) []valCfg {
	base, idx := e.get(c, x.X), e.get(c, x.Index)
	if p, ok := base.(VPtr); ok { // pointer to array
		if n, ok := constInt(idx); ok {
			return []valCfg{{c, VPtr{p.Obj, p.Path + "." + strconv.Itoa(n)}}}
		}
		return []valCfg{{c, VTop{"array index"}}}
	}
	s, ok := base.(VSlice)
	if !ok {
		if isTop(idx) || isTop(base) {
			return []valCfg{{c, VTop{"element"}}}
		}
		return []valCfg{{c, mkTerm("elem", base, idx)}}
	}
	o := c.heap[s.Obj]
	if o == nil {
		return []valCfg{{c, VTop{"element"}}}
	}
	slots := e.slots(c, o, s.Obj, idx)
	if l, ok := exactLen(o); ok && o.Unord && isCounter(x.Index) {
		// a loop that counts comes to each element of a sorted list once
		if n, ok := constInt(idx); ok && n >= 0 && n < l {
			slots = []int{n}
		}
	}
	if len(slots) == 0 {
		e.Panics["index out of range at "+e.P.instrPos(x)] = c.traceString()
		return nil
	}
	var out []valCfg
	for i, sl := range slots {
		ci := c
		if i < len(slots)-1 {
			ci = c.fork()
		}
		out = append(out, valCfg{ci, VPtr{s.Obj, "[" + strconv.Itoa(sl) + "]"}})
	}
	return out
}

func (e *Engine) index(c *Config, base, idx Val, iv ssa.Value) []valCfg {
	if st, ok := base.(VStruct); ok {
		if n, ok := constInt(idx); ok && n >= 0 && n < len(st.F) {
			return []valCfg{{c, st.F[n]}}
		}
		return []valCfg{{c, VTop{"array element"}}}
	}
	if s, ok := constStr(base); ok {
		if n, ok := constInt(idx); ok && n >= 0 && n < len(s) {
			return []valCfg{{c, VC{constant.MakeInt64(int64(s[n])), types.Typ[types.Byte]}}}
		}
	}
	if e.Text && !isTop(base) && !isTop(idx) {
		return []valCfg{{c, mkTerm("char", base, idx)}}
	}
	return []valCfg{{c, VTop{"byte"}}}
}

func (e *Engine) slice(c *Config, x *ssa.Slice) []valCfg {
	base := e.get(c, x.X)
	getOpt := func(v ssa.Value) (Val, bool) {
		if v == nil {
			return nil, false
		}
		return e.get(c, v), true
	}
	lo, hasLo := getOpt(x.Low)
	hi, hasHi := getOpt(x.High)
	if n, ok := constInt(lo); hasLo && ok && n == 0 {
		hasLo = false
	}
	switch t := base.(type) {
	case VPtr: // array
		o := c.heap[t.Obj]
		if o != nil {
			if st, ok := project(o.V, t.Path).(VStruct); ok {
				from, to := 0, len(st.F)
				good := true
				if hasLo {
					from, good = constInt(lo)
				}
				if hasHi && good {
					to, good = constInt(hi)
				}
				if good && from <= to && to <= len(st.F) {
					var items []Item
					for _, f := range st.F[from:to] {
						items = append(items, one(f))
					}
					return []valCfg{{c, c.newSeq(items)}}
				}
			}
		}
		return []valCfg{{c, VTop{"slice of array"}}}
	case VSlice:
		o := c.heap[t.Obj]
		if o == nil {
			break
		}
		if !hasLo && !hasHi {
			return []valCfg{{c, t}}
		}
		if vl, ok := hi.(VLen); ok && hasHi && vl.Obj == t.Obj {
			hasHi = false
		}
		if !hasLo && !hasHi {
			return []valCfg{{c, t}}
		}
		mk := func(ci *Config, items []Item) Val {
			n := &Obj{Kind: 's', Items: items, Unord: o.Unord, Shared: o.Shared}
			if n.Shared == "" && hasHi && x.Max == nil {
				n.Base = t.Obj
				if o.Base != 0 {
					n.Base = o.Base
				}
			}
			return VSlice{ci.alloc(n)}
		}
		if l, ok := exactLen(o); ok && !o.Unord {
			from, to := 0, l
			good := true
			if hasLo {
				from, good = constInt(lo)
			}
			if hasHi && good {
				to, good = constInt(hi)
			}
			if good {
				if from < 0 || from > to || to > l {
					if to > l {
						// may extend into the capacity
						return []valCfg{{c, VTop{"reslice"}}}
					}
					e.Panics["slice bounds out of range at "+e.P.instrPos(x)] = c.traceString()
					return nil
				}
				return []valCfg{{c, mk(c, append([]Item(nil), o.Items[from:to]...))}}
			}
		}
		// s[:0]
		if n, ok := constInt(hi); ok && hasHi && n == 0 && !hasLo {
			return []valCfg{{c, mk(c, nil)}}
		}
		// cut at a position
		from, to := 0, len(o.Items)
		fromPart, toPart := false, false
		okCut := !o.Unord
		if hasLo {
			if p, ok := lo.(VPos); ok && p.Obj == t.Obj {
				from = p.Slot
				fromPart = p.Slot < len(o.Items) && o.Items[p.Slot].Max > 1
			} else if n, ok := constInt(lo); ok && n == 1 && len(o.Items) > 0 && o.Items[0].Min == 1 && o.Items[0].Max == 1 {
				from = 1
			} else {
				okCut = false
			}
		}
		if hasHi {
			if p, ok := hi.(VPos); ok && p.Obj == t.Obj {
				to = p.Slot
				toPart = p.Slot < len(o.Items) && o.Items[p.Slot].Max > 1
			} else {
				okCut = false
			}
		}
		if okCut && from <= to {
			items := append([]Item(nil), o.Items[from:to]...)
			if fromPart && len(items) > 0 {
				// the element at lo itself is included, others of the same gap may follow
				items[0].Min = 1
			}
			if toPart {
				it := o.Items[to]
				it.Min = 0
				items = append(items, it)
			}
			return []valCfg{{c, mk(c, items)}}
		}
		// anything may have been cut off
		var items []Item
		for _, it := range o.Items {
			it.Min = 0
			items = append(items, it)
		}
		return []valCfg{{c, mk(c, items)}}
	case VC:
		if isNil(t) {
			return []valCfg{{c, t}}
		}
		if s, ok := constStr(t); ok {
			from, to := 0, len(s)
			good := true
			if hasLo {
				from, good = constInt(lo)
			}
			if hasHi && good {
				to, good = constInt(hi)
			}
			if good && from >= 0 && from <= to && to <= len(s) {
				return []valCfg{{c, vstr(s[from:to])}}
			}
		}
	}
	if t, ok := hi.(VTerm); ok && hasHi && t.Op == "len" && key(t.Args[0]) == key(base) {
		hasHi = false
	}
	if ps := parts(base); isStringy(base) && len(ps) > 1 {
		// a text known in parts, cut between two of them
		from, to := 0, len(ps)
		ok := true
		if hasLo {
			from, ok = partsUpTo(ps, lo)
		}
		if ok && hasHi {
			to, ok = partsUpTo(ps, hi)
		}
		if ok && from <= to {
			return []valCfg{{c, concat(ps[from:to]...)}}
		}
	}
	if !hasLo && !hasHi && isStringy(base) {
		return []valCfg{{c, base}}
	}
	args := []Val{base}
	if hasLo {
		args = append(args, lo)
	} else {
		args = append(args, vstr("lo"))
	}
	if hasHi {
		args = append(args, hi)
	}
	for _, a := range args {
		if isTop(a) {
			return []valCfg{{c, VTop{"substring"}}}
		}
	}
	return []valCfg{{c, mkTerm("sub", args...)}}
}

// partsUpTo returns how many of the parts of a text stand before position n, if
// n is the length of the first few of them.
func partsUpTo(ps []Val, n Val) (int, bool) {
	add := func(m map[string]int, v Val, k *int) bool {
		if s, ok := constStr(v); ok {
			*k += len(s)
			return true
		}
		m[key(v)]++
		return true
	}
	want, wantK := map[string]int{}, 0
	var sum func(v Val) bool
	sum = func(v Val) bool {
		if k, ok := constInt(v); ok {
			wantK += k
			return true
		}
		t, ok := v.(VTerm)
		if !ok {
			return false
		}
		switch t.Op {
		case "+":
			for _, a := range t.Args {
				if !sum(a) {
					return false
				}
			}
			return true
		case "len":
			for _, p := range parts(t.Args[0]) {
				add(want, p, &wantK)
			}
			return true
		}
		return false
	}
	if !sum(n) {
		return 0, false
	}
	have, haveK := map[string]int{}, 0
	for i := 0; ; i++ {
		if haveK == wantK && maps.Equal(have, want) {
			return i, true
		}
		if i == len(ps) {
			return 0, false
		}
		add(have, ps[i], &haveK)
	}
}

// overwrite marks the lists that share memory with a list that is cut short and
// now appended to: what they hold may be overwritten.
func (c *Config) overwrite(id, base int) {
	for i, o := range c.heap {
		if i != id && !o.Clob && o.Kind == 's' && (i == base || o.Base == base) {
			c.upd(i).Clob = true
		}
	}
}

// ---- maps

func (e *Engine) lookup(c *Config, x *ssa.Lookup) []valCfg {
	base, idx := e.get(c, x.X), e.get(c, x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		return e.index(c, base, idx, x.Index)
	}
	elem := x.X.Type().Underlying().(*types.Map).Elem()
	mk := func(v Val, ok bool) Val {
		if x.CommaOk {
			return VTuple{v, vbool(ok)}
		}
		return v
	}
	if isNil(base) {
		return []valCfg{{c, mk(zero(elem), false)}}
	}
	m, ok := base.(VMap)
	if !ok || c.heap[m.Obj] == nil {
		c2 := c.fork()
		return []valCfg{{c, mk(VTop{"map element"}, true)}, {c2, mk(zero(elem), false)}}
	}
	o := c.heap[m.Obj]
	if o.Shared != "" {
		e.access(c, o.Shared, "", false)
	}
	var out []valCfg
	for i, en := range o.Ents {
		if en.Many {
			continue
		}
		if eq(en.K, idx) == Yes {
			if en.Must {
				return []valCfg{{c, mk(en.V, true)}}
			}
			c1 := c.fork()
			o1 := c1.upd(m.Obj)
			o1.Ents = append([]Ent(nil), o1.Ents...)
			o1.Ents[i].Must = true
			o2 := c.upd(m.Obj)
			o2.Ents = append(append([]Ent(nil), o2.Ents[:i]...), o2.Ents[i+1:]...)
			return []valCfg{{c1, mk(en.V, true)}, {c, mk(zero(elem), false)}}
		}
	}
	seen := map[string]bool{}
	for _, en := range o.Ents {
		if eq(en.K, idx) != No {
			if e.Text && isRigid(idx) && isRigid(en.K) && !en.Many {
				t := VTerm{"==", sorted2(en.K, idx)}
				k := "if:" + key(t)
				known, ok := c.assume[k]
				if ok && !known || !ok && c.contradicts(t) {
					continue
				}
				if known {
					return []valCfg{{c, mk(en.V, true)}}
				}
				d := c.fork()
				d.facts = append(append([]VTerm(nil), d.facts...), t)
				d.setAssume(k, true)
				c.setAssume(k, false)
				out = append(out, valCfg{d, mk(en.V, true)})
				continue
			}
			k := key(en.V)
			if seen[k] {
				continue
			}
			seen[k] = true
			out = append(out, valCfg{c.fork(), mk(en.V, true)})
		}
	}
	out = append(out, valCfg{c, mk(zero(elem), false)})
	return out
}

func (e *Engine) mapSet(c *Config, id int, k, v Val) []*Config {
	o := c.heap[id]
	if o.Shared != "" {
		e.access(c, o.Shared, "", true)
		c.share(k, o.Shared)
		c.share(v, o.Shared)
		o = c.heap[id]
	}
	setAt := func(ci *Config, i int) {
		oi := ci.upd(id)
		oi.Ents = append([]Ent(nil), oi.Ents...)
		oi.Ents[i].V = v
		oi.Ents[i].Must = true
	}
	for i, en := range o.Ents {
		if !en.Many && eq(en.K, k) == Yes {
			setAt(c, i)
			return []*Config{c}
		}
	}
	var out []*Config
	for i, en := range o.Ents {
		if !en.Many && eq(en.K, k) == Maybe {
			if key(en.V) == key(v) && en.Must {
				continue
			}
			ci := c.fork()
			setAt(ci, i)
			out = append(out, ci)
		}
	}
	oi := c.upd(id)
	oi.Ents = append([]Ent(nil), oi.Ents...)
	if isRigid(k) {
		oi.Ents = append(oi.Ents, Ent{K: k, V: v, Must: true})
	} else {
		dup := false
		for i, en := range oi.Ents {
			if en.Many && key(en.K) == key(k) && (key(en.V) == key(v) || c.shape(en.V) == c.shape(v)) {
				dup = true
				_ = i
			}
		}
		if !dup {
			oi.Ents = append(oi.Ents, Ent{K: k, V: v, Many: true})
		}
	}
	if len(oi.Ents) > 40 {
		e.problem(c, "map too large at "+c.where())
	}
	return append(out, c)
}

func (e *Engine) mapUpdate(c *Config, x *ssa.MapUpdate) []*Config {
	m, ok := e.get(c, x.Map).(VMap)
	if !ok || c.heap[m.Obj] == nil {
		e.problem(c, "update of an unknown map at "+e.P.instrPos(x))
		return nil
	}
	out := e.mapSet(c, m.Obj, e.get(c, x.Key), e.get(c, x.Value))
	for _, ci := range out {
		ci.top().idx++
	}
	return out
}

func (e *Engine) mapDelete(c *Config, id int, k Val) []*Config {
	o := c.heap[id]
	if o.Shared != "" {
		e.access(c, o.Shared, "", true)
	}
	for i, en := range o.Ents {
		if !en.Many && eq(en.K, k) == Yes {
			oi := c.upd(id)
			oi.Ents = append(append([]Ent(nil), oi.Ents[:i]...), oi.Ents[i+1:]...)
			return []*Config{c}
		}
	}
	oi := c.upd(id)
	oi.Ents = append([]Ent(nil), oi.Ents...)
	for i, en := range oi.Ents {
		if !en.Many && eq(en.K, k) == Maybe {
			oi.Ents[i].Must = false
		}
	}
	return []*Config{c}
}

// mapNext enumerates what the next step of a map iteration may give.
func (e *Engine) mapNext(c *Config, it VIter, deliver func(c *Config, ok bool, k, v Val) []*Config) []*Config {
	io := c.heap[it.Obj]
	mo := c.heap[io.Src]
	if mo == nil {
		return deliver(c, false, nil, nil)
	}
	if mo.Shared != "" {
		e.access(c, mo.Shared, "", false)
	}
	visited := map[string]bool{}
	for _, v := range io.Visited {
		visited[v] = true
	}
	type cand struct {
		en Ent
		k  string
	}
	var left []cand
	pendingMust := false
	for _, en := range mo.Ents {
		k := key(en.K)
		if en.Many || !visited[k] {
			left = append(left, cand{en, k})
		}
	}
	// rank: the order in which a restricted iteration visits the entries; in mode
	// 1 the distinguished entries ascending and then the summaries, in mode 2 the
	// summaries and then the distinguished entries, everything descending
	rank := func(en Ent, k string) string {
		if en.Many {
			return "1" + k + key(en.V)
		}
		return "0" + k
	}
	sort.SliceStable(left, func(i, j int) bool {
		a, b := rank(left[i].en, left[i].k), rank(left[j].en, left[j].k)
		if e.Unord == 2 {
			return a > b
		}
		return a < b
	})
	at := ""
	if e.Unord != 0 {
		for _, v := range io.Visited {
			if strings.HasPrefix(v, "@") {
				at = v[1:]
			}
		}
	}
	var out []*Config
	for _, l := range left {
		r := rank(l.en, l.k)
		if e.Unord == 1 && at != "" && r < at || e.Unord == 2 && at != "" && r > at {
			continue // passed already
		}
		if !l.en.Many && l.en.Must {
			pendingMust = true
		}
		ci := c.fork()
		oi := ci.upd(it.Obj)
		vis := make([]string, 0, len(oi.Visited)+2)
		for _, v := range oi.Visited {
			if !strings.HasPrefix(v, "@") {
				vis = append(vis, v)
			}
		}
		if !l.en.Many {
			vis = append(vis, l.k)
		}
		if e.Unord != 0 {
			vis = append(vis, "@"+r)
		}
		sort.Strings(vis)
		oi.Visited = vis
		out = append(out, deliver(ci, true, l.en.K, l.en.V)...)
		if e.Unord != 0 && !l.en.Many && l.en.Must {
			return out // nothing after it can come first
		}
	}
	if !pendingMust {
		out = append(out, deliver(c, false, nil, nil)...)
	}
	return out
}

func (e *Engine) next(c *Config, x *ssa.Next) []*Config {
	v := e.get(c, x.Iter)
	fin := func(c *Config, t Val) []*Config {
		f := c.top()
		f.regs[x] = t
		f.idx++
		return []*Config{c}
	}
	tt := x.Type().(*types.Tuple)
	if it, ok := v.(VIter); ok {
		return e.mapNext(c, it, func(c *Config, ok bool, k, v Val) []*Config {
			if !ok {
				return fin(c, VTuple{vbool(false), zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())})
			}
			return fin(c, VTuple{vbool(true), k, v})
		})
	}
	// iteration over an unknown string
	c2 := c.fork()
	out := fin(c, VTuple{vbool(true), VTop{"index"}, VTop{"rune"}})
	return append(out, fin(c2, VTuple{vbool(false), vint(0), vint(0)})...)
}

func zeroOrNil(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return vint(0)
	}
	return zero(t)
}

// ---- type assertions, branches, returns

func (e *Engine) typeAssert(c *Config, x *ssa.TypeAssert) []valCfg {
	v := e.get(c, x.X)
	res := func(ci *Config, val Val, ok bool) []valCfg {
		if x.CommaOk {
			if !ok {
				val = zero(x.AssertedType)
			}
			return []valCfg{{ci, VTuple{val, vbool(ok)}}}
		}
		if !ok {
			e.Panics["failed type assertion at "+e.P.instrPos(x)] = ci.traceString()
			return nil
		}
		return []valCfg{{ci, val}}
	}
	switch t := v.(type) {
	case VIface:
		if types.IsInterface(x.AssertedType) {
			it := x.AssertedType.Underlying().(*types.Interface)
			return res(c, t, types.Implements(t.T, it))
		}
		if types.Identical(t.T, x.AssertedType) {
			return res(c, t.V, true)
		}
		return res(c, nil, false)
	case VC:
		if isNil(t) {
			return res(c, nil, false)
		}
	}
	if types.IsInterface(x.AssertedType) && types.AssignableTo(x.X.Type(), x.AssertedType) && eq(v, VC{nil, x.X.Type()}) == No {
		return res(c, v, true)
	}
	// unknown dynamic type
	k := "type:" + key(v) + ":" + shortType(x.AssertedType)
	if isRigid(v) {
		if b, ok := c.assume[k]; ok {
			return res(c, e.asType(v, x.AssertedType), b)
		}
		c2 := c.fork()
		c.setAssume(k, true)
		c2.setAssume(k, false)
		out := res(c, e.asType(v, x.AssertedType), true)
		if x.CommaOk {
			out = append(out, res(c2, nil, false)...)
		}
		return out
	}
	c2 := c.fork()
	out := res(c, e.asType(v, x.AssertedType), true)
	if x.CommaOk {
		out = append(out, res(c2, nil, false)...)
	}
	return out
}

func (e *Engine) asType(v Val, t types.Type) Val {
	if isTop(v) {
		return unknownOf(t, 0)
	}
	if types.IsInterface(t) {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		s := VStruct{T: t}
		for i := 0; i < st.NumFields(); i++ {
			s.F = append(s.F, mkTerm("as:"+shortType(t)+"."+st.Field(i).Name(), v))
		}
		return s
	}
	return mkTerm("as:"+shortType(t), v)
}

func unknownOf(t types.Type, d int) Val {
	if st, ok := t.Underlying().(*types.Struct); ok && d < 3 {
		s := VStruct{T: t}
		for i := 0; i < st.NumFields(); i++ {
			s.F = append(s.F, unknownOf(st.Field(i).Type(), d+1))
		}
		return s
	}
	return VTop{"unknown " + shortType(t)}
}

func (c *Config) setAssume(k string, b bool) {
	if c.assume == nil {
		c.assume = map[string]bool{}
	}
	c.assume[k] = b
}

func (e *Engine) branch(c *Config, x *ssa.If) []*Config {
	v := e.get(c, x.Cond)
	neg := false
	for {
		t, ok := v.(VTerm)
		if !ok || t.Op != "!" {
			break
		}
		v, neg = t.Args[0], !neg
	}
	b := c.top().block
	if k, ok := constBool(v); ok {
		if k != neg {
			return e.enter(c, b.Succs[0])
		}
		return e.enter(c, b.Succs[1])
	}
	k := "if:" + key(v)
	if isRigid(v) {
		if a, ok := c.assume[k]; ok {
			if a != neg {
				return e.enter(c, b.Succs[0])
			}
			return e.enter(c, b.Succs[1])
		}
	}
	if t, ok := v.(VTerm); ok && t.Op == "==" && c.contradicts(t) {
		c.set(x.Cond, vbool(neg))
		if neg {
			return e.enter(c, b.Succs[0])
		}
		return e.enter(c, b.Succs[1])
	}
	c2 := c.fork()
	pos := e.P.instrPos(x)
	if isRigid(v) {
		c.setAssume(k, !neg)
		c2.setAssume(k, neg)
	}
	if t, ok := v.(VTerm); ok && t.Op == "==" && isRigid(v) {
		h := c2
		if !neg {
			h = c
		}
		h.facts = append(append([]VTerm(nil), h.facts...), t)
	}
	if _, ok := x.Cond.(*ssa.Const); !ok {
		// the value is known from here on, where it is used again
		c.set(x.Cond, trueVal)
		c2.set(x.Cond, falseVal)
	}
	c.note(pos + " (" + clip(key(v)) + ")=" + strconv.FormatBool(!neg))
	c2.note(pos + " (" + clip(key(v)) + ")=" + strconv.FormatBool(neg))
	return append(e.enter(c, b.Succs[0]), e.enter(c2, b.Succs[1])...)
}

// constant gives the constant a value was found to equal.
func (c *Config) constant(v Val) Val {
	for _, f := range c.facts {
		for i := 0; i < 2; i++ {
			if k, ok := f.Args[1-i].(VC); ok && k.C != nil && key(f.Args[i]) == key(v) {
				return k
			}
		}
	}
	return v
}

// contradicts: an equality that was assumed rules this one out.
func (c *Config) contradicts(t VTerm) bool {
	for _, f := range c.facts {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if eq(f.Args[i], t.Args[j]) == Yes && eq(f.Args[1-i], t.Args[1-j]) == No {
					return true
				}
			}
		}
	}
	return false
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:57] + "..."
	}
	return s
}

func (e *Engine) ret(c *Config, x *ssa.Return) []*Config {
	var v Val
	switch len(x.Results) {
	case 0:
	case 1:
		v = e.get(c, x.Results[0])
	default:
		t := VTuple{}
		for _, r := range x.Results {
			t = append(t, e.get(c, r))
		}
		v = t
	}
	fn := c.top().fn
	c.pop()
	if e.OnRet != nil {
		if v = e.OnRet(c, fn, v); v == nil && len(x.Results) > 0 {
			return nil
		}
	}
	return e.deliver(c, v)
}

// cycle reports whether states can follow one another for ever.
func (e *Engine) cycle() bool {
	color := map[string]int{}
	var visit func(k string) bool
	visit = func(k string) bool {
		color[k] = 1
		for n := range e.Edges[k] {
			if color[n] == 1 || color[n] == 0 && visit(n) {
				return true
			}
		}
		color[k] = 2
		return false
	}
	for k := range e.Edges {
		if color[k] == 0 && visit(k) {
			return true
		}
	}
	return false
}

var dbgStates func(string)
