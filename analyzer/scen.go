package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// World drives the public API of the package through the abstract interpreter:
// NewMerger, AddRules with an abstract stylesheet, Merge with an abstract input.

type World struct {
	P *Program
	E *Engine

	cache     string // "" no cache; "miss", "hit", "any"
	keepSort  bool
	props     []propDef
	sheet     []Item // rules the next ExtractRules call returns
	sheetSeq  func(c *Config) (Val, Val)
	input     []Item
	conts     []*cont
	sets      map[string][2]Val
	trims     bool
	onCacheOp func(c *Config, op string, args []Val)
}

type propDef struct {
	k     Val
	comps []Val
	many  bool
}

// cont is a finished call: the configuration it left and what it returned.
type cont struct {
	c   *Config
	ret []Val
	id  int // persistent object that keeps the results alive
}

func newWorld(p *Program, name string) *World {
	w := &World{P: p, E: newEngine(p, name), sets: map[string][2]Val{}}
	w.E.OnCall = w.onCall
	w.E.OnIface = w.onIface
	w.E.Split = w.split
	w.E.Attr = attr
	w.E.Scan = scanLaws
	w.E.OnExt = w.onExt
	return w
}

// attr is what is known about atoms of each kind.
func attr(pred string, v Val, arg string) tri {
	switch t := v.(type) {
	case VAtom:
		switch t.Kind {
		case "input":
			if pred == "eq" && arg == "" {
				return No
			}
		case "tok", "cond", "tag", "pe":
			if pred == "eq" && arg == "" {
				return No
			}
		case "prop":
			if pred == "eq" && (arg == "" || strings.HasPrefix(arg, "--")) {
				return No
			}
			if pred == "prefix" && strings.HasPrefix(arg, "--") {
				return No
			}
		case "num", "str":
			if pred == "eq" && t.Mode == Rigid {
				return No // a generic value is none of the constants it is compared with
			}
		case "val":
			if pred == "eq" && t.Mode == Rigid && arg == "" {
				return No
			}
		}
	case VTerm:
		if t.Op == concatOp && pred == "eq" && arg == "" && maybeEmpty(t) == No {
			return No
		}
		if t.Op == "trimmed" && pred == "eq" && arg == "" {
			return No
		}
	}
	return Maybe
}

// scanLaws: escaping a name and removing the escapes again gives the name. A
// scanner applied to a text that consists of escaped names and of constants
// without backslash is the scanner of the parts.
func scanLaws(c *Config, fn *ssa.Function, args []Val) (Val, bool) {
	if len(args) != 1 {
		return nil, false
	}
	a := args[0]
	if t, ok := a.(VTerm); ok && t.Op == "bytes" {
		a = t.Args[0]
	}
	if !isBasicString(fn.Signature.Results().At(0).Type()) {
		return nil, false
	}
	esc := false
	var out []Val
	for _, p := range parts(a) {
		if s, ok := constStr(p); ok {
			if strings.Contains(s, `\`) {
				return nil, false
			}
			out = append(out, p)
			continue
		}
		switch t := p.(type) {
		case VAtom:
			if t.Kind == "tok" {
				return nil, false // an unescaped name may contain escapes of its own
			}
			out = append(out, p)
			continue
		case VTerm:
			if in, ok := escaped(t); ok {
				esc = true
				out = append(out, in)
				continue
			}
			out = append(out, p)
			continue
		}
		return nil, false
	}
	if !esc {
		return nil, false
	}
	return concat(out...), true
}

func isEscapeOp(op string) bool { return op == "replacer" || strings.HasPrefix(op, "scan:") }

// escaped recognises a name to which an escaping function has been applied once.
func escaped(t VTerm) (Val, bool) {
	if !isEscapeOp(t.Op) || len(t.Args) == 0 {
		return nil, false
	}
	in := t.Args[len(t.Args)-1]
	if a, ok := in.(VAtom); ok && (a.Kind == "tok" || a.Kind == "str") {
		return in, true
	}
	return nil, false
}

func (w *World) onExt(c *Config, name string, in ssa.Instruction, args []Val) ([]*Config, bool) {
	switch name {
	case "strings.Replace", "strings.ReplaceAll":
		// removing the class name from the text of a selector that starts with it
		if name == "strings.Replace" {
			if n, ok := constInt(args[3]); !ok || n != 1 {
				break
			}
		}
		if t, ok := args[1].(VAtom); ok && t.Kind == "tok" && isRigid(t) {
			ps := parts(args[0])
			out := []Val{}
			done := false
			for _, p := range ps {
				if !done && key(p) == key(t) {
					out = append(out, args[2])
					done = true
					continue
				}
				if a, ok := p.(VAtom); ok && a.Kind == "tok" && !done {
					// another class name stands before; it may contain the name
					return nil, false
				}
				out = append(out, p)
			}
			if done {
				return w.E.deliver(c, concat(out...)), true
			}
			return nil, false
		}
	case "strings.Cut", "strings.SplitN", "strings.Contains", "strings.Index":
		// taking the text of a selector apart at the class name
		before, after, ok := cutAtName(args[0], args[1])
		if !ok {
			return nil, false
		}
		switch name {
		case "strings.Cut":
			return w.E.deliver(c, VTuple{before, after, trueVal}), true
		case "strings.SplitN":
			if n, ok := constInt(args[2]); ok && n == 2 {
				return w.E.deliver(c, c.newSeq([]Item{one(before), one(after)})), true
			}
			return nil, false
		case "strings.Contains":
			return w.E.deliver(c, trueVal), true
		}
		if s, ok := constStr(before); ok {
			return w.E.deliver(c, vint(len(s))), true
		}
		return w.E.deliver(c, mkTerm("len", before)), true
	case "strings.TrimSpace":
		if a, ok := args[0].(VAtom); ok && a.Kind == "input" {
			return w.E.deliver(c, VTerm{"trimmed", args}), true
		}
	}
	return nil, false
}

// cutAtName finds the class name tok in a text that is known in parts, with no
// other name before it.
func cutAtName(text, tok Val) (before, after Val, ok bool) {
	t, isTok := tok.(VAtom)
	if !isTok || t.Kind != "tok" || !isRigid(t) {
		return nil, nil, false
	}
	ps := parts(text)
	for i, p := range ps {
		if key(p) == key(t) {
			return concat(ps[:i]...), concat(ps[i+1:]...), true
		}
		if a, isAtom := p.(VAtom); isAtom && a.Kind == "tok" {
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// split models taking the input apart.
func (w *World) split(c *Config, name string, args []Val) (Val, bool) {
	a := args[0]
	if t, ok := a.(VTerm); ok && t.Op == "trimmed" {
		a = t.Args[0]
	}
	if t, ok := a.(VAtom); ok && t.Kind == "input" && name == "strings.Fields" {
		return c.newSeq(append([]Item(nil), w.input...)), true
	}
	if t, ok := a.(VAtom); ok && t.Kind == "input" {
		// pieces between other separators need not be classes
		return c.newSeq([]Item{gap(VAtom{"str", "piece of the input cut by " + name, Other})}), true
	}
	return nil, false
}

func (w *World) onCall(c *Config, fn *ssa.Function, in ssa.Instruction, args []Val) ([]*Config, bool) {
	switch {
	case fn == w.P.Props.Func("GetProperties"):
		m := &Obj{Kind: 'm', T: fn.Signature.Results().At(0).Type()}
		for _, p := range w.props {
			m.Ents = append(m.Ents, Ent{K: p.k, V: w.property(c, p), Must: !p.many, Many: p.many})
		}
		return w.E.deliver(c, VTuple{VMap{c.alloc(m)}, nilErr}), true
	case fn == w.P.Casc.Func("ExtractRules"):
		if w.sheetSeq != nil {
			rules, err := w.sheetSeq(c)
			return w.E.deliver(c, VTuple{rules, err}), true
		}
		return w.E.deliver(c, VTuple{c.newSeq(append([]Item(nil), w.sheet...)), nilErr}), true
	}
	return nil, false
}

var nilErr = VC{nil, types.Universe.Lookup("error").Type()}

// property builds a value of the property type: its one list of strings holds
// the longhands, all other fields are unknown.
func (w *World) property(c *Config, p propDef) Val {
	var build func(t types.Type, path string) Val
	build = func(t types.Type, path string) Val {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			s := VStruct{T: t}
			for i := 0; i < u.NumFields(); i++ {
				s.F = append(s.F, build(u.Field(i).Type(), path+"."+u.Field(i).Name()))
			}
			return s
		case *types.Slice:
			if b, ok := u.Elem().(*types.Basic); ok && b.Kind() == types.String {
				var items []Item
				for _, x := range p.comps {
					items = append(items, one(x))
				}
				return c.newSeq(items)
			}
			return VC{nil, t}
		case *types.Basic:
			if u.Kind() == types.String && strings.HasSuffix(path, ".name") {
				return p.k
			}
			if p.many {
				return VTop{"property " + path}
			}
			return VTerm{"propfield" + path, []Val{p.k}}
		}
		return VC{nil, t}
	}
	return build(w.P.Property, "")
}

func (w *World) onIface(c *Config, method string, recv Val, in ssa.Instruction, args []Val) ([]*Config, bool) {
	a, ok := recv.(VAtom)
	if !ok || a.Kind != "obj" || a.Name != "cache" {
		return nil, false
	}
	if w.onCacheOp != nil {
		w.onCacheOp(c, method, args)
	}
	switch method {
	case "Get":
		var out []*Config
		c.setGhost("got", "1")
		if w.cache == "hit" || w.cache == "any" {
			ci := c.fork()
			ci.setGhost("hit", "1")
			out = append(out, w.E.deliver(ci, VTuple{VTerm{"cached", []Val{c.freezeIf(args[0])}}, trueVal})...)
		}
		if w.cache == "miss" || w.cache == "any" {
			out = append(out, w.E.deliver(c, VTuple{vstr(""), falseVal})...)
		}
		return out, true
	case "Set":
		k := key(args[0]) + "=" + key(args[1])
		w.sets[k] = [2]Val{args[0], args[1]}
		c.setGhost("set", k)
		return w.E.deliver(c, nil), true
	case "Clear":
		c.setGhost("cleared", "1")
		return w.E.deliver(c, nil), true
	}
	return nil, false
}

// start gives the initial configuration.
func (w *World) start() []*cont { return []*cont{{c: w.E.newConfig()}} }

// call runs fn from every configuration and collects the ends.
func (w *World) call(from []*cont, fn *ssa.Function, args func(k *cont) []Val) []*cont {
	var out []*cont
	seen := map[string]bool{}
	e := w.E
	if fn == nil {
		e.problem(nil, "function to analyse not found")
		return nil
	}
	e.Entry = fn.Name()
	e.visited = map[string]bool{}
	for _, k := range from {
		e.OnFinal = func(c *Config, ret []Val) {
			// assumptions about values that are gone are of no further interest
			c2 := c.fork()
			e.nextInit++
			id := -1000 - e.nextInit
			c2.heap[id] = &Obj{Kind: 'c', V: VTuple(append([]Val(nil), ret...))}
			if k.id != 0 {
				c2.heap[k.id] = c.heap[k.id]
			}
			key := c2.stateKey()
			// the number of the object itself is no part of the state
			key = strings.ReplaceAll(key, strconv.Itoa(id), "R")
			if seen[key] {
				return
			}
			seen[key] = true
			out = append(out, &cont{c: c2, ret: ret, id: id})
		}
		k2 := *k
		k2.c = k.c.fork()
		e.Run(k2.c, fn, args(&k2)) // objects the arguments need are made in the fork
	}
	return out
}

// merger constructs a merger; the pointer is ret[0] of the result.
func (w *World) merger() []*cont {
	cacheArg := Val(VC{nil, w.P.CacheIface})
	if w.cache != "" {
		cacheArg = VAtom{"obj", "cache", Rigid}
	}
	out := w.call(w.start(), w.P.Root.Func("NewMerger"), func(*cont) []Val { return []Val{cacheArg, vbool(w.keepSort)} })
	if len(out) == 0 {
		w.E.problem(nil, "NewMerger never returns")
	}
	for _, k := range out {
		k.c.share(k.ret[0], "merger")
	}
	return out
}

// addRules adds the abstract stylesheet.
func (w *World) addRules(from []*cont, sheet func(c *Config) []Item) []*cont {
	if len(from) == 0 {
		return nil
	}
	w.sheetSeq = func(c *Config) (Val, Val) { return c.newSeq(sheet(c)), nilErr }
	out := w.call(from, w.P.method(w.P.Merger, "AddRules"), func(k *cont) []Val {
		return []Val{k.ret[0], VAtom{"obj", "reader", Rigid}, VTerm{"inline", nil}}
	})
	var res []*cont
	for i, k := range out {
		_ = i
		ok := len(k.ret) == 1 && isNil(k.ret[0])
		if !ok {
			continue
		}
		res = append(res, &cont{c: k.c, ret: from[0].ret, id: from[0].id})
		k.c.share(from[0].ret[0], "merger")
	}
	if len(res) == 0 {
		w.E.problem(nil, "AddRules never succeeds")
	}
	return res
}

// merge merges the abstract input.
func (w *World) merge(from []*cont, input []Item) []*cont {
	w.input = input
	for _, k := range from {
		k.c.assume = nil
		k.c.ghost = nil
		k.c.trace = nil
	}
	return w.call(from, w.P.method(w.P.Merger, "Merge"), func(k *cont) []Val {
		return []Val{k.ret[0], VAtom{"input", "in", Rigid}}
	})
}

// share marks everything reachable from a value as shared between calls.
func (c *Config) share(v Val, name string) {
	seen := map[int]bool{}
	var walk func(v Val, name string)
	mark := func(id int, name string, t types.Type) {
		if seen[id] {
			return
		}
		seen[id] = true
		o := c.heap[id]
		if o == nil {
			return
		}
		if o.Shared == "" {
			o = c.upd(id)
			o.Shared = name
			if o.Kind == 'c' {
				if st, ok := o.V.(VStruct); ok {
					o.T = st.T
				}
			}
		}
		switch o.Kind {
		case 'c':
			if st, ok := o.V.(VStruct); ok {
				stt, _ := st.T.Underlying().(*types.Struct)
				for i, f := range st.F {
					fn := strconv.Itoa(i)
					if stt != nil && i < stt.NumFields() {
						fn = stt.Field(i).Name()
					}
					walk(f, o.Shared+"."+fn)
				}
			} else {
				walk(o.V, o.Shared)
			}
		case 's':
			for _, it := range o.Items {
				walk(it.V, o.Shared)
			}
		case 'm':
			for _, en := range o.Ents {
				walk(en.V, o.Shared)
				walk(en.K, o.Shared)
			}
		}
	}
	walk = func(v Val, name string) {
		switch t := v.(type) {
		case VPtr:
			mark(t.Obj, name, nil)
		case VSlice:
			mark(t.Obj, name+"[]", nil)
		case VMap:
			mark(t.Obj, name+"{}", nil)
		case VStruct:
			stt, _ := t.T.Underlying().(*types.Struct)
			for i, f := range t.F {
				fn := strconv.Itoa(i)
				if stt != nil && i < stt.NumFields() {
					fn = stt.Field(i).Name()
				}
				walk(f, name+"."+fn)
			}
		case VIface:
			walk(t.V, name)
		case VTerm:
			if t.Op == "syncmap" {
				// its entries are synchronised by the map itself
				if m, ok := t.Args[0].(VMap); ok && c.heap[m.Obj] != nil {
					for _, en := range c.heap[m.Obj].Ents {
						walk(en.K, name)
						walk(en.V, name)
					}
				}
				return
			}
			for _, a := range t.Args {
				walk(a, name)
			}
		case VFunc:
			for _, a := range t.Bind {
				walk(a, name)
			}
		}
	}
	walk(v, name)
}

// ---- building rules

func (w *World) decl(p, v Val) Val {
	st := w.P.CssDecl.Underlying().(*types.Struct)
	s := VStruct{T: w.P.CssDecl}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Property":
			s.F = append(s.F, p)
		case "Value":
			s.F = append(s.F, v)
		default:
			s.F = append(s.F, zero(st.Field(i).Type()))
		}
	}
	return s
}

// rule builds a rule; cond is the condition of the enclosing at-rules ("" for none).
func (w *World) rule(c *Config, sel Val, cond Val, decls []Item) Val {
	st := w.P.CssRule.Underlying().(*types.Struct)
	s := VStruct{T: w.P.CssRule}
	condDone := false
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		switch {
		case types.Identical(ft, w.P.Sel):
			s.F = append(s.F, sel)
		case isSliceOf(ft, w.P.CssDecl):
			s.F = append(s.F, c.newSeq(append([]Item(nil), decls...)))
		case isBasicString(ft) && !condDone:
			condDone = true
			s.F = append(s.F, cond)
		default:
			if sl, ok := ft.Underlying().(*types.Slice); ok && isBasicString(sl.Elem()) && !condDone {
				condDone = true
				if e := maybeEmpty(cond); e == Yes {
					s.F = append(s.F, VC{nil, ft})
				} else {
					s.F = append(s.F, c.newSeq([]Item{one(cond)}))
				}
				continue
			}
			s.F = append(s.F, zero(ft))
		}
	}
	if !condDone {
		w.E.problem(c, "CssRule has no field for the condition of its at-rules")
	}
	return s
}

func isSliceOf(t types.Type, el types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), el)
}

func (w *World) selType(name string) *types.Named {
	for _, t := range w.P.SelTypes {
		if t.Obj().Name() == name {
			return t
		}
	}
	return nil
}

func (w *World) classSel(tok Val) Val {
	t := w.selType("ClassSelector")
	st := t.Underlying().(*types.Struct)
	s := VStruct{T: t}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Class" {
			s.F = append(s.F, tok)
		} else {
			s.F = append(s.F, zero(st.Field(i).Type()))
		}
	}
	return VIface{t, s}
}

// compound builds a CompoundSelector from its parts and pseudo-element.
func (w *World) compound(c *Config, pe Val, subs ...Val) Val {
	t := w.selType("CompoundSelector")
	st, ok := t.Underlying().(*types.Struct)
	s := VStruct{T: t}
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			switch {
			case isSliceOf(ft, w.P.Sel):
				var items []Item
				for _, x := range subs {
					items = append(items, one(x))
				}
				s.F = append(s.F, c.newSeq(items))
			case isBasicString(ft):
				s.F = append(s.F, pe)
			default:
				s.F = append(s.F, zero(ft))
			}
		}
	}
	return VIface{t, s}
}

func (w *World) combined(c *Config, first Val, comb byte, second Val) Val {
	t := w.selType("CombinedSelector")
	st, ok := t.Underlying().(*types.Struct)
	s := VStruct{T: t}
	n := 0
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			b, basic := ft.Underlying().(*types.Basic)
			switch {
			case types.Identical(ft, w.P.Sel):
				if n == 0 {
					s.F = append(s.F, first)
				} else {
					s.F = append(s.F, second)
				}
				n++
			case basic && b.Info()&types.IsInteger != 0:
				s.F = append(s.F, VC{vint(int(comb)).(VC).C, ft})
			default:
				s.F = append(s.F, zero(ft))
			}
		}
	}
	return VIface{t, s}
}

// instance builds a selector of any other kind. Fields hold generic values;
// vary names a field that gets a different value.
func (w *World) instance(c *Config, t *types.Named, vary string) Val {
	return VIface{t, w.instVal(c, t, t.Obj().Name(), vary, 0)}
}

func (w *World) instVal(c *Config, t types.Type, path, vary string, d int) Val {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return w.fieldVal(c, t, path, vary == path, d)
	}
	s := VStruct{T: t}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		p := path + "." + f.Name()
		if f.Embedded() {
			s.F = append(s.F, w.instVal(c, f.Type(), p, vary, d+1))
			continue
		}
		s.F = append(s.F, w.fieldVal(c, f.Type(), p, vary == p, d))
	}
	return s
}

func (w *World) fieldVal(c *Config, t types.Type, path string, varied bool, d int) Val {
	id := path
	if varied {
		id += "'"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VC{vbool(varied).(VC).C, t}
		case u.Info()&types.IsString != 0:
			return VAtom{"str", id, Rigid}
		default:
			return VAtom{"num", id, Rigid}
		}
	case *types.Slice:
		if types.Identical(u.Elem(), w.P.Sel) {
			return c.newSeq([]Item{one(w.instance(c, w.selType("IdSelector"), map[bool]string{true: "IdSelector.id", false: ""}[varied]))})
		}
	case *types.Interface:
		if types.Identical(t, w.P.Sel) {
			return w.instance(c, w.selType("IdSelector"), map[bool]string{true: "IdSelector.id", false: ""}[varied])
		}
	case *types.Pointer:
		return VTerm{"nn:ptr:" + id, nil}
	}
	return zero(t)
}

// ---- reading results

type outTok struct {
	v        Val
	min, max int
}

const inputItself = "the result is the input itself"

// result lists the classes of a merge result. fmtOK is false if something else
// than classes and single spaces is in it.
func (w *World) result(ret []Val) (toks []outTok, exactFmt bool, bad string) {
	if len(ret) != 1 {
		return nil, false, "no result"
	}
	v := ret[0]
	exactFmt = true
	var piece func(v Val, min, max int)
	piece = func(v Val, min, max int) {
		switch t := v.(type) {
		case VC:
			s, ok := constStr(t)
			if !ok || s != "" && s != " " {
				bad = "the result contains the constant text " + key(t)
			}
		case VAtom:
			if t.Kind == "input" {
				for _, it := range w.input {
					toks = append(toks, outTok{it.V, it.Min, it.Max})
				}
				if n, ok := exactLen(&Obj{Items: w.input}); !ok || n > 1 {
					bad = inputItself
				}
				return
			}
			toks = append(toks, outTok{t, min, max})
			if t.Kind != "tok" {
				bad = "the result contains " + key(t) + ", which is not one of the input classes"
			}
		case VTerm:
			switch {
			case t.Op == concatOp:
				for _, a := range t.Args {
					piece(a, min, max)
				}
			case t.Op == "rep":
				for _, a := range t.Args {
					piece(a, 0, many)
				}
			case t.Op == "join":
				if s, ok := constStr(t.Args[0]); !ok || s != " " {
					bad = "classes are joined by " + key(t.Args[0]) + " instead of a single space"
				}
				if o := w.thawList(t.Args[1]); o != nil {
					for _, it := range o.Items {
						piece(it.V, it.Min*min, it.Max)
					}
				} else {
					bad = "the result joins an unknown list"
				}
			default:
				bad = "the result contains " + clip(key(t)) + ", which is not one of the input classes"
			}
		default:
			bad = "the result contains a part that cannot be traced back to the input (" + clip(key(v)) + ")"
		}
	}
	piece(v, 1, 1)
	return toks, exactFmt, bad
}

// spacing: nothing but single spaces stands between the pieces of a result, and
// nothing before the first and after the last one. Only for an input in which
// every class is named: among any number of classes a position may be unknown,
// and with it whether a space is written before the class there.
func spacing(v Val) string {
	ps := parts(v)
	kind := func(i int) byte { // of piece i: s(pace), c(lass) or ?
		if i < 0 || i >= len(ps) {
			return 'e'
		}
		switch t := ps[i].(type) {
		case VC:
			if s, ok := constStr(t); ok && s == " " {
				return 's'
			}
		case VAtom:
			if t.Kind == "tok" {
				return 'c'
			}
		}
		return '?'
	}
	for i := range ps {
		a, b := kind(i), kind(i+1)
		switch {
		case i == 0 && a == 's':
			return "the result begins with a space"
		case a == 's' && b == 'e':
			return "the result ends with a space"
		case a == 's' && b == 's':
			return "classes are separated by more than one space"
		case a == 'c' && b == 'c':
			return "classes are not separated by a space"
		}
	}
	return ""
}

func (w *World) thawList(v Val) *Obj { return (&Config{}).thaw(v) }

// presence of a class in a result.
func presence(toks []outTok, t Val) tri {
	r := No
	for _, x := range toks {
		switch eq(x.v, t) {
		case Yes:
			if x.min > 0 {
				return Yes
			}
			r = Maybe
		case Maybe:
			r = Maybe
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = fmt.Sprint
