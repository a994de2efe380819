package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The parser is interpreted over an arbitrary text: what scans characters in a
// loop is replaced by an arbitrary result, what is compared with constants splits
// the analysis into cases. The selectors it may construct, each with the
// comparisons that held when it was made, are collected.

type construct struct {
	T     *types.Named
	V     VStruct
	Facts []VTerm
	Site  string
}

func (k construct) String() string {
	var fs []string
	for _, f := range k.Facts {
		fs = append(fs, key(f))
	}
	n := "pseudo-element"
	if k.T != nil {
		n = k.T.Obj().Name()
	}
	return n + " " + key(k.V) + " if " + strings.Join(fs, " && ")
}

type harvest struct {
	x       *Ctx
	e       *Engine
	loops   map[*ssa.Function]bool
	seen    map[string]construct
	entries map[*ssa.Function]bool // interpreted on their own
	lost    map[string]string      // names accepted without a selector
}

func (h *harvest) hasLoop(fn *ssa.Function) bool {
	if r, ok := h.loops[fn]; ok {
		return r
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	r := false
	for _, b := range fn.Blocks {
		if cyclic(all, b) {
			r = true
		}
	}
	h.loops[fn] = r
	return r
}

// givesSel: the function returns selectors.
func (h *harvest) givesSel(fn *ssa.Function) bool { return h.gives(fn.Signature) }

func (h *harvest) gives(sig *types.Signature) bool {
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		if h.isSelish(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func (h *harvest) isSelish(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	iface := h.x.P.Sel.Underlying().(*types.Interface)
	return types.Implements(t, iface)
}

func (h *harvest) fresh(c *Config, t types.Type, name string) Val {
	if types.Identical(t, h.x.P.Sel) {
		return anyPart
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if h.isSelish(t) {
			return c.newSeq([]Item{one(anyPart), gap(VAtom{"obj", "part", Rigid})})
		}
	case *types.Struct:
		s := VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, h.fresh(c, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	}
	return VTerm{"lex:" + name, nil}
}

// forget drops what is known about values made at a place.
func (h *harvest) forget(c *Config, mark string) {
	for k := range c.assume {
		if strings.Contains(k, mark) {
			delete(c.assume, k)
		}
	}
	var fs []VTerm
	for _, f := range c.facts {
		if !strings.Contains(key(f), mark) {
			fs = append(fs, f)
		}
	}
	c.facts = fs
}

// summary: the call gives an arbitrary result and moves the position.
func (h *harvest) summary(c *Config, sig *types.Signature, name string, in ssa.Instruction, args []Val) []*Config {
	mark := name + "@" + h.x.P.instrPos(in) + ";"
	h.forget(c, mark)
	for _, a := range args {
		p, ok := a.(VPtr)
		if !ok || c.heap[p.Obj] == nil {
			continue
		}
		o := c.upd(p.Obj)
		if st, ok := project(o.V, p.Path).(VStruct); ok {
			n := st
			n.F = append([]Val(nil), st.F...)
			if u, ok := st.T.Underlying().(*types.Struct); ok {
				for i := range n.F {
					if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						n.F[i] = VTerm{"lex:" + u.Field(i).Name() + "." + mark, nil}
					}
				}
			}
			o.V = inject(o.V, p.Path, n)
		} else {
			o.V = inject(o.V, p.Path, VTerm{"lex:*." + mark, nil})
		}
	}
	res := sig.Results()
	n := res.Len()
	if n == 0 {
		return h.e.deliver(c, nil)
	}
	var t VTuple
	for i := 0; i < n; i++ {
		rt := res.At(i).Type()
		if isErrorType(rt) {
			t = append(t, VC{nil, rt}) // an error ends the parse (C18)
		} else {
			t = append(t, h.fresh(c, rt, fmt.Sprint(i)+"."+mark))
		}
	}
	if n == 1 {
		return h.e.deliver(c, t[0])
	}
	if h.gives(sig) {
		// a selector or the name of a pseudo-element
		alt := append(VTuple(nil), t...)
		two := false
		for i := range t {
			if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				t[i], alt[i] = vstr(""), anyElement
				two = true
			} else if types.IsInterface(res.At(i).Type()) && !isErrorType(res.At(i).Type()) {
				alt[i] = VC{nil, res.At(i).Type()}
			}
		}
		if two {
			d := c.fork()
			return append(h.e.deliver(c, t), h.e.deliver(d, alt)...)
		}
	}
	return h.e.deliver(c, t)
}

var lexMark = regexp.MustCompile(`@[^;]*;`)

// purge drops what is known about values that are no longer there.
func (h *harvest) purge(c *Config, ret Val) {
	var live strings.Builder
	k := &keyer{ids: map[int]int{}}
	if ret != nil {
		ret.wr(k, &live)
	}
	for _, f := range c.frames {
		for _, v := range f.regs {
			v.wr(k, &live)
		}
	}
	for i := 0; i < len(k.queue); i++ {
		if o := c.heap[k.queue[i]]; o != nil {
			o.wr(k, &live)
		}
	}
	alive := map[string]bool{}
	for _, m := range lexMark.FindAllString(live.String(), -1) {
		alive[m] = true
	}
	keep := func(s string) bool {
		for _, m := range lexMark.FindAllString(s, -1) {
			if !alive[m] {
				return false
			}
		}
		return true
	}
	for a := range c.assume {
		if !keep(a) {
			delete(c.assume, a)
		}
	}
	var fs []VTerm
	for _, f := range c.facts {
		if keep(key(f)) {
			fs = append(fs, f)
		}
	}
	c.facts = fs
}

// harvestSelectors interprets the exported parse functions.
func (x *Ctx) harvestSelectors(h *harvest) {
	h.x, h.loops, h.seen, h.entries = x, map[*ssa.Function]bool{}, map[string]construct{}, map[*ssa.Function]bool{}
	h.lost = map[string]string{}
	w := newWorld(x.P, "selectors the parser makes")
	e := w.E
	h.e = e
	e.Text = true
	e.OnCall = func(c *Config, fn *ssa.Function, in ssa.Instruction, args []Val) ([]*Config, bool) {
		if len(fn.Blocks) == 0 || !x.P.inModule(fn) {
			return nil, false
		}
		if h.givesSel(fn) {
			if h.hasLoop(fn) {
				h.entries[fn] = true
				return h.summary(c, fn.Signature, fn.Name(), in, args), true
			}
			for _, f := range c.frames {
				if f.fn == fn {
					return h.summary(c, fn.Signature, fn.Name(), in, args), true
				}
			}
			return nil, false
		}
		if x.P.isScanner(fn) {
			return nil, false
		}
		if h.hasLoop(fn) && !looksUp(fn) || givesNumber(fn.Signature) {
			return h.summary(c, fn.Signature, fn.Name(), in, args), true
		}
		return nil, false
	}
	e.OnExt = func(c *Config, name string, in ssa.Instruction, args []Val) ([]*Config, bool) {
		if zNonNilName(name) && name != "regexp.MustCompile" {
			if _, ok := in.Block().Instrs[len(in.Block().Instrs)-1].(*ssa.Return); ok {
				return nil, true
			}
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			sig := ci.Common().Signature()
			if n := sig.Results().Len(); n > 1 && isErrorType(sig.Results().At(n-1).Type()) {
				return h.summary(c, sig, name, in, nil), true
			}
		}
		return nil, false
	}
	e.OnRet = func(c *Config, fn *ssa.Function, v Val) Val {
		if !h.givesSel(fn) {
			return v
		}
		if h.failed(v, fn) {
			return nil // the error ends the parse (C18)
		}
		if t, ok := v.(VTuple); ok {
			n := append(VTuple(nil), t...)
			for i := range n {
				b, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsString == 0 {
					continue
				}
				r := h.resolve(c.facts, n[i])
				if k, ok := r.(VC); ok && constant.StringVal(k.C) == "" {
					n[i] = r
					continue
				}
				if len(c.frames) == 0 || key(r) != key(anyElement) {
					h.addElement(c, r, fn)
				}
				n[i] = anyElement
			}
			v = n
		}
		h.dropped(c, v, fn)
		v = h.record(c, v, fn)
		if len(c.frames) > 0 {
			c.pruneTop()
			h.anywhere(c)
			h.purge(c, v)
		}
		return v
	}
	iface := x.P.Sel.Underlying().(*types.Interface)
	e.OnMake = func(c *Config, in *ssa.MakeInterface, v Val) (Val, bool) {
		t, ok := in.X.Type().(*types.Named)
		if !ok || !types.Identical(in.Type(), x.P.Sel) || !types.Implements(t, iface) {
			return nil, false
		}
		st, ok := v.(VStruct)
		if !ok {
			return nil, false
		}
		for _, f := range c.frames {
			if f.fn.Name() == "init" || strings.HasPrefix(f.fn.Name(), "init#") {
				return nil, false
			}
		}
		h.add(c, t, st, h.x.P.instrPos(in))
		c.pruneTop()
		h.purge(c, nil)
		return anyPart, true
	}
	done := map[*ssa.Function]bool{}
	for _, root := range parseRoots(x.P) {
		h.entries[root] = true
	}
	for {
		var next *ssa.Function
		for fn := range h.entries {
			if !done[fn] && (next == nil || fn.String() < next.String()) {
				next = fn
			}
		}
		if next == nil {
			return
		}
		done[next] = true
		h.enter(w, next)
	}
}

// looksUp: the function finds out whether a text or number is in some list; it
// does not look into the text.
func looksUp(fn *ssa.Function) bool {
	if r := fn.Signature.Results(); r.Len() != 1 || !types.Identical(r.At(0).Type().Underlying(), types.Typ[types.Bool]) {
		return false
	}
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	text := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Slice, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Convert:
				if s, ok := t.(*ssa.Store); ok {
					if _, ok := s.Addr.(*ssa.IndexAddr); ok {
						continue // the list
					}
				}
				if s, ok := t.(*ssa.Slice); ok && !text(s.X.Type()) {
					continue
				}
				return false
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || text(t.Call.Args[0].Type()) {
					return false
				}
			case *ssa.Range:
				if text(t.X.Type()) {
					return false
				}
			case *ssa.Lookup:
				if text(t.X.Type()) {
					return false
				}
			case *ssa.Index:
				if text(t.X.Type()) {
					return false
				}
			}
		}
	}
	return true
}

// givesNumber: a number or an error.
func givesNumber(sig *types.Signature) bool {
	num, err := false, false
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			num = true
		}
		err = err || isErrorType(t)
	}
	return num && err
}

// entryName: what is known about texts that come in is never dropped.
func (h *harvest) entryName(name string, t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return name
	}
	return name + "@entry;"
}

// enter interprets a function with arbitrary arguments.
func (h *harvest) enter(w *World, fn *ssa.Function) {
	w.call(w.start(), fn, func(k *cont) []Val {
		var args []Val
		for i, p := range fn.Params {
			name := fmt.Sprintf("arg%d", i)
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
					v := VStruct{T: pt.Elem()}
					for j := 0; j < st.NumFields(); j++ {
						v.F = append(v.F, h.fresh(k.c, st.Field(j).Type(), h.entryName(st.Field(j).Name(), st.Field(j).Type())))
					}
					args = append(args, VPtr{Obj: k.c.alloc(&Obj{Kind: 'v', T: pt.Elem(), V: v})})
					continue
				}
			}
			args = append(args, h.fresh(k.c, p.Type(), h.entryName(name, p.Type())))
		}
		return args
	})
}

func (h *harvest) add(c *Config, t *types.Named, v VStruct, site string) {
	if len(v.F) > 0 && key(v.F[0]) == key(made) {
		return
	}
	var clean func(v Val) Val
	clean = func(v Val) Val {
		switch u := v.(type) {
		case VSlice:
			return VAtom{"list", "parts", Rigid}
		case VStruct:
			n := VStruct{T: u.T}
			for _, f := range u.F {
				n.F = append(n.F, clean(f))
			}
			return n
		}
		return h.resolve(c.facts, v)
	}
	k := construct{t, clean(v).(VStruct), h.factsOf(c), site}
	h.seen[k.String()] = k
}

// failed: the function returns an error.
func (h *harvest) failed(v Val, fn *ssa.Function) bool {
	t, ok := v.(VTuple)
	if !ok {
		return false
	}
	for i, r := range t {
		if isErrorType(fn.Signature.Results().At(i).Type()) && eq(r, VC{nil, nil}) == No {
			return true
		}
	}
	return false
}

// dropped: a name was recognised, but nothing comes of it.
func (h *harvest) dropped(c *Config, v Val, fn *ssa.Function) {
	t, ok := v.(VTuple)
	if !ok {
		t = VTuple{v}
	}
	k := construct{Facts: h.factsOf(c)}
	names := sortedKeys(k.said(nameFact))
	if len(names) == 0 {
		return
	}
	none := false
	for i, r := range t {
		rt := fn.Signature.Results().At(i).Type()
		switch {
		case isErrorType(rt):
		case isNil(r):
			none = true
		default:
			if s, ok := constStr(r); !ok || s != "" {
				return
			}
		}
	}
	if none {
		for _, n := range names {
			h.lost[n] = h.x.P.pos(fn.Pos())
		}
	}
}

// record records the selectors a function returns.
func (h *harvest) record(c *Config, v Val, fn *ssa.Function) Val {
	iface := h.x.P.Sel.Underlying().(*types.Interface)
	switch u := v.(type) {
	case VTuple:
		n := VTuple{}
		for _, f := range u {
			n = append(n, h.record(c, f, fn))
		}
		return n
	case VIface:
		if t, ok := u.T.(*types.Named); ok && types.Implements(t, iface) {
			if st, ok := u.V.(VStruct); ok {
				h.add(c, t, st, h.x.P.pos(fn.Pos()))
				return anyPart
			}
		}
	case VStruct:
		if t, ok := u.T.(*types.Named); ok && types.Implements(t, iface) && len(u.F) > 0 {
			h.add(c, t, u, h.x.P.pos(fn.Pos()))
			n := VStruct{T: u.T}
			for range u.F {
				n.F = append(n.F, made)
			}
			return n
		}
	}
	return v
}

// anywhere forgets where in the text the parser is.
func (h *harvest) anywhere(c *Config) {
	h.forget(c, "@next;")
	for id, o := range c.heap {
		st, ok := o.V.(VStruct)
		if !ok {
			continue
		}
		u, ok := st.T.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		n := VStruct{T: st.T, F: append([]Val(nil), st.F...)}
		changed := false
		for i := range n.F {
			if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && strings.Contains(key(n.F[i]), "lex:") {
				n.F[i] = VTerm{"lex:" + u.Field(i).Name() + "@next;", nil}
				changed = true
			}
		}
		if changed {
			c.upd(id).V = n
		}
	}
}

// anyElement is any name of a pseudo-element the parser gives.
var anyElement Val = VAtom{"pe", "any", Rigid}

// made marks the fields of a selector that has been recorded.
var made Val = VAtom{"obj", "made", Rigid}

// addElement records the name of a pseudo-element.
func (h *harvest) addElement(c *Config, v Val, fn *ssa.Function) {
	k := construct{nil, VStruct{F: []Val{v}}, nil, fn.String()}
	k.Facts = h.factsOf(c)
	h.seen[k.String()] = k
}

func (h *harvest) factsOf(c *Config) []VTerm {
	fs := append([]VTerm(nil), c.facts...)
	sort.Slice(fs, func(i, j int) bool { return key(fs[i]) < key(fs[j]) })
	return fs
}

// resolve replaces what is known to equal a constant.
func (h *harvest) resolve(facts []VTerm, v Val) Val {
	for _, f := range facts {
		for i := 0; i < 2; i++ {
			if k, ok := f.Args[1-i].(VC); ok && k.C != nil && key(f.Args[i]) == key(v) {
				return k
			}
		}
	}
	if st, ok := v.(VStruct); ok {
		n := VStruct{T: st.T}
		for _, f := range st.F {
			n.F = append(n.F, h.resolve(facts, f))
		}
		return n
	}
	t, ok := v.(VTerm)
	if !ok || len(t.Args) == 0 {
		return v
	}
	var args []Val
	for _, a := range t.Args {
		args = append(args, h.resolve(facts, a))
	}
	switch t.Op {
	case "==":
		switch eq(args[0], args[1]) {
		case Yes:
			return trueVal
		case No:
			return falseVal
		}
	case "!":
		if b, ok := constBool(args[0]); ok {
			return vbool(!b)
		}
	case concatOp:
		return concat(args...)
	}
	return VTerm{t.Op, args}
}

// printed is one text a construct may be written as.
type printed struct {
	k     construct
	n     int // parts of lists
	parts []Val
	V     VStruct // with what is known on the path resolved
}

// instantiate puts n distinct parts in lists and one for every single part.
func instantiate(c *Config, v Val, n int, next *int) Val {
	part := func() Val {
		*next++
		return VAtom{"obj", fmt.Sprintf("part%d", *next-1), Rigid}
	}
	switch u := v.(type) {
	case VStruct:
		o := VStruct{T: u.T}
		for _, f := range u.F {
			o.F = append(o.F, instantiate(c, f, n, next))
		}
		return o
	case VAtom:
		if u.Kind == "list" {
			var items []Item
			for i := 0; i < n; i++ {
				items = append(items, one(part()))
			}
			return c.newSeq(items)
		}
		if key(u) == key(anyPart) {
			return part()
		}
	}
	return v
}

// print interprets the String method of a construct.
func (h *harvest) print(w *World, k construct, n int) []printed {
	var out []printed
	fn := h.x.P.method(k.T, "String")
	if fn == nil {
		return nil
	}
	for _, o := range w.call(w.start(), fn, func(kc *cont) []Val {
		next := 0
		if k.V.T == nil {
			return []Val{instantiate(kc.c, VAtom{"list", "parts", Rigid}, n, &next)}
		}
		return []Val{instantiate(kc.c, k.V, n, &next)}
	}) {
		if len(o.ret) != 1 {
			continue
		}
		pr := printed{k: k, n: n, parts: parts(o.ret[0])}
		pr.V, _ = h.resolve(o.c.facts, k.V).(VStruct)
		out = append(out, pr)
	}
	return out
}

var (
	nameFact = regexp.MustCompile(`^-?[a-z][a-z-]+$`)
	opFact   = regexp.MustCompile(`^[^a-z0-9\s]?=$`)
	pseudoRe = regexp.MustCompile(`^(::?)([a-zA-Z-]+)(.*)$`)
)

// said gives the constants some part of the text was compared with.
func (k construct) said(re *regexp.Regexp) map[string]bool {
	out := map[string]bool{}
	for _, f := range k.Facts {
		for i := 0; i < 2 && len(f.Args) == 2; i++ {
			if s, ok := constStr(f.Args[i]); ok && re.MatchString(s) && strings.Contains(key(f.Args[1-i]), "lex:") {
				out[s] = true
			}
		}
	}
	return out
}

// chars gives the characters found in the text, with repetitions.
func (k construct) chars() []int64 {
	var out []int64
	for _, f := range k.Facts {
		for i := 0; i < 2 && len(f.Args) == 2; i++ {
			t, ok := f.Args[1-i].(VTerm)
			if n, isInt := constInt(f.Args[i]); isInt && ok && t.Op == "char" {
				out = append(out, int64(n))
			}
		}
	}
	return out
}

func (k construct) colons() int {
	n := 0
	for _, c := range k.chars() {
		if c == ':' {
			n++
		}
	}
	return n
}

// abstracted writes a value with the places of the arguments in it left open.
func abstracted(v Val) string {
	switch u := v.(type) {
	case VStruct:
		var fs []string
		for _, f := range u.F {
			fs = append(fs, abstracted(f))
		}
		return "{" + strings.Join(fs, ",") + "}"
	case VC:
		return key(u)
	}
	if isNil(v) {
		return "nil"
	}
	return "*"
}

// leaves visits the fields of a construct that are arguments.
func leaves(v Val, path string, f func(path string, v Val)) {
	switch u := v.(type) {
	case VStruct:
		for i, x := range u.F {
			leaves(x, fmt.Sprintf("%s.%d", path, i), f)
		}
	case VC:
	default:
		if !isNil(v) {
			f(path, v)
		}
	}
}

func constOnly(v Val) bool {
	ok := true
	leaves(v, "", func(string, Val) { ok = false })
	return ok
}

// skeleton writes a text with its arguments replaced by their places.
func (p printed) skeleton() string {
	var b strings.Builder
	for _, t := range p.parts {
		if s, ok := constStr(t); ok {
			b.WriteString(strings.Join(strings.Fields(" "+s+" "), " "))
			continue
		}
		name := "?"
		leaves(p.V, "", func(path string, v Val) {
			if strings.Contains(key(t), key(v)) {
				name = path
			}
		})
		if a, ok := t.(VAtom); ok {
			name = a.Name
		}
		b.WriteString("<" + name + ">")
	}
	return b.String()
}

func (p printed) text() string {
	var b strings.Builder
	for _, t := range p.parts {
		if s, ok := constStr(t); ok {
			b.WriteString(s)
		} else {
			b.WriteString("…")
		}
	}
	return b.String()
}

// lead gives the constant the text begins with, tail the one it ends with.
func (p printed) lead() string {
	if len(p.parts) > 0 {
		if s, ok := constStr(p.parts[0]); ok {
			return s
		}
	}
	return ""
}

func (p printed) tail() string {
	if len(p.parts) > 0 {
		if s, ok := constStr(p.parts[len(p.parts)-1]); ok {
			return s
		}
	}
	return ""
}

// escapes: the value is a text in which quotation marks and backslashes are escaped.
func escapes(v Val) bool {
	k := key(v)
	if t, ok := v.(VTerm); ok && t.Op == "replacer" && strings.Contains(key(t.Args[0]), "global:") {
		return true
	}
	return strings.Contains(k, `c"\\\\"`) && strings.Contains(k, `c"\\\""`)
}

func unknown(v Val) bool {
	k := key(v)
	return isTop(v) || strings.Contains(k, "?") && !strings.Contains(k, "lex:")
}

// faithful gives the text or number a printed part shows completely.
func faithful(v Val) Val {
	for {
		t, ok := v.(VTerm)
		if !ok {
			return v
		}
		switch t.Op {
		case "replacer":
			v = t.Args[1]
		case "strconv.Itoa", "strconv.Quote", "strconv.FormatInt", "(*regexp.Regexp).String", "str", "quote", "escape", "conv":
			v = t.Args[0]
		case "strings.ReplaceAll":
			// only one character by a longer text that holds it or is an escape
			from, ok1 := constStr(t.Args[1])
			to, ok2 := constStr(t.Args[2])
			if !ok1 || !ok2 || len(from) != 1 || !strings.HasPrefix(to, `\`) {
				return v
			}
			v = t.Args[0]
		default:
			if !strings.HasPrefix(t.Op, "padded integer ") {
				return v
			}
			v = t.Args[0]
		}
	}
}

type judge struct {
	h     *harvest
	names map[string][]construct // constructs by the name compared
	ops   map[string]bool
	elems map[string][]construct
	two   bool // two colons in a row are told apart from one
}

// args: everything that was given is in the text, in order.
func (j *judge) args(p printed) string {
	missing := ""
	blind := false
	for _, t := range p.parts {
		blind = blind || unknown(t)
	}
	leaves(p.V, "", func(path string, v Val) {
		if a, ok := v.(VAtom); ok && (a.Kind == "list" || key(a) == key(anyPart)) {
			return
		}
		for _, t := range p.parts {
			if key(faithful(t)) == key(v) {
				return
			}
		}
		if !blind {
			missing = "an argument that was parsed is not in the text " + p.text()
		}
	})
	if missing != "" {
		return missing
	}
	var seen []string
	for _, t := range p.parts {
		if a, ok := t.(VAtom); ok && a.Kind == "str" && strings.HasPrefix(a.Name, "part") {
			seen = append(seen, a.Name)
		}
	}
	if want := countParts(p.k.V, p.n, p.k.V.T == nil); len(seen) != want {
		return fmt.Sprintf("%d of %d parts are in the text %s", len(seen), want, p.text())
	}
	for i, n := range seen {
		if n != fmt.Sprintf("part%d", i) {
			return "the parts are not in order in the text"
		}
	}
	return ""
}

func countParts(v Val, n int, list bool) int {
	if list {
		return n
	}
	c := 0
	leaves(v, "", func(_ string, v Val) {
		if a, ok := v.(VAtom); ok && a.Kind == "list" {
			c += n
		} else if key(v) == key(anyPart) {
			c++
		}
	})
	return c
}

// between gives the constants between the parts of a list.
func (p printed) between() []string {
	var out []string
	for i := 1; i+1 < len(p.parts); i++ {
		s, ok := constStr(p.parts[i])
		_, a := p.parts[i-1].(VAtom)
		_, b := p.parts[i+1].(VAtom)
		if ok && a && b {
			out = append(out, s)
		}
	}
	return out
}

func (j *judge) pseudo(p printed, names map[string]bool) string {
	m := pseudoRe.FindStringSubmatch(p.lead())
	if m == nil {
		return "the text " + p.text() + " does not begin with a name"
	}
	n := strings.ToLower(m[2])
	kinds, accepted := j.names[n]
	if !accepted {
		return fmt.Sprintf("it is written as %s, a name the parser does not know", p.text())
	}
	if !names[n] {
		// another name for the same value
		same := false
		for _, k := range kinds {
			if constOnly(p.V) && k.T == p.k.T && key(k.V) == key(p.V) {
				same = true
			}
		}
		if !same || constOnly(p.k.V) {
			return fmt.Sprintf("what is read as :%s is written as %s", strings.Join(sortedKeys(names), " or :"), p.text())
		}
	}
	if j.two {
		one, two := false, false
		for _, k := range kinds {
			one = one || k.colons() < 2
			two = two || k.colons() > 1
		}
		if m[1] == ":" && !one || m[1] == "::" && !two {
			return fmt.Sprintf("the parser does not accept %s%s", m[1], n)
		}
	}
	// the arguments are in parentheses, and nothing else follows
	rest := m[3]
	if len(p.parts) == 1 {
		if constOnly(p.V) && rest == "" {
			return ""
		}
		if !(strings.HasPrefix(rest, "(") && strings.HasSuffix(rest, ")")) {
			return "the text " + p.text() + " goes on after the name"
		}
		return ""
	}
	if !strings.HasPrefix(rest, "(") || !strings.HasSuffix(p.tail(), ")") {
		return "the arguments are not in parentheses: " + p.text()
	}
	for _, s := range p.between() {
		if strings.TrimSpace(s) != "," {
			return fmt.Sprintf("arguments are separated by %q", s)
		}
	}
	return j.quoted(p)
}

// quoted: what stands between quotation marks is escaped.
func (j *judge) quoted(p printed) string {
	for i := 1; i+1 < len(p.parts); i++ {
		a, ok1 := constStr(p.parts[i-1])
		b, ok2 := constStr(p.parts[i+1])
		if !ok1 || !ok2 || a == "" || b == "" || a[len(a)-1] != b[0] || !strings.Contains(`"'`, b[:1]) {
			continue
		}
		if !escapes(p.parts[i]) && !unknown(p.parts[i]) {
			return "a quotation mark or backslash in the quoted argument is not escaped: " + p.text()
		}
	}
	return ""
}

func (j *judge) attribute(p printed, variants []construct) string {
	if !strings.HasPrefix(p.lead(), "[") || !strings.HasSuffix(p.tail(), "]") {
		return "the text " + p.text() + " is not in brackets"
	}
	if strings.TrimSpace(p.lead()) != "[" || len(p.parts) < 3 {
		return "the key does not come first in " + p.text()
	}
	ops := p.k.said(opFact)
	if len(ops) == 0 {
		for _, c := range p.k.chars() {
			if c == '=' {
				ops["="] = true
			}
		}
	}
	mid, ok := constStr(p.parts[2])
	if !ok {
		return "no operator in " + p.text()
	}
	if len(ops) == 0 {
		if strings.Trim(mid, " ]") != "" || len(p.parts) != 3 {
			return "the text " + p.text() + " has an operator that was not in the selector"
		}
		return ""
	}
	mid = strings.TrimRight(strings.TrimSpace(mid), "\"'")
	if !ops[mid] {
		return fmt.Sprintf("the operator %s is written as %q", strings.Join(sortedKeys(ops), " or "), mid)
	}
	if len(p.parts) < 5 {
		return "no value in " + p.text()
	}
	flag := strings.Trim(strings.TrimSuffix(p.tail(), "]"), "\"' ")
	read := map[string]bool{}
	always := true
	for _, k := range variants {
		has := false
		for _, c := range k.chars() {
			if c < 128 && unicode.IsLetter(rune(c)) {
				read[strings.ToLower(string(rune(c)))] = true
				has = true
			}
		}
		always = always && has
	}
	if flag != "" && !read[strings.ToLower(flag)] {
		return fmt.Sprintf("the text %s has the flag %s, which is not read back", p.text(), flag)
	}
	if flag == "" && always && len(variants) > 0 {
		return "the flag " + strings.Join(sortedKeys(read), "/") + " is not in the text " + p.text()
	}
	return j.quoted(p)
}

func checkC19(x *Ctx) {
	const r1, r2, r3 = "written by the name it was read by", "different constructs have different texts", "everything that was read is written"
	x.rule("Abstract interpretation of the selector parser over an arbitrary text (functions that scan characters give arbitrary results): every selector value it can make is collected with the comparisons that led to it, that is with the names, operators and characters it was read by. " +
		"The String method of every such value is interpreted abstractly with arbitrary arguments: its text begins with a name under which the parser makes the same value, holds every argument and part in order, operators, flags and combinators as they were read, quoted arguments are escaped, and no two different values have the same text up to their arguments.")
	x.assume("texts that are put together character by character are written as intended; scanning functions recognise what they are meant to")
	x.assume("characters inside names and arguments are read back as they are written (C31)")
	x.rule("An id keeps its case: no function that computes the name stored in an id selector changes the case of text or characters.")
	for _, t := range x.P.SelTypes {
		if t.Obj().Name() == "IdSelector" {
			x.keepsCase("IdSelector", "id")
		}
	}
	h := &harvest{}
	x.harvestSelectors(h)
	x.absorb("the parser over an arbitrary text", h.e)
	j := &judge{h, map[string][]construct{}, map[string]bool{}, map[string][]construct{}, false}
	variants := map[string][]construct{}
	for _, id := range sortedKeys(h.seen) {
		k := h.seen[id]
		if k.colons() > 1 {
			j.two = true
		}
		for n := range k.said(nameFact) {
			if k.T == nil {
				j.elems[n] = append(j.elems[n], k)
			} else {
				j.names[n] = append(j.names[n], k)
			}
		}
		if k.T != nil {
			v := k.T.Obj().Name() + abstracted(k.V)
			variants[v] = append(variants[v], k)
		}
	}
	w := newWorld(x.P, "texts of selectors")
	w.E.OnIface = func(c *Config, method string, recv Val, in ssa.Instruction, _ []Val) ([]*Config, bool) {
		a, ok := recv.(VAtom)
		if !ok || a.Kind != "obj" || !strings.HasPrefix(a.Name, "part") {
			return nil, false
		}
		switch method {
		case "PseudoElement":
			return w.E.deliver(c, vstr("")), true
		case "String":
			return w.E.deliver(c, VAtom{"str", a.Name, Rigid}), true
		}
		return nil, false
	}
	type site struct{ what, where, bad string }
	made := map[string]*site{}
	whole := map[string]*site{}
	skel := map[string]printed{}
	clash := map[string]string{}
	texts := map[string]bool{}
	elemPrefix := map[string]bool{}
	isSel := map[*types.Named]bool{}
	for _, t := range x.P.SelTypes {
		isSel[t] = true
	}
	var all []construct
	done := map[string]bool{}
	for _, id := range sortedKeys(h.seen) {
		k := h.seen[id]
		names := append(sortedKeys(k.said(nameFact)), sortedKeys(k.said(opFact))...)
		if d := fmt.Sprint(k.T, key(k.V), names); k.T != nil && !done[d] {
			done[d] = true
			all = append(all, k)
		}
	}
	for _, t := range x.P.SelTypes {
		if _, ok := t.Underlying().(*types.Slice); ok {
			all = append(all, construct{T: t, Site: x.P.pos(t.Obj().Pos())})
		}
	}
	for _, k := range all {
		names := k.said(nameFact)
		id := k.T.Obj().Name() + abstracted(k.V)
		what := k.T.Obj().Name()
		if len(names) > 0 {
			what = ":" + strings.Join(sortedKeys(names), " or :") + " (" + what + ")"
			id += fmt.Sprint(sortedKeys(names))
		}
		st, ok := made[id]
		if !ok {
			st = &site{what: what, where: k.Site}
			made[id] = st
			whole[id] = &site{what: what, where: k.Site}
		}
		for n := 1; n <= 3; n++ {
			if n > 1 && countParts(k.V, 1, k.V.T == nil) == 0 {
				break
			}
			ps := h.print(w, k, n)
			if len(ps) == 0 {
				st.bad = "it has no text"
			}
			for _, p := range ps {
				if p.V.T == nil && k.V.T != nil {
					p.V = k.V
				}
				texts[p.skeleton()] = true
				bad := ""
				switch name := k.T.Obj().Name(); {
				case name == "ClassSelector":
					if strings.TrimSpace(p.lead()) != "." || len(p.parts) != 2 {
						bad = "a class is written as " + p.text()
					}
				case name == "IdSelector":
					if strings.TrimSpace(p.lead()) != "#" || len(p.parts) != 2 {
						bad = "an id is written as " + p.text()
					}
				case name == "TagSelector":
					if len(p.parts) != 1 {
						bad = "a type selector is written as " + p.text()
					}
				case name == "AttrSelector":
					bad = j.attribute(p, variants[k.T.Obj().Name()+abstracted(k.V)])
				case name == "CombinedSelector":
					comb := ""
					for _, f := range k.V.F {
						if c, ok := constInt(f); ok {
							comb = string(rune(c))
						}
					}
					b := p.between()
					if len(b) != 1 || strings.TrimSpace(b[0]) != strings.TrimSpace(comb) || b[0] == "" {
						bad = fmt.Sprintf("the combinator %q is written as %s", comb, p.text())
					}
				case name == "CompoundSelector":
					for i, t := range p.parts {
						s, isConst := constStr(t)
						switch {
						case !isConst:
						case i+1 < len(p.parts) && key(p.parts[i+1]) == key(anyElement) && (s == "::" || s == ":" || s == "*::" || s == "*:"):
							elemPrefix[strings.TrimPrefix(s, "*")] = true
						case s == "*" && len(p.parts) == 1:
						default:
							bad = fmt.Sprintf("%q is written between the parts of a compound selector", s)
						}
					}
					if len(p.parts) == 0 {
						bad = "it is written as an empty text"
					}
				case isSel[k.T] && k.V.T == nil:
					for _, s := range p.between() {
						if strings.TrimSpace(s) != "," {
							bad = fmt.Sprintf("the selectors of a list are separated by %q", s)
						}
					}
					if p.lead() != "" || p.tail() != "" || n > 1 && len(p.between()) != n-1 {
						bad = "a list is written as " + p.text()
					}
				case len(names) == 0:
					bad = "it is made without its name being compared with a constant; its text cannot be judged"
				default:
					bad = j.pseudo(p, names)
				}
				if bad != "" && st.bad == "" {
					st.bad = bad
				}
				if bad := j.args(p); bad != "" && whole[id].bad == "" {
					whole[id].bad = bad
				}
				if n == 1 || countParts(k.V, 1, k.V.T == nil) > 0 {
					s := p.skeleton()
					if o, ok := skel[s]; !ok {
						skel[s] = p
					} else if o.n == p.n && (o.k.T != k.T || abstracted(o.V) != abstracted(p.V)) && !(o.k.V.T == nil || k.V.T == nil) && !(onlyPart(o) || onlyPart(p)) {
						clash[s] = fmt.Sprintf("%s made at %s and %s made at %s have the same text %s", o.k.T.Obj().Name(), o.k.Site, k.T.Obj().Name(), k.Site, p.text())
					}
				}
			}
		}
	}
	// pseudo-elements
	for _, n := range sortedKeys(j.elems) {
		bad := ""
		one, two := false, false
		for _, k := range j.elems[n] {
			if s, ok := constStr(k.V.F[0]); !ok || s != n {
				bad = fmt.Sprintf("what is read as the pseudo-element %s is written as %s", n, key(k.V.F[0]))
			}
			one = one || k.colons() < 2
			two = two || k.colons() > 1
		}
		if elemPrefix["::"] && !two && j.two || elemPrefix[":"] && !one && j.two {
			bad = "it is not read back with as many colons as it is written with"
		}
		if len(elemPrefix) == 0 {
			bad = "no selector writes the names of pseudo-elements"
		}
		x.ob(r1, j.elems[n][0].Site+" pseudo-element "+n, bad == "", bad)
	}
	for _, id := range sortedKeys(made) {
		x.ob(r1, made[id].where+" "+made[id].what, made[id].bad == "", made[id].bad)
		x.ob(r3, made[id].where+" "+made[id].what, whole[id].bad == "", whole[id].bad)
	}
	x.ob(r2, fmt.Sprintf("%d texts", len(skel)), len(clash) == 0, strings.Join(values(clash), "; "))
	for _, n := range sortedKeys(h.lost) {
		x.ob(r1, h.lost[n]+" :"+n, false, "the name is accepted, but it gives neither a selector nor a pseudo-element")
	}
	x.ob("names are recognised", "pseudo-classes and pseudo-elements", len(j.names) > 0 && len(j.elems) > 0, "the parser compares no name with a constant")
	x.absorb("texts of selectors", w.E)
	x.Extra["constructs"] = len(all)
	x.Extra["pseudo-classes"] = sortedKeys(j.names)
	x.Extra["pseudo-elements"] = sortedKeys(j.elems)
	x.Extra["texts"] = len(texts)
}

// onlyPart: the text is the text of the only part.
func onlyPart(p printed) bool {
	if len(p.parts) != 1 {
		return false
	}
	a, ok := p.parts[0].(VAtom)
	return ok && a.Kind == "str"
}

func values(m map[string]string) []string {
	var out []string
	for _, k := range sortedKeys(m) {
		out = append(out, m[k])
	}
	return out
}

func init() { checks["C19"] = check{"names written as read", checkC19} }
