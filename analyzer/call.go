package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call evaluates a call instruction.
func (e *Engine) call(c *Config, in ssa.Instruction, call *ssa.CallCommon) []*Config {
	var args []Val
	for _, a := range call.Args {
		args = append(args, e.get(c, a))
	}
	return e.apply(c, in, call, e.get(c, call.Value), args)
}

func (e *Engine) apply(c *Config, in ssa.Instruction, call *ssa.CallCommon, fnv Val, args []Val) []*Config {
	if call.IsInvoke() {
		return e.invoke(c, in, call.Method, fnv, args)
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return e.builtin(c, in, call, b.Name(), args)
	}
	return e.callValue(c, in, fnv, args)
}

// callValue calls a function value.
func (e *Engine) callValue(c *Config, in ssa.Instruction, fnv Val, args []Val) []*Config {
	f, ok := fnv.(VFunc)
	if !ok {
		if isNil(fnv) {
			e.Panics["call of a nil function at "+e.P.instrPos(in)] = c.traceString()
			return nil
		}
		e.problem(c, "call of an unknown function value at "+e.P.instrPos(in))
		return nil
	}
	if f.Fn == nil {
		e.problem(c, "call of "+f.Built+" as a value at "+e.P.instrPos(in))
		return nil
	}
	return e.callFn(c, in, f.Fn, args, f.Bind)
}

func (e *Engine) callFn(c *Config, in ssa.Instruction, fn *ssa.Function, args, bind []Val) []*Config {
	if e.OnCall != nil {
		if out, ok := e.OnCall(c, fn, in, args); ok {
			return out
		}
	}
	if len(fn.Blocks) > 0 && (e.P.inModule(fn) || fn.Synthetic != "") {
		if v, ok := e.scanner(c, fn, args); ok {
			e.FnSeen[fn] = true
			return e.deliver(c, v)
		}
		return e.push(c, fn, args, bind)
	}
	return e.external(c, in, fn, args)
}

// scanner summarises functions that compute a string, number or truth value
// from the bytes of their string arguments by scanning them: they are pure, so
// their result is some fixed function of the arguments.
func (e *Engine) scanner(c *Config, fn *ssa.Function, args []Val) (Val, bool) {
	if !e.P.isScanner(fn) {
		return nil, false
	}
	allConst := true
	for i, a := range args {
		if s, ok := foldArg(a); ok {
			_ = s
			_ = i
			continue
		}
		if t, ok := a.(VTerm); ok && t.Op == "bytes" {
			if _, ok := foldArg(t.Args[0]); ok {
				continue
			}
		}
		if k, ok := a.(VC); ok && k.C != nil {
			continue
		}
		allConst = false
	}
	_ = allConst
	for _, a := range args {
		if isTop(a) {
			return e.topResult(fn.Signature), true
		}
		if _, ok := a.(VSlice); ok {
			return e.topResult(fn.Signature), true
		}
	}
	if e.Scan != nil {
		if v, ok := e.Scan(c, fn, args); ok {
			return v, true
		}
	}
	res := fn.Signature.Results()
	if res.Len() == 1 {
		return mkTerm("scan:"+fn.Name(), args...), true
	}
	t := VTuple{}
	for i := 0; i < res.Len(); i++ {
		t = append(t, mkTerm("scan:"+fn.Name()+"#"+strconv.Itoa(i), args...))
	}
	return t, true
}

func (e *Engine) topResult(sig *types.Signature) Val {
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return unknownOf(res.At(0).Type(), 0)
	}
	t := VTuple{}
	for i := 0; i < res.Len(); i++ {
		t = append(t, unknownOf(res.At(i).Type(), 0))
	}
	return t
}

// isScanner recognises pure functions from strings, byte slices and numbers to
// strings and numbers that look at single bytes inside a loop.
func (p *Program) isScanner(fn *ssa.Function) bool {
	p.scanMu.Lock()
	defer p.scanMu.Unlock()
	return p.isScan(fn)
}

func (p *Program) isScan(fn *ssa.Function) bool {
	if p.scan == nil {
		p.scan = map[*ssa.Function]bool{}
	}
	if r, ok := p.scan[fn]; ok {
		return r
	}
	p.scan[fn] = false
	basic := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Slice:
			b, ok := u.Elem().Underlying().(*types.Basic)
			return ok && (b.Kind() == types.Byte || b.Kind() == types.Rune)
		}
		return false
	}
	if len(fn.FreeVars) > 0 || fn.Signature.Params().Len() == 0 || fn.Signature.Results().Len() == 0 {
		return false
	}
	if r := fn.Signature.Recv(); r != nil && !basic(r.Type()) {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if !basic(fn.Signature.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if !basic(fn.Signature.Results().At(i).Type()) {
			return false
		}
	}
	scans := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
					scans = true
				}
			case *ssa.Index:
				scans = true
			case *ssa.IndexAddr:
				if basic(x.X.Type()) {
					scans = true
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					return false
				}
				scans = true
			case *ssa.Store:
				root := x.Addr
				for {
					switch y := root.(type) {
					case *ssa.FieldAddr:
						root = y.X
						continue
					case *ssa.IndexAddr:
						root = y.X
						continue
					}
					break
				}
				switch root.(type) {
				case *ssa.Alloc, *ssa.MakeSlice, *ssa.Slice:
				default:
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				return false
			case *ssa.Call:
				if x.Call.IsInvoke() {
					return false
				}
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				callee := x.Call.StaticCallee()
				if callee == nil {
					return false
				}
				if p.inModule(callee) {
					if callee != fn && !p.isScan(callee) && !p.pureSmall(callee) {
						return false
					}
					continue
				}
				n := extName(callee)
				if !(strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.") || strings.HasPrefix(n, "unicode") ||
					strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "slices.")) {
					return false
				}
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok {
					_ = g // reading a global that is only set at initialisation
				}
			}
		}
	}
	p.scan[fn] = scans
	return scans
}

// pureSmall: a loop-free helper on basic values without stores or calls.
func (p *Program) pureSmall(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Call, *ssa.Go, *ssa.Defer, *ssa.Send:
				return false
			}
		}
	}
	return true
}

// invoke calls an interface method.
func (e *Engine) invoke(c *Config, in ssa.Instruction, m *types.Func, recv Val, args []Val) []*Config {
	if e.OnIface != nil {
		if out, ok := e.OnIface(c, m.Name(), recv, in, args); ok {
			return out
		}
	}
	if isNil(recv) {
		e.Panics["method "+m.Name()+" called on a nil interface at "+e.P.instrPos(in)] = c.traceString()
		return nil
	}
	if i, ok := recv.(VIface); ok {
		fn := e.P.Prog.LookupMethod(i.T, m.Pkg(), m.Name())
		if fn == nil {
			e.problem(c, "method "+m.Name()+" not found at "+e.P.instrPos(in))
			return nil
		}
		return e.callFn(c, in, fn, append([]Val{i.V}, args...), nil)
	}
	if isTop(recv) {
		return e.deliver(c, e.topResult(m.Type().(*types.Signature)))
	}
	sig := m.Type().(*types.Signature)
	// a method of an unknown selector or error: some fixed function of it
	if sig.Results().Len() == 1 {
		for _, a := range args {
			if isTop(a) {
				return e.deliver(c, e.topResult(sig))
			}
		}
		return e.deliver(c, mkTerm("m:"+m.Name(), append([]Val{recv}, args...)...))
	}
	e.problem(c, "method "+m.Name()+" of an unknown value at "+e.P.instrPos(in))
	return e.deliver(c, e.topResult(sig))
}

func (e *Engine) builtin(c *Config, in ssa.Instruction, call *ssa.CallCommon, name string, args []Val) []*Config {
	switch name {
	case "append":
		return e.appendVals(c, in, args)
	case "len", "cap":
		switch t := args[0].(type) {
		case VSlice:
			o := c.heap[t.Obj]
			if o.Shared != "" {
				e.access(c, o.Shared, "", false)
			}
			if n, ok := exactLen(o); ok && name == "len" {
				return e.deliver(c, vint(n))
			}
			if name == "cap" {
				return e.deliver(c, VTop{"cap"})
			}
			return e.deliver(c, VLen{t.Obj})
		case VMap:
			o := c.heap[t.Obj]
			if o.Shared != "" {
				e.access(c, o.Shared, "", false)
			}
			n, exact := 0, true
			for _, en := range o.Ents {
				if en.Many || !en.Must {
					exact = false
				}
				n++
			}
			if exact {
				return e.deliver(c, vint(n))
			}
			for _, en := range o.Ents {
				if en.Must && !en.Many {
					return e.deliver(c, VTerm{"poslen", []Val{t}})
				}
			}
			return e.deliver(c, VTop{"map length"})
		case VC:
			if isNil(t) {
				return e.deliver(c, vint(0))
			}
			if s, ok := constStr(t); ok {
				return e.deliver(c, vint(len(s)))
			}
		case VTerm:
			if t.Op == "bytes" {
				if s, ok := constStr(t.Args[0]); ok {
					return e.deliver(c, vint(len(s)))
				}
			}
		}
		if isTop(args[0]) {
			return e.deliver(c, VTop{"length"})
		}
		if st, ok := args[0].(VStruct); ok {
			return e.deliver(c, vint(len(st.F)))
		}
		return e.deliver(c, mkTerm("len", args[0]))
	case "copy":
		dst, ok := args[0].(VSlice)
		src, ok2 := e.readSeq(c, args[1])
		if !ok || !ok2 {
			if _, nd := c.seq(args[0]); nd && isNil(args[0]) {
				return e.deliver(c, vint(0))
			}
			e.problem(c, "copy of an unknown slice at "+e.P.instrPos(in))
			return e.deliver(c, VTop{"copied"})
		}
		do := c.heap[dst.Obj]
		if do.Shared != "" {
			e.access(c, do.Shared, "", true)
		}
		d := c.upd(dst.Obj)
		// a copy into a slice made with the length of the source replaces its content
		same := len(d.Items) == len(src.Items)
		if same {
			for i := range d.Items {
				if d.Items[i].Min != src.Items[i].Min || d.Items[i].Max != src.Items[i].Max {
					same = false
				}
			}
		}
		if same {
			d.Items = append([]Item(nil), src.Items...)
			d.Unord, d.Uniq = src.Unord, src.Uniq
		} else {
			d.Items = bagItems(append(append([]Item(nil), loosen(d.Items)...), loosen(src.Items)...))
			d.Unord = true
		}
		return e.deliver(c, VTop{"copied"})
	case "delete":
		m, ok := args[0].(VMap)
		if !ok {
			if isNil(args[0]) {
				return e.deliver(c, nil)
			}
			e.problem(c, "delete from an unknown map at "+e.P.instrPos(in))
			return nil
		}
		var out []*Config
		for _, ci := range e.mapDelete(c, m.Obj, args[1]) {
			out = append(out, e.deliver(ci, nil)...)
		}
		return out
	case "clear":
		switch t := args[0].(type) {
		case VMap:
			o := c.heap[t.Obj]
			if o.Shared != "" {
				e.access(c, o.Shared, "", true)
			}
			c.upd(t.Obj).Ents = nil
		case VSlice:
			e.problem(c, "clear of a slice at "+e.P.instrPos(in))
		}
		return e.deliver(c, nil)
	case "min", "max":
		if len(args) == 2 {
			a, aok := constInt(args[0])
			b, bok := constInt(args[1])
			if aok && bok {
				if (a < b) == (name == "min") {
					return e.deliver(c, args[0])
				}
				return e.deliver(c, args[1])
			}
		}
		return e.deliver(c, VTop{name})
	case "print", "println":
		return e.deliver(c, nil)
	case "recover":
		return e.deliver(c, VC{nil, types.Universe.Lookup("any").Type()})
	case "panic":
		e.Panics["panic at "+e.P.instrPos(in)] = c.traceString()
		return nil
	case "ssa:wrapnilchk":
		if isNil(args[0]) {
			e.Panics["nil dereference at "+e.P.instrPos(in)] = c.traceString()
			return nil
		}
		return e.deliver(c, args[0])
	}
	e.problem(c, "builtin "+name+" at "+e.P.instrPos(in))
	return nil
}

func loosen(items []Item) []Item {
	out := append([]Item(nil), items...)
	for i := range out {
		out[i].Min = 0
	}
	return out
}

func (e *Engine) appendVals(c *Config, in ssa.Instruction, args []Val) []*Config {
	if len(args) == 1 {
		return e.deliver(c, args[0])
	}
	// bytes
	if isByteish(args[0]) || isByteish(args[1]) {
		bytesOf := func(v Val) Val {
			if t, ok := v.(VTerm); ok && t.Op == "bytes" {
				return t.Args[0]
			}
			if isNil(v) {
				return vstr("")
			}
			if s, ok := v.(VSlice); ok {
				if o := c.heap[s.Obj]; o != nil {
					if n, ok := exactLen(o); ok && n == 0 {
						return vstr("")
					}
					str := []byte{}
					for _, it := range o.Items {
						n, ok := constInt(it.V)
						if !ok || it.Min != 1 || it.Max != 1 {
							return VTop{"bytes"}
						}
						str = append(str, byte(n))
					}
					return vstr(string(str))
				}
			}
			if isStringy(v) {
				return v
			}
			return VTop{"bytes"}
		}
		a, b := bytesOf(args[0]), bytesOf(args[1])
		if isTop(a) || isTop(b) {
			return e.deliver(c, VTop{"bytes"})
		}
		return e.deliver(c, VTerm{"bytes", []Val{concat(a, b)}})
	}
	base, ok := c.seq(args[0])
	if !ok {
		if isTop(args[0]) {
			return e.deliver(c, args[0])
		}
		e.problem(c, "append to an unknown slice at "+e.P.instrPos(in))
		return nil
	}
	if base.Shared != "" {
		e.access(c, base.Shared, " (spare capacity)", true)
	}
	add, ok := e.readSeq(c, args[1])
	if !ok {
		if isStringy(args[1]) || isTop(args[1]) {
			n := &Obj{Kind: 's', Items: append([]Item(nil), base.Items...), Unord: base.Unord}
			n.push(gap(VTop{"appended"}))
			return e.deliver(c, VSlice{c.alloc(n)})
		}
		e.problem(c, "append of an unknown slice at "+e.P.instrPos(in))
		return nil
	}
	n := &Obj{Kind: 's', Items: append([]Item(nil), base.Items...), Unord: base.Unord, Uniq: base.Uniq, Base: base.Base}
	if sl, ok := args[0].(VSlice); ok && base.Base != 0 && len(add.Items) > 0 {
		c.overwrite(sl.Obj, base.Base)
	}
	if len(base.Items) == 0 {
		n.Unord, n.Uniq = add.Unord, add.Uniq
		n.Items = append([]Item(nil), add.Items...)
	} else {
		if add.Unord && !n.Unord {
			n.Unord = true
			n.Items = bagItems(n.Items)
		}
		for _, it := range add.Items {
			if e.DeepFold {
				c.pushDeep(n, it)
			} else {
				n.push(it)
			}
		}
	}
	return e.deliver(c, VSlice{c.alloc(n)})
}

// pushDeep appends an item; items with the same content that contain summary
// values are kept once.
func (c *Config) pushDeep(o *Obj, it Item) {
	s := c.shape(it.V)
	if strings.Contains(s, "~") {
		if st, ok := it.V.(VStruct); ok && !isRigid(st) {
			if w := c.widen(st); key(w) != key(st) {
				it = Item{w, 0, many}
				s = c.shape(it.V)
			}
		}
		for i, x := range o.Items {
			xs := c.shape(x.V)
			v := x.V
			if xs != s {
				if !strings.Contains(xs, "~") {
					continue
				}
				if v = c.joinVals(x.V, it.V); v == nil {
					continue
				}
			}
			o.Items = append([]Item(nil), o.Items...)
			o.Items[i].V = v
			o.Items[i].Max = many
			if it.Min > o.Items[i].Min {
				o.Items[i].Min = it.Min
			}
			if i != len(o.Items)-1 {
				o.Unord = true
			}
			o.Uniq = false
			c.sortDeep(o)
			return
		}
	}
	o.Items = append(append([]Item(nil), o.Items...), it)
	o.Uniq = false
	c.sortDeep(o)
}

// widen makes a structure stand for many: texts become unknown, lists may be shorter.
func (c *Config) widen(v VStruct) Val {
	st, ok := v.T.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	out := VStruct{T: v.T}
	plain := true
	for i := range v.F {
		if _, basic := st.Field(i).Type().Underlying().(*types.Basic); !basic {
			plain = false
		}
	}
	if plain {
		return v
	}
	for i, f := range v.F {
		if isBasicString(st.Field(i).Type()) {
			f = VAtom{"str", "joined~", Other}
		} else if o, ok := c.seq(f); ok && len(o.Items) > 0 {
			n := &Obj{Kind: 's', Unord: true, Items: append([]Item(nil), o.Items...)}
			for j := range n.Items {
				n.Items[j].Min, n.Items[j].Max = 0, many
			}
			f = VSlice{c.alloc(n)}
		}
		out.F = append(out.F, f)
	}
	return out
}

// joinVals joins two structures that stand for many: parts that differ become
// lists of all that occurs in one of them, or unknown.
func (c *Config) joinVals(a, b Val) Val {
	x, ok1 := a.(VStruct)
	y, ok2 := b.(VStruct)
	if !ok1 || !ok2 || len(x.F) != len(y.F) {
		return nil
	}
	out := VStruct{T: x.T}
	for i := range x.F {
		if c.shape(x.F[i]) == c.shape(y.F[i]) {
			out.F = append(out.F, x.F[i])
			continue
		}
		if _, ok := x.F[i].(VIface); ok {
			return nil // selectors that differ
		}
		sx, okx := c.seq(x.F[i])
		sy, oky := c.seq(y.F[i])
		if okx && oky {
			n := &Obj{Kind: 's', Unord: true}
			for _, l := range [][]Item{sx.Items, sy.Items} {
				for _, it := range l {
					known := false
					for j, h := range n.Items {
						if c.shape(h.V) == c.shape(it.V) {
							known = true
							n.Items[j].Max = many
						}
					}
					if !known {
						it.Min = 0
						n.Items = append(n.Items, it)
					}
				}
			}
			c.sortDeep(n)
			out.F = append(out.F, VSlice{c.alloc(n)})
			continue
		}
		out.F = append(out.F, VAtom{"str", "joined~", Other})
	}
	return out
}

func (c *Config) sortDeep(o *Obj) {
	if !o.Unord {
		return
	}
	keys := map[int]string{}
	idx := make([]int, len(o.Items))
	for i, x := range o.Items {
		keys[i] = c.shape(x.V)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	items := make([]Item, len(idx))
	for i, j := range idx {
		items[i] = o.Items[j]
	}
	o.Items = items
}

func isByteish(v Val) bool {
	t, ok := v.(VTerm)
	return ok && t.Op == "bytes"
}

// foldArg gives the string a value stands for: constants, and the exemplar of
// a declaration value.
func foldArg(v Val) (string, bool) {
	if s, ok := constStr(v); ok {
		return s, true
	}
	if a, ok := v.(VAtom); ok && a.Kind == "val" {
		return a.Name, true
	}
	return "", false
}

func vrune(r rune) Val { return VC{constant.MakeInt64(int64(r)), types.Typ[types.Rune]} }

var _ = fmt.Sprint
