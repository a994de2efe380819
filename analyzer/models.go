package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions of other packages. Constants are folded; everything
// else becomes a term (a fixed function of its arguments) or an unknown value.

func anyTop(args []Val) bool {
	for _, a := range args {
		if isTop(a) {
			return true
		}
	}
	return false
}

// pure gives the result of a pure function about which nothing more is known.
func (e *Engine) pure(c *Config, name string, fn *ssa.Function, args []Val) []*Config {
	sig := fn.Signature
	if anyTop(args) {
		return e.deliver(c, e.topResult(sig))
	}
	fz := make([]Val, len(args))
	for i, a := range args {
		fz[i] = c.freeze(a, 0)
	}
	switch sig.Results().Len() {
	case 0:
		return e.deliver(c, nil)
	case 1:
		return e.deliver(c, mkTerm(name, fz...))
	}
	t := VTuple{}
	for i := 0; i < sig.Results().Len(); i++ {
		if types.Identical(sig.Results().At(i).Type(), types.Universe.Lookup("error").Type()) {
			// success or failure
			t = append(t, nil)
			continue
		}
		t = append(t, mkTerm(name+"#"+strconv.Itoa(i), fz...))
	}
	fail := -1
	for i, v := range t {
		if v == nil {
			fail = i
		}
	}
	if fail < 0 {
		return e.deliver(c, t)
	}
	c2 := c.fork()
	t1 := append(VTuple(nil), t...)
	t1[fail] = VC{nil, types.Universe.Lookup("error").Type()}
	t2 := append(VTuple(nil), t...)
	t2[fail] = VTerm{"err:" + name, fz}
	out := e.deliver(c, t1)
	c2.note(c2.where() + " " + name + " fails")
	return append(out, e.deliver(c2, t2)...)
}

// freeze replaces slices by a value that holds their present content.
func (c *Config) freeze(v Val, d int) Val {
	if d > 4 {
		return v
	}
	switch t := v.(type) {
	case VSlice:
		if o := c.heap[t.Obj]; o != nil {
			return frozen(o)
		}
	case VIface:
		return VIface{t.T, c.freeze(t.V, d+1)}
	}
	return v
}

func frozen(o *Obj) Val {
	l := VTuple{}
	for _, it := range o.Items {
		if it.Min == 1 && it.Max == 1 {
			l = append(l, it.V)
		} else {
			l = append(l, VTerm{"occ" + strconv.Itoa(it.Min) + "-" + map[bool]string{true: "n", false: "1"}[it.Max > 1], []Val{it.V}})
		}
	}
	op := "list"
	if o.Unord {
		op = "sortedlist"
	}
	return VTerm{op, l}
}

func (c *Config) thaw(v Val) *Obj {
	t, ok := v.(VTerm)
	if !ok || t.Op != "list" && t.Op != "sortedlist" {
		return nil
	}
	o := &Obj{Kind: 's', Unord: t.Op == "sortedlist"}
	for _, a := range t.Args {
		if x, ok := a.(VTerm); ok && strings.HasPrefix(x.Op, "occ") {
			it := Item{V: x.Args[0], Max: 1}
			if x.Op[3] == '1' {
				it.Min = 1
			}
			if strings.HasSuffix(x.Op, "n") {
				it.Max = many
			}
			o.Items = append(o.Items, it)
		} else {
			o.Items = append(o.Items, one(a))
		}
	}
	return o
}

func (e *Engine) joinSeq(o *Obj, sep Val) Val {
	if n, ok := exactLen(o); ok && (!o.Unord || n < 2) {
		var p []Val
		for i, it := range o.Items {
			if i > 0 {
				p = append(p, sep)
			}
			p = append(p, it.V)
		}
		top := false
		for _, x := range p {
			if isTop(x) {
				top = true
			}
		}
		if !top || sep != nil {
			return concat(p...)
		}
	}
	return VTerm{"join", []Val{sep, frozen(o)}}
}

var trueVal, falseVal = vbool(true), vbool(false)

// boundary of what a string value starts or ends with
func headConst(v Val) (string, bool) {
	p := parts(v)
	if len(p) == 0 {
		return "", true
	}
	return foldHead(p[0])
}

func foldHead(v Val) (string, bool) { return foldArg(v) }

func (e *Engine) hasPrefix(a, b Val) tri {
	p, ok := foldArg(b)
	if !ok {
		if pa, pb := parts(a), parts(b); len(pb) > 0 && len(pb) <= len(pa) {
			all := true
			for i := range pb {
				if key(pa[i]) != key(pb[i]) || !isRigid(pb[i]) {
					all = false
				}
			}
			if all {
				return Yes
			}
		}
		return Maybe
	}
	if s, ok := foldArg(a); ok {
		return tb(strings.HasPrefix(s, p))
	}
	pa := parts(a)
	if len(pa) > 0 {
		if s, ok := foldArg(pa[0]); ok {
			if strings.HasPrefix(s, p) {
				return Yes
			}
			if !strings.HasPrefix(p, s) {
				return No
			}
		}
		if at, ok := pa[0].(VAtom); ok {
			if at.Kind == "prop" && strings.HasPrefix(p, "--") {
				return No
			}
		}
	}
	if e.Attr != nil {
		return e.Attr("prefix", a, p)
	}
	return Maybe
}

func tb(b bool) tri {
	if b {
		return Yes
	}
	return No
}

func (e *Engine) triDeliver(c *Config, t tri, name string, args []Val) []*Config {
	if t != Maybe {
		return e.deliver(c, triVal(t))
	}
	if anyTop(args) {
		return e.deliver(c, VTop{name})
	}
	return e.deliver(c, mkTerm(name, args...))
}

var foldable = map[string]func(a []string) any{
	"strings.TrimSpace":  func(a []string) any { return strings.TrimSpace(a[0]) },
	"strings.ToLower":    func(a []string) any { return strings.ToLower(a[0]) },
	"strings.ToUpper":    func(a []string) any { return strings.ToUpper(a[0]) },
	"strings.TrimPrefix": func(a []string) any { return strings.TrimPrefix(a[0], a[1]) },
	"strings.TrimSuffix": func(a []string) any { return strings.TrimSuffix(a[0], a[1]) },
	"strings.Trim":       func(a []string) any { return strings.Trim(a[0], a[1]) },
	"strings.TrimLeft":   func(a []string) any { return strings.TrimLeft(a[0], a[1]) },
	"strings.TrimRight":  func(a []string) any { return strings.TrimRight(a[0], a[1]) },
	"strings.ReplaceAll": func(a []string) any { return strings.ReplaceAll(a[0], a[1], a[2]) },
	"strings.Contains":   func(a []string) any { return strings.Contains(a[0], a[1]) },
	"strings.ContainsAny": func(a []string) any {
		return strings.ContainsAny(a[0], a[1])
	},
	"strings.HasSuffix": func(a []string) any { return strings.HasSuffix(a[0], a[1]) },
	"strings.EqualFold": func(a []string) any { return strings.EqualFold(a[0], a[1]) },
	"strings.Index":     func(a []string) any { return strings.Index(a[0], a[1]) },
	"strings.LastIndex": func(a []string) any { return strings.LastIndex(a[0], a[1]) },
	"strings.Count":     func(a []string) any { return strings.Count(a[0], a[1]) },
	"strings.Compare":   func(a []string) any { return strings.Compare(a[0], a[1]) },
	"regexp.QuoteMeta":  func(a []string) any { return regexp.QuoteMeta(a[0]) },
	"strconv.Quote":     func(a []string) any { return strconv.Quote(a[0]) },
	"strings.Title":     func(a []string) any { return strings.ToUpper(a[0][:1]) + a[0][1:] },
	"path.Base":         nil,
}

func goVal(x any) Val {
	switch t := x.(type) {
	case string:
		return vstr(t)
	case bool:
		return vbool(t)
	case int:
		return vint(t)
	}
	return VTop{"value"}
}

func (e *Engine) seqOfStrings(c *Config, ss []string) Val {
	var items []Item
	for _, s := range ss {
		items = append(items, one(vstr(s)))
	}
	return c.newSeq(items)
}

// external models a call of a function outside the module.
func (e *Engine) external(c *Config, in ssa.Instruction, fn *ssa.Function, args []Val) []*Config {
	name := extName(fn)
	if e.Text && len(c.facts) > 0 {
		known := append([]Val(nil), args...)
		for i, a := range known {
			if t, ok := a.(VTerm); ok {
				known[i] = c.constant(t)
			}
		}
		args = known
	}
	if e.OnExt != nil {
		if out, ok := e.OnExt(c, name, in, args); ok {
			return out
		}
	}
	// constant folding of pure string functions
	if f, ok := foldable[name]; ok && f != nil {
		var ss []string
		good := true
		for _, a := range args {
			s, ok := foldArg(a)
			if !ok {
				good = false
				break
			}
			ss = append(ss, s)
		}
		if good {
			return e.deliver(c, goVal(f(ss)))
		}
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return e.lock(c, in, args[0], "W")
	case "(*sync.RWMutex).RLock":
		return e.lock(c, in, args[0], "R")
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return e.unlock(c, in, args[0], "W")
	case "(*sync.RWMutex).RUnlock":
		return e.unlock(c, in, args[0], "R")
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		c2 := c.fork()
		m := "W"
		if strings.HasSuffix(name, "TryRLock") {
			m = "R"
		}
		out := e.deliver(c2, falseVal)
		if p, ok := args[0].(VPtr); ok {
			o := c.upd(p.Obj)
			if t, ok := project(o.V, p.Path).(VTerm); !ok || !strings.HasPrefix(t.Op, "mutex:") {
				o.V = inject(o.V, p.Path, VTerm{"mutex:" + m, nil})
				out = append(out, e.deliver(c, trueVal)...)
			}
		}
		return out
	case "(*sync.Once).Do":
		return e.onceDo(c, in, args)
	case "strings.HasPrefix":
		return e.triDeliver(c, e.hasPrefix(args[0], args[1]), name, args)
	case "strings.CutPrefix":
		switch e.hasPrefix(args[0], args[1]) {
		case Yes:
			if s, ok := foldArg(args[0]); ok {
				p, _ := foldArg(args[1])
				return e.deliver(c, VTuple{vstr(strings.TrimPrefix(s, p)), trueVal})
			}
		case No:
			return e.deliver(c, VTuple{args[0], falseVal})
		}
		return e.pure(c, name, fn, args)
	case "strings.TrimPrefix", "strings.TrimSuffix":
		// a text with a known end
		if k, ok := constStr(args[1]); ok && k != "" {
			if ps := parts(args[0]); len(ps) > 1 {
				i, cut := 0, strings.TrimPrefix
				has := strings.HasPrefix
				if name == "strings.TrimSuffix" {
					i, cut, has = len(ps)-1, strings.TrimSuffix, strings.HasSuffix
				}
				if s, ok := constStr(ps[i]); ok && (len(s) >= len(k) || !has(k, s)) {
					ps = append([]Val(nil), ps...)
					ps[i] = vstr(cut(s, k))
					return e.deliver(c, concat(ps...))
				}
			}
		}
		return e.pure(c, name, fn, args)
	case "strings.HasSuffix", "strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "strings.ContainsFunc":
		if name == "strings.ContainsFunc" {
			return e.deliver(c, VTop{name})
		}
		if e.Attr != nil && len(args) == 2 {
			if s, ok := foldArg(args[1]); ok {
				k := "contains"
				if name == "strings.HasSuffix" {
					k = "suffix"
				}
				return e.triDeliver(c, e.Attr(k, args[0], s), name, args)
			}
		}
		return e.triDeliver(c, Maybe, name, args)
	case "strings.EqualFold":
		if eq(args[0], args[1]) == Yes {
			return e.deliver(c, trueVal)
		}
		return e.triDeliver(c, Maybe, name, args)
	case "strings.Compare", "cmp.Compare":
		if ps, ok := comparePos(c, args[0], args[1]); ok {
			return e.deliver(c, vint(ps))
		}
		if a, ok := constInt(args[0]); ok {
			if b, ok := constInt(args[1]); ok {
				r := 0
				if a < b {
					r = -1
				} else if a > b {
					r = 1
				}
				return e.deliver(c, vint(r))
			}
		}
		if eq(args[0], args[1]) == Yes {
			return e.deliver(c, vint(0))
		}
		return e.pure(c, name, fn, args)
	case "cmp.Less":
		if ps, ok := comparePos(c, args[0], args[1]); ok {
			return e.deliver(c, vbool(ps < 0))
		}
		return e.pure(c, name, fn, args)
	case "strings.Fields", "strings.Split", "strings.SplitN", "strings.SplitAfter":
		if s, ok := foldArg(args[0]); ok {
			if name == "strings.Fields" {
				return e.deliver(c, e.seqOfStrings(c, strings.Fields(s)))
			}
			if sep, ok := foldArg(args[1]); ok && name == "strings.Split" {
				return e.deliver(c, e.seqOfStrings(c, strings.Split(s, sep)))
			}
		}
		return e.splitUnknown(c, name, args)
	case "strings.FieldsFunc":
		if f, ok := args[1].(VFunc); ok && f.Fn != nil && extName(f.Fn) == "unicode.IsSpace" {
			if s, ok := foldArg(args[0]); ok {
				return e.deliver(c, e.seqOfStrings(c, strings.FieldsFunc(s, unicode.IsSpace)))
			}
			return e.splitUnknown(c, "strings.Fields", args)
		}
		return e.splitUnknown(c, name, args)
	case "strings.Join":
		o, ok := e.readSeq(c, args[0])
		if !ok {
			if isTop(args[0]) {
				return e.deliver(c, VTop{name})
			}
			return e.deliver(c, mkTerm("join", args[1], args[0]))
		}
		return e.deliver(c, e.joinSeq(o, args[1]))
	case "strings.Clone":
		return e.deliver(c, args[0])
	case "strings.Repeat":
		return e.pure(c, name, fn, args)
	case "strings.Replace", "strings.ReplaceAll":
		if name == "strings.Replace" {
			var ss []string
			good := true
			for _, a := range args[:3] {
				s, ok := foldArg(a)
				if !ok {
					good = false
					break
				}
				ss = append(ss, s)
			}
			n, ok := constInt(args[3])
			if good && ok {
				return e.deliver(c, vstr(strings.Replace(ss[0], ss[1], ss[2], n)))
			}
		}
		return e.pure(c, name, fn, args)
	case "errors.New":
		return e.deliver(c, VTerm{"err:" + name, args})
	case "fmt.Errorf":
		return e.deliver(c, VTerm{"err:" + name, []Val{c.freezeIf(args[0]), c.freeze(args[1], 0)}})
	case "errors.Is":
		if isNil(args[0]) {
			return e.deliver(c, vbool(isNil(args[1])))
		}
		switch eq(args[0], args[1]) {
		case Yes:
			return e.deliver(c, trueVal)
		case No:
			if _, ok := args[0].(VAtom); ok {
				return e.deliver(c, falseVal)
			}
		}
		return e.triDeliver(c, Maybe, name, args)
	case "errors.Unwrap", "errors.Join":
		if name == "errors.Join" {
			o, ok := c.seq(args[0])
			if ok {
				allNil := true
				anySet := false
				for _, it := range o.Items {
					if !isNil(it.V) {
						allNil = false
					}
					if eq(it.V, VC{nil, nil}) == No {
						anySet = true
					}
				}
				if allNil {
					return e.deliver(c, VC{nil, types.Universe.Lookup("error").Type()})
				}
				if anySet {
					return e.deliver(c, VTerm{"err:join", []Val{frozen(o)}})
				}
			}
		}
		return e.pure(c, name, fn, args)
	case "fmt.Sprintf":
		return e.sprintf(c, in, args)
	case "fmt.Sprint":
		if o, ok := c.seq(args[0]); ok {
			if n, ok := exactLen(o); ok && n == 1 {
				return e.sprintf(c, in, []Val{vstr("%v"), args[0]})
			}
		}
		return e.pure(c, name, fn, args)
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "fmt.Println", "fmt.Printf", "fmt.Print":
		if strings.HasPrefix(name, "fmt.F") {
			if i, ok := args[0].(VIface); ok {
				if p, ok := i.V.(VPtr); ok && strings.HasSuffix(shortType(i.T), "Builder") || ok && strings.HasSuffix(shortType(i.T), "Buffer") {
					_ = p
					return e.fprintf(c, in, name, p, args[1:])
				}
			}
		}
		return e.deliver(c, VTuple{VTop{"n"}, VTop{"err"}})
	case "log.Print", "log.Println", "log.Printf":
		e.event("log", e.P.instrPos(in))
		return e.deliver(c, nil)
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit", "syscall.Exit":
		e.event("exit", e.P.instrPos(in))
		c.setGhost("exit", "1")
		if e.OnExit != nil {
			e.OnExit(c)
		}
		return nil
	case "log.Panic", "log.Panicf", "log.Panicln":
		e.Panics["panic at "+e.P.instrPos(in)] = c.traceString()
		return nil
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindAllString",
		"(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindString", "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).FindStringIndex",
		"(*regexp.Regexp).FindAllStringSubmatchIndex", "(*regexp.Regexp).FindStringSubmatchIndex":
		return e.regex(c, name, fn, args)
	case "regexp.MatchString":
		if p, ok := constStr(args[0]); ok {
			if s, ok := foldArg(args[1]); ok {
				r, err := regexp.Compile(p)
				if err == nil {
					return e.deliver(c, VTuple{vbool(r.MatchString(s)), VC{nil, types.Universe.Lookup("error").Type()}})
				}
			}
		}
		return e.pure(c, name, fn, args)
	case "regexp.MustCompile":
		return e.deliver(c, VTerm{"nn:" + name, args})
	case "slices.Sort", "sort.Strings", "slices.SortStable":
		return e.sortSeq(c, args[0], nil)
	case "sort.Slice", "sort.SliceStable":
		v := args[0]
		if i, ok := v.(VIface); ok {
			v = i.V
		}
		return e.sortBy(c, in, v, args[1], true)
	case "slices.SortFunc", "slices.SortStableFunc":
		return e.sortBy(c, in, args[0], args[1], false)
	case "sort.Sort", "sort.Stable":
		if i, ok := args[0].(VIface); ok && shortType(i.T) == "sort.StringSlice" {
			return e.sortSeq(c, i.V, nil)
		}
	case "slices.Compact":
		o, ok := e.readSeq(c, args[0])
		if !ok {
			return e.deliver(c, VTop{name})
		}
		n := &Obj{Kind: 's', Unord: o.Unord, Uniq: o.Unord}
		for _, it := range o.Items {
			if it.Max > 1 && isRigid(it.V) {
				it.Max = 1
			}
			if l := len(n.Items); l > 0 && isRigid(it.V) && key(n.Items[l-1].V) == key(it.V) {
				if it.Min > n.Items[l-1].Min {
					n.Items[l-1].Min = it.Min
				}
				continue
			}
			n.Items = append(n.Items, it)
		}
		return e.deliver(c, VSlice{c.alloc(n)})
	case "slices.Clone", "slices.Clip", "slices.Grow", "maps.Clone", "slices.Reverse":
		return e.copyOf(c, name, args)
	case "slices.Contains", "slices.Index":
		o, ok := e.readSeq(c, args[0])
		if !ok {
			return e.deliver(c, VTop{name})
		}
		t := No
		min := 0
		idx, exact := -1, true
		for i, it := range o.Items {
			switch eq(it.V, args[1]) {
			case Yes:
				if it.Min > 0 {
					t = Yes
					if idx < 0 && exact && !o.Unord {
						idx = i
					}
				} else if t == No {
					t = Maybe
				}
			case Maybe:
				if t == No {
					t = Maybe
				}
			}
			if it.Min != 1 || it.Max != 1 {
				exact = false
			}
			min += it.Min
		}
		if name == "slices.Contains" {
			if t == Maybe && isRigid(args[1]) {
				return e.deliver(c, mkTerm("contains", frozen(o), args[1]))
			}
			return e.deliver(c, triVal(t))
		}
		if t == No {
			return e.deliver(c, vint(-1))
		}
		if t == Yes && idx >= 0 {
			return e.deliver(c, vint(idx))
		}
		var out []*Config
		if s, ok := args[0].(VSlice); ok && !o.Unord {
			for i, it := range o.Items {
				if eq(it.V, args[1]) != No {
					out = append(out, e.deliver(c.fork(), VPos{s.Obj, i, 0})...)
					if it.Min > 0 && eq(it.V, args[1]) == Yes {
						return out
					}
				}
			}
			return append(out, e.deliver(c, vint(-1))...)
		}
		return e.deliver(c, VTop{name})
	case "slices.ContainsFunc", "slices.IndexFunc", "slices.DeleteFunc":
		return e.eachFunc(c, in, name, args)
	case "slices.Concat":
		if o, ok := c.seq(args[0]); ok {
			n := &Obj{Kind: 's'}
			for _, it := range o.Items {
				if so, ok := e.readSeq(c, it.V); ok {
					n.Unord = n.Unord || so.Unord
					for _, x := range so.Items {
						n.push(x)
					}
				} else {
					n.push(gap(VTop{"element"}))
				}
			}
			return e.deliver(c, VSlice{c.alloc(n)})
		}
	case "slices.Equal":
		a, ok := e.readSeq(c, args[0])
		b, ok2 := e.readSeq(c, args[1])
		if ok && ok2 {
			na, ea := exactLen(a)
			nb, eb := exactLen(b)
			if ea && eb && !a.Unord && !b.Unord {
				if na != nb {
					return e.deliver(c, falseVal)
				}
				r := Yes
				for i := range a.Items {
					if x := eq(a.Items[i].V, b.Items[i].V); x < r {
						r = x
					}
				}
				return e.deliver(c, triVal(r))
			}
		}
		return e.deliver(c, VTop{name})
	case "maps.Copy":
		dst, ok := args[0].(VMap)
		src, ok2 := args[1].(VMap)
		if isNil(args[1]) {
			return e.deliver(c, nil)
		}
		if ok && ok2 {
			so := c.heap[src.Obj]
			if so.Shared != "" {
				e.access(c, so.Shared, "", false)
			}
			cs := []*Config{c}
			for _, en := range so.Ents {
				var nx []*Config
				for _, ci := range cs {
					if !en.Must || en.Many {
						c2 := ci.fork()
						if en.Many {
							oi := c2.upd(dst.Obj)
							oi.Ents = append(append([]Ent(nil), oi.Ents...), en)
							nx = append(nx, c2)
							continue
						}
						nx = append(nx, c2)
					}
					nx = append(nx, e.mapSet(ci, dst.Obj, en.K, en.V)...)
				}
				cs = nx
			}
			var out []*Config
			for _, ci := range cs {
				out = append(out, e.deliver(ci, nil)...)
			}
			return out
		}
	case "maps.Keys", "maps.Values", "slices.Values":
		return e.deliver(c, VFunc{Built: "iter:" + name, Bind: args})
	case "slices.Collect", "slices.Sorted", "slices.AppendSeq":
		return e.collect(c, in, name, args)
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return e.deliver(c, nil)
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).Write",
		"(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).Write", "io.WriteString":
		return e.builderWrite(c, name, args)
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*strings.Builder).Len", "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes":
		v := e.builderValue(c, args[0])
		if strings.HasSuffix(name, "Len") {
			if len(parts(v)) == 0 {
				return e.deliver(c, vint(0))
			}
			if s, ok := constStr(v); ok {
				return e.deliver(c, vint(len(s)))
			}
			if isTop(v) {
				return e.deliver(c, VTop{"length"})
			}
			if maybeEmpty(v) == No {
				return e.deliver(c, VTerm{"poslen", []Val{v}})
			}
			return e.deliver(c, mkTerm("len", v))
		}
		if strings.HasSuffix(name, "Bytes") {
			return e.deliver(c, VTerm{"bytes", []Val{v}})
		}
		return e.deliver(c, v)
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		if p, ok := args[0].(VPtr); ok {
			e.store(c, p, VTerm{"builder", nil})
		}
		return e.deliver(c, nil)
	case "strings.NewReplacer", "strings.NewReader":
		if o, ok := c.seq(args[0]); ok {
			return e.deliver(c, VTerm{"nn:" + name, []Val{frozen(o)}})
		}
		return e.deliver(c, VTerm{"nn:" + name, args})
	case "(*strings.Replacer).Replace":
		return e.pure(c, "replacer", fn, args)
	case "strconv.Itoa", "strconv.FormatInt":
		if n, ok := constInt(args[0]); ok {
			return e.deliver(c, vstr(strconv.Itoa(n)))
		}
		return e.pure(c, name, fn, args)
	case "strconv.Quote":
		if isTop(args[0]) {
			return e.deliver(c, VTop{name})
		}
		return e.deliver(c, VTerm{"quote", args})
	case "time.Now", "time.Since", "math/rand.Int", "math/rand.Intn", "math/rand.Shuffle", "math/rand/v2.IntN", "math/rand/v2.N", "math/rand.Perm", "os.Getenv":
		e.event("nondet", name+" at "+e.P.instrPos(in))
		return e.deliver(c, e.topResult(fn.Signature))
	}
	if strings.HasPrefix(name, "(*sync.Map).") {
		return e.syncMap(c, in, strings.TrimPrefix(name, "(*sync.Map)."), args)
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		return e.atomic(c, in, name, fn, args)
	}
	for _, p := range []string{"strings.", "unicode", "strconv.", "bytes.", "regexp.", "(*regexp.Regexp).", "errors.", "math.", "path.", "(time.", "cmp.",
		"golang.org/x/net/html.", "reflect.", "encoding/json.Marshal", "hash/", "(*strings.Reader)", "slices.Max", "slices.Min", "slices.BinarySearch", "slices.Index", "sort.Search", "slices.IsSorted", "sort.StringsAreSorted", "sort.SearchStrings"} {
		if strings.HasPrefix(name, p) {
			return e.pure(c, name, fn, args)
		}
	}
	// unknown function: harmless if it is given nothing it could change
	ref := false
	for _, a := range args {
		if hasRef(a) {
			ref = true
		}
	}
	if ref {
		e.problem(c, "call of "+name+", of which nothing is known, at "+e.P.instrPos(in))
	}
	return e.deliver(c, e.topResult(fn.Signature))
}

func (c *Config) freezeIf(v Val) Val { return c.freeze(v, 0) }

func hasRef(v Val) bool {
	switch t := v.(type) {
	case VPtr, VMap, VSlice:
		return true
	case VStruct:
		for _, f := range t.F {
			if hasRef(f) {
				return true
			}
		}
	case VIface:
		return hasRef(t.V)
	case VFunc:
		return true
	}
	return false
}

func comparePos(c *Config, a, b Val) (int, bool) {
	x, ok := a.(VPos)
	y, ok2 := b.(VPos)
	if ok && ok2 && x.Obj == y.Obj {
		o := c.heap[x.Obj]
		if x.Slot != y.Slot {
			if x.Slot < y.Slot {
				return -1, true
			}
			return 1, true
		}
		if o != nil && x.Slot < len(o.Items) && o.Items[x.Slot].Max == 1 {
			return 0, true
		}
	}
	return 0, false
}

// splitUnknown models taking an unknown string apart.
func (e *Engine) splitUnknown(c *Config, name string, args []Val) []*Config {
	if e.Split != nil {
		if v, ok := e.Split(c, name, args); ok {
			return e.deliver(c, v)
		}
	}
	var v Val = VTop{"piece"}
	if !anyTop(args) {
		fz := make([]Val, len(args))
		for i, a := range args {
			fz[i] = c.freeze(a, 0)
		}
		v = VTerm{"piece:" + name, fz}
		// which piece is unknown
		v = VAtomOf(v)
	}
	return e.deliver(c, c.newSeq([]Item{gap(v)}))
}

// VAtomOf is an unknown part of a value.
func VAtomOf(v Val) Val { return VAtom{"str", key(v), Other} }

// ---- locks

func (e *Engine) lock(c *Config, in ssa.Instruction, m Val, mode string) []*Config {
	p, ok := m.(VPtr)
	if !ok || c.heap[p.Obj] == nil {
		e.problem(c, "lock of an unknown mutex at "+e.P.instrPos(in))
		return e.deliver(c, nil)
	}
	o := c.upd(p.Obj)
	if t, ok := project(o.V, p.Path).(VTerm); ok && strings.HasPrefix(t.Op, "mutex:") {
		e.event("deadlock", "lock taken while already held ("+t.Op[6:]+", then "+mode+") at "+e.P.instrPos(in)+" via "+c.callChain())
		return nil
	}
	o.V = inject(o.V, p.Path, VTerm{"mutex:" + mode, nil})
	if e.OnLock != nil {
		e.OnLock(c, mode, true)
	}
	return e.deliver(c, nil)
}

func (c *Config) callChain() string {
	var l []string
	for _, f := range c.frames {
		if f.fn != nil {
			l = append(l, f.fn.Name())
		}
	}
	return strings.Join(l, ">")
}

func (e *Engine) unlock(c *Config, in ssa.Instruction, m Val, mode string) []*Config {
	p, ok := m.(VPtr)
	if !ok || c.heap[p.Obj] == nil {
		e.problem(c, "unlock of an unknown mutex at "+e.P.instrPos(in))
		return e.deliver(c, nil)
	}
	o := c.upd(p.Obj)
	t, ok := project(o.V, p.Path).(VTerm)
	if !ok || t.Op != "mutex:"+mode {
		e.event("badunlock", "unlock of a mutex that is not held that way at "+e.P.instrPos(in))
		return nil
	}
	o.V = inject(o.V, p.Path, VTerm{"free", nil})
	if e.OnLock != nil {
		e.OnLock(c, mode, false)
	}
	return e.deliver(c, nil)
}

func (e *Engine) onceDo(c *Config, in ssa.Instruction, args []Val) []*Config {
	p, ok := args[0].(VPtr)
	if !ok || c.heap[p.Obj] == nil {
		e.problem(c, "unknown sync.Once at "+e.P.instrPos(in))
		return e.deliver(c, nil)
	}
	v := project(c.heap[p.Obj].V, p.Path)
	if t, ok := v.(VTerm); ok && t.Op == "once:done" {
		return e.deliver(c, nil)
	}
	o := c.upd(p.Obj)
	o.V = inject(o.V, p.Path, VTerm{"once:done", nil})
	return e.native(c, "once", nil, func(c *Config, fr *Frame, ret Val) []*Config {
		if fr.nstep == 0 {
			fr.nstep = 1
			return e.callValue(c, in, args[1], nil)
		}
		c.pop()
		return e.deliver(c, nil)
	})
}

// ---- builders

func (e *Engine) builderParts(c *Config, p Val) ([]Val, bool) {
	ptr, ok := p.(VPtr)
	if !ok || c.heap[ptr.Obj] == nil {
		return nil, false
	}
	v := project(c.heap[ptr.Obj].V, ptr.Path)
	switch t := v.(type) {
	case VTerm:
		if t.Op == "builder" {
			return t.Args, true
		}
	case VStruct:
		return nil, true
	}
	return nil, false
}

func (e *Engine) builderValue(c *Config, p Val) Val {
	ps, ok := e.builderParts(c, p)
	if !ok {
		return VTop{"builder"}
	}
	if ptr, ok := p.(VPtr); ok {
		if o := c.heap[ptr.Obj]; o.Shared != "" {
			e.access(c, o.Shared, fieldLoc(o, ptr.Path), false)
		}
	}
	for _, x := range ps {
		if isTop(x) {
			return VTop{"built string"}
		}
	}
	return concat(ps...)
}

func (e *Engine) builderWrite(c *Config, name string, args []Val) []*Config {
	dst := args[0]
	if i, ok := dst.(VIface); ok {
		dst = i.V
	}
	ps, ok := e.builderParts(c, dst)
	if !ok {
		e.problem(c, "write to an unknown builder at "+c.where())
		return e.deliver(c, VTuple{VTop{"n"}, VC{nil, types.Universe.Lookup("error").Type()}})
	}
	w := args[1]
	switch {
	case strings.HasSuffix(name, "WriteByte"), strings.HasSuffix(name, "WriteRune"):
		if n, ok := constInt(w); ok {
			w = vstr(string(rune(n)))
		} else if isTop(w) {
			w = VTop{"byte"}
		} else {
			w = mkTerm("runestr", w)
		}
	case strings.HasSuffix(name, ".Write"):
		if t, ok := w.(VTerm); ok && t.Op == "bytes" {
			w = t.Args[0]
		} else if isNil(w) {
			w = vstr("")
		} else if !isTop(w) {
			if _, isSlice := w.(VSlice); isSlice {
				w = VTop{"bytes"}
			}
		}
	}
	e.store(c, dst, VTerm{"builder", foldParts(append(append([]Val(nil), ps...), parts(w)...))})
	errT := types.Universe.Lookup("error").Type()
	if strings.HasSuffix(name, "WriteByte") {
		return e.deliver(c, VC{nil, errT})
	}
	return e.deliver(c, VTuple{VTop{"n"}, VC{nil, errT}})
}

// foldParts keeps the list of parts finite: a group of parts that contains a
// summary value and repeats is written once, as a repetition.
func foldParts(ps []Val) []Val {
	var out []Val
	for _, p := range ps {
		// merge constants
		if s, ok := constStr(p); ok && len(out) > 0 {
			if t, ok := constStr(out[len(out)-1]); ok && len(s)+len(t) < 200 {
				out[len(out)-1] = vstr(t + s)
				continue
			}
		}
		if isTop(p) && len(out) > 0 && isTop(out[len(out)-1]) {
			continue
		}
		out = append(out, p)
	}
	same := func(a, b []Val) bool {
		nr := false
		for i := range a {
			if key(a[i]) != key(b[i]) {
				return false
			}
			if !isRigid(a[i]) {
				nr = true
			}
		}
		return nr
	}
	for again := true; again; {
		again = false
		n := len(out)
		for k := 1; k <= 4 && !again; k++ {
			if n >= 2*k && same(out[n-k:], out[n-2*k:n-k]) {
				rep := VTerm{"rep", append([]Val(nil), out[n-k:]...)}
				out = append(append([]Val(nil), out[:n-2*k]...), rep)
				again = true
			} else if n >= k+1 {
				if r, ok := out[n-k-1].(VTerm); ok && r.Op == "rep" && len(r.Args) == k && same(out[n-k:], r.Args) {
					out = append([]Val(nil), out[:n-k]...)
					again = true
				}
			}
		}
	}
	if len(out) > 20 {
		return []Val{VTop{"long string"}}
	}
	return out
}

// ---- formatting

type fmtState struct{ pieces []Val }

func (e *Engine) sprintf(c *Config, in ssa.Instruction, args []Val) []*Config {
	return e.formatThen(c, in, args, func(c *Config, v Val) []*Config { return e.deliver(c, v) })
}

func (e *Engine) fprintf(c *Config, in ssa.Instruction, name string, dst VPtr, args []Val) []*Config {
	if name != "fmt.Fprintf" {
		if o, ok := c.seq(args[0]); ok {
			if n, ok := exactLen(o); ok && n == 1 {
				f := "%v"
				if name == "fmt.Fprintln" {
					f = "%v\n"
				}
				args = []Val{vstr(f), args[0]}
			} else {
				args = []Val{VTop{"format"}, args[0]}
			}
		}
	}
	return e.formatThen(c, in, args, func(c *Config, v Val) []*Config {
		return e.builderWrite(c, "io.WriteString", []Val{dst, v})
	})
}

func (e *Engine) formatThen(c *Config, in ssa.Instruction, args []Val, then func(c *Config, v Val) []*Config) []*Config {
	format, ok := constStr(args[0])
	var items []Item
	if o, ok2 := c.seq(args[1]); ok2 {
		items = o.Items
		if _, ex := exactLen(o); !ex {
			ok = false
		}
	} else {
		ok = false
	}
	if !ok {
		return then(c, VTop{"formatted"})
	}
	type piece struct {
		lit  string
		verb byte
		fl   string
		arg  Val
	}
	var ps []piece
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			ps = append(ps, piece{lit: string(format[i])})
			continue
		}
		i++
		flags := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			return then(c, VTop{"formatted"})
		}
		if format[i] == '%' {
			ps = append(ps, piece{lit: "%"})
			continue
		}
		if ai >= len(items) {
			return then(c, VTop{"formatted"})
		}
		v := format[i]
		if flags != i && v != 'd' {
			v = '?'
		}
		ps = append(ps, piece{verb: v, fl: format[flags:i], arg: items[ai].V})
		ai++
	}
	acc := []Val{}
	return e.native(c, "fmt", nil, func(c *Config, fr *Frame, ret Val) []*Config {
		_ = acc
		if ret != nil {
			fr.nvals = append(append([]Val(nil), fr.nvals...), ret)
		}
		for fr.nstep < len(ps) {
			p := ps[fr.nstep]
			fr.nstep++
			if p.verb == 0 {
				fr.nvals = append(append([]Val(nil), fr.nvals...), vstr(p.lit))
				continue
			}
			v := p.arg
			var dyn types.Type
			if i, ok := v.(VIface); ok {
				dyn = i.T
				if m := e.stringMethod(i.T); m != nil && (p.verb == 's' || p.verb == 'v' || p.verb == 'q') {
					return e.callFn(c, in, m, []Val{i.V}, nil)
				}
				v = i.V
			}
			r := Val(VTop{"formatted value"})
			switch p.verb {
			case 's', 'v', 'd':
				if _, ok := constStr(v); ok {
					r = v
				} else if n, ok := constInt(v); ok && (p.verb == 'd' || p.verb == 'v') {
					r = vstr(fmt.Sprintf("%"+p.fl+"d", n))
				} else if dyn != nil && isBasicString(dyn) {
					r = v
				} else if o := c.thawSeq(v); o != nil {
					r = VTerm{"fmt", []Val{frozen(o)}}
				} else if !isTop(v) {
					r = mkTerm("fmt:"+p.fl+string(p.verb), v)
					if b, ok := dyn.(*types.Basic); ok && b.Kind() == types.Int {
						if p.fl == "" {
							r = mkTerm("strconv.Itoa", v)
						} else {
							r = mkTerm("padded integer "+p.fl, v)
						}
					}
				}
			case 'q':
				if !isTop(v) {
					r = VTerm{"quote", []Val{v}}
				}
			case 'c':
				if n, ok := constInt(v); ok {
					r = vstr(string(rune(n)))
				}
			default:
				if !isTop(v) && !hasRef(v) {
					r = mkTerm("fmt:"+string(p.verb), v)
				}
			}
			fr.nvals = append(append([]Val(nil), fr.nvals...), r)
		}
		vals := fr.nvals
		c.pop()
		for _, v := range vals {
			if isTop(v) {
				return then(c, VTop{"formatted"})
			}
		}
		return then(c, concat(vals...))
	})
}

func (c *Config) thawSeq(v Val) *Obj {
	if s, ok := v.(VSlice); ok {
		return c.heap[s.Obj]
	}
	return nil
}

func isBasicString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) stringMethod(t types.Type) *ssa.Function {
	ms := e.P.Prog.MethodSets.MethodSet(t)
	for _, name := range []string{"Error", "String"} {
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); s.Obj().Name() == name {
				if sig, ok := s.Type().(*types.Signature); ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 && isBasicString(sig.Results().At(0).Type()) {
					fn := e.P.Prog.MethodValue(s)
					if fn != nil && len(fn.Blocks) > 0 {
						return fn
					}
				}
			}
		}
	}
	return nil
}

// ---- regular expressions

func (e *Engine) regex(c *Config, name string, fn *ssa.Function, args []Val) []*Config {
	re, ok := args[0].(VTerm)
	pat := ""
	if ok && len(re.Args) == 1 && strings.HasPrefix(re.Op, "nn:regexp.") {
		pat, ok = constStr(re.Args[0])
	} else {
		ok = false
	}
	s, sok := foldArg(args[1])
	if ok && sok {
		if r, err := regexp.Compile(pat); err == nil {
			switch strings.TrimPrefix(name, "(*regexp.Regexp).") {
			case "MatchString":
				return e.deliver(c, vbool(r.MatchString(s)))
			case "FindString":
				return e.deliver(c, vstr(r.FindString(s)))
			case "FindStringSubmatch":
				m := r.FindStringSubmatch(s)
				if m == nil {
					return e.deliver(c, VC{nil, fn.Signature.Results().At(0).Type()})
				}
				return e.deliver(c, e.seqOfStrings(c, m))
			case "FindAllString":
				if n, ok := constInt(args[2]); ok {
					m := r.FindAllString(s, n)
					if m == nil {
						return e.deliver(c, VC{nil, fn.Signature.Results().At(0).Type()})
					}
					return e.deliver(c, e.seqOfStrings(c, m))
				}
			case "ReplaceAllString":
				if w, ok := foldArg(args[2]); ok {
					return e.deliver(c, vstr(r.ReplaceAllString(s, w)))
				}
			case "FindAllStringSubmatch":
				if n, ok := constInt(args[2]); ok {
					m := r.FindAllStringSubmatch(s, n)
					if m == nil {
						return e.deliver(c, VC{nil, fn.Signature.Results().At(0).Type()})
					}
					var items []Item
					for _, g := range m {
						items = append(items, one(e.seqOfStrings(c, g)))
					}
					return e.deliver(c, c.newSeq(items))
				}
			}
		}
	}
	switch fn.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Slice:
		if strings.Contains(name, "Submatch") && strings.Contains(name, "All") {
			in := c.newSeq([]Item{gap(VTop{"match"})})
			c2 := c.fork()
			out := e.deliver(c2, VC{nil, fn.Signature.Results().At(0).Type()})
			return append(out, e.deliver(c, c.newSeq([]Item{one(in), gap(in)}))...)
		}
		c2 := c.fork()
		out := e.deliver(c2, VC{nil, fn.Signature.Results().At(0).Type()})
		return append(out, e.deliver(c, c.newSeq([]Item{one(VTop{"match"}), gap(VTop{"match"})}))...)
	}
	return e.pure(c, name, fn, args)
}

// ---- sorting and other functions of package slices

func (e *Engine) sortSeq(c *Config, v Val, less Val) []*Config {
	if isNil(v) {
		return e.deliver(c, nil)
	}
	s, ok := v.(VSlice)
	if !ok {
		if !isTop(v) {
			e.problem(c, "sort of an unknown slice at "+c.where())
		}
		return e.deliver(c, nil)
	}
	o := c.heap[s.Obj]
	if o.Shared != "" {
		e.access(c, o.Shared, "", true)
	}
	n := c.upd(s.Obj)
	allConst := true
	for _, it := range n.Items {
		if _, ok := constStr(it.V); !ok || it.Min != 1 || it.Max != 1 {
			allConst = false
		}
	}
	if allConst {
		n.Items = append([]Item(nil), n.Items...)
		sort.SliceStable(n.Items, func(i, j int) bool {
			a, _ := constStr(n.Items[i].V)
			b, _ := constStr(n.Items[j].V)
			return a < b
		})
		return e.deliver(c, nil)
	}
	uniq := true
	seen := map[string]bool{}
	for _, it := range n.Items {
		if k := key(it.V); seen[k] || it.Max > 1 {
			uniq = false
		} else {
			seen[k] = true
		}
	}
	n.Items = bagItems(n.Items)
	n.Unord, n.Uniq = true, n.Uniq || uniq
	return e.deliver(c, nil)
}

// sortBy sorts with a comparison of the program, which is evaluated on the
// distinguished elements.
func (e *Engine) sortBy(c *Config, in ssa.Instruction, v, f Val, byIndex bool) []*Config {
	s, ok := v.(VSlice)
	if !ok {
		if isNil(v) {
			return e.deliver(c, nil)
		}
		e.problem(c, "sort of an unknown slice at "+e.P.instrPos(in))
		return e.deliver(c, nil)
	}
	o := c.heap[s.Obj]
	if o.Shared != "" {
		e.access(c, o.Shared, "", true)
	}
	type pair struct{ a, b int }
	var pairs []pair
	var rig []int
	nonrig := []Item{}
	bag := bagItems(o.Items)
	ou := c.upd(s.Obj)
	ou.Items, ou.Unord = bag, true
	for i, it := range bag {
		if isRigid(it.V) {
			rig = append(rig, i)
		} else {
			nonrig = append(nonrig, it)
		}
	}
	for _, a := range rig {
		for _, b := range rig {
			if a != b {
				pairs = append(pairs, pair{a, b})
			}
		}
	}
	return e.native(c, "sort", []Val{v}, func(c *Config, fr *Frame, ret Val) []*Config {
		if ret != nil {
			fr.nvals = append(append([]Val(nil), fr.nvals...), ret)
		}
		if fr.nstep < len(pairs) {
			p := pairs[fr.nstep]
			fr.nstep++
			if byIndex {
				return e.callValue(c, in, f, []Val{VPos{s.Obj, p.a, 0}, VPos{s.Obj, p.b, 0}})
			}
			return e.callValue(c, in, f, []Val{bag[p.a].V, bag[p.b].V})
		}
		res := fr.nvals[1:]
		c.pop()
		before := map[pair]bool{}
		known := true
		for i, p := range pairs {
			r := res[i]
			if b, ok := constBool(r); ok {
				before[p] = b
			} else if n, ok := constInt(r); ok {
				before[p] = n < 0
			} else {
				known = false
			}
		}
		n := c.upd(s.Obj)
		if known {
			for i := range pairs {
				p := pairs[i]
				if before[p] == before[pair{p.b, p.a}] {
					known = false
				}
			}
		}
		if known && len(rig) > 0 {
			order := append([]int(nil), rig...)
			sort.SliceStable(order, func(i, j int) bool { return before[pair{order[i], order[j]}] })
			var items []Item
			for _, r := range order {
				for _, o := range nonrig {
					items = append(items, gap(o.V))
				}
				items = append(items, bag[r])
			}
			for _, o := range nonrig {
				items = append(items, gap(o.V))
			}
			n.Items, n.Unord, n.Uniq = items, false, false
		}
		return e.deliver(c, nil)
	})
}

func (e *Engine) copyOf(c *Config, name string, args []Val) []*Config {
	if isNil(args[0]) {
		if name == "slices.Reverse" {
			return e.deliver(c, nil)
		}
		return e.deliver(c, args[0])
	}
	switch t := args[0].(type) {
	case VSlice:
		o := c.heap[t.Obj]
		if name == "slices.Reverse" {
			if o.Shared != "" {
				e.access(c, o.Shared, "", true)
			}
			n := c.upd(t.Obj)
			items := make([]Item, len(n.Items))
			for i, it := range n.Items {
				items[len(items)-1-i] = it
			}
			n.Items = items
			return e.deliver(c, nil)
		}
		if name != "slices.Clone" {
			return e.deliver(c, t)
		}
		if o.Shared != "" {
			e.access(c, o.Shared, "", false)
		}
		n := o.copy()
		n.Shared = ""
		return e.deliver(c, VSlice{c.alloc(n)})
	case VMap:
		o := c.heap[t.Obj]
		if o.Shared != "" {
			e.access(c, o.Shared, "", false)
		}
		n := o.copy()
		n.Shared = ""
		n.Ents = append([]Ent(nil), o.Ents...)
		return e.deliver(c, VMap{c.alloc(n)})
	}
	if isTop(args[0]) && name != "slices.Reverse" {
		return e.deliver(c, args[0])
	}
	e.problem(c, name+" of an unknown value at "+c.where())
	return nil
}

// eachFunc calls a predicate on every element.
func (e *Engine) eachFunc(c *Config, in ssa.Instruction, name string, args []Val) []*Config {
	o, ok := e.readSeq(c, args[0])
	if !ok {
		e.problem(c, name+" of an unknown slice at "+e.P.instrPos(in))
		return nil
	}
	items := o.Items
	unord := o.Unord
	f := args[1]
	return e.native(c, name+e.P.instrPos(in), []Val{args[0]}, func(c *Config, fr *Frame, ret Val) []*Config {
		if ret != nil {
			fr.nvals = append(append([]Val(nil), fr.nvals...), ret)
		}
		if fr.nstep < len(items) {
			it := items[fr.nstep]
			fr.nstep++
			return e.callValue(c, in, f, []Val{it.V})
		}
		res := fr.nvals[1:]
		c.pop()
		if name == "slices.DeleteFunc" {
			n := &Obj{Kind: 's', Unord: unord}
			for i, it := range items {
				if b, ok := constBool(res[i]); ok {
					if !b {
						n.Items = append(n.Items, it)
					}
					continue
				}
				it.Min = 0
				n.Items = append(n.Items, it)
			}
			return e.deliver(c, VSlice{c.alloc(n)})
		}
		t := No
		var terms []Val
		idx := -1
		exact := true
		for i, it := range items {
			b, ok := constBool(res[i])
			switch {
			case ok && b && it.Min > 0:
				t = Yes
				if idx < 0 && exact {
					idx = i
				}
			case ok && !b:
			default:
				if t == No {
					t = Maybe
				}
				terms = append(terms, res[i])
			}
			if it.Min != 1 || it.Max != 1 || !ok {
				exact = false
			}
		}
		if name == "slices.ContainsFunc" {
			if t == Maybe && len(terms) == 1 && len(items) == 1 && items[0].Min == 1 && items[0].Max == 1 {
				return e.deliver(c, terms[0])
			}
			return e.deliver(c, triVal(t))
		}
		if t == No {
			return e.deliver(c, vint(-1))
		}
		if t == Yes && idx >= 0 {
			return e.deliver(c, vint(idx))
		}
		return e.deliver(c, VTop{name})
	})
}

// collect gathers the elements of an iterator of package maps or slices.
func (e *Engine) collect(c *Config, in ssa.Instruction, name string, args []Val) []*Config {
	it := args[len(args)-1]
	f, ok := it.(VFunc)
	if !ok || !strings.HasPrefix(f.Built, "iter:") {
		e.problem(c, name+" of an unknown iterator at "+e.P.instrPos(in))
		return nil
	}
	n := &Obj{Kind: 's'}
	if name == "slices.AppendSeq" {
		if b, ok := c.seq(args[0]); ok {
			n.Items = append([]Item(nil), b.Items...)
			n.Unord = b.Unord
		}
	}
	if f.Built == "iter:slices.Values" {
		if o, ok := e.readSeq(c, f.Bind[0]); ok {
			for _, x := range o.Items {
				n.push(x)
			}
			n.Unord = n.Unord || o.Unord
		}
	} else if m, ok := f.Bind[0].(VMap); ok {
		o := c.heap[m.Obj]
		if o.Shared != "" {
			e.access(c, o.Shared, "", false)
		}
		ents := append([]Ent(nil), o.Ents...)
		sort.SliceStable(ents, func(i, j int) bool {
			if e.Unord == 2 {
				return key(ents[i].K) > key(ents[j].K)
			}
			return key(ents[i].K) < key(ents[j].K)
		})
		var gaps []Item
		for _, en := range ents {
			if en.Many {
				gaps = append(gaps, gap(pick(en, f.Built)))
			}
		}
		for _, g := range gaps {
			n.push(g)
		}
		for _, en := range ents {
			if en.Many {
				continue
			}
			min := 0
			if en.Must {
				min = 1
			}
			n.push(Item{pick(en, f.Built), min, 1})
			for _, g := range gaps {
				n.push(g)
			}
		}
	} else if !isNil(f.Bind[0]) {
		n.push(gap(VTop{"element"}))
	}
	id := c.alloc(n)
	if name == "slices.Sorted" {
		n.Items = bagItems(n.Items)
		n.Unord = true
	}
	return e.deliver(c, VSlice{id})
}

func pick(en Ent, built string) Val {
	if strings.HasSuffix(built, "Keys") {
		return en.K
	}
	return en.V
}

// ---- sync.Map and atomics

func (e *Engine) syncMap(c *Config, in ssa.Instruction, m string, args []Val) []*Config {
	p, ok := args[0].(VPtr)
	if !ok || c.heap[p.Obj] == nil {
		e.problem(c, "operation on an unknown sync.Map at "+e.P.instrPos(in))
		return nil
	}
	o := c.heap[p.Obj]
	if o.Shared != "" {
		e.access(c, o.Shared, fieldLoc(o, p.Path), false)
	}
	var mo VMap
	v := project(o.V, p.Path)
	if t, ok := v.(VTerm); ok && t.Op == "syncmap" {
		mo = t.Args[0].(VMap)
	} else {
		mo = VMap{c.alloc(&Obj{Kind: 'm'})}
		u := c.upd(p.Obj)
		u.V = inject(u.V, p.Path, VTerm{"syncmap", []Val{mo}})
	}
	anyT := types.Universe.Lookup("any").Type()
	find := func(c *Config, k Val, yes func(c *Config, v Val) []*Config, no func(c *Config) []*Config) []*Config {
		var out []*Config
		ents := c.heap[mo.Obj].Ents
		for i, en := range ents {
			if en.Many {
				continue
			}
			if eq(en.K, k) == Yes {
				if en.Must {
					return yes(c, en.V)
				}
				c1 := c.fork()
				u := c1.upd(mo.Obj)
				u.Ents = append([]Ent(nil), u.Ents...)
				u.Ents[i].Must = true
				u2 := c.upd(mo.Obj)
				u2.Ents = append(append([]Ent(nil), u2.Ents[:i]...), u2.Ents[i+1:]...)
				return append(yes(c1, en.V), no(c)...)
			}
		}
		for _, en := range ents {
			if eq(en.K, k) != No {
				out = append(out, yes(c.fork(), en.V)...)
			}
		}
		return append(out, no(c)...)
	}
	switch m {
	case "Load":
		return find(c, args[1], func(c *Config, v Val) []*Config { return e.deliver(c, VTuple{v, trueVal}) },
			func(c *Config) []*Config { return e.deliver(c, VTuple{VC{nil, anyT}, falseVal}) })
	case "Store":
		var out []*Config
		for _, ci := range e.mapSet(c, mo.Obj, args[1], args[2]) {
			out = append(out, e.deliver(ci, nil)...)
		}
		return out
	case "Delete":
		var out []*Config
		for _, ci := range e.mapDelete(c, mo.Obj, args[1]) {
			out = append(out, e.deliver(ci, nil)...)
		}
		return out
	case "Clear":
		c.upd(mo.Obj).Ents = nil
		return e.deliver(c, nil)
	case "LoadOrStore":
		return find(c, args[1], func(c *Config, v Val) []*Config { return e.deliver(c, VTuple{v, trueVal}) },
			func(c *Config) []*Config {
				var out []*Config
				for _, ci := range e.mapSet(c, mo.Obj, args[1], args[2]) {
					out = append(out, e.deliver(ci, VTuple{args[2], falseVal})...)
				}
				return out
			})
	case "LoadAndDelete", "Swap":
		return find(c, args[1], func(c *Config, v Val) []*Config {
			var out []*Config
			var cs []*Config
			if m == "Swap" {
				cs = e.mapSet(c, mo.Obj, args[1], args[2])
			} else {
				cs = e.mapDelete(c, mo.Obj, args[1])
			}
			for _, ci := range cs {
				out = append(out, e.deliver(ci, VTuple{v, trueVal})...)
			}
			return out
		}, func(c *Config) []*Config {
			var out []*Config
			cs := []*Config{c}
			if m == "Swap" {
				cs = e.mapSet(c, mo.Obj, args[1], args[2])
			}
			for _, ci := range cs {
				out = append(out, e.deliver(ci, VTuple{VC{nil, anyT}, falseVal})...)
			}
			return out
		})
	case "Range":
		// The callback is called for each entry until it gives false. The
		// entries present at the start are visited unless deleted before.
		it := c.alloc(&Obj{Kind: 'i', Src: mo.Obj})
		return e.native(c, "syncmap.range", []Val{VIter{it}}, func(c *Config, fr *Frame, ret Val) []*Config {
			step := func(c *Config) []*Config {
				return e.mapNext(c, VIter{it}, func(c *Config, ok bool, k, v Val) []*Config {
					if !ok {
						c.pop()
						return e.deliver(c, nil)
					}
					// iterations over unboundedly many entries end when nothing changes
					f := c.top()
					f.nstep++
					if f.nstep > 12 {
						return nil
					}
					return e.callValue(c, in, args[1], []Val{k, v})
				})
			}
			if ret == nil {
				return step(c)
			}
			if b, ok := constBool(ret); ok {
				if !b {
					c.pop()
					return e.deliver(c, nil)
				}
				return step(c)
			}
			c2 := c.fork()
			c2.pop()
			return append(step(c), e.deliver(c2, nil)...)
		})
	}
	e.problem(c, "sync.Map."+m+" at "+e.P.instrPos(in))
	return nil
}

func (e *Engine) atomic(c *Config, in ssa.Instruction, name string, fn *ssa.Function, args []Val) []*Config {
	p, ok := args[0].(VPtr)
	if !ok || c.heap[p.Obj] == nil {
		return e.deliver(c, e.topResult(fn.Signature))
	}
	read := func() Val {
		v := project(c.heap[p.Obj].V, p.Path)
		if t, ok := v.(VTerm); ok && t.Op == "atomic" {
			return t.Args[0]
		}
		if _, ok := v.(VStruct); ok {
			if fn.Signature.Results().Len() == 1 {
				return zero(fn.Signature.Results().At(0).Type())
			}
		}
		return v
	}
	write := func(v Val) {
		u := c.upd(p.Obj)
		u.V = inject(u.V, p.Path, VTerm{"atomic", []Val{v}})
		e.event("atomicwrite", e.P.instrPos(in))
	}
	switch fn.Name() {
	case "Load":
		return e.deliver(c, read())
	case "Store":
		write(args[1])
		return e.deliver(c, nil)
	case "Swap":
		v := read()
		write(args[1])
		return e.deliver(c, v)
	case "CompareAndSwap":
		c2 := c.fork()
		write(args[2])
		return append(e.deliver(c, trueVal), e.deliver(c2, falseVal)...)
	case "Add":
		write(VTop{"counter"})
		return e.deliver(c, VTop{"counter"})
	}
	e.problem(c, name+" at "+e.P.instrPos(in))
	return e.deliver(c, e.topResult(fn.Signature))
}

var _ = constant.MakeBool
