package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = check{"race freedom", checkC01}
	checks["C02"] = check{"cache", checkC02}
	checks["C03"] = check{"bundled cache", checkC03}
	checks["C12"] = check{"purity of merging", checkC12}
}

// ---- the race rule

// races applies the lock-set rule to the accesses recorded by an engine: of two
// accesses to the same part of an object, one of them a write, both must hold
// one common lock, the write exclusively. Accesses of construction do not count.
func races(acc map[string]Access, skip map[string]bool) (checked int, bad []string) {
	byObj := map[string][]Access{}
	for _, k := range sortedKeys(acc) {
		a := acc[k]
		if skip[a.Entry] {
			continue
		}
		byObj[a.Obj] = append(byObj[a.Obj], a)
	}
	var objs []string
	for o := range byObj {
		objs = append(objs, o)
	}
	sort.Strings(objs)
	for _, o := range objs {
		l := byObj[o]
		seen := map[string]bool{}
		for _, w := range l {
			if !w.Write {
				continue
			}
			for _, a := range l {
				if !overlap(w.Path, a.Path) {
					continue
				}
				checked++
				if commonLock(w, a) {
					continue
				}
				m := fmt.Sprintf("%s%s is written at %s (in %s, locks held: %s) and %s at %s (in %s, locks held: %s)",
					o, w.Path, w.Pos, w.Entry, orNone(w.Locks), map[bool]string{true: "written", false: "read"}[a.Write], a.Pos, a.Entry, orNone(a.Locks))
				if !seen[m] {
					seen[m] = true
					bad = append(bad, m)
				}
			}
		}
	}
	return checked, bad
}

func orNone(s string) string {
	if s == "" {
		return "none"
	}
	return s
}

func overlap(a, b string) bool {
	if a == b || a == "" || b == "" {
		// the whole of a list and its spare capacity are told apart below
		return !(strings.Contains(a+b, "(spare") && a != b)
	}
	return strings.HasPrefix(a, b+".") || strings.HasPrefix(b, a+".")
}

func commonLock(w, a Access) bool {
	held := map[string]string{}
	for _, l := range strings.Split(a.Locks, ",") {
		if i := strings.LastIndexByte(l, ':'); i > 0 {
			held[l[:i]] = l[i+1:]
		}
	}
	for _, l := range strings.Split(w.Locks, ",") {
		i := strings.LastIndexByte(l, ':')
		if i <= 0 || l[i+1:] != "W" || strings.HasPrefix(l, "local") {
			continue
		}
		if m, ok := held[l[:i]]; ok && (m == "W" || m == "R" && !a.Write) {
			return true
		}
	}
	return false
}

// lockEnds adds an obligation for each finished call that still holds a lock.
func (x *Ctx) lockEnds(name, site string, out []*cont) {
	for _, k := range out {
		if h := k.c.locksHeld(); len(h) > 0 {
			x.ob("every lock is released", name+" "+site, false, fmt.Sprintf("returns while holding %s%s", strings.Join(h, ", "), tr(k.c.traceString())))
			return
		}
	}
	x.ob("every lock is released", name+" "+site, len(out) > 0, "the call never returns")
}

func (x *Ctx) lockEvents(name string, e *Engine) {
	for _, ev := range sortedKeys(e.Events) {
		switch {
		case strings.HasPrefix(ev, "deadlock|"):
			x.ob("no lock is taken twice", name, false, ev[9:])
		case strings.HasPrefix(ev, "badunlock|"):
			x.ob("only held locks are released", name, false, ev[10:])
		case strings.HasPrefix(ev, "lockorder|"):
			x.ob("locks are taken in one order", name, false, ev[10:])
		}
	}
	x.ob("no lock is taken twice", name, true, "")
}

// exported lists the exported methods of a type with their functions.
func (x *Ctx) exported(t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	ms := x.P.Prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			if f := x.P.Prog.MethodValue(ms.At(i)); f != nil {
				out = append(out, f)
			}
		}
	}
	return out
}

func (x *Ctx) fsite(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.RelString(nil), modPath, "merge") + " " + x.P.pos(f.Pos())
}

// genericArg gives a generic argument of a type.
func genericArg(c *Config, name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return VAtom{"str", name, Rigid}
		case u.Info()&types.IsBoolean != 0:
			return VTerm{"bool:" + name, nil}
		}
		return VAtom{"num", name, Rigid}
	case *types.Interface:
		return VAtom{"obj", name, Rigid}
	}
	return VTop{"argument " + name}
}

// usages are small stylesheets and class lists that together make merging take
// every path.
func usages(x *Ctx) []*mb {
	var l []*mb
	add := func(f func(b *mb)) {
		b := &mb{x: x}
		f(b)
		l = append(l, b)
	}
	add(func(b *mb) { b.class("a", "", nil, "p", "s").class("b", "c1", nil, "p").in("n* a b n*") })
	add(func(b *mb) { b.class("a", "", nil, "p!", "s!").class("b", "", nil, "p", "q!").in("a b n*") })
	add(func(b *mb) {
		b.class("a", "", nil, "--x:1px", "r:var(--x)").class("b", "", nil, "q:var(--x)!").in("a b")
	})
	if h := x.sel("HoverPseudoClassSelector"); h != nil {
		add(func(b *mb) { b.class("c", "", selWith(h), "p").class("d", "", selPE("before", h), "p").in("c d n*") })
		add(func(b *mb) {
			b.class("c", "", selComb('>', "li", h), "p").class("d", "c1", selComb(' ', "li"), "p").in("c d z")
		})
	}
	return l
}

func checkC01(x *Ctx) {
	x.rule("Every exported method of the merger is interpreted abstractly on the SSA form, with all its callees, on a merger in use; each access to memory reachable from the merger, to package variables and to anything handed out is recorded with the set of locks held on that path. Lock-set rule: of two accesses to the same location, one of them a write, both hold a common lock, the write exclusively. Typestate of the locks: never taken while held, only released while held that way, not held at any return.")
	x.assume("sync.RWMutex, sync.Mutex, sync.Once, sync.Map and sync/atomic behave as documented; a Cache supplied by the user and an io.Reader are safe to call as the documentation of their interface asks")
	x.assume("a blocked lock is only taken by calls of the same merger: readers and caches supplied by the user do not call back into it")
	acc := map[string]Access{}
	for i, b := range usages(x) {
		ks := i%2 == 0
		w := newWorld(x.P, "C01")
		b.w = w
		w.cache, w.keepSort = "any", ks
		w.props = stdProps()
		w.E.Unord = 1
		name := b.describe()
		m := w.merger()
		if len(m) == 0 {
			x.ob("construction", "NewMerger", false, "NewMerger never returns")
			continue
		}
		m2 := w.addRulesAll(m, b.sheet(w), true)
		x.lockEnds("AddRules "+name, x.fsite(x.P.method(x.P.Merger, "AddRules")), m2.all)
		// a second time, on a merger that has rules already
		m3 := w.addRulesAll(m2.ok, b.sheet(w), true)
		x.lockEnds("AddRules again "+name, x.fsite(x.P.method(x.P.Merger, "AddRules")), m3.all)
		for _, from := range [][]*cont{m, m2.ok, m3.ok} {
			out := w.merge(from, b.inputItems())
			x.lockEnds("Merge "+name, x.mergeSite(), out)
			out = w.merge(from, nil)
			x.lockEnds("Merge of nothing "+name, x.mergeSite(), out)
			for _, f := range x.exported(x.P.Merger) {
				if f.Name() == "Merge" || f.Name() == "AddRules" {
					continue
				}
				sig := f.Signature
				out := w.call(from, f, func(k *cont) []Val {
					args := []Val{k.ret[0]}
					for i := 0; i < sig.Params().Len(); i++ {
						args = append(args, genericArg(k.c, sig.Params().At(i).Name(), sig.Params().At(i).Type()))
					}
					return args
				})
				x.lockEnds(f.Name()+" "+name, x.fsite(f), out)
				// what is handed out may be read by the caller at any time
				for _, k := range out {
					for _, r := range k.ret {
						for _, o := range k.c.reachShared(r) {
							a := Access{Obj: o, Pos: "the caller of " + f.Name(), Entry: "after " + f.Name()}
							w.E.Accesses[fmt.Sprint(a)] = a
						}
					}
				}
			}
		}
		x.lockEvents(name, w.E)
		x.absorb("C01/"+name, w.E)
		for ev := range w.E.Events {
			if strings.HasPrefix(ev, "go|") {
				x.ob("no access outside of the call", name, false, "a goroutine is started at "+ev[3:])
			}
		}
		for k, a := range w.E.Accesses {
			acc[k] = a
		}
	}
	for k, a := range x.cacheAccesses() {
		acc[k] = a
	}
	n, bad := races(acc, map[string]bool{"NewMerger": true, "NewCache": true})
	for _, m := range bad {
		x.ob("lock-set rule", "Merger", false, m)
	}
	x.ob("lock-set rule", "Merger", true, "")
	x.count("access pairs with a write", n)
	x.count("recorded accesses", len(acc))
}

// cacheAccesses interprets calls of the bundled cache, which mergers share freely.
func (x *Ctx) cacheAccesses() map[string]Access {
	P := x.P
	ctor := P.Root.Func("NewCache")
	if ctor == nil || P.SimpleCache == nil {
		return nil
	}
	w := newWorld(P, "C01")
	cur := w.call(w.start(), ctor, func(*cont) []Val { return nil })
	if len(cur) == 0 {
		return nil
	}
	self, id := cur[0].ret, cur[0].id
	for _, k := range cur {
		k.c.share(k.ret[0], "cache")
	}
	for round := 0; round < 2; round++ {
		for _, f := range x.exported(P.SimpleCache) {
			for _, name := range []string{"k", "l"} {
				out := w.call(cur, f, func(k *cont) []Val {
					args := []Val{k.ret[0]}
					for i := 0; i < f.Signature.Params().Len(); i++ {
						args = append(args, genericArg(k.c, name, f.Signature.Params().At(i).Type()))
					}
					return args
				})
				x.lockEnds(f.Name(), x.fsite(f), out)
				for _, k := range out {
					k.ret, k.id = self, id
					k.c.share(self[0], "cache")
				}
				if len(out) > 0 {
					cur = out
				}
			}
		}
	}
	x.lockEvents("bundled cache", w.E)
	x.absorb("C01/bundled cache", w.E)
	return w.E.Accesses
}

func (x *Ctx) count(what string, n int) {
	if v, ok := x.Extra[what].(int); ok {
		n += v
	}
	x.Extra[what] = n
}

// reachShared lists the shared objects reachable from a value.
func (c *Config) reachShared(v Val) []string {
	seen := map[int]bool{}
	names := map[string]bool{}
	var walk func(v Val)
	visit := func(id int) {
		if seen[id] || c.heap[id] == nil {
			return
		}
		seen[id] = true
		o := c.heap[id]
		if o.Shared != "" {
			names[o.Shared] = true
		}
		if o.V != nil {
			walk(o.V)
		}
		for _, it := range o.Items {
			walk(it.V)
		}
		for _, en := range o.Ents {
			walk(en.K)
			walk(en.V)
		}
	}
	walk = func(v Val) {
		switch t := v.(type) {
		case VPtr:
			visit(t.Obj)
		case VSlice:
			visit(t.Obj)
		case VMap:
			visit(t.Obj)
		case VStruct:
			for _, f := range t.F {
				walk(f)
			}
		case VIface:
			walk(t.V)
		case VTuple:
			for _, f := range t {
				walk(f)
			}
		case VTerm:
			for _, f := range t.Args {
				walk(f)
			}
		case VFunc:
			for _, f := range t.Bind {
				walk(f)
			}
		}
	}
	walk(v)
	return sortedKeys(names)
}

// ---- AddRules with all its outcomes

type addOutcome struct {
	all, ok, failed []*cont
}

// addRulesAll adds an abstract stylesheet; withErr lets reading it fail as well.
// The continuations have the merger as their only result; the value returned by
// AddRules is in errs.
func (w *World) addRulesAll(from []*cont, sheet func(c *Config) []Item, withErr bool) addOutcome {
	var res addOutcome
	add := w.P.method(w.P.Merger, "AddRules")
	for _, fail := range []bool{false, true} {
		if fail && !withErr {
			break
		}
		w.sheetSeq = func(c *Config) (Val, Val) {
			c.setGhost("extracted", map[bool]string{true: "error", false: "ok"}[fail])
			if fail {
				return c.newSeq(sheet(c)), VTerm{"nn:err:parse", nil}
			}
			return c.newSeq(sheet(c)), nilErr
		}
		for _, f := range from {
			out := w.call([]*cont{f}, add, func(k *cont) []Val {
				k.c.ghost = nil
				return []Val{k.ret[0], VAtom{"obj", "reader", Rigid}, VTerm{"inline", nil}}
			})
			res.all = append(res.all, out...)
			for _, k := range out {
				n := &cont{c: k.c, ret: f.ret, id: f.id}
				k.c.share(f.ret[0], "merger")
				if len(k.ret) == 1 && isNil(k.ret[0]) {
					res.ok = append(res.ok, n)
				} else {
					res.failed = append(res.failed, n)
				}
			}
		}
	}
	return res
}

// ---- C02

func checkC02(x *Ctx) {
	x.rule("Merge and AddRules are interpreted abstractly on every path with a cache of which nothing is known but its interface. Typestate per path: a hit is returned unaltered and was looked up under the input; Set stores the returned text under the input; no lock under which rules were read is released before Set; AddRules clears the cache inside the same exclusive section in which it changes anything that merging reads.")
	x.assume("the Cache implementation does what its interface says (the bundled one is covered by C03)")
	for _, b := range usages(x) {
		checkC02for(x, b)
	}
}

func checkC02for(x *Ctx, b *mb) {
	w := newWorld(x.P, "C02")
	b.w = w
	w.cache = "any"
	w.props = stdProps()
	w.E.Unord = 1
	bad := map[string]string{}
	fail := func(rule string, c *Config, msg string) {
		k := rule + "|" + msg
		if _, ok := bad[k]; !ok {
			bad[k] = c.traceString()
		}
	}
	in := VAtom{"input", "in", Rigid}
	readLocs := map[string]bool{} // what merging reads and AddRules writes
	phase := ""
	w.onCacheOp = func(c *Config, op string, args []Val) {
		at := " at " + c.where()
		switch op {
		case "Get":
			if eq(args[0], in) != Yes {
				fail("looked up under the exact input", c, "the cache is asked for "+clip(key(args[0]))+" instead of the class string"+at)
			}
		case "Set":
			if w.E.Entry != "Merge" {
				fail("only Merge stores answers", c, "Set is called in "+w.E.Entry+at)
			}
			if eq(args[0], in) != Yes {
				fail("stored under the exact input", c, "an answer is stored under "+clip(key(args[0]))+" instead of the class string"+at)
			}
			if c.ghost["stale"] != "" {
				fail("stored while the rules cannot change", c, "the lock under which the rules were read is released ("+c.ghost["stale"]+") before the answer is stored"+at+": AddRules may clear the cache in between")
			} else if c.ghost["read"] != "" && len(c.locksHeld()) == 0 {
				fail("stored while the rules cannot change", c, "no lock is held when the answer is stored"+at+": AddRules may clear the cache in between")
			}
		case "Clear":
			ok := false
			for _, l := range c.locksHeld() {
				if strings.HasSuffix(l, ":W") {
					ok = true
				}
			}
			if ok {
				c.setGhost("seccleared", "1")
			}
		}
	}
	w.E.OnAccess = func(c *Config, a Access) {
		switch phase {
		case "scan-merge":
			if !a.Write {
				readLocs[a.Obj+a.Path] = true
			}
		case "merge":
			if !a.Write && readLocs[a.Obj+a.Path] {
				c.setGhost("read", a.Pos)
			}
		case "add":
			if a.Write && readLocs[a.Obj+a.Path] {
				c.setGhost("wrote", a.Pos)
				c.setGhost("secwrote", a.Pos)
			}
		}
	}
	w.E.OnLock = func(c *Config, mode string, acquire bool) {
		switch {
		case phase == "merge" && !acquire && c.ghost["read"] != "":
			if c.ghost["set"] == "" {
				c.setGhost("stale", "at "+c.where())
			}
		case phase == "add" && acquire && mode == "W":
			c.setGhost("seccleared", "")
			c.setGhost("secwrote", "")
		case phase == "add" && !acquire && mode == "W":
			if c.ghost["secwrote"] != "" && c.ghost["seccleared"] == "" {
				fail("AddRules clears the cache with the change", c, "rules are changed at "+c.ghost["secwrote"]+" but the cache is not cleared before the lock is released at "+c.where())
			}
		}
	}
	computed := func(k *cont) bool {
		toks, _, bad := w.result(k.ret)
		return bad == "" && (presence(toks, tokAtom("n*")) != No || len(toks) > 0)
	}
	m := w.merger()
	m = w.addRules(m, b.sheet(w))
	phase = "scan-merge"
	w.merge(m, b.inputItems())
	// keep what AddRules writes
	w.E.Accesses = map[string]Access{}
	phase = "scan-add"
	w.addRulesAll(m, b.sheet(w), false)
	written := map[string]bool{}
	for _, a := range w.E.Accesses {
		if a.Write {
			written[a.Obj+a.Path] = true
		}
	}
	for l := range readLocs {
		if !written[l] {
			delete(readLocs, l)
		}
	}
	x.Extra["locations read by Merge and written by AddRules"] = sortedKeys(readLocs)
	if len(readLocs) == 0 {
		x.ob("rules are shared", "AddRules", false, "AddRules writes nothing that Merge reads")
	}
	phase = "add"
	res := w.addRulesAll(m, b.sheet(w), true)
	for _, k := range res.ok {
		if k.c.ghost["wrote"] != "" && k.c.ghost["cleared"] == "" {
			fail("AddRules clears the cache with the change", k.c, "rules are changed at "+k.c.ghost["wrote"]+" but the cache is never cleared")
		}
	}
	x.count("paths through AddRules", len(res.all))
	phase = "merge"
	out := w.merge(m, b.inputItems())
	hits, sets := 0, 0
	recomputed, inputs := false, []*cont(nil)
	for _, k := range out {
		g := k.c.ghost
		if g["hit"] != "" {
			hits++
			t, ok := k.ret[0].(VTerm)
			switch {
			case ok && t.Op == "cached" && eq(t.Args[0], in) == Yes:
			case !strings.Contains(key(k.ret[0]), "cached(") && computed(k):
				// the hit is not used: the answer is computed once more
				recomputed = true
			case key(k.ret[0]) == key(in):
				inputs = append(inputs, k)
			default:
				fail("a hit is returned unaltered", k.c, "after a hit the result is "+clip(key(k.ret[0])))
			}
		} else if strings.Contains(key(k.ret[0]), "cached(") {
			fail("only a hit is returned", k.c, "a cached value is returned although it was not found: "+clip(key(k.ret[0])))
		}
		if g["set"] != "" {
			sets++
			if p, ok := w.sets[g["set"]]; !ok || key(p[1]) != key(k.ret[0]) {
				v := Val(vstr("?"))
				if ok {
					v = p[1]
				}
				fail("the stored answer is the returned one", k.c, "stored "+clip(key(v))+", returned "+clip(key(k.ret[0])))
			}
		}
		if g["hit"] == "" && g["set"] == "" {
			toks, _, _ := w.result(k.ret)
			if presence(toks, tokAtom("n*")) == No && len(toks) == 0 {
				fail("without a hit the answer is computed", k.c, "the result is "+clip(key(k.ret[0])))
			}
		}
	}
	if !recomputed {
		for _, k := range inputs {
			fail("a hit is returned unaltered", k.c, "after a hit the result is "+clip(key(k.ret[0])))
		}
	}
	x.count("paths through Merge", len(out))
	x.ob("a hit is returned", x.mergeSite(), hits > 0, "no path returns what the cache holds")
	x.ob("answers are stored", x.mergeSite(), sets > 0, "no path stores an answer")
	// without rules and with a single class
	for _, items := range [][]Item{nil, {one(tokAtom("a"))}, {one(tokAtom("z"))}} {
		for _, k := range w.merge(m, items) {
			if k.c.ghost["hit"] != "" {
				t, ok := k.ret[0].(VTerm)
				if !(ok && t.Op == "cached") && key(k.ret[0]) != key(in) {
					fail("a hit is returned unaltered", k.c, "after a hit the result is "+clip(key(k.ret[0])))
				}
			}
			if g := k.c.ghost["set"]; g != "" {
				if p := w.sets[g]; p[1] == nil || key(p[1]) != key(k.ret[0]) {
					fail("the stored answer is the returned one", k.c, "stored "+clip(key(p[1]))+", returned "+clip(key(k.ret[0])))
				}
			}
		}
	}
	for _, ev := range sortedKeys(w.E.Events) {
		if strings.HasPrefix(ev, "go|") {
			x.ob("stored while the rules cannot change", x.mergeSite(), false, "a goroutine is started at "+ev[3:])
		}
	}
	for _, k := range sortedKeys(bad) {
		p := strings.SplitN(k, "|", 2)
		site := x.mergeSite()
		if strings.HasPrefix(p[0], "AddRules") {
			site = x.fsite(x.P.method(x.P.Merger, "AddRules"))
		}
		x.ob(p[0], site, false, p[1]+tr(bad[k]))
	}
	for _, r := range []string{"looked up under the exact input", "stored under the exact input", "stored while the rules cannot change", "a hit is returned unaltered", "the stored answer is the returned one", "AddRules clears the cache with the change", "only Merge stores answers"} {
		x.ob(r, x.mergeSite(), true, "")
	}
	x.absorb("C02", w.E)
}

// ---- C03

func checkC03(x *Ctx) {
	x.rule("Get, Set and Clear of the bundled cache are interpreted abstractly along sequences of calls with arbitrary distinct keys and arbitrary values, starting from an empty cache and from a cache with any number of other entries; numbers that Set changes are replaced by arbitrary ones in between, as any number of other calls may have happened. Lock-set rule for their accesses and typestate of their locks as in C01.")
	x.assume("sync.Map and the mutexes of package sync behave as documented")
	P := x.P
	get, set, clr := P.method(P.SimpleCache, "Get"), P.method(P.SimpleCache, "Set"), P.method(P.SimpleCache, "Clear")
	if get == nil || set == nil || clr == nil || P.Root.Func("NewCache") == nil {
		x.ob("anchor", "SimpleCache", false, "NewCache or a method of SimpleCache is missing")
		return
	}
	kA, kB := Val(VAtom{"tok", "k", Rigid}), Val(VAtom{"tok", "l", Rigid})
	vA, vB, vC := Val(VAtom{"val", "v", Rigid}), Val(VAtom{"val", "w", Rigid}), Val(VAtom{"val", "u", Rigid})
	oK, oV := Val(tokAtom("other*")), Val(VAtom{"val", "other", Apart})
	empty := Val(vstr(""))
	accesses := map[string]Access{}
	type step struct {
		op   string // set, get, miss, clear, others
		k, v Val
	}
	run := func(name string, steps ...step) {
		w := newWorld(P, "C03")
		w.E.Unord = 0
		cur := w.call(w.start(), P.Root.Func("NewCache"), func(*cont) []Val { return nil })
		if len(cur) == 0 {
			x.ob("cache contents", name, false, "NewCache never returns")
			return
		}
		self := cur[0].ret
		for _, k := range cur {
			k.c.share(k.ret[0], "cache")
		}
		ok, detail := true, ""
		failf := func(k *cont, f string, a ...any) {
			if ok {
				ok, detail = false, fmt.Sprintf(f, a...)+tr(k.c.traceString())
			}
		}
		for n, s := range steps {
			var fn *ssa.Function
			var args []Val
			switch s.op {
			case "set":
				fn, args = set, []Val{s.k, s.v}
			case "get", "miss":
				fn, args = get, []Val{s.k}
			case "clear":
				fn = clr
			case "others":
				// any number of other keys are set
				before := w.E.Accesses
				w.E.Accesses = map[string]Access{}
				for round := 0; round < 2; round++ {
					nxt := w.call(cur, set, func(k *cont) []Val { return []Val{k.ret[0], oK, oV} })
					wrote := w.E.Accesses
					for _, k := range nxt {
						k.ret, k.id = self, cur[0].id
						k.c.share(self[0], "cache")
						havoc(k.c, wrote)
					}
					cur = append(cur, nxt...)
				}
				for k, a := range w.E.Accesses {
					before[k] = a
				}
				w.E.Accesses = before
				continue
			}
			out := w.call(cur, fn, func(k *cont) []Val {
				k.c.assume, k.c.trace = nil, nil
				return append([]Val{k.ret[0]}, args...)
			})
			if len(out) == 0 {
				x.ob("cache contents", name+" "+x.fsite(fn), false, fn.Name()+" never returns")
				ok = true
				break
			}
			if s.op == "get" || s.op == "miss" {
				for _, k := range out {
					if len(k.ret) != 2 {
						failf(k, "Get gives no pair")
						continue
					}
					found := eq(k.ret[1], trueVal)
					switch {
					case s.op == "miss" && found != No:
						failf(k, "call %d, Get of a key that is not stored, reports a hit", n+1)
					case s.op == "get" && found != Yes:
						failf(k, "call %d, Get of a stored key, reports a miss", n+1)
					case s.op == "get" && eq(unwrap(k.ret[0]), s.v) != Yes:
						failf(k, "call %d, Get, gives %s instead of the value stored last, %s", n+1, clip(key(k.ret[0])), key(s.v))
					}
				}
			}
			for _, k := range out {
				if h := k.c.locksHeld(); len(h) > 0 {
					failf(k, "%s returns while holding %s", fn.Name(), strings.Join(h, ", "))
				}
				k.ret, k.id = self, cur[0].id
				k.c.share(self[0], "cache")
			}
			cur = out
		}
		for p, t := range w.E.Panics {
			x.ob("no panic", name, false, p+tr(t))
		}
		x.lockEvents(name, w.E)
		x.absorb("C03/"+name, w.E)
		x.ob("cache contents", name+" "+x.fsite(get), ok, detail)
		for k, a := range w.E.Accesses {
			accesses[k] = a
		}
	}
	S := func(k, v Val) step { return step{"set", k, v} }
	G := func(k, v Val) step { return step{"get", k, v} }
	M := func(k Val) step { return step{"miss", k, nil} }
	clear, others := step{op: "clear"}, step{op: "others"}
	run("empty cache", M(kA), M(empty))
	run("set, get", S(kA, vA), G(kA, vA), G(kA, vA), M(kB))
	run("empty value", S(kA, empty), G(kA, empty))
	run("empty key", S(empty, vA), G(empty, vA), M(kA))
	run("set twice", S(kA, vA), S(kA, vB), G(kA, vB))
	run("set to empty", S(kA, vA), S(kA, empty), G(kA, empty))
	run("set from empty", S(kA, empty), S(kA, vA), G(kA, vA))
	run("set thrice back", S(kA, vA), S(kA, vB), S(kA, vA), G(kA, vA))
	run("two keys", S(kA, vA), S(kB, vB), G(kA, vA), G(kB, vB), G(kA, vA))
	run("two keys, one changed", S(kA, vA), S(kB, vB), S(kA, vC), G(kA, vC), G(kB, vB))
	run("clear", S(kA, vA), clear, M(kA))
	run("clear two", S(kA, vA), S(kB, vB), clear, M(kA), M(kB))
	run("clear empty value", S(kA, empty), clear, M(kA))
	run("clear empty cache", clear, M(kA), S(kA, vA), G(kA, vA))
	run("set after clear", S(kA, vA), clear, S(kA, vB), G(kA, vB), M(kB))
	run("clear, other key", S(kA, vA), clear, S(kB, vB), M(kA), G(kB, vB))
	run("clear empty key", S(empty, vA), S(kA, vB), clear, M(kA), M(empty))
	run("clear empty among others", S(kA, empty), S(kB, vB), S(empty, vA), clear, M(kA), M(kB), M(empty))
	run("clear twice", S(kA, vA), clear, S(kA, vB), clear, M(kA))
	run("read, then clear", S(kA, vA), G(kA, vA), clear, M(kA))
	run("others do not matter", S(kA, vA), others, G(kA, vA))
	run("others first", others, S(kA, vA), G(kA, vA))
	run("others cleared", S(kA, vA), others, clear, M(kA), M(kB))
	run("others before and after", others, S(kA, vA), others, S(kB, vB), G(kA, vA), G(kB, vB))
	run("others, then changed", S(kA, vA), others, S(kA, vB), others, G(kA, vB))
	n, bad := races(accesses, map[string]bool{"NewCache": true})
	for _, m := range bad {
		x.ob("lock-set rule", "SimpleCache", false, m)
	}
	x.ob("lock-set rule", "SimpleCache", true, "")
	x.count("access pairs with a write", n)
	x.count("recorded accesses", len(accesses))
}

func unwrap(v Val) Val {
	if i, ok := v.(VIface); ok {
		return i.V
	}
	return v
}

// havoc replaces numbers that were written by arbitrary ones.
func havoc(c *Config, wrote map[string]Access) {
	locs := map[string]bool{}
	for _, a := range wrote {
		if a.Write {
			locs[a.Obj+a.Path] = true
		}
	}
	for id, o := range c.heap {
		if o.Shared == "" {
			continue
		}
		switch o.Kind {
		case 'c':
			st, ok := o.V.(VStruct)
			if !ok {
				continue
			}
			stt, ok := st.T.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			n := VStruct{st.T, append([]Val(nil), st.F...)}
			ch := false
			for i := range st.F {
				b, ok := stt.Field(i).Type().Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsNumeric == 0 || !locs[o.Shared+"."+stt.Field(i).Name()] {
					continue
				}
				n.F[i] = VTop{"number"}
				ch = true
			}
			if ch {
				c.upd(id).V = n
			}
		case 's':
			if len(o.Items) > 0 {
				u := c.upd(id)
				u.Items = append([]Item(nil), u.Items...)
				for i, it := range u.Items {
					if a, ok := it.V.(VAtom); ok && a.Mode != Rigid {
						u.Items[i].Max = many
					}
				}
			}
		}
	}
}

// ---- C12

func checkC12(x *Ctx) {
	x.rule("Effect analysis by abstract interpretation: along every path of Merge, with all callees, every store, map update, append into existing capacity, in-place sort and similar is recorded with the object it changes; none may belong to the merger, its rules, the property table or a package variable. Write-effect analysis over the SSA form (effects.go): the summary of Merge, over all calls and whatever the inputs, holds no write to memory reached from the merger or a package variable; calls of the cache, locks and initialisation under a sync.Once are left aside.")
	x.mergeAssumptions()
	merge := x.P.method(x.P.Merger, "Merge")
	for _, cache := range []string{"", "any"} {
		for i, b := range usages(x) {
			ks := (i%2 == 0) != (cache == "")
			name := fmt.Sprintf("%s, cache=%v keepSort=%v", b.describe(), cache != "", ks)
			w := newWorld(x.P, "C12")
			b.w = w
			w.cache, w.keepSort = cache, ks
			w.props = stdProps()
			w.E.Unord = 1
			m := w.merger()
			m = w.addRules(m, b.sheet(w))
			for _, in := range [][]Item{b.inputItems(), {one(tokAtom("a"))}, nil} {
				w.merge(m, in)
			}
			reads := 0
			bad := map[string]bool{}
			for _, k := range sortedKeys(w.E.Accesses) {
				a := w.E.Accesses[k]
				if a.Entry != "Merge" {
					continue
				}
				if !a.Write {
					reads++
					continue
				}
				if strings.HasSuffix(a.Locks, "once:W") {
					continue
				}
				msg := fmt.Sprintf("%s%s is changed at %s", a.Obj, a.Path, a.Pos)
				if !bad[msg] {
					bad[msg] = true
					x.ob("nothing that outlives the call is written", name+" "+x.fsite(merge), false, msg)
				}
			}
			for _, ev := range sortedKeys(w.E.Events) {
				if strings.HasPrefix(ev, "atomicwrite|") {
					x.ob("nothing that outlives the call is written", name+" "+x.fsite(merge), false, "atomic write at "+ev[12:])
				}
			}
			x.ob("nothing that outlives the call is written", name+" "+x.fsite(merge), reads > 0, "Merge reads nothing of the merger")
			x.count("reads of shared state checked", reads)
			x.absorb("C12/"+name, w.E)
		}
	}
	x.mergeEffects(merge)
}

// mergeEffects reads the write-effect summary of Merge: what it may write of all
// it is given, and of package variables.
func (x *Ctx) mergeEffects(merge *ssa.Function) {
	const rule = "no write reaches the merger, its rules or a package variable"
	ef := newEffects(x.P, x.P.CacheIface)
	for _, u := range sortedKeys(ef.unknowns) {
		x.ob("undecided construct", "effects", false, u)
	}
	s := ef.sum[merge]
	if s == nil {
		x.ob(rule, x.fsite(merge), false, "anchor: no summary of Merge")
		return
	}
	bad := map[string]bool{}
	for o, w := range s.writes {
		if o.kind != oFresh {
			bad[w] = true
		}
	}
	for m, w := range s.mapped {
		if m.o.kind != oFresh {
			bad[w] = true
		}
	}
	l := sortedKeys(bad)
	x.ob(rule, x.fsite(merge), len(l) == 0, "Merge may write memory that outlives the call: "+strings.Join(l, "; "))
}
