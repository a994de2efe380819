package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// mb describes one abstract merge: a stylesheet, an input and what every
// possible result must satisfy. Names of classes and properties are arbitrary
// individuals; a name with a star stands for any number of other classes.
type mb struct {
	x        *Ctx
	w        *World
	classes  []classDef
	inputs   []string
	must     []string
	mustNot  []string
	order    [2]string
	keepSort bool
	cache    string
	unord    int
	extra    func(out []*cont) (bool, string)
	twice    bool // the stylesheet is added a second time (cache and state must not matter)
}

type selFn func(w *World, c *Config, tok Val) Val

type classDef struct {
	tok   string
	cond  string
	sel   selFn
	decls []string
}

func plainSel(w *World, c *Config, tok Val) Val { return w.classSel(tok) }

func tokAtom(n string) VAtom {
	if strings.HasSuffix(n, "*") {
		return VAtom{"tok", strings.TrimSuffix(n, "*"), Apart}
	}
	return VAtom{"tok", n, Rigid}
}

func propVal(n string) Val {
	if strings.HasPrefix(n, "--") {
		return vstr(n)
	}
	if strings.HasSuffix(n, "*") {
		return VAtom{"prop", strings.TrimSuffix(n, "*"), Apart}
	}
	return VAtom{"prop", n, Rigid}
}

// decl text: "p", "p:1px", "p!" (important), "p?" (value unknown)
func (b *mb) declItem(w *World, d string) Item {
	star := strings.HasPrefix(d, "*")
	d = strings.TrimPrefix(d, "*")
	name, val, ok := strings.Cut(d, ":")
	v := Val(VAtom{"val", "10px", Rigid})
	switch {
	case ok:
		v = VAtom{"val", val, Rigid}
	case strings.HasSuffix(name, "!"):
		name = strings.TrimSuffix(name, "!")
		v = VAtom{"val", "10px !important", Rigid}
	case strings.HasSuffix(name, "?"):
		name = strings.TrimSuffix(name, "?")
		v = VAtom{"val", "unknown", Other}
	}
	it := one(w.decl(propVal(name), v))
	if star {
		it.Min, it.Max = 0, many
	}
	return it
}

func stdProps() []propDef {
	p := func(n string, comps ...string) propDef {
		var cs []Val
		for _, c := range comps {
			cs = append(cs, propVal(c))
		}
		return propDef{propVal(n), cs, strings.HasSuffix(n, "*")}
	}
	return []propDef{p("p", "p"), p("q", "q"), p("x1", "x1"), p("x2", "x2"), p("s", "x1", "x2"), p("S", "s", "q"), p("o*", "o*")}
}

// others gives the classes that stand for everything else in the class list:
// n* may do anything to the properties the named classes set, with any value; g*
// sets any of these properties, but nothing !important and no custom property;
// h* sets, of these, only p; f* sets only properties that none of the named classes sets.
func (b *mb) others() []classDef {
	seen := map[string]bool{}
	var ps []string
	for _, c := range b.classes {
		for _, d := range c.decls {
			n, _, _ := strings.Cut(strings.Trim(d, "*!?"), ":")
			if strings.HasPrefix(n, "--") || strings.HasPrefix(n, "o") || n == "" || seen[n] {
				continue
			}
			seen[n] = true
			ps = append(ps, n)
		}
	}
	if len(ps) == 0 {
		ps = []string{"p"}
	}
	var n, g []string
	for _, p := range ps {
		n = append(n, "*"+p+"?")
		g = append(g, "*"+p)
	}
	return []classDef{
		{"n*", "", plainSel, append(n, "*o*?")},
		{"g*", "", plainSel, append(g, "*o*")},
		{"h*", "", plainSel, []string{"*p", "*o*"}},
		{"f*", "", plainSel, []string{"*o*"}},
	}
}

func (b *mb) class(tok, cond string, sel selFn, decls ...string) *mb {
	if sel == nil {
		sel = plainSel
	}
	b.classes = append(b.classes, classDef{tok, cond, sel, decls})
	return b
}

func (b *mb) in(s string) *mb   { b.inputs = strings.Fields(s); return b }
func (b *mb) keep(s string) *mb { b.must = strings.Fields(s); return b }
func (b *mb) drop(s string) *mb { b.mustNot = strings.Fields(s); return b }

func condVal(c string) Val {
	if c == "" {
		return vstr("")
	}
	return VAtom{"cond", c, Rigid}
}

func (b *mb) sheet(w *World) func(c *Config) []Item {
	return func(c *Config) []Item {
		var items []Item
		used := map[string]bool{}
		for _, n := range b.inputs {
			used[strings.Replace(n, "+", "*", 1)] = true
		}
		defs := []classDef{}
		for _, d := range b.others() {
			if used[d.tok] {
				defs = append(defs, d)
			}
		}
		defs = append(defs, b.classes...)
		for _, d := range defs {
			var decls []Item
			for _, t := range d.decls {
				decls = append(decls, b.declItem(w, t))
			}
			t := tokAtom(d.tok)
			it := one(w.rule(c, d.sel(w, c, t), condVal(d.cond), decls))
			if t.Mode != Rigid {
				it.Min, it.Max = 0, many
			}
			items = append(items, it)
		}
		return items
	}
}

func (b *mb) inputItems() []Item {
	var in []Item
	for _, n := range b.inputs {
		if strings.HasSuffix(n, "+") { // at least one
			in = append(in, Item{tokAtom(strings.Replace(n, "+", "*", 1)), 1, many})
			continue
		}
		t := tokAtom(n)
		if t.Mode == Rigid {
			in = append(in, one(t))
		} else {
			in = append(in, gap(t))
		}
	}
	return in
}

// run explores the case and gives the possible results.
func (b *mb) run() []*cont {
	w := newWorld(b.x.P, "")
	b.w = w
	w.cache, w.keepSort = b.cache, b.keepSort
	w.props = stdProps()
	w.E.Unord = b.unord
	m := w.merger()
	m = w.addRules(m, b.sheet(w))
	if b.twice {
		m = w.addRules(m, b.sheet(w))
	}
	return w.merge(m, b.inputItems())
}

// describe writes the case down.
func (b *mb) describe() string {
	var l []string
	for _, c := range b.classes {
		s := c.tok + "{" + strings.Join(c.decls, ";") + "}"
		if c.cond != "" {
			s = "@" + c.cond + " " + s
		}
		l = append(l, s)
	}
	return "stylesheet [" + strings.Join(l, " ") + "], class list [" + strings.Join(b.inputs, " ") + "]"
}

// mcase runs a case and records one obligation. Maps are walked in ascending and
// in descending order, in the thorough tier also in every order where that is feasible.
func (x *Ctx) mcase(rule, name string, f func(b *mb)) {
	site := x.mergeSite()
	x.task(func() func() {
		modes := []int{1, 2}
		if x.Deep {
			modes = append(modes, 0)
		}
		ok, detail := true, ""
		var first *mb
		var ran []*mb
		for _, m := range modes {
			b := &mb{x: x, unord: m}
			f(b)
			if m == 0 && first.w.E.Steps > 40_000 {
				continue
			}
			t0 := time.Now()
			out := b.run()
			if os.Getenv("AN_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%8.2fs %8d steps %7d states  %s/%s %d\n", time.Since(t0).Seconds(), b.w.E.Steps, b.w.E.States, rule, name, m)
			}
			ran = append(ran, b)
			if first == nil {
				first = b
			}
			if ok {
				ok, detail = b.judge(out)
			}
			if ok && b.extra != nil {
				ok, detail = b.extra(out)
			}
			b.w.E.visited = nil
		}
		return func() {
			for _, b := range ran {
				x.absorb(rule+"/"+name, b.w.E)
			}
			if ok {
				x.ob(rule, name+" "+site, true, first.describe())
			} else {
				x.ob(rule, name+" "+site, false, first.describe()+": "+detail)
			}
		}
	})
}

// task queues work that runs concurrently with other tasks; the function it
// returns is run afterwards, in the order of the tasks.
func (x *Ctx) task(f func() func()) { x.tasks = append(x.tasks, f) }

func (x *Ctx) runTasks() {
	res := make([]func(), len(x.tasks))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, t := range x.tasks {
		wg.Add(1)
		sem <- true
		go func(i int, t func() func()) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprintf("internal failure of the analysis: %v\n%s", r, debug.Stack())
					res[i] = func() { x.ob("undecided construct", "analyzer", false, msg) }
				}
			}()
			res[i] = t()
		}(i, t)
	}
	wg.Wait()
	for _, r := range res {
		if r != nil {
			r()
		}
	}
	x.tasks = nil
}

func (x *Ctx) mergeSite() string {
	m := x.P.method(x.P.Merger, "Merge")
	if m == nil {
		return "(*Merger).Merge"
	}
	return "(*Merger).Merge " + x.P.pos(m.Pos())
}

func (b *mb) judge(out []*cont) (bool, string) {
	if len(out) == 0 {
		why := ""
		for _, m := range []map[string]string{b.w.E.Panics} {
			for k, t := range m {
				why += " " + k + tr(t)
			}
		}
		for k := range b.w.E.Events {
			why += " " + k
		}
		return false, "Merge never returns:" + why
	}
	for _, m := range sortedKeys(b.w.E.Panics) {
		if strings.Contains(m, "nil") {
			return false, "Merge crashes: " + m + tr(b.w.E.Panics[m])
		}
	}
	for _, k := range out {
		toks, _, bad := b.w.result(k.ret)
		if bad == inputItself && len(b.mustNot) == 0 && b.order[0] == "" {
			bad = "" // nothing is lost
		}
		if bad == "" && len(k.ret) == 1 && !strings.ContainsAny(strings.Join(b.inputs, " "), "*+") {
			bad = spacing(k.ret[0])
		}
		if bad != "" {
			return false, bad + tr(k.c.traceString())
		}
		for _, t := range b.must {
			switch presence(toks, tokAtom(t)) {
			case No:
				return false, fmt.Sprintf("class %s is dropped; result %s%s", t, clip(key(k.ret[0])), tr(k.c.traceString()))
			case Maybe:
				return false, fmt.Sprintf("class %s may be dropped; result %s%s", t, clip(key(k.ret[0])), tr(k.c.traceString()))
			}
		}
		for _, t := range b.mustNot {
			if presence(toks, tokAtom(t)) != No {
				return false, fmt.Sprintf("class %s is kept although it must be dropped; result %s%s", t, clip(key(k.ret[0])), tr(k.c.traceString()))
			}
		}
		if b.order[0] != "" {
			ia, ib := -1, -1
			for i, x := range toks {
				if eq(x.v, tokAtom(b.order[0])) == Yes {
					ia = i
				}
				if eq(x.v, tokAtom(b.order[1])) == Yes {
					ib = i
				}
			}
			if o := resultOrdered(k.ret); !o || ia < 0 || ib < 0 || ia > ib {
				return false, fmt.Sprintf("classes %s and %s are not in the order of the input; result %s%s", b.order[0], b.order[1], clip(key(k.ret[0])), tr(k.c.traceString()))
			}
		}
	}
	return true, ""
}

// resultOrdered: the order of the classes in the result is known.
func resultOrdered(ret []Val) bool {
	t, ok := ret[0].(VTerm)
	if !ok {
		return true
	}
	if t.Op == "join" {
		l, ok := t.Args[1].(VTerm)
		return ok && l.Op == "list"
	}
	return true
}
