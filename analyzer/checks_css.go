package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = check{"all or nothing", checkC13}
	checks["C14"] = check{"reading ends", checkC14}
	checks["C15"] = check{"enclosing at-rules", checkC15}
	checks["C16"] = check{"selectors and declarations", checkC16}
}

const cssRule = "ExtractRules is interpreted abstractly on the SSA form against a model of the event protocol of the tokenizer library (tdewolff/parse css.Parser): every event sequence of the stated grammar is explored, names, values and conditions are arbitrary individuals, a repetition stands for any number of blocks of every kind."

// expRule is a rule the stylesheet must yield.
type expRule struct {
	sel   string
	conds string
	decls string
}

type cssCase struct {
	name   string
	script []gnode
	want   []expRule
	err    int  // 1: an error must be reported, 0: none may be, 2: either
	blank  bool // there are at-rules without condition
	cycles bool // look for loops that do not read
	open   bool // other rules with summary selectors are expected as well
	fail   bool // the reader fails
	inline Val
}

// extract runs ExtractRules on a script.
func (x *Ctx) extract(cs *cssCase) (w *World, m *cssModel, out []*cont) {
	w = newWorld(x.P, "css")
	w.E.Unord = 1
	w.E.DeepFold = true
	if cs.cycles {
		w.E.Edges = map[string]map[string]bool{}
	}
	m = newCSS(w)
	m.start = m.put(cs.script)
	m.fail = cs.fail
	inline := cs.inline
	if inline == nil {
		inline = vbool(false)
	}
	out = w.call(w.start(), x.P.Casc.Func("ExtractRules"), func(*cont) []Val {
		return []Val{VAtom{"obj", "reader", Rigid}, inline}
	})
	return w, m, out
}

// flat unwraps a text into its parts; altered names an operation that changes it.
func flat(v Val) (ps []Val, altered string) {
	switch t := v.(type) {
	case VC:
		if s, ok := constStr(t); ok {
			return []Val{vstr(s)}, ""
		}
	case VAtom:
		return []Val{t}, ""
	case VTerm:
		switch {
		case t.Op == concatOp:
			for _, a := range t.Args {
				p, alt := flat(a)
				ps = append(ps, p...)
				if alt != "" {
					altered = alt
				}
			}
			return parts(concat(ps...)), altered
		case strings.HasPrefix(t.Op, "scan:") && len(t.Args) == 1, t.Op == "bytes", t.Op == "conv",
			t.Op == "strings.TrimSpace", t.Op == "bytes.TrimSpace", t.Op == "trimmed":
			return flat(t.Args[0])
		case strings.HasSuffix(t.Op, ".ReplaceAll") && len(t.Args) == 3:
			if o, ok := constStr(t.Args[1]); ok && strings.TrimSpace(o) == "" {
				if n, ok := constStr(t.Args[2]); ok && strings.TrimSpace(n) == "" && n != "" {
					return flat(t.Args[0])
				}
			}
		}
		return nil, t.Op
	case VTop:
		return nil, t.Why
	}
	return nil, key(v)
}

// sameParts compares two texts up to the amount of white space between words.
func sameParts(a, b []Val) bool { return words(a) == words(b) }

func words(l []Val) string {
	s := ""
	for _, v := range parts(concat(l...)) {
		if c, ok := constStr(v); ok {
			s += strings.Map(func(r rune) rune {
				if strings.ContainsRune(" \t\n\r\f", r) {
					return ' '
				}
				return r
			}, c)
			continue
		}
		s += "\x00" + key(v) + "\x00"
	}
	s = strings.Join(strings.Fields(s), " ")
	return strings.ReplaceAll(s, " !", "!")
}

type gotRule struct {
	sel   string // shape of the selector
	conds []Val  // atoms of the condition in order
	text  string // the condition as it is
	decls [][2]Val
	bad   string
	it    Item
}

// readRule takes a rule apart by the types of its fields.
func (w *World) readRule(c *Config, it Item) gotRule {
	g := gotRule{it: it}
	v := it.V
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	if p, ok := v.(VPtr); ok && c.heap[p.Obj] != nil {
		v = project(c.heap[p.Obj].V, p.Path)
	}
	s, ok := v.(VStruct)
	if !ok {
		g.bad = "a rule is unknown: " + clip(key(v))
		return g
	}
	st := s.T.Underlying().(*types.Struct)
	for i := range s.F {
		ft := st.Field(i).Type()
		switch {
		case types.Identical(ft, w.P.Sel):
			g.sel = c.shape(s.F[i])
		case isSliceOf(ft, w.P.CssDecl):
			if isNil(s.F[i]) {
				continue
			}
			o, ok := c.seq(s.F[i])
			if !ok {
				g.bad = "the declarations are unknown"
				return g
			}
			if o.Clob {
				g.bad = "the declarations are in memory that is used again for other declarations"
				return g
			}
			for _, d := range o.Items {
				ds, ok := d.V.(VStruct)
				if !ok || len(ds.F) < 2 {
					g.bad = "a declaration is unknown: " + clip(key(d.V))
					return g
				}
				pi, vi := 0, 1
				dt := ds.T.Underlying().(*types.Struct)
				for j := 0; j < dt.NumFields(); j++ {
					switch dt.Field(j).Name() {
					case "Property":
						pi = j
					case "Value":
						vi = j
					}
				}
				if (d.Min != 1 || d.Max != 1) && isRigid(d.V) {
					g.bad = "a declaration may be missing or repeated"
				}
				g.decls = append(g.decls, [2]Val{ds.F[pi], ds.F[vi]})
			}
			if o.Unord && len(o.Items) > 1 {
				g.bad = "the order of the declarations is not kept"
			}
		default:
			if g.bad == "" && condCut(c, s.F[i], 0) {
				g.bad = "a condition is cut: " + clip(key(c.freeze(s.F[i], 0)))
			}
			g.text += c.shape(s.F[i])
			g.conds = append(g.conds, condAtoms(c, s.F[i], 0)...)
		}
	}
	return g
}

// condCut: a condition that stands in parentheses has lost one of them.
func condCut(c *Config, v Val, d int) bool {
	if d > 8 {
		return false
	}
	switch t := v.(type) {
	case VTerm:
		open, known := 0, true
		for _, p := range parts(v) {
			if s, ok := constStr(p); ok {
				open += strings.Count(s, "(") - strings.Count(s, ")")
			} else if a, ok := p.(VAtom); !ok || a.Kind != "cond" {
				known = false
			}
		}
		if known && open != 0 {
			return true
		}
		if t.Op != concatOp {
			for _, a := range t.Args {
				if condCut(c, a, d+1) {
					return true
				}
			}
		}
	case VStruct:
		for _, a := range t.F {
			if condCut(c, a, d+1) {
				return true
			}
		}
	case VSlice:
		if o := c.heap[t.Obj]; o != nil {
			for _, it := range o.Items {
				if condCut(c, it.V, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func condAtoms(c *Config, v Val, d int) []Val {
	if d > 8 {
		return nil
	}
	var out []Val
	switch t := v.(type) {
	case VAtom:
		if t.Kind == "cond" {
			return []Val{t}
		}
	case VTerm:
		for _, a := range t.Args {
			out = append(out, condAtoms(c, a, d+1)...)
		}
	case VStruct:
		for _, a := range t.F {
			out = append(out, condAtoms(c, a, d+1)...)
		}
	case VSlice:
		if o := c.heap[t.Obj]; o != nil {
			for _, it := range o.Items {
				out = append(out, condAtoms(c, it.V, d+1)...)
			}
		}
	case VTop:
		return []Val{t}
	}
	return out
}

// declParts is what property and value of a declaration of the script consist of.
func declParts(d string) (prop, val []Val) {
	imp := strings.HasSuffix(d, "!")
	d = strings.TrimSuffix(d, "!")
	mode := Rigid
	n := d
	if strings.HasSuffix(d, "*") {
		mode, n = Apart, strings.TrimSuffix(d, "*")
	}
	val = []Val{VAtom{"val", "v" + n, mode}, vstr(" "), VAtom{"val", "w" + n, mode}}
	if strings.HasPrefix(d, "--") {
		return []Val{vstr("--"), VAtom{"prop", strings.TrimPrefix(n, "--"), mode}}, val
	}
	if imp {
		val = append(val, vstr("!important"))
	}
	return []Val{VAtom{"prop", n, mode}}, val
}

// expSel is the shape of the selector of the script.
func (w *World) expSel(c *Config, s string) string {
	switch {
	case strings.HasSuffix(s, "::"):
		return c.shape(w.compound(c, vstr("before"), w.classSel(tokAtom(strings.TrimSuffix(s, "::")))))
	case strings.Contains(s, "("):
		a, r, _ := strings.Cut(s, "(")
		b, d, _ := strings.Cut(strings.TrimSuffix(r, ")"), "|")
		is := w.selType("IsPseudoClassSelector")
		if is == nil {
			return ""
		}
		return c.shape(w.compound(c, vstr(""), w.classSel(tokAtom(a)), w.group(c, is, "is", w.classSel(tokAtom(b)), w.classSel(tokAtom(d)))))
	}
	return c.shape(w.classSel(tokAtom(s)))
}

// judgeCSS compares what ExtractRules returned with what the stylesheet holds.
// what selects the part of the comparison: 'c' conditions, 's' selectors and
// declarations, 'e' errors.
func (x *Ctx) judgeCSS(cs *cssCase, w *World, m *cssModel, out []*cont, what string) (bool, string) {
	for _, k := range sortedKeys(m.bad) {
		return false, k + tr(m.bad[k])
	}
	for _, k := range sortedKeys(w.E.Panics) {
		return false, k + tr(w.E.Panics[k])
	}
	if cs.cycles && w.E.cycle() {
		return false, "ExtractRules can go round in a loop without reading on"
	}
	if len(out) == 0 {
		return false, "ExtractRules never returns"
	}
	for _, k := range out {
		if len(k.ret) != 2 {
			return false, "ExtractRules has other results"
		}
		path := tr(k.c.traceString())
		isErr := eq(k.ret[1], nilErr)
		if strings.Contains(what, "e") {
			if cs.err == 1 && isErr != No {
				return false, "no error is returned" + path
			}
			if cs.err == 0 && isErr != Yes {
				return false, "an error is returned: " + clip(key(k.ret[1])) + path
			}
		}
		if isErr != Yes || cs.err != 0 {
			continue
		}
		var items []Item
		if !isNil(k.ret[0]) {
			o, ok := k.c.seq(k.ret[0])
			if !ok {
				return false, "the rules returned are unknown: " + clip(key(k.ret[0])) + path
			}
			items = o.Items
		}
		used := map[int]bool{}
		var got []gotRule
		for _, it := range items {
			g := w.readRule(k.c, it)
			if g.bad != "" && !(cs.open && !isRigid(it.V) && strings.Contains(g.sel, "~")) {
				return false, g.bad + path
			}
			got = append(got, g)
		}
		at := -1
		for _, e := range cs.want {
			es := w.expSel(k.c, e.sel)
			found := -1
			for i, g := range got {
				if g.sel == es && !used[i] && (i > at || cs.open) {
					found = i
					break
				}
			}
			if found < 0 {
				if strings.Contains(what, "s") || cs.open {
					return false, "the rule of selector ." + e.sel + " is missing or out of order; rules: " + gotList(got) + path
				}
				continue
			}
			used[found] = true
			at = found
			g := got[found]
			if g.it.Min != 1 || g.it.Max != 1 {
				return false, "the rule of selector ." + e.sel + " may be missing or repeated" + path
			}
			if strings.Contains(what, "c") {
				var want []string
				for _, n := range strings.Fields(e.conds) {
					want = append(want, key(VAtom{"cond", n, Rigid}), key(VAtom{"cond", n + "'", Rigid}))
				}
				var have []string
				for _, a := range g.conds {
					have = append(have, key(a))
				}
				if strings.Join(want, " ") != strings.Join(have, " ") {
					return false, fmt.Sprintf("the rule of selector .%s is inside at-rules with the conditions [%s] but carries [%s]%s", e.sel, strings.Join(want, " "), strings.Join(have, " "), path)
				}
			}
			if strings.Contains(what, "s") {
				ds := strings.Fields(e.decls)
				if len(ds) != len(g.decls) {
					return false, fmt.Sprintf("the rule of selector .%s has %d declarations instead of %d%s", e.sel, len(g.decls), len(ds), path)
				}
				for i, d := range ds {
					p, v := declParts(d)
					for j, pair := range [][2]any{{g.decls[i][0], p}, {g.decls[i][1], v}} {
						have, alt := flat(pair[0].(Val))
						part := []string{"property", "value"}[j]
						if alt != "" {
							return false, fmt.Sprintf("the %s of declaration %d of .%s is altered or unknown (%s): %s%s", part, i+1, e.sel, alt, clip(key(pair[0].(Val))), path)
						}
						if !sameParts(have, pair[1].([]Val)) {
							return false, fmt.Sprintf("the %s of declaration %d of .%s is %s instead of %s%s", part, i+1, e.sel, clip(key(pair[0].(Val))), key(concat(pair[1].([]Val)...)), path)
						}
					}
				}
			}
		}
		for i, g := range got {
			if used[i] {
				continue
			}
			if !cs.open || !strings.Contains(g.sel, "~") {
				if strings.Contains(what, "s") {
					return false, "a rule is recorded that the stylesheet does not have there: selector " + clip(g.sel) + path
				}
				continue
			}
			for _, d := range g.decls {
				if strings.Contains(what, "s") && (isRigid(d[0]) || isRigid(d[1])) {
					return false, "another rule has a declaration of the distinguished block: " + clip(key(d[0])) + path
				}
			}
		}
		// same conditions, same text; other conditions, other text
		if strings.Contains(what, "c") && !cs.open {
			for i, g := range got {
				for _, h := range got[:i] {
					same := condList(g.conds) == condList(h.conds)
					if same != (g.text == h.text) && !(same && cs.blank) {
						return false, "two rules inside " + condList(g.conds) + " and " + condList(h.conds) + " carry the conditions " + clip(g.text) + " and " + clip(h.text) + path
					}
				}
			}
		}
	}
	return true, ""
}

func condList(l []Val) string {
	var s []string
	for _, v := range l {
		s = append(s, key(v))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func gotList(l []gotRule) string {
	var s []string
	for _, g := range l {
		s = append(s, clip(g.sel))
	}
	if len(s) == 0 {
		return "none"
	}
	return strings.Join(s, ", ")
}

func (x *Ctx) cssTask(rule, what string, mk func() *cssCase) {
	site := "ExtractRules " + x.fsite(x.P.Casc.Func("ExtractRules"))
	x.task(func() func() {
		cs := mk()
		t0 := time.Now()
		w, m, out := x.extract(cs)
		if os.Getenv("AN_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "%8.2fs %8d steps %7d states  %s\n", time.Since(t0).Seconds(), w.E.Steps, w.E.States, cs.name)
		}
		ok, detail := x.judgeCSS(cs, w, m, out, what)
		w.E.visited = nil
		return func() {
			x.absorb("css/"+cs.name, w.E)
			x.ob(rule, cs.name+" "+site, ok, detail)
		}
	})
}

// junk is any number of other blocks: rule sets with good and bad selectors,
// at-rules of every kind with anything inside, comments and statements.
func (k *cssScript) junk(depth int) gnode {
	jd := k.any(k.decl("j*"))
	good := k.block("j*", jd)
	if depth < 0 {
		return k.any(good, k.block("!j*", jd), k.at("@media", "j*", k.any(good)), k.at("@keyframes", "", k.any(k.block("!j*", k.decl("j*")))))
	}
	list := k.block("j* j*", k.decl("j*"))
	bad := k.block("!j*", jd)
	badList := k.block("j* !j*", k.decl("j*"))
	alts := []gnode{good, list, bad, badList, k.stmt("@import"), k.comment(), k.token()}
	ign := []gnode{k.block("!j*", k.decl("j*")), k.block("j*", k.decl("j*"))}
	alts = append(alts,
		k.at("@keyframes", "", k.any(ign...)),
		k.at("@font-face", "", k.any(k.decl("j*"))),
		k.at("@layer", "", k.any(k.token())),
		k.at("@-moz-document", "", k.any(append(ign, k.at("@media", "j*", k.any(ign...)), k.at("@supports", "", k.any(ign...)), k.at("@keyframes", "", k.any(ign...)))...)),
		k.at("@media", "", k.any(good)),
	)
	if depth > 0 {
		alts = append(alts, k.at("@media", "j*", k.any(k.block("j*", k.decl("j*")), k.at("@page", "", k.decl("j*")))))
	}
	return k.any(alts...)
}

// ---- C15

func (x *Ctx) atCases() []func() *cssCase {
	var l []func() *cssCase
	add := func(name string, open bool, f func(k *cssScript) ([]gnode, []expRule)) {
		l = append(l, func() *cssCase {
			k := &cssScript{}
			s, want := f(k)
			return &cssCase{name: name, script: s, want: want, open: open, blank: strings.Contains(name, "@media ") || strings.Contains(name, "@media,")}
		})
	}
	// any surroundings
	nests := []string{"", "c1", "c1 c2", "c1 c2 c3"}
	if x.Deep {
		nests = append(nests, "c1 c2 c3 c4", "c1 c2 c3 c4 c5")
	}
	for _, nest := range nests {
		nest := nest
		add("a rule inside ["+nest+"] among any other blocks", true, func(k *cssScript) ([]gnode, []expRule) {
			cs := strings.Fields(nest)
			jn := 0
			if len(cs) > 1 {
				jn = -1
			}
			inner := []gnode{k.junk(0), k.block("a b", k.decl("p"), k.decl("--x")), k.junk(jn)}
			for i := len(cs) - 1; i >= 0; i-- {
				name := "@media"
				if i%2 == 1 {
					name = "@supports"
				}
				inner = []gnode{k.junk(jn), k.at(name, cs[i], inner...), k.junk(jn)}
			}
			inner = append(inner, k.block("d", k.decl("q")), k.junk(1))
			return inner, []expRule{{"a", nest, "p --x"}, {"b", nest, "p --x"}, {"d", "", "q"}}
		})
	}
	// exact surroundings, all placements of up to three at-rules around and before the rule
	kinds := []string{"@media:c", "@supports:c", "@keyframes", "@font-face", "@layer", "@-webkit-keyframes", "@container", "@-moz-document", "@media"}
	type shape struct{ before, around, after []string }
	var shapes []shape
	for _, a := range kinds {
		shapes = append(shapes, shape{[]string{a}, nil, nil}, shape{nil, []string{a}, nil})
		for _, b := range kinds {
			shapes = append(shapes, shape{[]string{a}, []string{b}, nil}, shape{nil, []string{a, b}, nil}, shape{[]string{a, b}, nil, nil})
			if x.Deep {
				for _, c := range kinds {
					shapes = append(shapes, shape{nil, []string{a, b, c}, nil}, shape{[]string{a, b}, []string{c}, nil}, shape{[]string{a}, []string{b, c}, nil})
				}
			}
		}
	}
	for _, sh := range shapes {
		sh := sh
		add("after "+strings.Join(sh.before, ",")+" inside "+strings.Join(sh.around, ",")+" ", false, func(k *cssScript) ([]gnode, []expRule) {
			n := 0
			var want []expRule
			at := func(kind string, body ...gnode) (gnode, string, bool) {
				name, c, ok := strings.Cut(kind, ":")
				if ok {
					n++
					c = fmt.Sprint("c", n)
				}
				return k.at(name, c, body...), c, name == "@media" || name == "@supports"
			}
			var script []gnode
			for i, b := range sh.before {
				nm := fmt.Sprint("b", i)
				var body []gnode
				switch {
				case strings.HasPrefix(b, "@font-face"):
					body = []gnode{k.decl("z")}
				case b == "@layer" || b == "@container":
					body = []gnode{k.token(), k.token()}
				default:
					body = []gnode{k.block(nm, k.decl("z"))}
				}
				g, c, kept := at(b, body...)
				script = append(script, g)
				if kept {
					want = append(want, expRule{nm, c, "z"})
				}
			}
			// around: built from the inside
			ruleset := true
			for _, a := range sh.around {
				if a == "@font-face" || a == "@layer" || a == "@container" {
					ruleset = false
				}
			}
			inner := []gnode{}
			if ruleset {
				inner = append(inner, k.block("a", k.decl("p")))
			}
			var conds []string
			keep := ruleset
			type lv struct{ after string }
			var levels []expRule
			for i := len(sh.around) - 1; i >= 0; i-- {
				a := sh.around[i]
				if i < len(sh.around)-1 && ruleset {
					// a rule after the inner block
					nm := fmt.Sprint("s", i)
					inner = append(inner, k.block(nm, k.decl("y")))
					levels = append(levels, expRule{nm, fmt.Sprint(i), "y"})
				}
				body := inner
				if a == "@font-face" {
					body = []gnode{k.decl("z")}
				} else if a == "@layer" || a == "@container" {
					body = []gnode{k.token()}
				}
				g, c, kept := at(a, body...)
				if !kept {
					keep = false
				}
				conds = append([]string{c}, conds...)
				inner = []gnode{g}
			}
			script = append(script, inner...)
			script = append(script, k.block("d", k.decl("q")))
			if keep {
				want = append(want, expRule{"a", strings.Join(conds, " "), "p"})
			}
			for _, lv := range levels {
				var i int
				fmt.Sscan(lv.conds, &i)
				ok := true
				for _, a := range sh.around[:i+1] {
					if !strings.HasPrefix(a, "@media") && !strings.HasPrefix(a, "@supports") {
						ok = false
					}
				}
				if ok {
					want = append(want, expRule{lv.sel, strings.Join(conds[:i+1], " "), "y"})
				}
			}
			want = append(want, expRule{"d", "", "q"})
			return script, want
		})
	}
	return l
}

func checkC15(x *Ctx) {
	x.rule(cssRule + " C15: every rule that is returned carries the conditions of exactly the @media and @supports blocks open at its rule set, outermost first; rule sets inside other at-rules yield nothing, and those after them are read normally.")
	x.assume("The tokenizer library keeps its event protocol: blocks are properly nested, also at the end of the input.")
	for _, f := range x.atCases() {
		x.cssTask("a rule carries exactly the conditions around it", "cse", f)
	}
}

// ---- C16

func (x *Ctx) setCases() []func() *cssCase {
	var l []func() *cssCase
	add := func(name string, open bool, f func(k *cssScript) ([]gnode, []expRule)) {
		l = append(l, func() *cssCase {
			k := &cssScript{}
			s, want := f(k)
			return &cssCase{name: name, script: s, want: want, open: open}
		})
	}
	// bodies
	for _, d := range []string{"", "p", "--x", "p q", "p --x", "--x p", "--x --y", "p p", "p! q", "p q!", "p --x q", "--x p --y", "p q r s"} {
		d := d
		body := func(k *cssScript) []gnode {
			var b []gnode
			for _, n := range strings.Fields(d) {
				b = append(b, k.decl(n))
			}
			return b
		}
		for _, sels := range []string{"a", "a b", "a b c", "a a", "a::", "a b::"} {
			sels := sels
			add("selectors "+sels+" with ["+d+"]", false, func(k *cssScript) ([]gnode, []expRule) {
				var want []expRule
				for _, s := range strings.Fields(sels) {
					want = append(want, expRule{s, "", d})
				}
				return []gnode{k.block(sels, body(k)...)}, want
			})
		}
		add("selectors a, b with ["+d+"] among any other blocks", true, func(k *cssScript) ([]gnode, []expRule) {
			return []gnode{k.junk(0), k.block("a b", body(k)...), k.junk(0)}, []expRule{{"a", "", d}, {"b", "", d}}
		})
	}
	add("a comma inside an argument", false, func(k *cssScript) ([]gnode, []expRule) {
		return []gnode{k.block("a(b c)", k.decl("p")), k.block("d", k.decl("q"))}, []expRule{{"a(b|c)", "", "p"}, {"d", "", "q"}}
	})
	add("a comma inside an argument in a list", false, func(k *cssScript) ([]gnode, []expRule) {
		return []gnode{k.block("e a(b c) f", k.decl("p"))}, []expRule{{"e", "", "p"}, {"a(b|c)", "", "p"}, {"f", "", "p"}}
	})
	// sequences of blocks, good and bad, flat and inside at-rules
	type blk struct{ sels, decls string }
	good := []blk{{"a", "p"}, {"a b", "p q"}, {"a", ""}, {"a b::", "--x p"}}
	bad := []blk{{"!a", "p"}, {"a !b", "p --x"}, {"!a b", "--x"}, {"!a", ""}, {"!a !b c", "p"}}
	var seqs [][]blk
	for _, g := range good {
		for _, b := range bad {
			seqs = append(seqs, []blk{b, g}, []blk{g, b}, []blk{g, b, g}, []blk{b, b, g})
		}
		for _, h := range good {
			seqs = append(seqs, []blk{g, h})
		}
	}
	if x.Deep {
		all := append(append([]blk(nil), good...), bad...)
		for _, a := range all {
			for _, b := range all {
				for _, c := range all {
					seqs = append(seqs, []blk{a, b, c})
				}
			}
		}
	}
	for _, wrap := range []string{"", "@media", "after @media", "@keyframes before"} {
		for _, s := range seqs {
			s, wrap := s, wrap
			var n []string
			for _, b := range s {
				n = append(n, "{"+b.sels+" | "+b.decls+"}")
			}
			add(strings.TrimSpace(wrap+" "+strings.Join(n, " ")), false, func(k *cssScript) ([]gnode, []expRule) {
				var script []gnode
				var want []expRule
				cond := ""
				if wrap == "@media" {
					cond = "c1"
				}
				for i, b := range s {
					var body []gnode
					var ds []string
					for _, d := range strings.Fields(b.decls) {
						// every block has properties of its own
						nm := fmt.Sprint(d, i)
						body = append(body, k.decl(nm))
						ds = append(ds, nm)
					}
					script = append(script, k.block(b.sels, body...))
					if strings.Contains(b.sels, "!") {
						continue
					}
					for _, sel := range strings.Fields(b.sels) {
						want = append(want, expRule{sel, cond, strings.Join(ds, " ")})
					}
				}
				switch wrap {
				case "@media":
					script = []gnode{k.at("@media", "c1", script...)}
				case "after @media":
					script = append([]gnode{k.at("@media", "c1", k.block("z", k.decl("z")))}, script...)
					want = append([]expRule{{"z", "c1", "z"}}, want...)
				case "@keyframes before":
					script = append([]gnode{k.at("@keyframes", "", k.block("!z", k.decl("z")))}, script...)
				}
				return script, want
			})
		}
	}
	return l
}

func checkC16(x *Ctx) {
	x.rule(cssRule + " C16: the rules returned are, in order, one for each selector of each rule set whose selectors can be parsed, with exactly the declarations of that rule set in their order, property and value consisting of exactly the tokens of the declaration; a rule set with an invalid selector yields none and leaves the others alone.")
	x.assume("The selector parser is an uninterpreted function of the text it is given that takes a list apart at its commas (it is the subject of C17 to C19).")
	x.assume("The tokenizer library keeps its event protocol: blocks are properly nested, also at the end of the input.")
	for _, f := range x.setCases() {
		x.cssTask("every selector yields a rule with exactly the declarations of its block", "cse", f)
	}
}

// ---- C13 and C14

// errCases are stylesheets in which the tokenizer or the reader reports an error.
func (x *Ctx) errCases() []func() *cssCase {
	var l []func() *cssCase
	add := func(name string, err int, fail bool, f func(k *cssScript) []gnode) {
		l = append(l, func() *cssCase {
			k := &cssScript{}
			return &cssCase{name: name, script: f(k), err: err, fail: fail, open: true}
		})
	}
	add("the reader fails", 1, true, func(k *cssScript) []gnode { return nil })
	add("the reader fails, its data would be a rule", 1, true, func(k *cssScript) []gnode { return []gnode{k.block("a", k.decl("p"))} })
	for _, at := range []string{"alone", "between declarations"} {
		at := at
		add("an error in a list of declarations, "+at, 1, false, func(k *cssScript) []gnode {
			if at == "alone" {
				return []gnode{k.declErr()}
			}
			return []gnode{k.decl("q"), k.declErr(), k.decl("--x")}
		})
		mk := l[len(l)-1]
		l[len(l)-1] = func() *cssCase { cs := mk(); cs.inline = trueVal; return cs }
	}
	add("the reader fails on a list of declarations", 1, true, func(k *cssScript) []gnode { return []gnode{k.decl("q")} })
	mk := l[len(l)-1]
	l[len(l)-1] = func() *cssCase { cs := mk(); cs.inline = trueVal; return cs }
	pre := map[string]func(k *cssScript) []gnode{
		"at the beginning": func(k *cssScript) []gnode { return nil },
		"after a rule":     func(k *cssScript) []gnode { return []gnode{k.block("a", k.decl("p"))} },
		"after any blocks": func(k *cssScript) []gnode { return []gnode{k.junk(0)} },
		"after @media":     func(k *cssScript) []gnode { return []gnode{k.at("@media", "c1", k.block("a", k.decl("p")))} },
		"after @keyframes": func(k *cssScript) []gnode { return []gnode{k.at("@keyframes", "", k.block("!a", k.decl("p")))} },
		"after a skipped block": func(k *cssScript) []gnode {
			return []gnode{k.block("!a", k.decl("p"))}
		},
	}
	for _, p := range sortedKeys(pre) {
		p := p
		add("no error "+p, 0, false, func(k *cssScript) []gnode { return pre[p](k) })
		add("an error between blocks "+p, 1, false, func(k *cssScript) []gnode {
			return append(pre[p](k), k.perr())
		})
		add("an error between blocks, rules behind it, "+p, 1, false, func(k *cssScript) []gnode {
			return append(pre[p](k), k.perr(), k.block("b", k.decl("q")), k.junk(0))
		})
		add("an unfinished selector list "+p, 1, false, func(k *cssScript) []gnode {
			return append(append(pre[p](k), k.begin("b", "c")[0]), k.perr())
		})
		for _, d := range []string{"first", "last", "alone"} {
			d := d
			add("an error in a declaration, "+d+", "+p, 1, false, func(k *cssScript) []gnode {
				b := []gnode{k.declErr()}
				if d == "last" {
					b = append([]gnode{k.decl("q"), k.decl("--x")}, b...)
				} else if d == "first" {
					b = append(b, k.decl("q"))
				}
				return append(pre[p](k), k.block("b", b...), k.block("c", k.decl("r")))
			})
			add("an error in a declaration inside @media, "+d+", "+p, 1, false, func(k *cssScript) []gnode {
				b := []gnode{k.declErr()}
				if d == "last" {
					b = append([]gnode{k.decl("q")}, b...)
				}
				return append(pre[p](k), k.at("@media", "c2", k.block("b", b...)))
			})
		}
		add("an error inside @media between rules "+p, 1, false, func(k *cssScript) []gnode {
			return append(pre[p](k), k.at("@supports", "c2", k.block("b", k.decl("q")), k.perr()))
		})
	}
	return l
}

func checkC13(x *Ctx) {
	x.rule(cssRule + " C13: whenever the reader or the tokenizer reports an error outside of skipped parts, ExtractRules returns an error, otherwise none; AddRules, interpreted together with it, returns an error exactly then and leaves the rules it has as they are, and records every rule otherwise.")
	x.assume("The tokenizer library reports an error of the reader as its first event (it reads the whole input first).")
	for _, f := range x.errCases() {
		x.cssTask("an error is reported exactly when there is one", "e", f)
	}
	x.addRulesErrors()
}

// addRulesErrors adds a good stylesheet, then another that may fail.
func (x *Ctx) addRulesErrors() {
	site := "(*Merger).AddRules " + x.fsite(x.P.method(x.P.Merger, "AddRules"))
	type step struct {
		name string
		f    func(k *cssScript) []gnode
		fail bool
		err  int
		want string // classes that have the rule of the second stylesheet
	}
	var steps []step
	for _, f := range x.errCases() {
		cs := f()
		if cs.err == 1 && !strings.Contains(cs.name, "any blocks") && cs.inline == nil {
			cs := cs
			steps = append(steps, step{cs.name, func(*cssScript) []gnode { return cs.script }, cs.fail, 1, ""})
		}
	}
	steps = append(steps,
		step{"a good stylesheet", func(k *cssScript) []gnode {
			return []gnode{k.block("a", k.decl("q")), k.block("b c", k.decl("q"))}
		}, false, 0, "a b c"},
		step{"an empty stylesheet", func(k *cssScript) []gnode { return nil }, false, 0, ""},
		step{"a good stylesheet with @media", func(k *cssScript) []gnode {
			return []gnode{k.at("@media", "c1", k.block("b", k.decl("q"))), k.block("d", k.decl("q"))}
		}, false, 0, "b d"},
		step{"a skipped block", func(k *cssScript) []gnode {
			return []gnode{k.block("!a", k.decl("q")), k.block("b", k.decl("q"))}
		}, false, 0, "b"},
	)
	for _, cache := range []string{"", "any"} {
		for _, st := range steps {
			st, cache := st, cache
			x.task(func() func() {
				w := newWorld(x.P, "C13")
				w.E.Unord = 1
				w.props = stdProps()
				w.cache = cache
				m := newCSS(w)
				ok, detail := true, ""
				bad := func(s string) {
					if ok {
						ok, detail = false, s
					}
				}
				add := func(from []*cont, k *cssScript, script []gnode, fail bool) []*cont {
					m.start, m.fail = m.put(script), fail
					return w.call(from, x.P.method(x.P.Merger, "AddRules"), func(k *cont) []Val {
						return []Val{k.ret[0], VAtom{"obj", "reader", Rigid}, vbool(false)}
					})
				}
				k := &cssScript{n: 1000}
				mg := w.merger()
				if len(mg) == 0 {
					return func() { x.absorb("C13", w.E); x.ob("AddRules is all or nothing", st.name, false, "no merger") }
				}
				root := mg[0]
				one := add(mg, k, []gnode{k.block("a z", k.decl("p")), k.at("@media", "c9", k.block("y", k.decl("--x")))}, false)
				n := 0
				for _, c1 := range one {
					if !isNil(c1.ret[0]) {
						bad("a good stylesheet is refused" + tr(c1.c.traceString()))
						continue
					}
					c1.ret, c1.id = root.ret, root.id
					b1, maps := w.rulesOf([]*cont{c1})
					if len(maps) == 0 {
						continue
					}
					before := b1[0].c.shapeMap(maps[0])
					for _, t := range []string{"a", "z", "y"} {
						if _, miss := ruleFor(b1[0].c, maps[0], tokAtom(t)); miss {
							bad("the rule of ." + t + " is not recorded although no error was returned")
						}
					}
					c1.c.trace = nil
					for _, c2 := range add([]*cont{c1}, k, st.f(k), st.fail) {
						n++
						isErr := eq(c2.ret[0], nilErr)
						path := tr(c2.c.traceString())
						if st.err == 1 && isErr != No {
							bad("no error is returned" + path)
						}
						if st.err == 0 && isErr != Yes {
							bad("an error is returned: " + clip(key(c2.ret[0])) + path)
						}
						c2.ret, c2.id = root.ret, root.id
						b2, maps := w.rulesOf([]*cont{c2})
						for i, o := range maps {
							if st.err == 1 {
								if after := b2[i].c.shapeMap(o); after != before {
									bad("AddRules fails but the rules are not what they were: " + clip(diffLines(before, after)) + path)
								}
								continue
							}
							want := map[string]bool{"a": true, "z": true, "y": true}
							for _, t := range strings.Fields(st.want) {
								want[t] = true
								vals, miss := ruleFor(b2[i].c, o, tokAtom(t))
								if miss {
									bad("the rule of ." + t + " is not recorded although no error was returned" + path)
								} else if !strings.Contains(vals[0], "prop:q") {
									bad("the rule of ." + t + " is not the new one" + path)
								}
							}
							for _, t := range []string{"a", "z", "y"} {
								if _, miss := ruleFor(b2[i].c, o, tokAtom(t)); miss {
									bad("the rule of ." + t + " is gone" + path)
								}
							}
							for _, en := range o.Ents {
								known := false
								for t := range want {
									if eq(en.K, tokAtom(t)) == Yes {
										known = true
									}
								}
								if !known {
									bad("a rule is recorded under " + clip(key(en.K)) + path)
								}
							}
						}
					}
				}
				for _, k := range sortedKeys(m.bad) {
					bad(k)
				}
				for _, k := range sortedKeys(w.E.Panics) {
					bad(k + tr(w.E.Panics[k]))
				}
				if n == 0 {
					bad("AddRules never returns")
				}
				return func() {
					x.absorb("C13/"+st.name, w.E)
					x.ob("AddRules takes effect completely or reports an error", st.name+" cache="+cache+" "+site, ok, detail)
				}
			})
		}
	}
}

func diffLines(a, b string) string {
	la := map[string]bool{}
	for _, s := range strings.Split(a, "\n") {
		la[s] = true
	}
	for _, s := range strings.Split(b, "\n") {
		if !la[s] {
			return "now " + s
		}
		delete(la, s)
	}
	for _, s := range sortedKeys(la) {
		return "no longer " + s
	}
	return ""
}

func checkC14(x *Ctx) {
	x.rule(cssRule + " C14: after every event, however deep inside blocks, the input may end; ExtractRules then returns without asking the tokenizer more than a few times, and no abstract state repeats without an event being consumed.")
	x.assume("The tokenizer library consumes input with every event and reports the end of the input for good.")
	x.assume("Loops that do not read events are covered by the loop rule (every loop of the package makes progress towards its exit).")
	// every prefix of a stylesheet that uses everything
	full := func(k *cssScript) []gnode {
		return []gnode{
			k.comment(), k.stmt("@charset"), k.block("a b", k.decl("p"), k.decl("--x")), k.block("!a", k.decl("p"), k.decl("--x")),
			k.at("@media", "c1", k.block("a", k.decl("p")), k.at("@supports", "c2", k.block("!b", k.decl("p"))), k.at("@keyframes", "", k.block("!c", k.decl("p")))),
			k.at("@keyframes", "", k.block("!c", k.decl("p")), k.block("c", k.decl("p"))), k.at("@layer", "", k.token(), k.token()),
			k.at("@font-face", "", k.decl("p")), k.at("@-moz-document", "", k.at("@media", "c3", k.block("a", k.decl("p")))), k.block("d", k.decl("p")),
		}
	}
	var events func(l []gnode) []gnode
	events = func(l []gnode) (out []gnode) {
		for _, g := range l {
			switch t := g.(type) {
			case gEvt:
				out = append(out, t)
			case *gSeq:
				out = append(out, events(t.l)...)
			}
		}
		return out
	}
	n := len(events(full(&cssScript{})))
	for i := 0; i <= n; i++ {
		i := i
		for _, tail := range []string{"", "error"} {
			tail := tail
			x.cssTask("reading ends where the input ends", "", func() *cssCase {
				k := &cssScript{}
				s := events(full(k))[:i]
				if tail != "" {
					s = append(s[:i:i], k.perr())
				}
				return &cssCase{name: fmt.Sprintf("input ends after %d of %d events %s", i, n, tail), script: s, err: 2, open: true, cycles: true}
			})
		}
	}
	for _, in := range []Val{vbool(true), vbool(false)} {
		in := in
		x.cssTask("reading ends where the input ends", "", func() *cssCase {
			k := &cssScript{}
			jd := k.any(k.decl("j*"), k.declErr(), k.token(), k.comment())
			evs := k.any(jd, k.begin("j*")[0], k.begin("!j*")[0], k.begin("j*", "j*")[0], k.perr(), k.stmt("@import"))
			return &cssCase{name: "any events in any order, inline " + key(in), script: []gnode{evs}, err: 2, open: true, inline: in}
		})
	}
	// at-rules opened and closed up to a depth
	x.cssTask("reading ends where the input ends", "", func() *cssCase {
		k := &cssScript{}
		var lvl func(d int) gnode
		lvl = func(d int) gnode {
			alts := []gnode{k.block("j*", k.any(k.decl("j*"))), k.block("!j*", k.any(k.decl("j*")))}
			if d > 0 {
				for _, n := range []string{"@media", "@keyframes"} {
					open := k.at(n, "", lvl(d-1)).(*gSeq)
					alts = append(alts, open)
				}
			}
			return k.any(alts...)
		}
		d := 2
		if x.Deep {
			d = 4
		}
		return &cssCase{name: "any nesting", script: []gnode{lvl(d)}, err: 2, open: true}
	})
	// Loops of the source that take the events of the stylesheet are decided by
	// the interpretation above; all others must show progress of their own.
	x.bounds([]*ssa.Function{x.P.method(x.P.Merger, "AddRules")}).termination(x)
}

func reachableFrom(P *Program, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !(P.inModule(f) || f.Synthetic != "") {
			return
		}
		seen[f] = true
		for _, g := range P.callees(f) {
			walk(g)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}
