package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = check{"property table", checkC22}
}

func checkC22(x *Ctx) {
	x.rule("The property table that the program embeds is read from the file named by its go:embed directive and compared, entry by entry, with the shorthands of CSS: " +
		"expanding the list of a shorthand completely gives all longhands CSS defines for it and nothing it does not set, every other entry has no list, no expansion reaches its own start.")
	x.rule("Abstract interpretation of GetProperties over an abstract table (entries with a list of any length, entries with a text, any number of others): the list kept for an entry is the list of the table, or the own name where the table has none.")
	x.assume("encoding/json behaves as documented; an embedded file has the content it has in the source tree")
	x.assume("non-standard (vendor) shorthands may stand for any longhands of their own family")
	x.tableOracle()
	x.tableLoader("table loader")
}

// ---- the table itself

// embedFiles finds the JSON files embedded by packages of the module.
func (p *Program) embedFiles() map[string]string {
	out := map[string]string{} // file -> position
	for _, pk := range p.TPkgs {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				var docs []*ast.CommentGroup
				docs = append(docs, gd.Doc)
				for _, s := range gd.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						docs = append(docs, vs.Doc)
					}
				}
				for _, cg := range docs {
					if cg == nil {
						continue
					}
					for _, c := range cg.List {
						if !strings.HasPrefix(c.Text, "//go:embed ") {
							continue
						}
						for _, pat := range strings.Fields(strings.TrimPrefix(c.Text, "//go:embed ")) {
							pat = strings.Trim(pat, "\"`")
							dir := filepath.Dir(p.Fset.Position(f.Pos()).Filename)
							m, _ := filepath.Glob(filepath.Join(dir, pat))
							for _, n := range m {
								if strings.HasSuffix(n, ".json") {
									out[n] = p.pos(gd.Pos())
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

// isEmbed reports whether a package variable is filled from an embedded JSON file.
func (p *Program) isEmbed(g *ssa.Global) bool {
	for _, pos := range p.embedFiles() {
		q := p.Fset.Position(g.Pos())
		rel, err := filepath.Rel(p.Dir, q.Filename)
		if err != nil {
			continue
		}
		file, line, _ := strings.Cut(pos, ":")
		if file == rel {
			n := 0
			fmt.Sscan(line, &n)
			if q.Line >= n && q.Line <= n+1 || p.inSameDecl(g, pos) {
				return true
			}
		}
	}
	return false
}

func (p *Program) inSameDecl(g *ssa.Global, pos string) bool {
	for _, pk := range p.TPkgs {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				if p.pos(d.Pos()) == pos && d.Pos() <= g.Pos() && g.Pos() <= d.End() {
					return true
				}
			}
		}
	}
	return false
}

func (x *Ctx) tableOracle() {
	files := x.P.embedFiles()
	if len(files) == 0 {
		x.ob("anchor", "internal/props", false, "no embedded JSON file found in the module: the property table cannot be located")
		return
	}
	tag := x.computedTag()
	n := 0
	for _, f := range sortedKeys(files) {
		b, err := os.ReadFile(f)
		rel, _ := filepath.Rel(x.P.Dir, f)
		if err != nil {
			x.ob("table readable", rel, false, err.Error())
			continue
		}
		if d := dupKeys(b); d != "" {
			x.ob("entry is unique", rel, false, "the property "+d+" has more than one entry")
		}
		var t map[string]map[string]any
		if err := json.Unmarshal(b, &t); err != nil {
			x.ob("table readable", rel, false, err.Error())
			continue
		}
		n++
		x.judgeTable(rel, tag, t)
	}
	x.Extra["tables"] = n
}

// dupKeys finds a key that occurs twice at the top level of a JSON object.
func dupKeys(b []byte) string {
	dec := json.NewDecoder(strings.NewReader(string(b)))
	if _, err := dec.Token(); err != nil {
		return ""
	}
	seen := map[string]bool{}
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			return ""
		}
		s, _ := k.(string)
		if seen[s] {
			return s
		}
		seen[s] = true
		var v json.RawMessage
		if dec.Decode(&v) != nil {
			return ""
		}
	}
	return ""
}

// computedTag is the JSON name of the one list of strings in the property type.
func (x *Ctx) computedTag() string {
	var find func(t types.Type) string
	find = func(t types.Type) string {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Embedded() {
				if s := find(f.Type()); s != "" {
					return s
				}
				continue
			}
			if sl, ok := f.Type().Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().(*types.Basic); ok && b.Kind() == types.String {
					if s := jsonName(st, i); s != "" && s != "-" {
						return s
					}
				}
			}
		}
		return ""
	}
	if s := find(x.P.Property); s != "" {
		return s
	}
	return "computed"
}

func jsonName(st *types.Struct, i int) string {
	s, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
	if s == "" {
		s = st.Field(i).Name()
	}
	return s
}

func (x *Ctx) judgeTable(file, tag string, t map[string]map[string]any) {
	lists := map[string][]string{}
	for name, e := range t {
		switch v := e[tag].(type) {
		case []any:
			l := []string{}
			for _, s := range v {
				if str, ok := s.(string); ok {
					l = append(l, str)
				} else {
					x.ob("list of names", file+": "+name, false, "the list of longhands holds something that is no text")
				}
			}
			lists[name] = l
		case string:
			lists[name] = []string{name}
		default:
			// neither a text nor a list: the loader takes the own name only for what is not a list
			x.ob("entry has its longhands", file+": "+name, false, fmt.Sprintf("the entry has neither a list of longhands nor a text in %q", tag))
		}
	}
	// complete expansion; stands for itself when the name is not in the table
	var expand func(n string, on map[string]bool, out map[string]bool) (cycle string)
	expand = func(n string, on, out map[string]bool) string {
		l, ok := lists[n]
		if !ok || len(l) == 1 && l[0] == n {
			out[n] = true
			return ""
		}
		if on[n] {
			return n
		}
		on[n] = true
		defer delete(on, n)
		for _, m := range l {
			if c := expand(m, on, out); c != "" {
				return c
			}
		}
		return ""
	}
	want := func(n string) map[string]bool {
		out := map[string]bool{}
		var rec func(n string)
		rec = func(n string) {
			if s, ok := cssShorthands[n]; ok {
				for _, m := range s.must {
					rec(m)
				}
				return
			}
			out[n] = true
		}
		rec(n)
		return out
	}
	names := map[string]bool{}
	for n := range lists {
		names[n] = true
	}
	for n := range cssShorthands {
		names[n] = true
	}
	sorted := sortedKeys(names)
	for _, n := range sorted {
		site := file + ": " + n
		l, ok := lists[n]
		s, short := cssShorthands[n]
		if !ok {
			if short && !s.optional {
				x.ob("shorthand is in the table", site, false, "the shorthand "+n+" has no entry: it would count as a property of its own")
			}
			continue
		}
		got := map[string]bool{}
		if c := expand(n, map[string]bool{}, got); c != "" {
			x.ob("expansion ends", site, false, fmt.Sprintf("expanding %s leads back to %s", n, c))
			continue
		}
		x.ob("expansion ends", site, true, "")
		if !short {
			if strings.HasPrefix(n, "-") && len(l) != 1 {
				x.ob("stands for itself", site, false, fmt.Sprintf("the property stands for %v", l))
				continue
			}
			x.ob("stands for itself", site, len(l) == 1 && l[0] == n, fmt.Sprintf("%s is no shorthand, but the table lets it stand for %v", n, l))
			continue
		}
		if s.either && len(l) == 1 && l[0] == n {
			x.ob("stands for its longhands", site, true, "")
			continue
		}
		may := map[string]bool{}
		var allow func(n string)
		allow = func(n string) {
			may[n] = true
			for _, m := range append(append([]string{}, cssShorthands[n].may...), cssShorthands[n].must...) {
				if !may[m] {
					allow(m)
				}
			}
		}
		allow(n)
		var missing, extra []string
		for w := range want(n) {
			if !got[w] && !aliasIn(got, w) {
				missing = append(missing, w)
			}
		}
		for g := range got {
			if !may[g] && !may[cssAlias[g]] && !s.family(g) {
				extra = append(extra, g)
			}
		}
		sort.Strings(missing)
		sort.Strings(extra)
		x.ob("stands for its longhands", site, len(missing) == 0, fmt.Sprintf("the shorthand %s sets %s, but the table does not say so", n, strings.Join(missing, ", ")))
		x.ob("stands for nothing else", site, len(extra) == 0, fmt.Sprintf("the shorthand %s does not set %s, but the table says so", n, strings.Join(extra, ", ")))
	}
	x.Extra["table entries"] = len(lists)
	x.Extra["shorthands"] = len(cssShorthands)
}

func aliasIn(got map[string]bool, w string) bool {
	for g := range got {
		if cssAlias[g] == w {
			return true
		}
	}
	return false
}

type shorthand struct {
	must, may []string
	optional  bool // need not be in the table
	either    bool // may also stand for itself (became a shorthand only recently)
	vendor    string
}

func (s shorthand) family(n string) bool { return s.vendor != "" && strings.HasPrefix(n, s.vendor) }

// legacy names of the same property
var cssAlias = map[string]string{"grid-row-gap": "row-gap", "grid-column-gap": "column-gap", "font-width": "font-stretch"}

var cssShorthands = buildShorthands()

func buildShorthands() map[string]shorthand {
	m := map[string]shorthand{}
	add := func(n, must, may string) { m[n] = shorthand{must: strings.Fields(must), may: strings.Fields(may)} }
	opt := func(n, must, may string) {
		m[n] = shorthand{must: strings.Fields(must), may: strings.Fields(may), optional: true}
	}
	either := func(n, must, may string) {
		m[n] = shorthand{must: strings.Fields(must), may: strings.Fields(may), optional: true, either: true}
	}
	vendor := func(n, must, fam string) {
		m[n] = shorthand{must: strings.Fields(must), optional: true, vendor: fam}
	}
	sides := []string{"top", "right", "bottom", "left"}
	four := func(pre, post string) string {
		var l []string
		for _, s := range sides {
			l = append(l, pre+s+post)
		}
		return strings.Join(l, " ")
	}
	add("animation", "animation-name animation-duration animation-timing-function animation-delay animation-direction animation-iteration-count animation-fill-mode animation-play-state",
		"animation-timeline animation-range-start animation-range-end animation-composition")
	add("animation-range", "animation-range-start animation-range-end", "")
	add("background", "background-image background-position background-size background-repeat background-origin background-clip background-attachment background-color", "background-blend-mode")
	add("background-position", "background-position-x background-position-y", "")
	reset := "border-image"
	add("border", "border-width border-style border-color", reset)
	for _, k := range []string{"width", "style", "color"} {
		add("border-"+k, four("border-", "-"+k), "")
		add("border-block-"+k, "border-block-start-"+k+" border-block-end-"+k, "")
		add("border-inline-"+k, "border-inline-start-"+k+" border-inline-end-"+k, "")
	}
	for _, s := range append(append([]string{}, sides...), "block-start", "block-end", "inline-start", "inline-end") {
		add("border-"+s, "border-"+s+"-width border-"+s+"-style border-"+s+"-color", "")
	}
	for _, s := range []string{"block", "inline"} {
		add("border-"+s, "border-"+s+"-width border-"+s+"-style border-"+s+"-color", "")
		for _, k := range []string{"margin", "padding", "scroll-margin", "scroll-padding", "inset"} {
			add(k+"-"+s, k+"-"+s+"-start "+k+"-"+s+"-end", "")
		}
	}
	for _, k := range []string{"margin", "padding", "scroll-margin", "scroll-padding"} {
		add(k, four(k+"-", ""), "")
	}
	add("inset", "top right bottom left", "")
	add("border-image", "border-image-source border-image-slice border-image-width border-image-outset border-image-repeat", "")
	add("border-radius", "border-top-left-radius border-top-right-radius border-bottom-right-radius border-bottom-left-radius", "")
	add("caret", "caret-color caret-shape", "caret-animation")
	add("column-rule", "column-rule-width column-rule-style column-rule-color", "")
	add("columns", "column-width column-count", "column-height")
	add("contain-intrinsic-size", "contain-intrinsic-width contain-intrinsic-height", "")
	add("container", "container-name container-type", "")
	add("flex", "flex-grow flex-shrink flex-basis", "")
	add("flex-flow", "flex-direction flex-wrap", "")
	add("font", "font-style font-variant font-weight font-stretch font-size line-height font-family",
		"font-size-adjust font-kerning font-feature-settings font-language-override font-optical-sizing font-variation-settings font-palette font-synthesis")
	add("font-synthesis", "font-synthesis-weight font-synthesis-style font-synthesis-small-caps", "font-synthesis-position")
	add("font-variant", "font-variant-ligatures font-variant-caps font-variant-alternates font-variant-numeric font-variant-east-asian", "font-variant-position font-variant-emoji")
	add("gap", "row-gap column-gap", "")
	add("grid-gap", "row-gap column-gap", "")
	add("grid", "grid-template-rows grid-template-columns grid-template-areas grid-auto-rows grid-auto-columns grid-auto-flow", "")
	add("grid-area", "grid-row-start grid-column-start grid-row-end grid-column-end", "")
	add("grid-column", "grid-column-start grid-column-end", "")
	add("grid-row", "grid-row-start grid-row-end", "")
	add("grid-template", "grid-template-columns grid-template-rows grid-template-areas", "")
	add("list-style", "list-style-type list-style-position list-style-image", "")
	add("mask", "mask-image mask-mode mask-repeat mask-position mask-clip mask-origin mask-size mask-composite", "mask-border")
	add("mask-border", "mask-border-mode mask-border-outset mask-border-repeat mask-border-slice mask-border-source mask-border-width", "")
	add("offset", "offset-position offset-path offset-distance offset-anchor offset-rotate", "")
	add("outline", "outline-color outline-style outline-width", "")
	add("overflow", "overflow-x overflow-y", "")
	add("overscroll-behavior", "overscroll-behavior-x overscroll-behavior-y", "")
	add("place-content", "align-content justify-content", "")
	add("place-items", "align-items justify-items", "")
	add("place-self", "align-self justify-self", "")
	add("scroll-timeline", "scroll-timeline-name scroll-timeline-axis", "")
	add("text-decoration", "text-decoration-line text-decoration-style text-decoration-color text-decoration-thickness", "")
	add("text-emphasis", "text-emphasis-style text-emphasis-color", "")
	add("transition", "transition-delay transition-duration transition-property transition-timing-function", "transition-behavior")
	add("view-timeline", "view-timeline-name view-timeline-axis", "view-timeline-inset")
	either("white-space", "white-space-collapse text-wrap-mode", "white-space-trim text-wrap text-wrap-style")
	either("text-wrap", "text-wrap-mode text-wrap-style", "")
	opt("text-box", "text-box-trim text-box-edge", "")
	opt("position-try", "position-try-order position-try-fallbacks", "")
	opt("scroll-start", "scroll-start-block scroll-start-inline scroll-start-x scroll-start-y", "")
	opt("corner-shape", "corner-top-left-shape corner-top-right-shape corner-bottom-right-shape corner-bottom-left-shape", "")
	either("page-break-after", "break-after", "")
	either("page-break-before", "break-before", "")
	either("page-break-inside", "break-inside", "")
	either("word-wrap", "overflow-wrap", "")
	vendor("-ms-content-zoom-limit", "-ms-content-zoom-limit-max -ms-content-zoom-limit-min", "-ms-content-zoom-")
	vendor("-ms-content-zoom-snap", "-ms-content-zoom-snap-type -ms-content-zoom-snap-points", "-ms-content-zoom-")
	vendor("-ms-scroll-limit", "-ms-scroll-limit-x-min -ms-scroll-limit-y-min -ms-scroll-limit-x-max -ms-scroll-limit-y-max", "-ms-scroll-limit-")
	vendor("-ms-scroll-snap-x", "-ms-scroll-snap-type -ms-scroll-snap-points-x", "-ms-scroll-snap-")
	vendor("-ms-scroll-snap-y", "-ms-scroll-snap-type -ms-scroll-snap-points-y", "-ms-scroll-snap-")
	vendor("-moz-outline-radius", "-moz-outline-radius-topleft -moz-outline-radius-topright -moz-outline-radius-bottomright -moz-outline-radius-bottomleft", "-moz-outline-radius-")
	vendor("-webkit-border-before", "-webkit-border-before-width -webkit-border-before-style -webkit-border-before-color", "-webkit-border-before-")
	vendor("-webkit-mask", "-webkit-mask-image -webkit-mask-repeat -webkit-mask-position -webkit-mask-origin -webkit-mask-clip", "-webkit-mask-")
	vendor("-webkit-text-stroke", "-webkit-text-stroke-width -webkit-text-stroke-color", "-webkit-text-stroke-")
	return m
}

// ---- the loader

// A JSON document is a value: a text (any text value), a list (VTerm "list"), an
// object (VTerm "jobj" of "kv" terms), null ("jnull") or unknown ("jany").

func jobj(kvs ...Val) Val { return VTerm{"jobj", kvs} }
func jkv(k, v Val, mode string) Val {
	return VTerm{"kv" + mode, []Val{k, v}}
}

// jsonBytes recognises the encoded form of a document.
func jsonBytes(v Val) (Val, bool) {
	for {
		t, ok := v.(VTerm)
		if !ok {
			return nil, false
		}
		switch t.Op {
		case "json":
			return t.Args[0], true
		case "bytes", "string":
			v = t.Args[0]
			continue
		}
		return nil, false
	}
}

func (w *World) jsonExt(c *Config, name string, args []Val) ([]*Config, bool) {
	e := w.E
	switch name {
	case "encoding/json.Marshal":
		doc := w.jsonEncode(c, args[0], 0)
		if doc == nil {
			e.problem(c, "encoding of a value of unknown form")
			return nil, true
		}
		return e.deliver(c, VTuple{VTerm{"json", []Val{doc}}, nilErr}), true
	case "encoding/json.Unmarshal":
		doc, ok := jsonBytes(args[0])
		if !ok {
			return nil, false
		}
		dst := args[1]
		if i, ok := dst.(VIface); ok {
			dst = i.V
		}
		p, ok := dst.(VPtr)
		if !ok {
			e.problem(c, "json.Unmarshal into something that is no known variable")
			return nil, true
		}
		iface := args[1].(VIface)
		pt, ok := iface.T.Underlying().(*types.Pointer)
		if !ok {
			e.problem(c, "json.Unmarshal into something that is no pointer")
			return nil, true
		}
		var cur Val
		for _, r := range e.load(c, p) {
			cur = r.v
		}
		v, ok := w.jsonDecode(c, doc, pt.Elem(), cur, 0)
		if v == nil {
			if ok {
				e.problem(c, "decoding into a type of unknown form: "+pt.Elem().String())
				return nil, true
			}
			return e.deliver(c, VTerm{"err:json", []Val{c.freeze(doc, 0)}}), true
		}
		e.store(c, p, v)
		if !ok {
			return e.deliver(c, VTerm{"err:json", []Val{c.freeze(doc, 0)}}), true
		}
		return e.deliver(c, nilErr), true
	case "encoding/json.Valid":
		if _, ok := jsonBytes(args[0]); ok {
			return e.deliver(c, trueVal), true
		}
	case "bytes.TrimSpace":
		if _, ok := jsonBytes(args[0]); ok {
			return e.deliver(c, args[0]), true
		}
	}
	return nil, false
}

// jsonDecode gives the value of type t for a document. A nil value means that
// the target stays as it was; false means an error is reported.
func (w *World) jsonDecode(c *Config, doc Val, t types.Type, old Val, d int) (Val, bool) {
	if d > 8 {
		return nil, true
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "encoding/json.RawMessage", "encoding/json/jsontext.Value":
			return VTerm{"json", []Val{doc}}, true
		}
	}
	term, _ := doc.(VTerm)
	isList := term.Op == "list" || term.Op == "sortedlist"
	isObj := term.Op == "jobj"
	if term.Op == "jnull" {
		return zero(t), true
	}
	if term.Op == "jany" {
		return unknownOf(t, 0), true
	}
	isText := !isList && !isObj
	if n, ok := t.(*types.Named); ok && w.hasUnmarshal(n) {
		if isText || isList || isObj {
			w.E.problem(c, "the type "+n.Obj().Name()+" decodes itself, which is not modelled")
		}
		return unknownOf(t, 0), true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		switch {
		case isList:
			el := types.NewInterfaceType(nil, nil)
			var items []Item
			for _, it := range c.thaw(doc).Items {
				v, _ := w.jsonDecode(c, it.V, el, nil, d+1)
				it.V = v
				items = append(items, it)
			}
			return VIface{types.NewSlice(el), c.newSeq(items)}, true
		case isObj:
			mt := types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
			v, ok := w.jsonDecode(c, doc, mt, nil, d+1)
			return VIface{mt, v}, ok
		}
		return VIface{types.Typ[types.String], doc}, true
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if isText {
				return doc, true
			}
			return nil, false
		}
		return nil, false
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return nil, true
		}
		if !isList {
			return nil, false
		}
		src := c.thaw(doc)
		o := &Obj{Kind: 's', Unord: src.Unord}
		ok := true
		for _, it := range src.Items {
			v, k := w.jsonDecode(c, it.V, u.Elem(), nil, d+1)
			if !k {
				ok = false
			}
			if v == nil {
				v = zero(u.Elem())
			}
			it.V = v
			o.Items = append(o.Items, it)
		}
		if sl, reuse := old.(VSlice); reuse && c.heap[sl.Obj] != nil {
			// the elements are written over those of the list that is there
			n := c.upd(sl.Obj)
			n.Items, n.Unord, n.Uniq = o.Items, o.Unord, false
			return sl, ok
		}
		return VSlice{c.alloc(o)}, ok
	case *types.Map:
		if !isObj {
			return nil, false
		}
		m := &Obj{Kind: 'm', T: t}
		if om, reuse := old.(VMap); reuse && c.heap[om.Obj] != nil && len(c.heap[om.Obj].Ents) > 0 {
			w.E.problem(c, "decoding into a map that is not empty")
		}
		ok := true
		for _, a := range term.Args {
			kv := a.(VTerm)
			v, k := w.jsonDecode(c, kv.Args[1], u.Elem(), nil, d+1)
			if !k {
				ok = false
			}
			if v == nil {
				v = zero(u.Elem())
			}
			m.Ents = append(m.Ents, Ent{K: kv.Args[0], V: v, Must: kv.Op == "kv", Many: kv.Op == "kv*"})
		}
		return VMap{c.alloc(m)}, ok
	case *types.Pointer:
		v, ok := w.jsonDecode(c, doc, u.Elem(), nil, d+1)
		if v == nil {
			return nil, ok
		}
		return VPtr{Obj: c.alloc(&Obj{Kind: 'c', V: v})}, ok
	case *types.Struct:
		if !isObj {
			return nil, false
		}
		s, isSt := old.(VStruct)
		if !isSt {
			s = zero(t).(VStruct)
		}
		ok := w.jsonFields(c, term, u, &s, d)
		return s, ok
	}
	return nil, true
}

func (w *World) jsonFields(c *Config, doc VTerm, u *types.Struct, s *VStruct, d int) bool {
	ok := true
	s.F = append([]Val(nil), s.F...)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		if est, isSt := f.Type().Underlying().(*types.Struct); f.Embedded() && tag == "" && isSt {
			sub := s.F[i].(VStruct)
			if !w.jsonFields(c, doc, est, &sub, d+1) {
				ok = false
			}
			s.F[i] = sub
			continue
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		name := jsonName(u, i)
		for _, a := range doc.Args {
			kv := a.(VTerm)
			k, isC := constStr(kv.Args[0])
			if !isC || !strings.EqualFold(k, name) {
				continue
			}
			v, k2 := w.jsonDecode(c, kv.Args[1], f.Type(), s.F[i], d+1)
			if !k2 {
				ok = false
			}
			if v != nil {
				s.F[i] = v
			}
		}
	}
	return ok
}

func (w *World) hasUnmarshal(n *types.Named) bool {
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "UnmarshalJSON", "UnmarshalText":
			return true
		}
	}
	return false
}

// jsonEncode gives the document for a value.
func (w *World) jsonEncode(c *Config, v Val, d int) Val {
	if d > 8 {
		return nil
	}
	switch t := v.(type) {
	case VIface:
		return w.jsonEncode(c, t.V, d+1)
	case VC:
		if t.C == nil {
			return VTerm{"jnull", nil}
		}
		if _, ok := constStr(v); ok {
			return v
		}
		return VTerm{"jany", nil}
	case VSlice:
		o, ok := c.seq(v)
		if !ok {
			return nil
		}
		n := &Obj{Kind: 's', Unord: o.Unord}
		for _, it := range o.Items {
			if it.V = w.jsonEncode(c, it.V, d+1); it.V == nil {
				return nil
			}
			n.Items = append(n.Items, it)
		}
		return frozen(n)
	case VMap:
		o := c.heap[t.Obj]
		if o == nil {
			return nil
		}
		out := VTerm{Op: "jobj"}
		for _, en := range o.Ents {
			ev := w.jsonEncode(c, en.V, d+1)
			if ev == nil {
				return nil
			}
			mode := "?"
			if en.Many {
				mode = "*"
			} else if en.Must {
				mode = ""
			}
			out.Args = append(out.Args, jkv(en.K, ev, mode))
		}
		return out
	case VStruct:
		st, ok := t.T.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		out := VTerm{Op: "jobj"}
		var add func(st *types.Struct, s VStruct) bool
		add = func(st *types.Struct, s VStruct) bool {
			for i := 0; i < st.NumFields(); i++ {
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				if est, isSt := st.Field(i).Type().Underlying().(*types.Struct); st.Field(i).Embedded() && tag == "" && isSt {
					if !add(est, s.F[i].(VStruct)) {
						return false
					}
					continue
				}
				if !st.Field(i).Exported() || tag == "-" {
					continue
				}
				ev := w.jsonEncode(c, s.F[i], d+1)
				if ev == nil {
					return false
				}
				out.Args = append(out.Args, jkv(vstr(jsonName(st, i)), ev, ""))
			}
			return true
		}
		if !add(st, t) {
			return nil
		}
		return out
	case VPtr:
		for _, r := range w.E.load(c, t) {
			return w.jsonEncode(c, r.v, d+1)
		}
	case VTop:
		return VTerm{"jany", nil}
	case VTerm:
		if doc, ok := jsonBytes(v); ok {
			return doc // a raw message
		}
		return v
	case VAtom:
		return v
	}
	return nil
}

// tableLoader interprets GetProperties over abstract tables.
func (x *Ctx) tableLoader(rule string) {
	get := x.P.Props.Func("GetProperties")
	if get == nil {
		x.ob("anchor", "internal/props", false, "GetProperties not found")
		return
	}
	tag := x.computedTag()
	fields := x.tableFields(tag)
	entry := func(comp Val) Val {
		kvs := []Val{jkv(vstr(tag), comp, "")}
		for _, f := range fields {
			kvs = append(kvs, jkv(vstr(f), VTerm{"jany", nil}, "?"))
		}
		return jobj(kvs...)
	}
	pv := func(i int) Val { return VAtom{"prop", fmt.Sprintf("l%d", i), Rigid} }
	type tcase struct {
		name  string
		comps []Item
	}
	var cases []tcase
	for k := 1; k <= 12; k++ {
		var l []Item
		for i := 1; i <= k; i++ {
			l = append(l, one(pv(i)))
		}
		cases = append(cases, tcase{fmt.Sprintf("a list of %d longhands", k), l})
	}
	cases = append(cases, tcase{"a list of any number of longhands", []Item{one(pv(1)), gap(VAtom{"prop", "l", Apart}), one(pv(3)), gap(VAtom{"prop", "l", Apart}), one(pv(2))}})
	for _, tc := range cases {
		tc := tc
		x.task(func() func() {
			w := newWorld(x.P, rule+": "+tc.name)
			old := w.E.OnExt
			w.E.OnExt = func(c *Config, name string, in ssa.Instruction, args []Val) ([]*Config, bool) {
				if out, ok := w.jsonExt(c, name, args); ok {
					return out, true
				}
				return old(c, name, in, args)
			}
			var items []Item
			items = append(items, tc.comps...)
			S, P := Val(VAtom{"prop", "S", Rigid}), Val(VAtom{"prop", "P", Rigid})
			list := frozen(&Obj{Kind: 's', Items: items})
			doc := jobj(
				jkv(S, entry(list), ""),
				jkv(P, entry(VAtom{"val", "asSpecified", Rigid}), ""),
				jkv(VAtom{"prop", "o", Apart}, entry(VAtom{"val", "text", Other}), "*"),
				jkv(VAtom{"prop", "t", Apart}, entry(frozen(&Obj{Kind: 's', Items: []Item{gap(VAtom{"prop", "u", Apart})}})), "*"),
			)
			w.E.Embed = VTerm{"json", []Val{doc}}
			conts := w.call(w.start(), get, func(*cont) []Val { return nil })
			ok, why := len(conts) > 0, "GetProperties never returns"
			for _, k := range conts {
				if !ok {
					break
				}
				if len(k.ret) == 0 {
					ok, why = false, "GetProperties returns nothing"
					break
				}
				if n := len(k.ret); n > 1 && !isNil(k.ret[n-1]) {
					ok, why = false, "an error is returned although the table is readable"+tr(k.c.traceString())
					break
				}
				m, isM := k.ret[0].(VMap)
				if !isM {
					ok, why = false, "the result is no map of known content: "+clip(key(k.ret[0]))
					break
				}
				for _, q := range []struct {
					k    Val
					want []Item
				}{{S, tc.comps}, {P, []Item{one(P)}}} {
					if bad := x.entryIs(k.c, k.c.heap[m.Obj], q.k, q.want); bad != "" {
						ok, why = false, bad+tr(k.c.traceString())
					}
				}
			}
			return func() {
				x.ob(rule, x.P.pos(get.Pos())+" "+tc.name, ok, why)
				x.absorb(rule+": "+tc.name, w.E)
			}
		})
	}
	x.runTasks()
}

// entryIs checks that the table entry of a property holds exactly a list and its name.
func (x *Ctx) entryIs(c *Config, m *Obj, k Val, want []Item) string {
	var v Val
	for _, en := range m.Ents {
		if key(en.K) == key(k) && en.Must && !en.Many {
			v = en.V
		}
	}
	if v == nil {
		return "the table in memory has no sure entry for the property " + clip(key(k))
	}
	if p, ok := v.(VPtr); ok {
		for _, r := range c.E.load(c, p) {
			v = r.v
		}
	}
	s, ok := v.(VStruct)
	if !ok {
		return "the entry of " + clip(key(k)) + " is not a known structure: " + clip(key(v))
	}
	found := ""
	n := 0
	var walk func(s VStruct)
	walk = func(s VStruct) {
		st, ok := s.T.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i, f := range s.F {
			if sub, ok := f.(VStruct); ok {
				walk(sub)
				continue
			}
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().(*types.Basic); ok && b.Kind() == types.String {
					n++
					o, ok := c.seq(f)
					if !ok {
						found = "the longhands kept for " + clip(key(k)) + " are not known: " + clip(key(f))
						continue
					}
					for _, it := range o.Items {
						if a, ok := it.V.(VAtom); !isRigid(it.V) && (!ok || a.Kind != "prop" || a.Name != "l" || !gapIn(want)) {
							found = "the longhands kept for " + clip(key(k)) + " include " + clip(key(it.V)) + ", which the table does not list"
						}
					}
					if a, b := frozenSet(o.Items), frozenSet(want); a != b {
						found = fmt.Sprintf("the longhands kept for %s are %s, the table says %s", clip(key(k)), a, b)
					}
				}
			}
			if st.Field(i).Name() == "name" && key(f) != key(k) {
				found = "the entry of " + clip(key(k)) + " carries the name " + clip(key(f))
			}
		}
	}
	walk(s)
	if n == 0 {
		return "the entry has no list of longhands"
	}
	return found
}

func gapIn(items []Item) bool {
	for _, it := range items {
		if it.Max > 1 {
			return true
		}
	}
	return false
}

// frozenSet renders the distinguished members of a list without order.
func frozenSet(items []Item) string {
	l := map[string]bool{}
	for _, it := range items {
		s := key(it.V)
		switch {
		case !isRigid(it.V):
			continue // any number of others, none included
		case it.Max > 1:
			s += "*"
		case it.Min == 0:
			s += "?"
		}
		l[s] = true
	}
	return "[" + strings.Join(sortedKeys(l), " ") + "]"
}

// tableFields lists the fields the entries of the table have besides the longhands.
func (x *Ctx) tableFields(tag string) []string {
	m := map[string]bool{}
	for f := range x.P.embedFiles() {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var t map[string]map[string]any
		if json.Unmarshal(b, &t) != nil {
			continue
		}
		for _, e := range t {
			for k := range e {
				if k != tag {
					m[k] = true
				}
			}
		}
	}
	return sortedKeys(m)
}
