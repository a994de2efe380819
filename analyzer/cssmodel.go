package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of the CSS tokenizer library (tdewolff/parse): the sequence of
// grammar events it produces for a stylesheet. Stylesheets are given by a
// grammar over events, in which a repetition stands for any number of blocks
// and names, values and conditions are arbitrary individuals.

type gnode interface{ id() string }

type gEvt struct {
	gt   string // name of the grammar constant
	data Val    // nil: none
	vals []gTok
	perr bool // a parse error
	rerr bool // the reader failed
	name string
}
type gTok struct {
	tt string
	v  Val
}
type gSeq struct {
	name string
	l    []gnode
}
type gAny struct { // any number of the alternatives in any order
	name string
	alts []gnode
}

func (g gEvt) id() string  { return g.name }
func (g *gSeq) id() string { return g.name }
func (g *gAny) id() string { return g.name }

type cssModel struct {
	w     *World
	pend  map[string][]gnode // what is still to come, by name
	cons  map[string]constant.Value
	start string // script of the next parser
	fail  bool   // the reader fails
	after int    // how often the parser may be asked after the end
	bad   map[string]string
}

const cssPath = "github.com/tdewolff/parse/v2/css"
const parsePath = "github.com/tdewolff/parse/v2"

func newCSS(w *World) *cssModel {
	w.E.Limits = true
	m := &cssModel{w: w, pend: map[string][]gnode{}, cons: map[string]constant.Value{}, after: 4, bad: map[string]string{}}
	var css *types.Package
	for _, im := range w.P.Casc.Pkg.Imports() {
		if im.Path() == cssPath {
			css = im
		}
	}
	if css == nil {
		w.E.problem(nil, "the package "+cssPath+" is not used any more; its replacement is not modelled")
		return m
	}
	for _, n := range css.Scope().Names() {
		if c, ok := css.Scope().Lookup(n).(*types.Const); ok {
			m.cons[n] = c.Val()
		}
	}
	oldExt, oldCall, oldSplit := w.E.OnExt, w.E.OnCall, w.E.Split
	w.E.OnExt = func(c *Config, name string, in ssa.Instruction, args []Val) ([]*Config, bool) {
		if out, ok := m.ext(c, name, in, args); ok {
			return out, true
		}
		return oldExt(c, name, in, args)
	}
	w.E.OnCall = func(c *Config, fn *ssa.Function, in ssa.Instruction, args []Val) ([]*Config, bool) {
		if fn == w.P.Casc.Func("ExtractRules") {
			return nil, false
		}
		if m.isSelParser(fn) {
			return m.parseSel(c, fn, args), true
		}
		return oldCall(c, fn, in, args)
	}
	w.E.Split = func(c *Config, name string, args []Val) (Val, bool) {
		if v, ok := m.split(c, name, args); ok {
			return v, true
		}
		return oldSplit(c, name, args)
	}
	return m
}

// put interns what is still to come.
func (m *cssModel) put(l []gnode) string {
	var b strings.Builder
	for _, g := range l {
		b.WriteString(g.id())
		b.WriteByte(' ')
	}
	k := b.String()
	m.pend[k] = l
	return k
}

type gNext struct {
	ev   gEvt
	rest string
}

// next gives the events that can come next; an empty list means the end.
func (m *cssModel) next(l []gnode) (evs []gNext, end bool) {
	evs, end = m.expand(l, map[string]bool{})
	seen := map[string]bool{}
	out := evs[:0:0]
	for _, n := range evs {
		k := n.ev.name + "|" + n.rest
		if !seen[k] {
			seen[k] = true
			out = append(out, n)
		}
	}
	return out, end
}

func (m *cssModel) expand(l []gnode, busy map[string]bool) (evs []gNext, end bool) {
	if len(l) == 0 {
		return nil, true
	}
	k := m.put(l)
	if busy[k] {
		return nil, false
	}
	busy[k] = true
	switch g := l[0].(type) {
	case gEvt:
		return []gNext{{g, m.put(l[1:])}}, false
	case *gSeq:
		return m.expand(append(append([]gnode(nil), g.l...), l[1:]...), busy)
	case *gAny:
		evs, end = m.expand(l[1:], busy)
		for _, a := range g.alts {
			if _, nested := a.(*gAny); nested {
				e2, end2 := m.expand(append(append([]gnode(nil), a.(*gAny).alts[0]), l...), busy)
				evs, end = append(evs, e2...), end || end2
				for _, b := range a.(*gAny).alts[1:] {
					e2, end2 := m.expand(append([]gnode{b}, l...), busy)
					evs, end = append(evs, e2...), end || end2
				}
				continue
			}
			e2, end2 := m.expand(append([]gnode{a}, l...), busy)
			evs = append(evs, e2...)
			end = end || end2
		}
		return evs, end
	}
	return nil, true
}

// the state of a parser: what is to come, the values and the error of the last event
type pstate struct {
	rest  string
	vals  Val
	err   Val
	perr  bool
	ended int
}

func (m *cssModel) state(c *Config, p Val) (int, *pstate, bool) {
	ptr, ok := p.(VPtr)
	if !ok || c.heap[ptr.Obj] == nil {
		return 0, nil, false
	}
	t, ok := c.heap[ptr.Obj].V.(VTuple)
	if !ok || len(t) != 5 {
		return 0, nil, false
	}
	s := &pstate{vals: t[1], err: t[2]}
	s.rest, _ = constStr(t[0])
	s.perr, _ = constBool(t[3])
	s.ended, _ = constInt(t[4])
	return ptr.Obj, s, true
}

func (s *pstate) val() Val {
	return VTuple{vstr(s.rest), s.vals, s.err, vbool(s.perr), vint(s.ended)}
}

func (m *cssModel) num(name string, t types.Type) Val {
	v, ok := m.cons[name]
	if !ok {
		m.w.E.problem(nil, "constant css."+name+" not found")
		return VTop{name}
	}
	return VC{v, t}
}

func bytesOf(v Val) Val {
	if isTop(v) {
		return v
	}
	return VTerm{"bytes", []Val{v}}
}

var eofAtom = VAtom{"error", "io.EOF", Rigid}
var readAtom = VAtom{"error", "error of the reader", Rigid}
var parseAtom = VAtom{"error", "parse error", Rigid}

// wholeReader recognises values that deliver the complete input of the reader.
func (m *cssModel) wholeReader(v Val) bool {
	switch t := v.(type) {
	case VAtom:
		return t.Kind == "obj" && t.Name == "reader" || t.Kind == "sheet"
	case VIface:
		return m.wholeReader(t.V)
	case VTerm:
		switch t.Op {
		case "bytes", "conv", "nn:bytes.NewReader", "nn:strings.NewReader", "nn:bufio.NewReader", "nn:bytes.NewBuffer", "nn:bytes.NewBufferString", "nn:" + parsePath + ".NewInput", "nn:" + parsePath + ".NewInputBytes", "nn:" + parsePath + ".NewInputString":
			return m.wholeReader(t.Args[0])
		}
	}
	return false
}

// mayFail: reading this fails if the reader of the stylesheet fails.
func (m *cssModel) mayFail(v Val) bool {
	switch t := v.(type) {
	case VAtom:
		return t.Name == "reader"
	case VIface:
		return m.mayFail(t.V)
	case VTerm:
		if len(t.Args) > 0 {
			return m.mayFail(t.Args[0])
		}
	}
	return false
}

func (m *cssModel) ext(c *Config, name string, in ssa.Instruction, args []Val) ([]*Config, bool) {
	e := m.w.E
	switch name {
	case parsePath + ".NewInput", parsePath + ".NewInputBytes", parsePath + ".NewInputString", "bufio.NewReader", "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
		if isTop(args[0]) {
			return nil, false
		}
		return e.deliver(c, VTerm{"nn:" + name, args}), true
	case "io.ReadAll", "io/ioutil.ReadAll":
		if !m.wholeReader(args[0]) {
			e.problem(c, "reading from something that is not the whole input at "+e.P.instrPos(in))
			return nil, true
		}
		if m.fail && m.mayFail(args[0]) {
			return e.deliver(c, VTuple{VTop{"incomplete input"}, readAtom}), true
		}
		return e.deliver(c, VTuple{VTerm{"bytes", []Val{VAtom{"sheet", "input", Rigid}}}, nilErr}), true
	case cssPath + ".NewParser":
		s := &pstate{rest: m.start, vals: VC{nil, types.Typ[types.Invalid]}, err: nilErr}
		if !m.wholeReader(args[0]) {
			m.bad["the parser is given something else than the whole input of the reader at "+e.P.instrPos(in)] = c.traceString()
			return nil, true
		}
		if m.fail && m.mayFail(args[0]) {
			s.rest = m.put([]gnode{gEvt{gt: "ErrorGrammar", rerr: true, name: "read error"}})
		}
		return e.deliver(c, VPtr{c.alloc(&Obj{Kind: 'c', V: s.val()}), ""}), true
	}
	const recv = "(*" + cssPath + ".Parser)."
	if !strings.HasPrefix(name, recv) {
		if strings.HasPrefix(name, "(") && strings.Contains(name, parsePath) && strings.HasSuffix(name, ").String") {
			return e.deliver(c, VAtom{"str", "name of a token", Other}), true
		}
		return nil, false
	}
	id, s, ok := m.state(c, args[0])
	if !ok {
		e.problem(c, "unknown parser at "+e.P.instrPos(in))
		return nil, true
	}
	switch strings.TrimPrefix(name, recv) {
	case "HasParseError":
		return e.deliver(c, vbool(s.perr)), true
	case "Err":
		return e.deliver(c, s.err), true
	case "Values":
		return e.deliver(c, s.vals), true
	case "Offset":
		return e.deliver(c, VTop{"offset"}), true
	case "Next":
		c.last = ""
		var out []*Config
		evs, end := m.next(m.pend[s.rest])
		if s.ended > 0 {
			evs, end = nil, true
		}
		sig := in.(ssa.CallInstruction).Common().Signature()
		gtT, ttT := sig.Results().At(0).Type(), sig.Results().At(1).Type()
		// the tokens of the last event are overwritten
		invalidate := func(c *Config) {
			if v, ok := s.vals.(VSlice); ok && c.heap[v.Obj] != nil {
				o := c.upd(v.Obj)
				o.Items = append([]Item(nil), o.Items...)
				for i := range o.Items {
					o.Items[i].V = VTop{"token of an earlier event, overwritten by the next"}
				}
			}
		}
		for _, n := range evs {
			ci := c.fork()
			invalidate(ci)
			ns := &pstate{rest: n.rest, err: nilErr, vals: VC{nil, types.Typ[types.Invalid]}, perr: n.ev.perr}
			if n.ev.perr {
				ns.err = parseAtom
			}
			if n.ev.rerr {
				ns.err = readAtom
				ns.ended = 1
			}
			var items []Item
			for _, t := range n.ev.vals {
				items = append(items, one(m.token(t)))
			}
			ns.vals = ci.newSeq(items)
			ci.upd(id).V = ns.val()
			data := n.ev.data
			if data == nil {
				data = vstr("")
			}
			ci.note(n.ev.name)
			out = append(out, e.deliver(ci, VTuple{m.num(n.ev.gt, gtT), VTerm{"tokentype", nil}, bytesOf(data)})...)
		}
		if end {
			ci := c.fork()
			invalidate(ci)
			ns := &pstate{rest: s.rest, err: eofAtom, vals: VC{nil, types.Typ[types.Invalid]}, ended: s.ended + 1}
			if s.ended > 0 && eq(s.err, readAtom) == Yes {
				ns.err = readAtom
			}
			if ns.ended > m.after {
				m.bad["the parser is asked again and again after the end of the input, at "+e.P.instrPos(in)] = c.traceString()
				return out, true
			}
			ns.vals = ci.newSeq(nil)
			ci.upd(id).V = ns.val()
			ci.note("end of input")
			out = append(out, e.deliver(ci, VTuple{m.num("ErrorGrammar", gtT), m.num("ErrorToken", ttT), bytesOf(vstr(""))})...)
		}
		return out, true
	}
	e.problem(c, "method "+name+" of the CSS parser is not modelled, at "+e.P.instrPos(in))
	return nil, true
}

// token builds a css.Token.
func (m *cssModel) token(t gTok) Val {
	tn := m.tokenType()
	if tn == nil {
		return VTop{"token"}
	}
	st := tn.Underlying().(*types.Struct)
	s := VStruct{T: tn}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			s.F = append(s.F, bytesOf(t.v))
		} else {
			s.F = append(s.F, m.num(t.tt, st.Field(i).Type()))
		}
	}
	return s
}

func (m *cssModel) tokenType() *types.Named {
	for _, im := range m.w.P.Casc.Pkg.Imports() {
		if im.Path() == cssPath {
			if o := im.Scope().Lookup("Token"); o != nil {
				n, _ := o.Type().(*types.Named)
				return n
			}
		}
	}
	return nil
}

// ---- the selector parser, as far as stylesheets are concerned

// isSelParser: a function of the selector package that parses a text.
func (m *cssModel) isSelParser(fn *ssa.Function) bool {
	P := m.w.P
	if fn.Pkg != P.Casc || fn.Signature.Recv() != nil || len(fn.FreeVars) > 0 {
		return false
	}
	sig := fn.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 || !isBasicString(sig.Params().At(0).Type()) {
		return false
	}
	rt := sig.Results().At(0).Type()
	if !types.Identical(rt, P.Sel) {
		sl, ok := rt.Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), P.Sel) {
			return false
		}
	}
	return strings.HasPrefix(fn.Name(), "Parse")
}

// pseudoOK: the function accepts pseudo-elements, that is, it or a function it
// calls sets a flag of the parser.
func (m *cssModel) pseudoOK(fn *ssa.Function, d int) bool {
	if d > 3 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) {
					if _, ok := s.Addr.(*ssa.FieldAddr); ok {
						return true
					}
				}
			}
			if cc, ok := in.(ssa.CallInstruction); ok {
				f := cc.Common().StaticCallee()
				for _, a := range cc.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) {
						return true
					}
				}
				if f != nil && f.Pkg == m.w.P.Casc && f.Signature.Recv() == nil && m.pseudoOK(f, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// splitText cuts a text at the commas outside parentheses.
func splitText(ps []Val) [][]Val {
	var out [][]Val
	var cur []Val
	depth := 0
	for _, p := range ps {
		s, ok := constStr(p)
		if !ok {
			cur = append(cur, p)
			continue
		}
		from := 0
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '(':
				depth++
			case ')':
				depth--
			case ',':
				if depth == 0 {
					cur = append(cur, vstr(s[from:i]))
					out = append(out, cur)
					cur = nil
					from = i + 1
				}
			}
		}
		cur = append(cur, vstr(s[from:]))
	}
	return append(out, cur)
}

// parseSel gives the selectors of a text: pieces ".name" and ".name::before"
// are selectors, everything else is none.
func (m *cssModel) parseSel(c *Config, fn *ssa.Function, args []Val) []*Config {
	e := m.w.E
	rt := fn.Signature.Results().At(0).Type()
	if isTop(args[0]) {
		e.problem(c, "the text of a selector is unknown in a call of "+fn.Name()+" at "+c.where())
		return nil
	}
	group := !types.Identical(rt, m.w.P.Sel)
	pieces := [][]Val{parts(args[0])}
	pieces = splitText(parts(args[0]))
	fail := func() []*Config {
		c.note("selector " + clip(key(args[0])) + " is invalid")
		return e.deliver(c, VTuple{VC{nil, rt}, VTerm{"err:selector", []Val{args[0]}}})
	}
	if !group && len(pieces) != 1 {
		return fail()
	}
	pe := m.pseudoOK(fn, 0)
	var sels []Item
	for _, p := range pieces {
		s, ok := m.oneSel(c, p, pe)
		if !ok {
			return fail()
		}
		sels = append(sels, one(s))
	}
	if !group {
		return e.deliver(c, VTuple{sels[0].V, nilErr})
	}
	return e.deliver(c, VTuple{c.newSeq(sels), nilErr})
}

func (m *cssModel) oneSel(c *Config, ps []Val, pe bool) (Val, bool) {
	var l []Val
	for i, p := range ps {
		if s, ok := constStr(p); ok {
			if i == 0 {
				s = strings.TrimLeft(s, " ")
			}
			if i == len(ps)-1 {
				s = strings.TrimRight(s, " ")
			}
			if s == "" {
				continue
			}
			p = vstr(s)
		}
		l = append(l, p)
	}
	if len(l) < 2 {
		return nil, false
	}
	if s, ok := constStr(l[0]); !ok || s != "." {
		return nil, false
	}
	a, ok := l[1].(VAtom)
	if !ok || a.Kind != "tok" {
		return nil, false
	}
	if len(l) == 2 {
		return m.w.classSel(a), true
	}
	if s, ok := constStr(l[2]); ok && len(l) == 3 && s == "::before" && pe {
		return m.w.compound(c, vstr("before"), m.w.classSel(a)), true
	}
	if s, ok := constStr(l[2]); ok && s == ":is(." && len(l) >= 6 {
		// .a:is(.b,.c)
		var subs []Val
		for _, x := range l[3:] {
			if a, ok := x.(VAtom); ok {
				subs = append(subs, m.w.classSel(a))
			} else if s, _ := constStr(x); s != ",." && s != ")" {
				return nil, false
			}
		}
		is := m.w.selType("IsPseudoClassSelector")
		if is == nil {
			return nil, false
		}
		return m.w.compound(c, vstr(""), m.w.classSel(a), m.w.group(c, is, "is", subs...)), true
	}
	return nil, false
}

// split takes texts apart that consist of constants and of words without blanks.
func (m *cssModel) split(c *Config, name string, args []Val) (Val, bool) {
	if name != "strings.Fields" || isTop(args[0]) {
		return nil, false
	}
	for _, p := range parts(args[0]) {
		switch t := p.(type) {
		case VC:
		case VAtom:
			if t.Kind != "val" && t.Kind != "prop" && t.Kind != "tok" && t.Kind != "cond" {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	var items []Item
	var cur []Val
	flush := func() {
		if len(cur) > 0 {
			items = append(items, one(concat(cur...)))
		}
		cur = nil
	}
	for _, p := range parts(args[0]) {
		s, ok := constStr(p)
		if !ok {
			cur = append(cur, p)
			continue
		}
		w := strings.Fields(s)
		if s != "" && strings.TrimLeft(s, " \t\n\r\f") != s {
			flush()
		}
		for i, x := range w {
			if i > 0 {
				flush()
			}
			cur = append(cur, vstr(x))
		}
		if len(w) > 0 && strings.TrimRight(s, " \t\n\r\f") != s {
			flush()
		}
	}
	flush()
	return c.newSeq(items), true
}

// ---- building scripts

type cssScript struct{ n int }

func (k *cssScript) seq(l ...gnode) gnode {
	k.n++
	return &gSeq{"s" + strconv.Itoa(k.n), l}
}
func (k *cssScript) any(l ...gnode) gnode {
	k.n++
	return &gAny{"r" + strconv.Itoa(k.n), l}
}
func (k *cssScript) evt(e gEvt) gnode {
	k.n++
	txt := e.gt
	if e.perr {
		txt = "parse error"
	}
	if e.data != nil {
		txt += " " + key(e.data)
	}
	for _, v := range e.vals {
		txt += " " + key(v.v)
	}
	e.name = txt + "#" + strconv.Itoa(k.n)
	return e
}

// condValues are the kinds of tokens the value in a condition may be.
var condValues = []string{"DimensionToken", "NumberToken", "IdentToken", "StringToken"}

// at is an at-rule with a block.
func (k *cssScript) at(name, cond string, body ...gnode) gnode {
	var vals []gTok
	if cond != "" {
		a := VAtom{"cond", cond, Rigid}
		b := VAtom{"cond", cond + "'", Rigid}
		if strings.HasSuffix(cond, "*") {
			n := strings.TrimSuffix(cond, "*")
			a, b = VAtom{"cond", n, Apart}, VAtom{"cond", n + "'", Apart}
		}
		vals = []gTok{{"LeftParenthesisToken", vstr("(")}, {"IdentToken", a}, {"ColonToken", vstr(":")}, {condValues[k.n%len(condValues)], b}, {"RightParenthesisToken", vstr(")")}}
	}
	l := []gnode{k.evt(gEvt{gt: "BeginAtRuleGrammar", data: vstr(name), vals: vals})}
	l = append(l, body...)
	l = append(l, k.evt(gEvt{gt: "EndAtRuleGrammar", data: vstr("}")}))
	return k.seq(l...)
}

func (k *cssScript) stmt(name string) gnode {
	return k.evt(gEvt{gt: "AtRuleGrammar", data: vstr(name), vals: []gTok{{"StringToken", vstr("'x'")}}})
}

// selToks gives the tokens of a selector: "a" is .a, "a::" has a pseudo-element,
// "!a" is invalid, "a(b" and "c)" are the halves of .a:is(.b,.c).
func selToks(s string) []gTok {
	bad := strings.HasPrefix(s, "!")
	s = strings.TrimPrefix(s, "!")
	dot := gTok{"DelimToken", vstr(".")}
	id := func(n string) gTok { return gTok{"IdentToken", tokAtom(n)} }
	var l []gTok
	switch {
	case strings.Contains(s, "("):
		a, b, _ := strings.Cut(s, "(")
		l = []gTok{dot, id(a), {"ColonToken", vstr(":")}, {"FunctionToken", vstr("is(")}, dot, id(b)}
	case strings.HasSuffix(s, ")"):
		l = []gTok{dot, id(strings.TrimSuffix(s, ")")), {"RightParenthesisToken", vstr(")")}}
	case strings.HasSuffix(s, "::"):
		l = []gTok{dot, id(strings.TrimSuffix(s, "::")), {"ColonToken", vstr(":")}, {"ColonToken", vstr(":")}, {"IdentToken", vstr("before")}}
	default:
		l = []gTok{dot, id(s)}
	}
	if bad {
		l = append(l, gTok{"DelimToken", vstr("%")})
	}
	return l
}

func (k *cssScript) begin(sels ...string) []gnode {
	var l []gnode
	for i, s := range sels {
		gt := "QualifiedRuleGrammar"
		if i == len(sels)-1 {
			gt = "BeginRulesetGrammar"
		}
		l = append(l, k.evt(gEvt{gt: gt, vals: selToks(s)}))
	}
	return l
}

// block is a rule set; body events go between the braces.
func (k *cssScript) block(sels string, body ...gnode) gnode {
	l := k.begin(strings.Fields(sels)...)
	l = append(l, body...)
	l = append(l, k.evt(gEvt{gt: "EndRulesetGrammar", data: vstr("}")}))
	return k.seq(l...)
}

// decl is a declaration "p" or "p!" or a custom property "--p".
func (k *cssScript) decl(d string) gnode {
	imp := strings.HasSuffix(d, "!")
	d = strings.TrimSuffix(d, "!")
	mode := Rigid
	n := d
	if strings.HasSuffix(d, "*") {
		mode = Apart
		n = strings.TrimSuffix(d, "*")
	}
	val := VAtom{"val", "v" + n, mode}
	if strings.HasPrefix(d, "--") {
		return k.evt(gEvt{gt: "CustomPropertyGrammar", data: concat(vstr("--"), VAtom{"prop", strings.TrimPrefix(n, "--"), mode}), vals: []gTok{{"CustomPropertyValueToken", concat(vstr(" "), val, vstr(" "), VAtom{"val", "w" + n, mode})}}})
	}
	vals := []gTok{{"NumberToken", val}, {"WhitespaceToken", vstr(" ")}, {"IdentToken", VAtom{"val", "w" + n, mode}}}
	if imp {
		vals = append(vals, gTok{"DelimToken", vstr("!")}, gTok{"IdentToken", vstr("important")})
	}
	return k.evt(gEvt{gt: "DeclarationGrammar", data: VAtom{"prop", n, mode}, vals: vals})
}

func (k *cssScript) comment() gnode { return k.evt(gEvt{gt: "CommentGrammar", data: vstr("/**/")}) }
func (k *cssScript) token() gnode   { return k.evt(gEvt{gt: "TokenGrammar", data: vstr("x")}) }
func (k *cssScript) perr() gnode    { return k.evt(gEvt{gt: "ErrorGrammar", perr: true}) }

// declErr is a declaration in error: its tokens are the values of the event.
func (k *cssScript) declErr() gnode {
	return k.evt(gEvt{gt: "ErrorGrammar", perr: true, data: vstr("x"), vals: []gTok{{"IdentToken", vstr("x")}, {"SemicolonToken", vstr(";")}}})
}
