package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract domain. A value is a constant, a distinguished individual (an
// atom standing for one arbitrary but fixed thing), a summary atom (standing
// for all the others), a term over these, or a reference to an abstract object.

type Val interface {
	wr(k *keyer, b *strings.Builder)
}

// keyer renders values canonically. With ids != nil object numbers are
// renumbered in the order of their first visit.
type keyer struct {
	ids   map[int]int
	queue []int
	rigid bool // set to false when a value contains anything but rigid parts
}

func (k *keyer) obj(id int) string {
	if k.ids == nil {
		return strconv.Itoa(id)
	}
	n, ok := k.ids[id]
	if !ok {
		n = len(k.ids)
		k.ids[id] = n
		k.queue = append(k.queue, id)
	}
	return strconv.Itoa(n)
}

type (
	VC struct { // constant; C == nil is the nil of type T
		C constant.Value
		T types.Type
	}
	VAtom struct {
		Kind, Name string
		Mode       int
	}
	VTerm struct {
		Op   string
		Args []Val
	}
	VTop struct{ Why string }
	VPtr struct {
		Obj  int
		Path string
	}
	VSlice  struct{ Obj int }
	VMap    struct{ Obj int }
	VStruct struct {
		T types.Type
		F []Val
	}
	VIface struct {
		T types.Type
		V Val
	}
	VFunc struct {
		Fn    *ssa.Function
		Bind  []Val
		Built string
	}
	VTuple []Val
	VPos   struct {
		Obj, Slot int
		At        byte // what is known of the index: 'z' it is 0, 'p' it is positive
	}
	VLen  struct{ Obj int }
	VIter struct{ Obj int }
)

const (
	Rigid = iota // one fixed individual, different from all other rigid ones of its kind
	Apart        // any of the others: never equal to a rigid one
	Other        // anything: may or may not equal a rigid one
)

func isNil(v Val) bool { c, ok := v.(VC); return ok && c.C == nil }

func (v VC) wr(k *keyer, b *strings.Builder) {
	if v.C == nil {
		b.WriteString("nil")
		return
	}
	b.WriteString("c")
	b.WriteString(v.C.ExactString())
}
func (v VAtom) wr(k *keyer, b *strings.Builder) {
	if v.Mode != Rigid {
		k.rigid = false
	}
	b.WriteString(v.Kind)
	b.WriteByte(':')
	b.WriteString(v.Name)
	if v.Mode == Apart {
		b.WriteByte('~')
	} else if v.Mode == Other {
		b.WriteByte('?')
	}
}
func (v VTerm) wr(k *keyer, b *strings.Builder) {
	b.WriteString(v.Op)
	wrList(k, b, v.Args, '(', ')')
}
func (v VTop) wr(k *keyer, b *strings.Builder) { k.rigid = false; b.WriteString("⊤") }
func (v VPtr) wr(k *keyer, b *strings.Builder) {
	b.WriteString("&" + k.obj(v.Obj) + v.Path)
}
func (v VSlice) wr(k *keyer, b *strings.Builder) { b.WriteString("s" + k.obj(v.Obj)) }
func (v VMap) wr(k *keyer, b *strings.Builder)   { b.WriteString("m" + k.obj(v.Obj)) }
func (v VStruct) wr(k *keyer, b *strings.Builder) {
	if n, ok := v.T.(*types.Named); ok {
		b.WriteString(n.Obj().Name())
	}
	wrList(k, b, v.F, '{', '}')
}
func (v VIface) wr(k *keyer, b *strings.Builder) {
	b.WriteString("i<")
	b.WriteString(shortType(v.T))
	b.WriteString(">")
	v.V.wr(k, b)
}
func (v VFunc) wr(k *keyer, b *strings.Builder) {
	b.WriteString("f")
	if v.Fn != nil {
		b.WriteString(v.Fn.String())
		if v.Fn.Parent() != nil {
			b.WriteString("@" + strconv.Itoa(int(v.Fn.Pos())))
		}
	} else {
		b.WriteString(v.Built)
	}
	wrList(k, b, v.Bind, '[', ']')
}
func (v VTuple) wr(k *keyer, b *strings.Builder) { wrList(k, b, v, '(', ')') }
func (v VPos) wr(k *keyer, b *strings.Builder) {
	b.WriteString("p" + k.obj(v.Obj) + "#" + strconv.Itoa(v.Slot))
	if v.At != 0 {
		b.WriteByte(v.At)
	}
}
func (v VLen) wr(k *keyer, b *strings.Builder)  { b.WriteString("len" + k.obj(v.Obj)) }
func (v VIter) wr(k *keyer, b *strings.Builder) { b.WriteString("it" + k.obj(v.Obj)) }

func wrList(k *keyer, b *strings.Builder, l []Val, o, c byte) {
	b.WriteByte(o)
	for i, x := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		x.wr(k, b)
	}
	b.WriteByte(c)
}

func key(v Val) string {
	var b strings.Builder
	k := keyer{rigid: true}
	v.wr(&k, &b)
	return b.String()
}

func isRigid(v Val) bool {
	var b strings.Builder
	k := keyer{rigid: true}
	v.wr(&k, &b)
	return k.rigid
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// mentions reports whether the value contains the atom.
func mentions(v Val, name string) bool { return strings.Contains(key(v)+"|", name) }

func vbool(x bool) Val  { return VC{constant.MakeBool(x), types.Typ[types.Bool]} }
func vint(n int) Val    { return VC{constant.MakeInt64(int64(n)), types.Typ[types.Int]} }
func vstr(s string) Val { return VC{constant.MakeString(s), types.Typ[types.String]} }

func constStr(v Val) (string, bool) {
	c, ok := v.(VC)
	if !ok || c.C == nil || c.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.C), true
}
func constInt(v Val) (int, bool) {
	c, ok := v.(VC)
	if !ok || c.C == nil || c.C.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(c.C)
	return int(n), ok
}
func constBool(v Val) (bool, bool) {
	c, ok := v.(VC)
	if !ok || c.C == nil || c.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.C), true
}

const concatOp = "++"

// concat builds the normal form of a string concatenation.
func concat(parts ...Val) Val {
	var out []Val
	var add func(v Val)
	add = func(v Val) {
		if t, ok := v.(VTerm); ok && t.Op == concatOp {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if s, ok := constStr(v); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if p, ok := constStr(out[n-1]); ok {
					out[n-1] = vstr(p + s)
					return
				}
			}
		}
		out = append(out, v)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return vstr("")
	case 1:
		return out[0]
	}
	if len(out) > 24 {
		return VTop{"long concatenation"}
	}
	return VTerm{concatOp, out}
}

func parts(v Val) []Val {
	if t, ok := v.(VTerm); ok && t.Op == concatOp {
		return t.Args
	}
	if s, ok := constStr(v); ok && s == "" {
		return nil
	}
	return []Val{v}
}

func mkTerm(op string, args ...Val) Val {
	t := VTerm{op, args}
	if depth(t) > 12 {
		return VTop{"deep term " + op}
	}
	return t
}

func depth(v Val) int {
	switch t := v.(type) {
	case VTerm:
		d := 0
		for _, a := range t.Args {
			if x := depth(a); x > d {
				d = x
			}
		}
		return d + 1
	case VStruct:
		d := 0
		for _, a := range t.F {
			if x := depth(a); x > d {
				d = x
			}
		}
		return d + 1
	case VIface:
		return depth(t.V) + 1
	}
	return 1
}

type tri int

const (
	No tri = iota
	Maybe
	Yes
)

func triVal(t tri) Val {
	switch t {
	case Yes:
		return vbool(true)
	case No:
		return vbool(false)
	}
	return VTop{"comparison"}
}

// injective operators: equal results only for equal arguments
var injective = map[string]bool{"str": true, "quote": true, "conv": true, "escape": true, "(*regexp.Regexp).String": true, "strconv.Itoa": true, "strconv.Quote": true}

func nonEmptyKind(k string) bool {
	switch k {
	case "tok", "prop", "cond", "var", "tag", "pe", "sel":
		return true
	}
	return false
}

func maybeEmpty(v Val) tri {
	if s, ok := constStr(v); ok {
		if s == "" {
			return Yes
		}
		return No
	}
	if a, ok := v.(VAtom); ok && nonEmptyKind(a.Kind) {
		return No
	}
	if t, ok := v.(VTerm); ok {
		if t.Op == concatOp {
			for _, x := range t.Args {
				if maybeEmpty(x) == No {
					return No
				}
			}
		}
		if t.Op == "escape" || t.Op == "quote" {
			if t.Op == "quote" {
				return No
			}
			return maybeEmpty(t.Args[0])
		}
		if t.Op == "str" {
			return No
		}
	}
	return Maybe
}

// eq decides equality of two abstract values as far as the domain can.
func eq(a, b Val) tri {
	if isNil(a) && isNil(b) {
		return Yes
	}
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		switch t := a.(type) {
		case VPtr, VMap, VSlice, VFunc, VIface, VStruct:
			return No
		case VTerm:
			if strings.HasPrefix(t.Op, "err:") || strings.HasPrefix(t.Op, "nn:") {
				return No
			}
		case VAtom:
			switch t.Kind {
			case "error", "sel", "obj":
				return No
			}
		}
		return Maybe
	}
	switch x := a.(type) {
	case VC:
		if y, ok := b.(VC); ok {
			if x.C.Kind() != y.C.Kind() {
				return Maybe
			}
			if constant.Compare(x.C, token.EQL, y.C) {
				return Yes
			}
			return No
		}
	case VAtom:
		if y, ok := b.(VAtom); ok {
			if x.Kind != y.Kind {
				return Maybe
			}
			if x.Mode == Rigid && y.Mode == Rigid {
				if x.Name == y.Name {
					return Yes
				}
				// the reader may fail with any error but the end of the input
				if x == readAtom && y != eofAtom && y != parseAtom || y == readAtom && x != eofAtom && x != parseAtom {
					return Maybe
				}
				return No
			}
			if x.Mode == Apart && y.Mode == Rigid || x.Mode == Rigid && y.Mode == Apart {
				return No
			}
			if x.Mode == Apart && y.Mode == Apart && x.Name != y.Name {
				return No // summaries of disjoint sets
			}
			return Maybe
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if !types.Identical(x.T, y.T) {
				return No
			}
			return eq(x.V, y.V)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			r := Yes
			for i := range x.F {
				switch eq(x.F[i], y.F[i]) {
				case No:
					return No
				case Maybe:
					r = Maybe
				}
			}
			return r
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			if x == y {
				return Yes
			}
			return No
		}
	case VPos:
		if y, ok := b.(VPos); ok && x.Obj == y.Obj {
			if x.Slot != y.Slot {
				return No
			}
			return Maybe
		}
	}
	if key(a) == key(b) {
		if isRigid(a) {
			return Yes
		}
		return Maybe
	}
	if x, ok := a.(VTerm); ok && strings.HasPrefix(x.Op, "nn:ptr:") {
		// two arbitrary individuals
		if y, ok := b.(VTerm); ok && strings.HasPrefix(y.Op, "nn:ptr:") && x.Op != y.Op {
			return No
		}
	}
	ta, oka := a.(VTerm)
	tb, okb := b.(VTerm)
	if oka && okb {
		if x, y, ok := injectiveArgs(ta, tb); ok {
			return eq(x, y)
		}
	}
	if isStringy(a) && isStringy(b) {
		return eqConcat(parts(a), parts(b))
	}
	return Maybe
}

func isStringy(v Val) bool {
	switch t := v.(type) {
	case VC:
		return t.C != nil && t.C.Kind() == constant.String
	case VAtom:
		return nonEmptyKind(t.Kind) || t.Kind == "str" || t.Kind == "val"
	case VTerm:
		return true
	}
	return false
}

// injectiveArgs: two applications of the same injective function.
func injectiveArgs(a, b VTerm) (Val, Val, bool) {
	if a.Op != b.Op || len(a.Args) != len(b.Args) {
		return nil, nil, false
	}
	if (injective[a.Op] || strings.HasPrefix(a.Op, "padded integer ")) && len(a.Args) == 1 {
		return a.Args[0], b.Args[0], true
	}
	if a.Op == "strings.ReplaceAll" {
		x, p := replaceChain(a)
		y, q := replaceChain(b)
		if x != nil && y != nil && key(VTerm{"p", p}) == key(VTerm{"p", q}) && replacerIsCode(p) {
			return x, y, true
		}
		return nil, nil, false
	}
	if a.Op == "replacer" && len(a.Args) == 2 && key(a.Args[0]) == key(b.Args[0]) {
		if r, ok := a.Args[0].(VTerm); ok && (strings.HasPrefix(r.Op, "nn:global:") || replacerIsCode(r.Args)) {
			return a.Args[1], b.Args[1], true
		}
	}
	return nil, nil, false
}

// replaceChain takes apart replacements that are applied one after the other, the
// first of which escapes the escape character, so that no later one can produce
// what another one has produced.
func replaceChain(v Val) (in Val, pairs []Val) {
	for {
		t, ok := v.(VTerm)
		if !ok || t.Op != "strings.ReplaceAll" || len(t.Args) != 3 {
			break
		}
		from, ok1 := constStr(t.Args[1])
		to, ok2 := constStr(t.Args[2])
		if !ok1 || !ok2 || len(from) != 1 || !strings.HasPrefix(to, `\`) {
			return nil, nil
		}
		pairs = append([]Val{t.Args[1], t.Args[2]}, pairs...)
		v = t.Args[0]
	}
	if len(pairs) == 0 {
		return nil, nil
	}
	if f, _ := constStr(pairs[0]); f != `\` {
		return nil, nil
	}
	if t, _ := constStr(pairs[1]); t != `\\` {
		return nil, nil
	}
	return v, pairs
}

// replacerIsCode: the replacer maps single characters to code words of which
// none is a prefix of another, so that different texts stay different.
func replacerIsCode(pairs []Val) bool {
	words := map[string]string{}
	for i := 0; i+1 < len(pairs); i += 2 {
		old, ok1 := constStr(pairs[i])
		new, ok2 := constStr(pairs[i+1])
		if !ok1 || !ok2 || len(old) != 1 || new == "" {
			return false
		}
		if _, dup := words[old]; !dup {
			words[old] = new
		}
	}
	for o, w := range words {
		if _, mapped := words[w[:1]]; !mapped {
			return false // starts like a character that stands for itself
		}
		for o2, w2 := range words {
			if o != o2 && strings.HasPrefix(w2, w) {
				return false
			}
		}
	}
	return len(words) > 0
}

// bag flattens a text into its parts without their order.
func bag(ps []Val) []Val {
	var out []Val
	for _, p := range ps {
		t, ok := p.(VTerm)
		if ok && t.Op == "join" && len(t.Args) == 2 {
			if l, ok2 := t.Args[1].(VTerm); ok2 && (l.Op == "list" || l.Op == "sortedlist") {
				exact := true
				for _, a := range l.Args {
					if at, ok := a.(VTerm); ok && strings.HasPrefix(at.Op, "occ") {
						exact = false
					}
				}
				if exact {
					for i, a := range l.Args {
						if i > 0 {
							out = append(out, t.Args[0])
						}
						out = append(out, bag(parts(a))...)
					}
					continue
				}
			}
		}
		if s, ok := constStr(p); ok {
			for _, r := range strings.Split(s, "") {
				out = append(out, vstr(r))
			}
			continue
		}
		out = append(out, p)
	}
	return out
}

// moreText: one of the texts consists of the parts of the other and at least
// one more that is not empty, so they differ.
func moreText(a, b []Val) bool {
	ba, bb := bag(a), bag(b)
	if len(ba) > len(bb) {
		ba, bb = bb, ba
	}
	n := map[string]int{}
	for _, x := range bb {
		n[key(x)]++
	}
	for _, x := range ba {
		if !isRigid(x) || n[key(x)] == 0 {
			return false
		}
		n[key(x)]--
	}
	for _, x := range bb {
		if n[key(x)] > 0 && maybeEmpty(x) == No {
			return true
		}
	}
	return false
}

func eqConcat(a, b []Val) tri {
	if moreText(a, b) {
		return No
	}
	same := func(x, y Val) bool { return key(x) == key(y) && isRigid(x) }
	for len(a) > 0 && len(b) > 0 && same(a[0], b[0]) {
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && len(b) > 0 && same(a[len(a)-1], b[len(b)-1]) {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	if len(a) > 0 && len(b) > 0 {
		// common constant text at the beginning
		x, ok1 := constStr(a[0])
		y, ok2 := constStr(b[0])
		if ok1 && ok2 && x != "" && y != "" && (strings.HasPrefix(x, y) || strings.HasPrefix(y, x)) {
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			return eqConcat(dropHead(a, n), dropHead(b, n))
		}
		x, ok1 = constStr(a[len(a)-1])
		y, ok2 = constStr(b[len(b)-1])
		if ok1 && ok2 && x != "" && y != "" && (strings.HasSuffix(x, y) || strings.HasSuffix(y, x)) {
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			return eqConcat(dropTail(a, n), dropTail(b, n))
		}
	}
	if len(a) == 0 && len(b) == 0 {
		return Yes
	}
	if len(a) == 0 || len(b) == 0 {
		rest := a
		if len(a) == 0 {
			rest = b
		}
		all := Yes
		for _, x := range rest {
			switch maybeEmpty(x) {
			case No:
				return No
			case Maybe:
				all = Maybe
			}
		}
		return all
	}
	// Property names are never mistaken for one another inside a key: two keys
	// that start with known different property names are different.
	if x, ok := a[0].(VAtom); ok {
		if y, ok := b[0].(VAtom); ok && x.Kind == "prop" && y.Kind == "prop" && eq(x, y) == No {
			return No
		}
	}
	// ... and an ordinary property is not a custom one
	for _, xy := range [][2]Val{{a[0], b[0]}, {b[0], a[0]}} {
		if x, ok := xy[0].(VAtom); ok && x.Kind == "prop" {
			if s, ok := constStr(xy[1]); ok && strings.HasPrefix(s, "--") {
				return No
			}
		}
	}
	// a decimal number begins with a digit or a minus sign and ends in a digit
	for _, xy := range [][2][]Val{{a, b}, {b, a}} {
		p, q := xy[0], xy[1]
		if t, ok := p[0].(VTerm); ok && t.Op == "strconv.Itoa" {
			if s, ok := constStr(q[0]); ok && s != "" && !strings.ContainsAny(s[:1], "-0123456789") {
				return No
			}
		}
		if t, ok := p[len(p)-1].(VTerm); ok && t.Op == "strconv.Itoa" {
			if s, ok := constStr(q[len(q)-1]); ok && s != "" && !strings.ContainsAny(s[len(s)-1:], "0123456789") {
				return No
			}
		}
	}
	// different constant heads or tails
	if x, ok := constStr(a[0]); ok {
		if y, ok := constStr(b[0]); ok && !strings.HasPrefix(x, y) && !strings.HasPrefix(y, x) {
			return No
		}
	}
	if x, ok := constStr(a[len(a)-1]); ok {
		if y, ok := constStr(b[len(b)-1]); ok && !strings.HasSuffix(x, y) && !strings.HasSuffix(y, x) {
			return No
		}
	}
	if len(a) == 1 && len(b) == 1 {
		if x, ok := a[0].(VTerm); ok {
			if y, ok := b[0].(VTerm); ok {
				if p, q, ok := injectiveArgs(x, y); ok {
					return eq(p, q)
				}
				return Maybe
			}
			return Maybe
		}
		if _, ok := b[0].(VTerm); ok {
			return Maybe
		}
		_, ca := a[0].(VC)
		_, cb := b[0].(VC)
		_, aa := a[0].(VAtom)
		_, ab := b[0].(VAtom)
		if ca && cb || aa && ab {
			return eq(a[0], b[0])
		}
	}
	return Maybe
}

func dropHead(a []Val, n int) []Val {
	s, _ := constStr(a[0])
	if len(s) == n {
		return a[1:]
	}
	return append([]Val{vstr(s[n:])}, a[1:]...)
}

func dropTail(a []Val, n int) []Val {
	s, _ := constStr(a[len(a)-1])
	if len(s) == n {
		return a[:len(a)-1]
	}
	return append(append([]Val{}, a[:len(a)-1]...), vstr(s[:len(s)-n]))
}

// ---- abstract objects

type Item struct {
	V        Val
	Min, Max int // occurrences: Min 0 or 1, Max 1 or many
}

const many = 1 << 20

func one(v Val) Item { return Item{v, 1, 1} }
func gap(v Val) Item { return Item{v, 0, many} }

type Ent struct {
	K, V Val
	Must bool // certainly present (if not Many)
	Many bool // any number of such entries
}

type Obj struct {
	Kind    byte // 'c' cell, 's' slice, 'm' map, 'i' map iterator, 'b' string builder
	V       Val
	Items   []Item
	Unord   bool
	Uniq    bool
	Ents    []Ent
	Src     int
	Visited []string
	Shared  string // name of the shared state it belongs to, "" if private to the call
	T       types.Type
	Base    int  // the list of whose memory this one is a part, cut short; 0 for none
	Clob    bool // another list in the same memory has been appended to
}

func (o *Obj) copy() *Obj { n := *o; return &n }

func (o *Obj) wr(k *keyer, b *strings.Builder) {
	b.WriteByte(o.Kind)
	if o.Shared != "" {
		b.WriteString("!" + o.Shared)
	}
	switch o.Kind {
	case 'c':
		o.V.wr(k, b)
	case 's', 'b':
		if o.Clob {
			b.WriteByte('~')
		}
		if o.Unord {
			b.WriteByte('u')
		}
		if o.Uniq {
			b.WriteByte('q')
		}
		b.WriteByte('[')
		for _, it := range o.Items {
			it.V.wr(k, b)
			if it.Min == 0 {
				b.WriteByte('0')
			}
			if it.Max > 1 {
				b.WriteByte('*')
			}
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case 'm':
		es := make([]string, 0, len(o.Ents))
		// entries sorted by their raw key, so that the order of insertion does not matter
		idx := make([]int, len(o.Ents))
		raw := make([]string, len(o.Ents))
		for i, e := range o.Ents {
			idx[i] = i
			raw[i] = key(e.K) + "=" + fmt.Sprint(e.Must, e.Many)
		}
		sort.Slice(idx, func(i, j int) bool { return raw[idx[i]] < raw[idx[j]] })
		_ = es
		b.WriteByte('{')
		for _, i := range idx {
			e := o.Ents[i]
			e.K.wr(k, b)
			b.WriteByte('=')
			e.V.wr(k, b)
			if e.Must {
				b.WriteByte('!')
			}
			if e.Many {
				b.WriteByte('*')
			}
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case 'i':
		b.WriteString(k.obj(o.Src))
		b.WriteString(strings.Join(o.Visited, ";"))
	}
}

// anyPart is any selector a parser has made.
var anyPart Val = VAtom{"obj", "part", Other}

// push appends an item to a sequence, folding repetitions of the same value.
func (o *Obj) push(it Item) {
	n := len(o.Items)
	o.Uniq = false
	if o.Unord {
		o.Items = bagItems(append(append([]Item(nil), o.Items...), it))
		return
	}
	if n > 0 && key(o.Items[n-1].V) == key(it.V) && (o.Items[n-1].Max > 1 || it.Max > 1 || it.V == anyPart) {
		l := o.Items[n-1]
		l.Max = many
		if it.Min > l.Min {
			l.Min = it.Min
		}
		out := append([]Item(nil), o.Items...)
		out[n-1] = l
		o.Items = out
		return
	}
	out := append(append([]Item(nil), o.Items...), it)
	cnt := 0
	for _, x := range out {
		if key(x.V) == key(it.V) {
			cnt++
		}
	}
	o.Items = out
	if cnt > 4 || len(out) > 20 {
		o.Items = bagItems(out)
		o.Unord = true
	}
}

// bagItems forgets the order: one item per value.
func bagItems(items []Item) []Item {
	type e struct {
		k  string
		it Item
	}
	var es []e
	idx := map[string]int{}
	for _, it := range items {
		k := key(it.V)
		if i, ok := idx[k]; ok {
			x := es[i].it
			if it.Min > x.Min {
				x.Min = it.Min
			}
			x.Max = many
			es[i].it = x
			continue
		}
		idx[k] = len(es)
		es = append(es, e{k, it})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	out := make([]Item, len(es))
	for i, x := range es {
		out[i] = x.it
	}
	return out
}

func exactLen(o *Obj) (int, bool) {
	for _, it := range o.Items {
		if it.Min != 1 || it.Max != 1 {
			return 0, false
		}
	}
	return len(o.Items), true
}
