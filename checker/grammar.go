package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"unicode"
)

// grammar is what a template means, as an automaton that's stepped for each
// character of the tape. It keeps the references that the parser hasn't
// returned yet, and how far what it has returned covers the template.
type grammar struct {
	pos   int  // characters seen
	count int  // bindvars seen
	rel   bool // count is relative
	m     int  // what's before is covered by expressions that the parser returned
	state gstate
	quote byte
	style byte
	refs  []gref // the last may be open

	mayErr bool   // the template may be rejected
	cats   string // why it's to be rejected
}

type gstate byte

const (
	gPlain gstate = iota
	gQuote
	gDollar
	gQuest
	gIndex
	gHash
	gName
	gNumber
	gArgs  // after (
	gArg   // after a comma
	gBare  // in a literal
	gStr   // in a string
	gStrEq // after a quote in a string
	gNext  // after a string
	gErr
	gFree // not specified
	gEnd
)

// gref is a reference in the template.
type gref struct {
	kind  byte // $ ? f (name) n (name and number) c (call)
	p, q  int  // extent; q<0: open
	a, b  int  // name
	c, d  int  // digits
	index int
	args  []garg
	cut   bool // first args have been dropped
}

type garg struct {
	str  bool
	p, q int // extent, without quotes; q<0: open
	esc  bool
}

func newGrammar() *grammar { return &grammar{} }

func (g *grammar) clone() *grammar {
	c := *g
	c.refs = append([]gref(nil), g.refs...)
	for i := range c.refs {
		c.refs[i].args = append([]garg(nil), c.refs[i].args...)
	}
	return &c
}

// class tells characters apart that the grammar does.
func (g *grammar) class(r rune) string {
	text := ""
	if strings.ContainsRune("$?#'\"`", r) {
		text = string(r)
	}
	digit := r >= '0' && r <= '9'
	letter := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_'
	switch g.state {
	case gErr, gFree, gEnd:
		return ""
	case gQuote:
		if r == rune(g.quote) {
			return "quote"
		}
		return ""
	case gDollar, gQuest:
		switch {
		case digit && r != '0':
			return "index"
		case g.state == gQuest || r == '$':
			return text
		}
		return ""
	case gHash:
		if letter {
			return "letter"
		}
		return ""
	case gName, gNumber, gIndex:
		switch {
		case digit:
			return "digit"
		case g.state == gName && letter:
			return "letter"
		case g.state == gName && r == '(':
			return "("
		}
		return text
	case gArgs, gArg, gStrEq, gNext:
		switch {
		case r == ')' || r == ',' || r == '\'':
			return string(r)
		case unicode.IsSpace(r) && r < 128:
			return "space"
		case unicode.IsSpace(r):
			return "other space"
		}
		return ""
	case gBare:
		if r == ')' || r == ',' {
			return string(r)
		}
		return ""
	case gStr:
		if r == '\'' {
			return "quote"
		}
		return ""
	}
	return text
}

// partition divides characters by class.
func (m *machine) partition(g *grammar) []atoms {
	k := [2]byte{byte(g.state), g.quote}
	if out, ok := m.classes[k]; ok {
		return out
	}
	group := map[string]*atoms{}
	var order []string
	for i := 0; i < m.alpha.size(); i++ {
		c := g.class(m.alpha.rune(i))
		if group[c] == nil {
			group[c] = &atoms{}
			order = append(order, c)
		}
		group[c].add(i)
	}
	var out []atoms
	for _, c := range order {
		out = append(out, *group[c])
	}
	m.classes[k] = out
	return out
}

// fail: the template is to be rejected.
func (g *grammar) fail(cats string) {
	g.state, g.cats, g.refs = gErr, cats, nil
}

func (g *grammar) last() *gref { return &g.refs[len(g.refs)-1] }

// step reads the next character.
func (g *grammar) step(m *machine, s *tstate) {
	n, p := s.tape[g.pos], g.pos
	g.pos++
	end := n.kind == 2
	r := rune(-1)
	if !end {
		r = m.sample(n.set)
	}
	digit := r >= '0' && r <= '9'
	letter := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_'
	switch g.state {
	case gErr, gFree, gEnd:
		return
	case gQuote:
		switch {
		case end:
			g.mayErr = true
			g.state = gEnd
		case byte(r) == g.quote && r < 128:
			g.state, g.quote = gPlain, 0
		}
		return
	case gDollar:
		switch {
		case r == '$':
			g.refs = g.refs[:len(g.refs)-1]
			g.state = gPlain
		case digit && r != '0':
			if !g.bind('$') {
				return
			}
			g.last().c = p
			g.state = gIndex
		default:
			g.fail("C12")
		}
		return
	case gQuest:
		switch {
		case r == '?':
			g.refs = g.refs[:len(g.refs)-1]
			g.state = gPlain
			return
		case digit && r != '0':
			g.state, g.refs = gFree, nil
			return
		}
		if !g.bind('?') {
			return
		}
		g.last().index = g.count
		g.last().q = p
	case gIndex:
		if digit {
			return
		}
		g.last().d, g.last().q = p, p
	case gHash:
		if !letter {
			g.fail("C12,C26")
			return
		}
		g.last().a = p
		g.state = gName
		return
	case gName:
		l := g.last()
		switch {
		case letter:
			return
		case digit:
			l.b, l.c, l.kind = p, p, 'n'
			g.state = gNumber
			return
		case r == '(':
			l.b, l.kind = p, 'c'
			g.state = gArgs
			return
		}
		l.b, l.q = p, p
	case gNumber:
		if digit {
			return
		}
		g.last().d, g.last().q = p, p
	case gArgs, gArg:
		l := g.last()
		switch {
		case end:
			g.fail("C26")
		case r == ')':
			if g.state == gArg {
				g.mayErr = true
			}
			l.q = p + 1
			g.state = gPlain
		case r == ',':
			g.fail("C26")
		case r == '\'':
			l.args = append(l.args, garg{str: true, p: p + 1, q: -1})
			s.tape[p].hold = true
			g.state = gStr
		case unicode.IsSpace(r):
			if r >= 128 {
				g.mayErr = true
			}
		default:
			l.args = append(l.args, garg{p: p, q: -1})
			g.state = gBare
		}
		return
	case gBare:
		l := g.last()
		a := &l.args[len(l.args)-1]
		switch {
		case end:
			g.fail("C26")
		case r == ',':
			a.q = p
			g.state = gArg
		case r == ')':
			a.q = p
			l.q = p + 1
			g.state = gPlain
		}
		return
	case gStr:
		switch {
		case end:
			g.fail("C26")
		case r == '\'':
			s.tape[p].hold = true
			g.state = gStrEq
		}
		return
	case gStrEq, gNext:
		l := g.last()
		if g.state == gStrEq {
			a := &l.args[len(l.args)-1]
			if r == '\'' {
				a.esc = true
				g.state = gStr
				return
			}
			a.q = p - 1
		}
		switch {
		case r == ',':
			g.state = gArg
		case r == ')':
			l.q = p + 1
			g.state = gPlain
		case !end && unicode.IsSpace(r):
			if r >= 128 {
				g.mayErr = true
			}
			g.state = gNext
		default:
			g.fail("C26")
		}
		return
	}
	// plain text
	g.state = gPlain
	switch {
	case end:
		g.state = gEnd
	case r == '$':
		g.refs = append(g.refs, gref{kind: '$', p: p, q: -1})
		g.state = gDollar
	case r == '?':
		g.refs = append(g.refs, gref{kind: '?', p: p, q: -1})
		g.state = gQuest
	case r == '#':
		g.refs = append(g.refs, gref{kind: 'f', p: p, q: -1})
		g.state = gHash
	case r == '\'' || r == '"' || r == '`':
		g.quote = byte(r)
		g.state = gQuote
	}
}

// bind counts a bindvar of a style.
func (g *grammar) bind(style byte) bool {
	if g.style != 0 && g.style != style {
		g.fail("C04")
		return false
	}
	g.style = style
	g.count++
	return true
}

// relate makes the number of bindvars symbolic.
func (g *grammar) relate(d int64) {
	g.count -= int(d)
	g.rel = true
	for i := range g.refs {
		if g.refs[i].kind == '?' && g.refs[i].q >= 0 {
			g.refs[i].index -= int(d)
		}
	}
}

// marks visits the positions the grammar refers to.
func (g *grammar) marks(f func(p int) int) {
	at := func(p *int) {
		if *p >= 0 {
			*p = f(*p)
		}
	}
	at(&g.pos)
	at(&g.m)
	for i := range g.refs {
		r := &g.refs[i]
		at(&r.p)
		at(&r.q)
		switch r.kind {
		case '$':
			if g.state != gDollar || i < len(g.refs)-1 {
				at(&r.c)
			}
			if r.q >= 0 {
				at(&r.d)
			}
		case 'f', 'n', 'c':
			open := i == len(g.refs)-1 && r.q < 0
			if !(open && g.state == gHash) {
				at(&r.a)
			}
			if r.q >= 0 || r.kind != 'f' {
				at(&r.b)
			}
			if r.kind == 'n' {
				at(&r.c)
				if r.q >= 0 {
					at(&r.d)
				}
			}
		}
		for j := range r.args {
			at(&r.args[j].p)
			at(&r.args[j].q)
		}
	}
}

func (g *grammar) key(b *strings.Builder) {
	fmt.Fprintf(b, "#%d,%v,%d,%d,%d,%d,%v,%s,%v", g.count, g.rel, g.m, g.state, g.quote, g.style, g.mayErr, g.cats, g.refs)
}

// field is a field of an expression.
func (m *machine) field(s *tstate, e *val, name string) *val {
	t := e.t
	x := e.xs[0]
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		x = m.load(s, x)
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name && x.k == vStruct {
			return x.xs[i]
		}
	}
	panic(stuck{"the field " + name + " of an expression"})
}

// verdict of the comparison of an expression with the template.
type verdict int

const (
	fits verdict = iota
	later
	wrong
)

// exprType is the name of the type of an expression.
func exprType(e *val) string {
	if e.k != vIface {
		return ""
	}
	t := e.t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// match compares an expression that the parser has returned with what's next
// in the template, and takes note if it fits.
func (m *machine) match(s *tstate, e *val) (verdict, []string, string) {
	g := s.spec
	var next *gref
	undecided := false
	if len(g.refs) > 0 {
		next = &g.refs[0]
		undecided = len(g.refs) == 1 && (g.state == gDollar || g.state == gQuest)
	}
	funcs := next != nil && next.kind != '$' && next.kind != '?'
	take := func() {
		g.m = next.q
		g.refs = append([]gref(nil), g.refs[1:]...)
	}
	name := exprType(e)
	switch name {
	case "PlainExpr":
		m.elems["plain text"]++
		t := m.field(s, e, "Text")
		if t.k == vStr && t.s == "" {
			return fits, nil, ""
		}
		cats := []string{"C12"}
		if funcs {
			cats = append(cats, "C26")
		}
		if t.k != vSub {
			return wrong, cats, "a plain text isn't a part of the template"
		}
		if t.q >= 0 && t.p == t.q {
			return fits, nil, ""
		}
		if t.p != g.m {
			return wrong, cats, "a plain text doesn't begin where the preceding expression ends: text is lost or repeated"
		}
		q := t.q
		if q < 0 {
			if n := len(s.tape); n == 0 || s.tape[n-1].kind != 2 {
				return later, nil, ""
			}
			q = len(s.tape) - 1
		}
		if n := len(s.tape); n > 0 && s.tape[n-1].kind == 2 && q == n {
			q--
		}
		if next != nil && q > next.p {
			if undecided {
				return later, nil, ""
			}
			return wrong, cats, "a reference is taken as plain text"
		}
		g.m = q
		return fits, nil, ""
	case "BindVarExpr":
		m.elems["bindvar"]++
		if next == nil || funcs {
			return wrong, []string{"C04", "C12"}, "a bindvar where the template has none"
		}
		if next.q < 0 {
			return later, nil, ""
		}
		if next.p != g.m {
			return wrong, []string{"C12"}, "the text before a bindvar is lost"
		}
		t, i := m.field(s, e, "Type"), m.field(s, e, "Index")
		style := "Dollar"
		if next.kind == '?' {
			style = "Question"
		}
		want, ok := m.pkg.Pkg.Scope().Lookup(style).(*types.Const)
		if !ok {
			panic(stuck{"the constant " + style + " is gone"})
		}
		if n, ok := constant.Int64Val(want.Val()); !ok || t.k != vInt || t.n != n {
			return wrong, []string{"C04"}, "the style of a bindvar isn't that of the template"
		}
		if next.kind == '$' {
			if i.k != vNum || i.p != next.c || i.q != next.d || i.s == "float" {
				return wrong, []string{"C04"}, "the index of $N isn't N"
			}
		} else if i.k != vInt || i.n != int64(next.index) || i.rel != g.rel {
			return wrong, []string{"C04"}, "the index of ? isn't its number"
		}
		take()
		return fits, nil, ""
	case "FuncExpr", "FuncCallExpr":
		m.elems["function"]++
		if next == nil || !funcs {
			return wrong, []string{"C12", "C26"}, "a function where the template has none"
		}
		if next.q < 0 {
			return later, nil, ""
		}
		if next.p != g.m {
			return wrong, []string{"C12", "C26"}, "the text before a function is lost"
		}
		if (name == "FuncExpr") != (next.kind == 'f') {
			return wrong, []string{"C26"}, "a function is taken as a call, or a call as a function"
		}
		if n := m.field(s, e, "Name"); n.k != vSub || n.p != next.a || n.q != next.b {
			return wrong, []string{"C26"}, "the name of a function isn't that of the template"
		}
		if name == "FuncExpr" {
			take()
			return fits, nil, ""
		}
		args := m.field(s, e, "Args")
		if args.k != vList && args.k != vNil {
			panic(stuck{"the arguments of a call are unknown"})
		}
		if next.kind == 'n' {
			if len(args.xs) != 1 || args.n != 0 || !isNum(args.xs[0], next.c, next.d) {
				return wrong, []string{"C26"}, "the argument of #nameN isn't N"
			}
			take()
			return fits, nil, ""
		}
		if len(args.xs) != len(next.args) || (args.n != 0) != next.cut {
			return wrong, []string{"C26"}, "an argument of a call is lost or made up"
		}
		for i, a := range args.xs {
			if !m.isArg(s, a, next.args[i]) {
				return wrong, []string{"C26"}, "an argument of a call isn't the literal of the template"
			}
		}
		take()
		return fits, nil, ""
	}
	return wrong, []string{"*"}, "an unknown expression"
}

func isNum(v *val, p, q int) bool {
	if v.k == vIface {
		v = v.xs[0]
	}
	return v.k == vNum && v.p == p && v.q == q
}

// isArg decides whether a value is that of a literal.
func (m *machine) isArg(s *tstate, v *val, a garg) bool {
	m.elems["argument"]++
	if a.q < 0 {
		return false
	}
	x := v
	if v.k == vIface {
		x = v.xs[0]
	}
	if a.str {
		if v.k != vIface || !isStringType(v.t) {
			return false
		}
		if x.k == vStr {
			return x.s == "" && a.p == a.q
		}
		return (x.k == vUnq || x.k == vSub && (!a.esc || s.has(x.p, x.q, "has''", false))) && x.p == a.p && x.q == a.q
	}
	text := &val{k: vSub, p: a.p, q: a.q}
	switch x.k {
	case vNil:
		return m.isText(s, text, "nil") || m.isText(s, text, "null")
	case vBool:
		if x.n != 0 {
			return m.isText(s, text, "true")
		}
		return m.isText(s, text, "false")
	}
	return isNum(v, a.p, a.q)
}

// has reports whether a fact is known to be v.
func (s *tstate) has(p, q int, what string, v bool) bool {
	f, ok := s.facts[fact{p, q, what}]
	return ok && f == v
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isExprList reports whether it's the type of elements of a list of expressions.
func (m *machine) isExprElem(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == m.pkg.Pkg && n.Obj().Name() == "Expr"
}

func isAnyElem(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// lists finds the lists of a kind.
func (s *tstate) lists(is func(t types.Type) bool) map[string]*val {
	out := map[string]*val{}
	var visit func(v *val)
	visit = func(v *val) {
		if v.k == vList && v.t != nil && is(v.t) && len(v.xs) > 0 {
			out[key(v)] = v
			return
		}
		for _, x := range v.xs {
			visit(x)
		}
	}
	for _, o := range s.heap {
		visit(o.v)
		for _, e := range o.m {
			visit(e.k)
			visit(e.v)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			visit(v)
		}
	}
	return out
}

// replace puts another list in place of lists.
func (s *tstate) replace(k string, t types.Type, to *val) {
	var walk func(v *val) *val
	walk = func(v *val) *val {
		if v.k == vList && len(v.xs) > 0 && v.t == t && key(v) == k {
			return to
		}
		var c *val
		for i, x := range v.xs {
			if y := walk(x); y != x {
				if c == nil {
					n := *v
					n.xs = append([]*val(nil), v.xs...)
					c = &n
				}
				c.xs[i] = y
			}
		}
		if c != nil {
			return c
		}
		return v
	}
	for id, o := range s.heap {
		if v := walk(o.v); v != o.v {
			c := *o
			c.v = v
			s.heap[id] = &c
		}
	}
	for _, f := range s.frames {
		for k, x := range f.env {
			f.env[k] = walk(x)
		}
	}
}

// sweep drops objects that are out of reach.
func (m *machine) sweep(s *tstate) {
	used := map[int]bool{}
	var visit func(v *val)
	visit = func(v *val) {
		if id := int(v.n); (v.k == vAddr || v.k == vMap) && !used[id] {
			used[id] = true
			visit(s.heap[id].v)
			for _, e := range s.heap[id].m {
				visit(e.k)
				visit(e.v)
			}
		}
		for _, x := range v.xs {
			visit(x)
		}
	}
	for _, id := range s.glob {
		visit(&val{k: vAddr, n: int64(id)})
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			visit(v)
		}
	}
	for id := range s.heap {
		if !used[id] {
			delete(s.heap, id)
		}
	}
}

// cancel drops what the parser has got right. It reports whether the path is
// to be followed.
func (m *machine) cancel(s *tstate) bool {
	m.sweep(s)
	g := s.spec
	if n := len(g.refs); n > 4 {
		// whatever it returns in the end, it's more than it can remember
		cats := []string{"C12", "C26"}
		if g.refs[0].kind == '$' || g.refs[0].kind == '?' {
			cats = []string{"C12", "C04"}
		}
		m.report(s, cats, "it goes on past references without taking them as such")
		return false
	} else if n > 0 && len(g.refs[n-1].args) > 4 {
		m.report(s, []string{"C26"}, "it goes on past arguments of a call without taking them as such")
		return false
	}
	lists := s.lists(m.isExprElem)
	if g.state == gErr || g.state == gFree {
		for k, l := range lists {
			s.replace(k, l.t, &val{k: vList, t: l.t, n: 1})
		}
		for k, l := range s.lists(isAnyElem) {
			s.replace(k, l.t, &val{k: vList, t: l.t, n: 1})
		}
		return true
	}
	if len(lists) == 1 {
		for k, l := range lists {
			for len(l.xs) > 0 {
				v, cats, msg := m.match(s, l.xs[0])
				if v == wrong {
					m.report(s, cats, msg)
					return false
				}
				if v == later {
					break
				}
				to := &val{k: vList, t: l.t, n: 1, xs: l.xs[1:]}
				s.replace(k, l.t, to)
				l, k = to, key(to)
			}
		}
		m.sweep(s)
	}
	// arguments of the call that's read
	if n := len(g.refs); n == 1 && g.refs[0].kind == 'c' {
		lists := s.lists(isAnyElem)
		if len(lists) == 1 {
			for k, l := range lists {
				for len(l.xs) > 0 && len(g.refs[0].args) > 0 && (l.n != 0) == g.refs[0].cut && m.isArg(s, l.xs[0], g.refs[0].args[0]) {
					to := &val{k: vList, t: l.t, n: 1, xs: l.xs[1:]}
					s.replace(k, l.t, to)
					l, k = to, key(to)
					g.refs[0].args = append([]garg(nil), g.refs[0].args[1:]...)
					g.refs[0].cut = true
				}
			}
		}
	}
	return true
}

// finish compares the result of the parser with the template.
func (m *machine) finish(s *tstate, r *val) {
	// the comparison may be repeated
	g, orig := s.spec.clone(), s.spec
	s.spec = g
	defer func() { s.spec = orig }()
	if r.k != vTuple || len(r.xs) != 2 {
		panic(stuck{"the result of the parser is unknown"})
	}
	err := r.xs[1]
	m.elems["results"]++
	if err.k != vNil {
		if err.k != vErr && err.k != vIface && err.k != vAddr {
			panic(stuck{"the error of the parser is unknown"})
		}
		if g.state == gErr || g.state == gFree || g.mayErr {
			return
		}
		// a literal that's none
		for _, ref := range g.refs {
			text := &val{k: vSub, p: ref.c, q: ref.d}
			switch {
			case ref.kind == '$' && ref.q >= 0 && !m.number(s, text, "int"):
				return
			case ref.kind == 'n' && ref.q >= 0 && !m.number(s, text, "float"):
				return
			}
			for _, a := range ref.args {
				if a.str || a.q < 0 {
					continue
				}
				text := &val{k: vSub, p: a.p, q: a.q}
				if !m.isText(s, text, "true") && !m.isText(s, text, "false") && !m.isText(s, text, "nil") && !m.isText(s, text, "null") && !m.number(s, text, "float") {
					return
				}
			}
		}
		cats := []string{"C12"}
		if n := len(g.refs); n > 0 {
			if k := g.last().kind; k == '$' || k == '?' {
				cats = append(cats, "C04")
			} else {
				cats = append(cats, "C26")
			}
		} else if g.style != 0 {
			cats = append(cats, "C04")
		}
		m.report(s, cats, "a valid template is rejected")
		return
	}
	if g.state == gFree {
		return
	}
	if g.state == gErr {
		m.report(s, strings.Split(g.cats, ","), "an invalid template is accepted")
		return
	}
	if r.xs[0].k == vNil {
		m.report(s, []string{"C11", "C12"}, "neither a clause nor an error")
		return
	}
	if r.xs[0].k != vAddr {
		panic(stuck{"the result of the parser is unknown"})
	}
	list := m.field(s, &val{k: vIface, t: s.heap[int(r.xs[0].n)].t, xs: []*val{m.load(s, r.xs[0])}}, "ExprList")
	xs := list.xs
	for len(xs) > 0 {
		v, cats, msg := m.match(s, xs[0])
		if v == later {
			v, cats, msg = wrong, []string{"C12"}, "a reference isn't taken as such"
		}
		if v == wrong {
			m.report(s, cats, msg)
			return
		}
		xs = xs[1:]
	}
	if n := len(s.tape); n == 0 || s.tape[n-1].kind != 2 {
		m.report(s, []string{"C12"}, "the rest of the template is ignored")
		return
	}
	if len(g.refs) > 0 {
		cats := []string{"C12", "C26"}
		if g.refs[0].kind == '$' || g.refs[0].kind == '?' {
			cats = []string{"C12", "C04"}
		}
		m.report(s, cats, "a reference is lost")
		return
	}
	if g.m != len(s.tape)-1 {
		m.report(s, []string{"C12"}, "text of the template is lost")
	}
}
