package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// queryModel relates the methods of a query builder, what it holds and what it
// builds. The roles of the fields are those the exported methods give them.
type queryModel struct {
	snapsOf  map[*Run]map[*Event][]*fragSnap
	onCall   func(r *Run, st *State, ev *Event)
	c        *C
	qb, frag *types.Named
	role     map[string]string // role -> field of the query builder
	ctor     *Run
	obj      *T // the query builder the constructor returns
	ctorSt   *State
	rec      map[*ssa.Function]bool // recursive functions of the package
	snaps    map[*Event][]*fragSnap
}

// fragSnap is a fragment at the time it's built.
type fragSnap struct {
	raw, prefix, suffix, args, list *T
}

// field roles of the query builder.
const (
	rCTEs, rCTEDict     = "WITH", "WITH by name"
	rTables, rTableDict = "FROM", "FROM by name"
	rSelects            = "SELECT"
	rConds              = "WHERE"
	rGroups             = "GROUP BY"
	rOrders             = "ORDER BY"
	rUnions             = "UNION"
	rLimit, rOffset     = "LIMIT", "OFFSET"
	rDistinct           = "DISTINCT"
	rErrors             = "errors"
)

// queryModel makes the model, nil if an anchor is missing.
func (c *C) queryModel() *queryModel {
	m := &queryModel{c: c, role: map[string]string{}, rec: map[*ssa.Function]bool{}, snaps: map[*Event][]*fragSnap{}}
	m.qb, m.frag = c.namedType(c.P.Sqlb, "QueryBuilder"), c.fragType()
	ctor := c.P.Sqlb.Func("NewQueryBuilder")
	if m.qb == nil || m.frag == nil || ctor == nil {
		c.Fail("anchor", "QueryBuilder", "", "QueryBuilder, NewQueryBuilder or Fragment isn't found")
		return nil
	}
	if _, ok := m.qb.Underlying().(*types.Struct); !ok {
		c.Fail("anchor", "QueryBuilder", "", "isn't a struct")
		return nil
	}
	for _, f := range c.recursive() {
		if f.Pkg == c.P.Sqlb {
			m.rec[f] = true
		}
	}
	m.ctor = c.Analyse(ctor)
	for _, o := range m.ctor.Outs {
		if o.Panic || len(o.Vals) != 1 || o.Vals[0].Op != engine.OObj || m.obj != nil {
			c.Fail("anchor", "NewQueryBuilder", c.P.Pos(ctor.Pos()), "doesn't return one new query builder")
			return nil
		}
		m.obj, m.ctorSt = o.Vals[0], o.St
	}
	if m.obj == nil || !m.roles() {
		return nil
	}
	return m
}

func (m *queryModel) fieldVar(name string) *types.Var {
	s := m.qb.Underlying().(*types.Struct)
	return s.Field(fieldIndex(m.qb, name))
}

func (m *queryModel) isFragPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), m.frag)
}

// contents is what a query builder holds: the values of its fields, and of
// those of its fragments.
func (m *queryModel) contents(r *Run, st *State, b *T) map[string]*T {
	out := map[string]*T{}
	s := m.qb.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := m.c.loadField(r, st, b, m.qb, f.Name())
		out[f.Name()] = v
		switch {
		case m.isFragPtr(f.Type()):
			fs := m.frag.Underlying().(*types.Struct)
			for j := 0; j < fs.NumFields(); j++ {
				out[f.Name()+"."+fs.Field(j).Name()] = m.c.loadField(r, st, v, m.frag, fs.Field(j).Name())
			}
		default:
			if _, ok := f.Type().Underlying().(*types.Map); ok {
				out[f.Name()+"@"] = r.X.MapVer(st, v)
			}
		}
	}
	return out
}

func changed(before, after map[string]*T, f *Facts) []string {
	var out []string
	for k, v := range before {
		w := after[k]
		if v == w || v != nil && w != nil && (f.IsNil(v) && f.IsNil(w)) {
			continue
		}
		if v != nil && w != nil {
			if eq, known := f.Eval(engine.Eq(v, w)); known && eq {
				continue
			}
		}
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// start assumes what the constructor establishes.
func (m *queryModel) start(r *Run, st *State) {
	b := r.Args[0]
	st.Facts.Assume(engine.Eq(b, engine.Nil), false)
	s := m.qb.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if m.c.loadField(m.ctor, m.ctorSt, m.obj, m.qb, f.Name()).KnownNonNil() {
			st.Facts.Assume(engine.Eq(m.c.loadField(r, st, b, m.qb, f.Name()), engine.Nil), false)
		}
	}
	// the fragments are different ones
	var frags []*T
	fs := m.frag.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); m.isFragPtr(f.Type()) {
			p := m.c.loadField(r, st, b, m.qb, f.Name())
			for _, q := range frags {
				st.Facts.Assume(engine.Eq(p, q), false)
			}
			frags = append(frags, p)
			for j := 0; j < fs.NumFields(); j++ {
				a := r.X.FieldAddr(p, m.frag, j)
				st.Heap[a] = r.X.Load(st, a, fs.Field(j).Type())
			}
		}
	}
}

// method is the analysis of a method of the query builder.
func (m *queryModel) method(name string) *Run {
	fn := m.c.methodOf(types.NewPointer(m.qb), name)
	if fn == nil {
		m.c.Fail("anchor", "QueryBuilder."+name, "", "not found")
		return nil
	}
	return m.c.AnalyseWith(fn, "method", nil, func(r *Run, st *State) {
		r.X.Split = true
		m.start(r, st)
	})
}

func (m *queryModel) errorsField() string {
	s := m.qb.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && isErr(sl.Elem()) {
			return s.Field(i).Name()
		}
	}
	return ""
}

func (m *queryModel) roles() bool {
	c := m.c
	errs := m.errorsField()
	if errs == "" {
		c.Fail("anchor", "QueryBuilder", "", "collects no errors")
		return false
	}
	m.role[rErrors] = errs
	for _, x := range []struct {
		method string
		roles  []string
	}{
		{"With", []string{rCTEs, rCTEDict}},
		{"InnerJoin", []string{rTables, rTableDict}},
		{"Select", []string{rSelects}},
		{"Where", []string{rConds}},
		{"GroupBy", []string{rGroups}},
		{"OrderBy", []string{rOrders}},
		{"Union", []string{rUnions}},
		{"Limit", []string{rLimit}},
		{"Offset", []string{rOffset}},
		{"Distinct", []string{rDistinct}},
	} {
		r := m.method(x.method)
		if r == nil {
			return false
		}
		before := m.contents(r, r.Base, r.Args[0])
		all := map[string]bool{}
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			for _, k := range changed(before, m.contents(r, o.St, r.Args[0]), o.St.Facts) {
				k, _, _ := strings.Cut(strings.TrimSuffix(k, "@"), ".")
				if k != errs {
					all[k] = true
				}
			}
		}
		for k := range all {
			i := 0
			if _, ok := m.fieldVar(k).Type().Underlying().(*types.Map); ok {
				i = 1
			}
			if i < len(x.roles) && m.role[x.roles[i]] == "" {
				m.role[x.roles[i]] = k
			} else {
				c.Fail("anchor", "QueryBuilder."+x.method, c.P.Pos(r.Fn.Pos()), "changes %s, which has no role", k)
				return false
			}
		}
		for _, ro := range x.roles {
			if m.role[ro] == "" {
				c.Fail("anchor", "QueryBuilder."+x.method, c.P.Pos(r.Fn.Pos()), "changes nothing that is the %s", ro)
				return false
			}
		}
	}
	return true
}

// value is the value of a role in the query builder.
func (m *queryModel) value(r *Run, st *State, role string) *T {
	return m.c.loadField(r, st, r.Args[0], m.qb, m.role[role])
}

// list is the list of elements of a role.
func (m *queryModel) list(r *Run, st *State, role string) *T {
	v := m.value(r, st, role)
	if m.isFragPtr(m.fieldVar(m.role[role]).Type()) {
		return m.c.loadField(r, st, v, m.frag, "Fragments")
	}
	return v
}

// constant is the value the constructor gives to a field of a fragment of the
// query builder, if t is that field as it was in the beginning.
func (m *queryModel) constant(r *Run, t *T) *T {
	s := m.qb.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !m.isFragPtr(f.Type()) {
			continue
		}
		p := m.c.loadField(r, r.Base, r.Args[0], m.qb, f.Name())
		q := m.c.loadField(m.ctor, m.ctorSt, m.obj, m.qb, f.Name())
		fs := m.frag.Underlying().(*types.Struct)
		for j := 0; j < fs.NumFields(); j++ {
			n := fs.Field(j).Name()
			if n != "Fragments" && m.c.loadField(r, r.Base, p, m.frag, n) == t {
				return m.c.loadField(m.ctor, m.ctorSt, q, m.frag, n)
			}
		}
	}
	return t
}

// strOf is the constant text of a field of a fragment.
func (m *queryModel) strOf(r *Run, t *T) (string, bool) {
	t = m.constant(r, t)
	if t.Op == engine.OZero {
		return "", true
	}
	return t.StrVal()
}

// build is the analysis of the build of a query builder that is distinct or not;
// everything of the package is a part of it but recursive functions.
func (m *queryModel) build(distinct bool) *Run { return m.buildBy("BuildFragment", distinct) }

// buildBy is the same, for one of the methods that build.
func (m *queryModel) buildBy(method string, distinct bool) *Run {
	fn := m.c.methodOf(types.NewPointer(m.qb), method)
	if fn == nil {
		m.c.Fail("anchor", "QueryBuilder."+method, "", "not found")
		return nil
	}
	cut := func(def engine.CutFunc) engine.CutFunc {
		return func(x *engine.Engine, f *ssa.Function, args []*T) engine.EventKind {
			if m.rec[f] && f != fn && !engine.IsBuild(f) {
				return engine.EvCall
			}
			if f.Pkg == m.c.P.Sqlb && f != fn && engine.IsBuild(f) && (f.Object() == nil || !f.Object().Exported() || len(args) > 0 && args[0] == x.Recv()) {
				return ""
			}
			return def(x, f, args)
		}
	}
	m.snaps = map[*Event][]*fragSnap{}
	r := m.c.AnalyseWith(fn, fmt.Sprint("query ", distinct), cut, func(r *Run, st *State) {
		r.X.SplitLoops = true
		m.start(r, st)
		st.Facts.Assume(m.value(r, st, rDistinct), distinct)
		r.X.OnEvent = func(st *State, ev *Event) {
			m.snap(r, st, ev)
			if m.onCall != nil && ev.Kind == engine.EvCall {
				m.onCall(r, st, ev)
			}
		}
	})
	r.X.OnEvent = nil
	if m.snapsOf == nil {
		m.snapsOf = map[*Run]map[*Event][]*fragSnap{}
	}
	if old := m.snapsOf[r]; old != nil {
		m.snaps = old
	} else {
		m.snapsOf[r] = m.snaps
	}
	return r
}

// succeeds: the partition builds a query of a builder.
func (m *queryModel) succeeds(r *Run, o *engine.Outcome) bool {
	return !o.Panic && o.St.Facts.IsNil(o.Vals[len(o.Vals)-1]) && !o.St.Facts.IsNil(r.Args[0])
}

func (m *queryModel) snap(r *Run, st *State, ev *Event) {
	if ev.Kind != engine.EvBuild || ev.Recv == nil || ev.Recv.Typ == nil || len(ev.Res) != 2 {
		return
	}
	p := ev.Recv
	if p.Op == engine.OIface {
		p = p.Args[0]
	}
	if p.Typ == nil || !m.isFragPtr(p.Typ) {
		return
	}
	ld := func(n string) *T { return m.c.loadField(r, st, p, m.frag, n) }
	s := &fragSnap{raw: ld("Raw"), prefix: ld("Prefix"), suffix: ld("Suffix"), args: ld("Args"), list: ld("Fragments")}
	if s.list == nil || s.raw == nil {
		return
	}
	if emptyList(s.list) {
		if raw, ok := m.strOf(r, s.raw); ok && joinAll.MatchString(raw) {
			// C14, C13: joining nothing makes an empty text
			st.Facts.Assume(engine.Eq(ev.Res[0], engine.Str("")), true)
		}
	}
	for _, o := range m.snaps[ev] {
		if *o == *s {
			return
		}
	}
	m.snaps[ev] = append(m.snaps[ev], s)
}

// joinAll is a template that joins all fragments.
var joinAll = regexp.MustCompile(`^\s*#join\(\s*'#f(?:ragment)?'\s*,\s*'([^']*)'\s*\)\s*$`)

// leafs are written between these.
const open, shut = "⟦", "⟧"

var spaces = regexp.MustCompile(`\s+`)

// render writes a text with its unknown parts replaced; white space counts as
// one space.
func render(t *T, f *Facts, leaf func(t *T) string) string {
	var sb strings.Builder
	var walk func(t *T)
	walk = func(t *T) {
		if s := leaf(t); s != "" {
			sb.WriteString(s)
			return
		}
		if f != nil && f.StrEmpty(t) {
			return
		}
		switch {
		case t.Op == engine.OConst:
			s, _ := t.StrVal()
			sb.WriteString(s)
		case t.Op == engine.OZero:
		case t.Op == engine.OConcat:
			for _, p := range t.Args {
				walk(p)
			}
		case t.Op == engine.OConv:
			walk(t.Args[0])
		case t.Op == engine.OApp && t.Aux == "strings.TrimSpace":
			walk(t.Args[0])
		case t.Op == engine.OApp && t.Aux == "strings.Join":
			for i, it := range engine.Items(t.Args[0]) {
				if it.Op == engine.OSpread {
					if emptyList(it.Args[0]) {
						continue
					}
					if i > 0 {
						walk(t.Args[1])
					}
					if s := leaf(engine.App("strings.Join", types.Typ[types.String], it.Args[0], t.Args[1])); s != "" {
						sb.WriteString(s)
					} else {
						sb.WriteString(open + "?" + clip(it.String()) + shut)
					}
					continue
				}
				if i > 0 {
					walk(t.Args[1])
				}
				walk(it)
			}
		default:
			sb.WriteString(open + "?" + clip(t.String()) + shut)
		}
	}
	walk(t)
	return strings.TrimSpace(spaces.ReplaceAllString(sb.String(), " "))
}

// structOf is the struct type an element of a list is, or refers to.
func structOf(t types.Type) (*types.Named, bool) {
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	n, _ := types.Unalias(t).(*types.Named)
	if n == nil {
		return nil, false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil, false
	}
	return n, ptr
}

// part is the field of an element of a list that has the given type.
func (m *queryModel) part(r *Run, st *State, elem *T, typ types.Type, is func(t types.Type) bool) *T {
	n, ptr := structOf(typ)
	if n == nil {
		return nil
	}
	s := n.Underlying().(*types.Struct)
	var out *T
	for i := 0; i < s.NumFields(); i++ {
		if !is(s.Field(i).Type()) {
			continue
		}
		if out != nil {
			return nil
		}
		if ptr {
			out = r.X.Load(st, r.X.FieldAddr(elem, n, i), s.Field(i).Type())
		} else {
			out = engine.FieldOf(elem, i, s.Field(i).Type())
		}
	}
	return out
}

// elemType is the type of the elements of a role.
func (m *queryModel) elemType(role string) types.Type {
	t := m.fieldVar(m.role[role]).Type().Underlying()
	switch t := t.(type) {
	case *types.Slice:
		return t.Elem()
	case *types.Map:
		return t.Elem()
	}
	return nil
}

func (m *queryModel) sqlb(name string) types.Type {
	n := m.c.namedType(m.c.P.Sqlb, name)
	if n == nil {
		return nil
	}
	return n
}

func isType(t types.Type) func(types.Type) bool {
	return func(u types.Type) bool { return t != nil && types.Identical(t, u) }
}

func isBool(t types.Type) bool { return types.Identical(t, types.Typ[types.Bool]) }

// addition is an element added to a list, by a loop if it has one.
type addition struct {
	elem   *T
	spread bool // all elements of the list
	sum    *LoopSum
	back   *engine.Back
}

// additions lists what is added to the list old to make the list now.
func additions(old, now *T, f *Facts) (out []addition, ok bool) {
	old = uncap(old)
	if uncap(now) == old {
		return nil, true
	}
	if l := lamOf(uncap(now)); l != nil {
		if init := uncap(l.Init); init != old && !(emptyList(init) && emptyList(old)) {
			return nil, false
		}
		for _, b := range l.Sum.Backs {
			v := b.Upd[l.Term]
			if v == nil || v == l.Term {
				continue
			}
			its := engine.Items(v)
			if len(its) == 0 || its[0].Op != engine.OSpread || uncap(its[0].Args[0]) != l.Term {
				return nil, false
			}
			for _, it := range its[1:] {
				a := addition{elem: it, sum: l.Sum, back: b}
				if it.Op == engine.OSpread {
					a.elem, a.spread = it.Args[0], true
				}
				out = append(out, a)
			}
		}
		return out, true
	}
	its := engine.Items(now)
	if len(its) > 0 && its[0].Op == engine.OSpread && uncap(its[0].Args[0]) == old {
		its = its[1:]
	} else if !f.LeqK(engine.Len(old), engine.Int(0), 0) {
		return nil, false
	}
	for _, it := range its {
		if it.Op == engine.OSpread {
			out = append(out, addition{elem: it.Args[0], spread: true})
		} else {
			out = append(out, addition{elem: it})
		}
	}
	return out, true
}

// unboxed removes interfaces around a value.
func unboxed(t *T) *T {
	for t != nil && t.Op == engine.OIface {
		t = t.Args[0]
	}
	return t
}

// addsAll checks that the list now is the list old with all elements of src.
func (m *queryModel) addsAll(r *Run, o *engine.Outcome, old, now, src *T) string {
	f := o.St.Facts
	if uncap(now) == uncap(old) && f.LeqK(engine.Len(src), engine.Int(0), 0) {
		return ""
	}
	as, ok := additions(old, now, f)
	if !ok {
		return "the list becomes " + clip(now.String()) + ", not the former list with the elements of " + src.String()
	}
	if len(as) == 1 && as[0].spread && as[0].sum == nil && uncap(as[0].elem) == src {
		return ""
	}
	if len(as) == 1 && as[0].spread && as[0].sum == nil {
		// a list made of the elements
		for _, e := range m.c.elementsOf(r, as[0].elem) {
			if !m.isElem(e.elem, src, e.sum, e.back, f) {
				return "the list gets " + clip(e.elem.String()) + ", not each element of " + src.String()
			}
		}
		if m.c.elementsOf(r, as[0].elem) == nil {
			return "the list gets " + clip(as[0].elem.String())
		}
		return ""
	}
	if len(as) == 0 {
		return "the elements of " + src.String() + " are not taken"
	}
	for _, a := range as {
		if a.sum == nil || a.spread || len(as) != len(a.sum.Backs) || !m.isElem(a.elem, src, a.sum, a.back, f) {
			return "the list gets " + clip(a.elem.String()) + ", not each element of " + src.String()
		}
	}
	return ""
}

// isElem: the value is the element of src that an iteration is about, and all
// elements are taken in order.
func (m *queryModel) isElem(v, src *T, sum *LoopSum, b *engine.Back, f *Facts) bool {
	v = unboxed(v)
	if v.Op != engine.OLoad {
		return false
	}
	l, idx := elemRef(v)
	return l != nil && uncap(l) == uncap(src) && m.c.walksAll(sum, b, src, idx, f)
}
