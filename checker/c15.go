package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"verif/checker/engine"
)

func init() {
	checks["C15"] = &Check{
		Rule: "each builder method changes what the query builder holds for its clause and nothing else: it adds its elements at the end (joins of a known name are replaced in place, Select replaces), sets the limits to positive numbers, and the constructor gives each clause its keyword and separator; in each successful path partition of the build, the text is, in order, WITH, SELECT, FROM, WHERE, GROUP BY, ORDER BY, LIMIT, OFFSET and UNION over what the query builder holds, a clause is left out only if it is known to have no text or number, and the loops that make a list add the text of each element in order",
		Run:  checkC15,
	}
}

func checkC15(c *C) {
	m := c.queryModel()
	if m == nil {
		return
	}
	m.settersRule()
	for _, distinct := range []bool{false, true} {
		m.textRule("BuildFragment", distinct)
		m.textRule("BuildQuery", distinct)
	}
	c.Need("setter partitions", 60)
	c.Need("texts", 60)
	c.Need("clauses", 400)
	c.Need("list iterations", 8)
}

type setterSpec struct {
	changes []string // roles
	check   func(m *queryModel, s *setterRun) string
}

// setterRun is a path partition of a builder method.
type setterRun struct {
	m             *queryModel
	r             *Run
	o             *engine.Outcome
	before, after map[string]*T
	args          []*T // without receiver
	writes        map[*T]*T
}

func (s *setterRun) typ(i int) types.Type { return s.r.Fn.Params[i+1].Type() }

func (s *setterRun) old(role string) *T { return s.m.list(s.r, s.r.Base, role) }
func (s *setterRun) now(role string) *T { return s.m.list(s.r, s.o.St, role) }

var setterSpecs = map[string]setterSpec{
	"Distinct": {[]string{rDistinct}, func(m *queryModel, s *setterRun) string {
		if v, ok := s.m.value(s.r, s.o.St, rDistinct).BoolVal(); !ok || !v {
			return "isn't set"
		}
		return ""
	}},
	"Limit":   {[]string{rLimit}, func(m *queryModel, s *setterRun) string { return s.number(rLimit) }},
	"Offset":  {[]string{rOffset}, func(m *queryModel, s *setterRun) string { return s.number(rOffset) }},
	"Select":  {[]string{rSelects}, (*queryModel).selected},
	"GroupBy": {[]string{rGroups}, func(m *queryModel, s *setterRun) string { return s.addsAll(rGroups) }},
	"Union":   {[]string{rUnions}, func(m *queryModel, s *setterRun) string { return s.addsAll(rUnions) }},
	"OrderBy": {[]string{rOrders}, func(m *queryModel, s *setterRun) string {
		e, p := s.addsOne(rOrders)
		if p != "" {
			return p
		}
		et := m.elemType(rOrders)
		col := m.part(s.r, s.o.St, e, et, func(t types.Type) bool { return types.Identical(t, s.typ(0)) })
		ord := m.part(s.r, s.o.St, e, et, func(t types.Type) bool { return types.Identical(t, s.typ(1)) })
		if col != s.args[0] || ord != s.args[1] {
			return fmt.Sprintf("adds the column %s and the order %s", tstr(col), tstr(ord))
		}
		return ""
	}},
	"With": {[]string{rCTEs, rCTEDict}, func(m *queryModel, s *setterRun) string {
		e, p := s.addsOne(rCTEs)
		if p != "" {
			return p
		}
		et := m.elemType(rCTEs)
		for i, a := range s.args {
			if got := m.part(s.r, s.o.St, e, et, isType(s.typ(i))); got == nil || uncap(got) != a && !m.copyOf(s, got, a) {
				return fmt.Sprintf("adds %s instead of %s", tstr(got), a)
			}
		}
		return ""
	}},
	"Where": {[]string{rConds}, func(m *queryModel, s *setterRun) string {
		if s.o.St.Facts.IsNil(s.args[0]) {
			if len(s.changed()) > 0 {
				return "adds a condition that is nil"
			}
			return ""
		}
		e, p := s.addsOne(rConds)
		if p == "" && unboxed(e) != s.args[0] {
			p = "adds " + clip(e.String())
		}
		return p
	}},
	"Where2": {[]string{rConds}, func(m *queryModel, s *setterRun) string {
		return s.condition(`^#f(ragment)?1 ?`+open+`op`+shut+` ?(\$1|\?|#arg(ument)?1)$`, false)
	}},
	"WhereIn": {[]string{rConds}, func(m *queryModel, s *setterRun) string {
		return s.condition(`(?i:^#f(ragment)?1 IN ?\( ?#join\( ?'#arg(ument)?' ?, ?' ?, ?' ?\) ?\)$)`, true)
	}},
	"WhereNotIn": {[]string{rConds}, func(m *queryModel, s *setterRun) string {
		return s.condition(`(?i:^#f(ragment)?1 NOT IN ?\( ?#join\( ?'#arg(ument)?' ?, ?' ?, ?' ?\) ?\)$)`, true)
	}},
	"From":             {[]string{rTables, rTableDict}, func(m *queryModel, s *setterRun) string { return s.table("", false) }},
	"InnerJoin":        {[]string{rTables, rTableDict}, func(m *queryModel, s *setterRun) string { return s.table("INNER JOIN", false) }},
	"LeftJoin":         {[]string{rTables, rTableDict}, func(m *queryModel, s *setterRun) string { return s.table("LEFT JOIN", false) }},
	"LeftJoinOptional": {[]string{rTables, rTableDict}, func(m *queryModel, s *setterRun) string { return s.table("LEFT JOIN", true) }},
	"RightJoin":        {[]string{rTables, rTableDict}, func(m *queryModel, s *setterRun) string { return s.table("RIGHT JOIN", false) }},
	"FullJoin":         {[]string{rTables, rTableDict}, func(m *queryModel, s *setterRun) string { return s.table("FULL JOIN", false) }},
	"CrossJoin":        {[]string{rTables, rTableDict}, func(m *queryModel, s *setterRun) string { return s.table("CROSS JOIN", false) }},
}

// settersRule: what the builder methods change.
func (m *queryModel) settersRule() {
	c := m.c
	m.ctorRule()
	for _, name := range engine.SortedKeys(keysOf(setterSpecs)) {
		spec := setterSpecs[name]
		r := m.method(name)
		if r == nil {
			continue
		}
		ok := 0
		for _, s := range m.partitions(r) {
			if s.impossible() {
				continue
			}
			c.Count("setter partitions", 1)
			pos := c.P.Pos(s.o.RetPos)
			if s.rejects() {
				continue
			}
			ok++
			if len(s.o.Vals) != 1 || s.o.Vals[0] != r.Args[0] {
				c.Fail("setters", c.name(r.Fn), pos, "returns another query builder")
			}
			allowed := map[string]bool{}
			for _, ro := range spec.changes {
				allowed[m.role[ro]] = true
			}
			for _, k := range s.changed() {
				f, sub, _ := strings.Cut(strings.TrimSuffix(k, "@"), ".")
				if !allowed[f] || sub != "" && sub != "Fragments" || sub == "" && m.isFragPtr(m.fieldVar(f).Type()) {
					c.Fail("setters", c.name(r.Fn), pos, "changes %s of the query builder", strings.TrimSuffix(k, "@"))
				}
			}
			if p := spec.check(m, s); p != "" {
				c.Fail("setters", c.name(r.Fn), pos, "%s", p)
			}
			for a := range s.writes {
				c.Fail("setters", c.name(r.Fn), pos, "changes %s", clip(a.String()))
			}
		}
		if ok == 0 {
			c.Fail("setters", c.name(r.Fn), c.P.Pos(r.Fn.Pos()), "never succeeds")
		}
		c.Count("setters", 1)
	}
}

func keysOf[V any](m map[string]V) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

func (m *queryModel) partitions(r *Run) (out []*setterRun) {
	before := m.contents(r, r.Base, r.Args[0])
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		s := &setterRun{m: m, r: r, o: o, before: before, after: m.contents(r, o.St, r.Args[0]), args: r.Args[1:], writes: map[*T]*T{}}
		known := map[*T]bool{r.Args[0]: true}
		for _, v := range before {
			known[v] = true
		}
		for a, v := range o.St.Heap {
			if r.Base.Heap[a] == v || len(a.Args) == 0 {
				continue
			}
			switch a.Op {
			case engine.OFieldAddr:
				if known[a.Args[0]] && (a.Args[0] == r.Args[0] || a.Args[0].Typ != nil && m.isFragPtr(a.Args[0].Typ)) {
					continue
				}
			case engine.OMapElem, engine.OMapVer:
				if known[a.Args[0]] {
					continue
				}
			}
			if root := rootOf(a); root.Op == engine.OObj || root.Op == engine.OGlobal || root.Op == engine.OMake {
				continue
			}
			s.writes[a] = v
		}
		out = append(out, s)
	}
	return out
}

// rootOf is the object an address is in.
func rootOf(a *T) *T {
	for (a.Op == engine.OFieldAddr || a.Op == engine.OIndexAddr || a.Op == engine.OMapElem || a.Op == engine.OMapVer) && len(a.Args) > 0 {
		a = a.Args[0]
	}
	return a
}

// rejects: the partition collects an error.
func (s *setterRun) rejects() bool {
	return s.before[s.m.role[rErrors]] != s.after[s.m.role[rErrors]]
}

// impossible: a table is known by name, but there is none. The builder methods
// list all they know by name.
func (s *setterRun) impossible() bool {
	f := s.o.St.Facts
	if !f.LeqK(engine.Len(s.old(rTables)), engine.Int(0), 0) {
		return false
	}
	dict := s.before[s.m.role[rTableDict]]
	for t, v := range f.Lits() {
		if v && t.Op == engine.OLookupOk && t.Args[0] == dict && t.Args[2] == s.before[s.m.role[rTableDict]+"@"] {
			return true
		}
	}
	if len(s.args) > 0 && types.Identical(s.typ(0), s.m.sqlb("TableAliased")) {
		if key := s.applied(s.args[0]); key != nil && f.NonNil(s.lookup(s.r.Base, rTableDict, key)) {
			return true
		}
	}
	return false
}

func (s *setterRun) changed() []string { return changed(s.before, s.after, s.o.St.Facts) }

func (s *setterRun) number(role string) string {
	f := s.o.St.Facts
	was, now := s.m.value(s.r, s.r.Base, role), s.m.value(s.r, s.o.St, role)
	if now == s.args[0] {
		// 0 and negative numbers make no clause
		if !f.LeqK(engine.Int(1), now, 0) && !f.LeqK(now, engine.Int(0), 0) {
			return ""
		}
		return ""
	}
	if now != was {
		return "is set to " + clip(now.String())
	}
	if !f.LeqK(s.args[0], engine.Int(0), 0) {
		return "isn't set to a number that may be positive"
	}
	return ""
}

func (s *setterRun) addsAll(role string) string {
	return s.m.addsAll(s.r, s.o, s.old(role), s.now(role), s.args[0])
}

// addsOne is the one element added to the list.
func (s *setterRun) addsOne(role string) (*T, string) {
	as, ok := additions(s.old(role), s.now(role), s.o.St.Facts)
	if !ok || len(as) != 1 || as[0].sum != nil || as[0].spread {
		return nil, "the list becomes " + clip(s.now(role).String()) + ", not the former list with a new element"
	}
	return as[0].elem, ""
}

// selected: the columns are replaced.
func (m *queryModel) selected(s *setterRun) string {
	now := s.now(rSelects)
	f := s.o.St.Facts
	if f.LeqK(engine.Len(s.args[0]), engine.Int(0), 0) {
		if now != s.old(rSelects) && !emptyList(now) {
			return "without columns, the list becomes " + clip(now.String())
		}
		return ""
	}
	es := m.c.elementsOf(s.r, now)
	if es == nil {
		its := engine.Items(now)
		if len(its) == 1 && its[0].Op == engine.OSpread {
			es = m.c.elementsOf(s.r, its[0].Args[0])
		}
	}
	if es == nil {
		return "the list becomes " + clip(now.String()) + ", not the columns"
	}
	for _, e := range es {
		if !m.isElem(e.elem, s.args[0], e.sum, e.back, f) {
			return "the list gets " + clip(e.elem.String()) + ", not each of the columns"
		}
	}
	return ""
}

// copyOf: a list with the elements of another.
func (m *queryModel) copyOf(s *setterRun, got, src *T) bool {
	its := engine.Items(got)
	return len(its) == 1 && its[0].Op == engine.OSpread && uncap(its[0].Args[0]) == src
}

// condition: a new fragment is added, with a template for the column and the arg.
func (s *setterRun) condition(pattern string, flat bool) string {
	m := s.m
	e, p := s.addsOne(rConds)
	if p != "" {
		return p
	}
	e = unboxed(e)
	if e.Op != engine.OObj {
		return "adds " + clip(e.String()) + ", not a new fragment"
	}
	ld := func(n string) *T { return m.c.loadField(s.r, s.o.St, e, m.frag, n) }
	raw := render(ld("Raw"), s.o.St.Facts, func(t *T) string {
		if !flat && t == s.args[1] {
			return open + "op" + shut
		}
		return ""
	})
	if !regexp.MustCompile(pattern).MatchString(raw) {
		return "adds a condition with the template " + raw
	}
	fs := engine.Items(ld("Fragments"))
	if len(fs) != 1 || unboxed(fs[0]) != s.args[0] {
		return "adds a condition with the fragments " + clip(ld("Fragments").String())
	}
	as := engine.Items(ld("Args"))
	want := s.args[len(s.args)-1]
	switch {
	case len(as) != 1:
		return "adds a condition with the args " + clip(ld("Args").String())
	case !flat && as[0] != want:
		return "adds a condition with the args " + clip(ld("Args").String())
	case flat:
		ev := (*Event)(nil)
		if as[0].Op == engine.OSpread {
			ev = evOf(uncap(as[0].Args[0]))
		}
		if ev == nil || ev.Kind != engine.EvCall || !strings.HasSuffix(ev.Name, ".ArgsFlatted") || len(ev.Args) != 1 || !onlyItem(s, ev.Args[0], want) {
			return "adds a condition with the args " + clip(ld("Args").String()) + ", not those of the list"
		}
	}
	for _, n := range []string{"Prefix", "Suffix"} {
		if t, ok := m.strOf(s.r, ld(n)); !ok || t != "" {
			return "adds a condition with a " + n
		}
	}
	return ""
}

func onlyItem(s *setterRun, list, v *T) bool {
	its := s.r.X.Items(s.o.St, list)
	return len(its) == 1 && its[0] == v
}

// applied is the name a table is referred to by: the alias, if it isn't empty.
func (s *setterRun) applied(t *T) *T {
	return applied(s.m.c, s.o.St.Facts, t)
}

func applied(c *C, f *Facts, t *T) *T {
	n := c.namedType(c.P.Sqlb, "TableAliased")
	name, alias := nameOf(n, t, "Name"), nameOf(n, t, "Alias")
	switch {
	case f.StrEmpty(alias):
		return name
	case f.StrNonEmpty(alias):
		return alias
	}
	return nil
}

func nameOf(n *types.Named, t *T, field string) *T {
	i := fieldIndex(n, field)
	return engine.FieldOf(t, i, n.Underlying().(*types.Struct).Field(i).Type())
}

// table: the FROM table is set, or a joined table is added or replaced.
func (s *setterRun) table(join string, optional bool) string {
	m, f := s.m, s.o.St.Facts
	t := s.args[0]
	key := s.applied(t)
	if key == nil {
		return "doesn't tell the name from the alias"
	}
	et := m.elemType(rTables)
	n, ptr := structOf(et)
	if n == nil || !ptr {
		return "the tables are not pointers to structs"
	}
	old, now := s.old(rTables), s.now(rTables)
	dictBefore, dictNow := s.before[m.role[rTableDict]], s.after[m.role[rTableDict]]
	if dictBefore != dictNow {
		return "replaces the tables by name"
	}
	// the tables by name aren't nil
	at := s.lookup(s.r.Base, rTableDict, key)
	has := func() (v, known bool) {
		if f.IsNil(at) {
			return false, true
		}
		if f.NonNil(at) {
			return true, true
		}
		return f.Eval(engine.HasKey(at))
	}
	var e *T
	switch as, ok := additions(old, now, f); {
	case join == "" && ok && len(as) == 0:
		// replaced in place
		for a, v := range s.writes {
			if a.Op == engine.OIndexAddr && uncap(a.Args[0]) == uncap(old) {
				if i, ok := a.Args[1].IntVal(); ok && i == 0 {
					e = v
					delete(s.writes, a)
				}
			}
		}
		if e == nil {
			return "doesn't set the first table"
		}
	case join == "" && ok && len(as) == 1 && f.LeqK(engine.Len(old), engine.Int(0), 0):
		e = as[0].elem
	case join != "" && ok && len(as) == 0:
		// replaced in place
		if v, known := has(); !known || !v {
			return "isn't added although it may not be joined yet"
		}
		for a := range s.writes {
			if a.Op == engine.OFieldAddr && rootUpTo(a, at) {
				delete(s.writes, a)
			}
		}
		e = at
	case join != "" && ok && len(as) > 0:
		if v, known := has(); !known || v {
			return "is added although it may be joined already"
		}
		e = as[len(as)-1].elem
		if len(as) > 2 || len(as) == 2 && !f.LeqK(engine.Len(old), engine.Int(0), 0) {
			return "adds more than the table"
		}
		if len(as) == 1 && f.LeqK(engine.Len(old), engine.Int(0), 0) {
			return "takes the place of the FROM table"
		}
	default:
		return "the tables become " + clip(now.String())
	}
	if got := s.lookup(s.o.St, rTableDict, key); got != e {
		return "the table by name is " + clip(got.String()) + ", not the one that is built"
	}
	if p := s.names(join, key, e, old); p != "" {
		return p
	}
	part := func(is func(types.Type) bool) *T { return m.part(s.r, s.o.St, e, et, is) }
	names := part(isType(s.typ(0)))
	if names == nil || !sameTable(m.c, names, t) {
		return "the table becomes " + tstr(names)
	}
	if v, ok := tstrBool(part(isBool)); !ok || v != optional {
		return "is optional: " + tstr(part(isBool))
	}
	return s.tableText(part(m.isFragPtr), join)
}

func tstrBool(t *T) (bool, bool) {
	if t == nil {
		return false, false
	}
	if t.Op == engine.OZero {
		return false, true
	}
	return t.BoolVal()
}

func sameTable(c *C, a, b *T) bool {
	if a == b {
		return true
	}
	n := c.namedType(c.P.Sqlb, "TableAliased")
	return nameOf(n, a, "Name") == nameOf(n, b, "Name") && nameOf(n, a, "Alias") == nameOf(n, b, "Alias")
}

func rootUpTo(a, at *T) bool {
	for a.Op == engine.OFieldAddr {
		a = a.Args[0]
		if a == at {
			return true
		}
	}
	return false
}

// lookup is the element of a map of the query builder.
func (s *setterRun) lookup(st *State, role string, key *T) *T {
	return s.m.lookup(s.r, st, role, key)
}

func (m *queryModel) lookup(r *Run, st *State, role string, key *T) *T {
	v := m.value(r, st, role)
	return r.X.MapGet(st, v, key, m.elemType(role))
}

// names: the tables by name are what they were, but for the table.
func (s *setterRun) names(join string, key, e, old *T) string {
	m, f := s.m, s.o.St.Facts
	was, now := s.before[m.role[rTableDict]+"@"], s.after[m.role[rTableDict]+"@"]
	et := m.elemType(rTables)
	dropped := false
	for now != was {
		if now.Op != engine.OApp || len(now.Args) < 2 {
			return "the tables by name become " + clip(now.String())
		}
		switch now.Aux {
		case "upd":
			if now.Args[1] != key {
				return "a table is called " + clip(now.Args[1].String())
			}
		case "del":
			first := s.r.X.Load(s.r.Base, s.r.X.IndexAddr(old, engine.Int(0), et), et)
			nm := m.part(s.r, s.r.Base, first, et, isType(s.typ(0)))
			if join != "" || nm == nil || !m.isApplied(f, now.Args[1], nm) {
				return "the table called " + clip(now.Args[1].String()) + " is dropped"
			}
			dropped = true
		default:
			return "the tables by name become " + clip(now.String())
		}
		now = now.Args[0]
	}
	if join == "" && !dropped && !f.LeqK(engine.Len(old), engine.Int(0), 0) {
		return "the former FROM table is still known by its name"
	}
	return ""
}

func (m *queryModel) isApplied(f *Facts, key, names *T) bool {
	if a := applied(m.c, f, names); a != nil && a == key {
		return true
	}
	return false
}

// tableText: the template of the FROM table or a join.
func (s *setterRun) tableText(frag *T, join string) string {
	m, f := s.m, s.o.St.Facts
	if frag == nil || frag.Op != engine.OObj {
		return "builds " + tstr(frag) + ", not a fragment of its own"
	}
	n := m.c.namedType(m.c.P.Sqlb, "TableAliased")
	name, alias := nameOf(n, s.args[0], "Name"), nameOf(n, s.args[0], "Alias")
	leaf := func(t *T) string {
		for t.Op == engine.OConv {
			t = t.Args[0]
		}
		switch t {
		case name:
			return open + "name" + shut
		case alias:
			if !f.StrEmpty(alias) {
				return open + "alias" + shut
			}
		}
		return ""
	}
	ld := func(p *T, n string) *T { return m.c.loadField(s.r, s.o.St, p, m.frag, n) }
	text := render(ld(frag, "Raw"), f, leaf)
	want := open + "name" + shut
	if f.StrNonEmpty(alias) {
		want += " AS " + open + "alias" + shut
	}
	if join != "" {
		want = join + " " + want
	}
	plain := func(p *T, prefix string) bool {
		for _, n := range []string{"Prefix", "Suffix"} {
			w := ""
			if n == "Prefix" {
				w = prefix
			}
			if t, ok := m.strOf(s.r, ld(p, n)); !ok || !strings.EqualFold(strings.TrimSpace(t), w) {
				return false
			}
		}
		return emptyList(ld(p, "Args"))
	}
	if !plain(frag, "") {
		return "the table has a prefix, a suffix or args"
	}
	fs := engine.Items(ld(frag, "Fragments"))
	if len(s.args) < 2 || f.IsNil(s.args[1]) {
		if !strings.EqualFold(text, want) || len(fs) != 0 {
			return "the table is built as " + text
		}
		return ""
	}
	on := s.args[1]
	if len(fs) != 1 {
		return "the condition of the join isn't built"
	}
	cond := unboxed(fs[0])
	prefix := ""
	if cond.Op == engine.OObj && m.isFragPtr(cond.Typ) {
		if t, ok := m.strOf(s.r, ld(cond, "Prefix")); ok {
			prefix = strings.TrimSpace(t)
		}
		in := engine.Items(ld(cond, "Fragments"))
		raw, _ := m.strOf(s.r, ld(cond, "Raw"))
		if !plain(cond, prefix) || len(in) != 1 || !onlyFragment.MatchString(raw) {
			return "the condition of the join is built as " + prefix + " " + raw
		}
		cond = unboxed(in[0])
	}
	if cond != on {
		return "the condition of the join is " + clip(cond.String())
	}
	text = strings.ReplaceAll(text, "#fragment1", "#f1")
	if prefix != "" {
		text = strings.TrimSuffix(text, "#f1") + prefix + " #f1"
	}
	if !strings.EqualFold(text, want+" ON #f1") {
		return "the join is built as " + text
	}
	return ""
}

var onlyFragment = regexp.MustCompile(`^\s*#f(ragment)?1\s*$`)

// clauseForm is the keyword and the separator of a clause that is a fragment.
var clauseForm = map[string][2]string{
	rSelects: {"SELECT", ","},
	rConds:   {"WHERE", "AND"},
	rGroups:  {"GROUP BY", ","},
	rOrders:  {"ORDER BY", ","},
}

// ctorRule: a new query builder holds nothing.
func (m *queryModel) ctorRule() {
	c := m.c
	pos := c.P.Pos(m.ctor.Fn.Pos())
	s := m.qb.Underlying().(*types.Struct)
	fr := m.frag.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := c.loadField(m.ctor, m.ctorSt, m.obj, m.qb, f.Name())
		c.Count("constructor fields", 1)
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			if !emptyList(v) {
				c.Fail("setters", "NewQueryBuilder", pos, "%s isn't empty", f.Name())
			}
		case *types.Map:
			if v.Op != engine.OObj || len(m.ctor.X.MapEntries(m.ctorSt, v)) > 0 {
				c.Fail("setters", "NewQueryBuilder", pos, "%s isn't a new map", f.Name())
			}
		case *types.Basic:
			if z := m.ctor.X.Zero(u); v != z && v.Op != engine.OZero && v != m.ctor.X.Zero(f.Type()) {
				c.Fail("setters", "NewQueryBuilder", pos, "%s is %s", f.Name(), v)
			}
		case *types.Pointer:
			if !m.isFragPtr(f.Type()) {
				continue
			}
			if v.Op != engine.OObj {
				c.Fail("setters", "NewQueryBuilder", pos, "%s isn't a new fragment", f.Name())
				continue
			}
			for j := 0; j < fr.NumFields(); j++ {
				if _, ok := fr.Field(j).Type().Underlying().(*types.Slice); ok {
					if !emptyList(c.loadField(m.ctor, m.ctorSt, v, m.frag, fr.Field(j).Name())) {
						c.Fail("setters", "NewQueryBuilder", pos, "%s has %s", f.Name(), fr.Field(j).Name())
					}
				}
			}
		}
	}
}

// clause is a part of the text of a query.
type clause struct {
	wrapped bool // each element is in parentheses after UNION
	role    string
	ev      *Event      // the build of its fragment
	lam     *engine.Lam // the list of its texts
	sep     *T
	term    *T
	keyed   bool // brings its keyword
}

// queryText is the text of a path partition of the build of a query.
type queryText struct {
	m       *queryModel
	r       *Run
	o       *engine.Outcome
	problem string
	leafs   []clause
}

func (q *queryText) fail(format string, args ...any) {
	if q.problem == "" {
		q.problem = fmt.Sprintf(format, args...)
	}
}

// textRule: the texts of the queries.
func (m *queryModel) textRule(method string, distinct bool) {
	c := m.c
	r := m.buildBy(method, distinct)
	if r == nil {
		return
	}
	seen := map[string]bool{}
	for _, o := range r.Outs {
		if !m.succeeds(r, o) {
			continue
		}
		q := &queryText{m: m, r: r, o: o}
		pos := c.P.Pos(o.RetPos)
		text := render(o.Vals[0], o.St.Facts, q.leaf)
		c.Count("texts", 1)
		q.form(text, distinct)
		for _, role := range []string{rCTEs, rConds, rGroups, rOrders, rUnions, rLimit, rOffset} {
			c.Count("clauses", 1)
			q.presence(role)
		}
		for i := range q.leafs {
			q.elements(&q.leafs[i])
		}
		if q.problem != "" {
			c.Fail("text", c.name(r.Fn), pos, "%s", q.problem)
		} else if !seen[text] {
			seen[text] = true
			c.Sample("%s", text)
		}
	}
}

func (q *queryText) add(l clause) string {
	q.leafs = append(q.leafs, l)
	return open + l.role + shut
}

// leaf names the parts of the text.
func (q *queryText) leaf(t *T) string {
	m, f := q.m, q.o.St.Facts
	if ev := evOf(t); ev != nil && ev.Kind == engine.EvBuild && len(ev.Res) == 2 && ev.Res[0] == t {
		sn := m.snaps[ev]
		if len(sn) == 0 {
			return ""
		}
		if f.StrEmpty(t) {
			return ""
		}
		s := sn[0]
		if len(sn) > 1 {
			return open + "?several fragments" + shut
		}
		role, p := q.listRole(s.list)
		if p != "" {
			q.fail("%s", p)
			return open + "?" + p + shut
		}
		raw, ok := m.strOf(q.r, s.raw)
		j := joinAll.FindStringSubmatch(raw)
		if !ok || j == nil {
			q.fail("the %s is built with the template %s", role, clip(s.raw.String()))
			return open + "?" + role + shut
		}
		if role == "" {
			return ""
		}
		if sep := clauseForm[role][1]; !strings.EqualFold(strings.TrimSpace(j[1]), sep) || sep == "AND" && strings.TrimSpace(j[1]) == j[1] {
			q.fail("the elements of %s are joined with %q", role, j[1])
		}
		if x, ok := m.strOf(q.r, s.suffix); !ok || x != "" || !emptyList(m.constant(q.r, s.args)) {
			q.fail("the fragment of %s has a suffix or args", role)
		}
		prefix, ok := m.strOf(q.r, s.prefix)
		if !ok {
			q.fail("the prefix of %s is %s", role, clip(s.prefix.String()))
		}
		if prefix == "" && !f.StrNonEmpty(t) {
			q.fail("%s may have no text, but keyword or separator", role)
		}
		return prefix + " " + q.add(clause{role: role, ev: ev, term: t, keyed: prefix != ""})
	}
	if t.Op == engine.OApp && t.Aux == "strings.Join" {
		if l := q.madeBy(t.Args[0]); l != nil {
			role := q.loopRole(l)
			if role == "" {
				return ""
			}
			if sep, ok := t.Args[1].StrVal(); ok && role == rUnions && strings.TrimSpace(sep) == "" {
				return "UNION (" + q.add(clause{role: role, lam: l, sep: t.Args[1], term: t.Args[0], wrapped: true}) + ")"
			}
			if role != rTables && !f.LeqK(engine.Int(1), engine.Len(l.Term), 0) {
				q.fail("%s may be an empty list", role)
			}
			return q.add(clause{role: role, lam: l, sep: t.Args[1], term: t.Args[0]})
		}
		return ""
	}
	if l := lamOf(t); l != nil && l.Term == t && isText(t.Typ) {
		return q.grown(l)
	}
	if t.Op == engine.OApp && strings.HasPrefix(t.Aux, "fmt:%d") && len(t.Args) == 1 {
		for _, role := range []string{rLimit, rOffset} {
			if v := m.value(q.r, q.r.Base, role); t.Args[0] == v || unconv(t.Args[0]) == v {
				if !f.LeqK(engine.Int(1), v, 0) {
					q.fail("%s may not be positive", role)
				}
				return q.add(clause{role: role, term: t})
			}
		}
	}
	return ""
}

func unconv(t *T) *T {
	for t.Op == engine.OConv || t.Op == engine.OIface {
		t = t.Args[0]
	}
	return t
}

func isText(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// separators begin what an iteration adds to a text.
var separators = map[string]*regexp.Regexp{
	rCTEs:   regexp.MustCompile(`^\s*,\s*`),
	rTables: regexp.MustCompile(`^\s+`),
	rUnions: regexp.MustCompile(`(?i)^\s*(?:\)\s*UNION\s*\(\s*|\s+)`),
}

// grown is a text that the iterations of a loop add to.
func (q *queryText) grown(l *engine.Lam) string {
	f := q.o.St.Facts
	role := q.loopRole(l)
	if separators[role] == nil {
		return ""
	}
	init, ok := l.Init.StrVal()
	if l.Init.Op == engine.OZero {
		ok = true
	}
	if !ok || role != rTables && init != "" {
		return ""
	}
	cl := clause{role: role, lam: l, term: l.Term}
	for _, b := range l.Sum.Backs {
		if rest, _ := q.grows(l, b); rest != nil && strings.HasPrefix(strings.ToUpper(render(rest, b.St.Facts, func(*T) string { return "" })), "UNION (") {
			cl.wrapped = true
		}
	}
	if cl.wrapped {
		return "UNION (" + q.add(cl) + ")"
	}
	if role != rTables && !f.StrNonEmpty(l.Term) {
		q.fail("%s may be an empty text", role)
	}
	if strings.TrimSpace(init) != "" {
		init += " "
	}
	return init + q.add(cl)
}

// grows is what an iteration adds to a text without the separator.
func (q *queryText) grows(l *engine.Lam, b *engine.Back) (rest, sep *T) {
	v := b.Upd[l.Term]
	if v == nil || v == l.Term || v.Op != engine.OConcat || v.Args[0] != l.Term {
		return nil, nil
	}
	parts := append([]*T(nil), v.Args[1:]...)
	if s, ok := parts[0].StrVal(); ok {
		if m := separators[q.loopRole(l)].FindString(s); m != "" {
			sep = engine.Str(m)
			parts[0] = engine.Str(s[len(m):])
		}
	}
	return engine.Concat(parts...), sep
}

// separated: an iteration adds a separator unless it's the first.
func (q *queryText) separated(l *engine.Lam, b *engine.Back, idx, sep *T) bool {
	f := b.St.Facts
	if sep == nil {
		return f.StrEmpty(l.Term) || f.LeqK(idx, engine.Int(0), 0)
	}
	if s, _ := sep.StrVal(); strings.TrimSpace(s) == "" || f.StrNonEmpty(l.Term) {
		return true
	}
	for _, b := range l.Sum.Backs {
		if b.Upd[l.Term] == nil || b.Upd[l.Term] == l.Term {
			return false
		}
	}
	return f.LeqK(engine.Int(1), idx, 0)
}

// listRole is the clause a list of fragments belongs to.
func (q *queryText) listRole(list *T) (role, problem string) {
	m := q.m
	if emptyList(list) {
		return "", ""
	}
	for _, ro := range []string{rSelects, rConds, rGroups} {
		if uncap(list) == m.list(q.r, q.r.Base, ro) {
			return ro, ""
		}
	}
	if l := q.madeBy(list); l != nil {
		if ro := q.loopRole(l); ro == rOrders {
			return ro, ""
		}
	}
	return "", "a fragment is built with the list " + clip(list.String())
}

// madeBy is what a loop makes of the elements of a list of the query builder:
// it appends to it, or sets the elements.
func (q *queryText) madeBy(list *T) *engine.Lam {
	list = uncap(list)
	if l := lamOf(list); l != nil {
		return l
	}
	if list.Op != engine.OMake {
		return nil
	}
	for _, k := range sortedSums(q.r.X.Sums) {
		sum := q.r.X.Sums[k]
		sets := 0
		l := &engine.Lam{Term: list, Sum: sum}
		for _, ro := range []string{rCTEs, rTables, rOrders, rUnions} {
			src := q.m.value(q.r, q.r.Base, ro)
			if f := q.o.St.Facts; !f.LeqK(engine.Len(list), engine.Len(src), 0) || !f.LeqK(engine.Len(src), engine.Len(list), 0) {
				continue
			}
			for _, b := range sum.Backs {
				if idx := q.indexIn(sum, b, src); idx != nil && elemSet(b, list, idx) != nil {
					sets++
				}
			}
		}
		if sets > 0 {
			return l
		}
	}
	return nil
}

// elemSet is what an iteration sets an element of a list to.
func elemSet(b *engine.Back, list, idx *T) *T {
	for a, v := range b.St.Heap {
		if a.Op == engine.OIndexAddr && a.Args[0] == list && a.Args[1] == idx {
			return v
		}
	}
	return nil
}

// loopRole is the list of the query builder that a loop that makes a list is about.
func (q *queryText) loopRole(l *engine.Lam) string {
	m := q.m
	role := ""
	var roles []string
	for _, ro := range []string{rCTEs, rTables, rOrders, rUnions} {
		roles = append(roles, ro)
	}
	sort.Strings(roles)
	for _, b := range l.Sum.Backs {
		for _, ro := range roles {
			src := m.value(q.r, q.r.Base, ro)
			idx := q.indexIn(l.Sum, b, src)
			if idx == nil {
				continue
			}
			if role != "" && role != ro {
				return ""
			}
			role = ro
		}
	}
	return role
}

// indexIn is the index of the elements of a list that a loop takes in order.
func (q *queryText) indexIn(sum *LoopSum, b *engine.Back, src *T) (idx *T) {
	for _, l := range sum.Lams {
		if l.Phi == nil || l.Init == nil {
			continue
		}
		n, ok := l.Init.IntVal()
		if !ok {
			continue
		}
		i := engine.Lin(l.Term, -n)
		if q.m.c.walksAll(sum, b, src, i, nil) && b.St.Facts.LeqK(i, engine.Len(src), -1) {
			idx = i
		}
	}
	return idx
}

var queryForm = regexp.MustCompile(`^(WITH ⟦WITH⟧ )?(SELECT(?: DISTINCT)?) ⟦SELECT⟧(, ⟦ORDER BY⟧)? FROM ⟦FROM⟧( WHERE ⟦WHERE⟧)?( GROUP BY ⟦GROUP BY⟧)?( ORDER BY ⟦ORDER BY⟧)?( LIMIT ⟦LIMIT⟧)?( OFFSET ⟦OFFSET⟧)?( UNION \(⟦UNION⟧\))?$`)

func (q *queryText) form(text string, distinct bool) {
	norm := regexp.MustCompile(`[^⟦⟧]+|⟦[^⟧]*⟧`).ReplaceAllStringFunc(text, func(s string) string {
		if strings.HasPrefix(s, open) {
			return s
		}
		return strings.ToUpper(s)
	})
	g := queryForm.FindStringSubmatch(norm)
	if g == nil {
		q.fail("the text is %s", text)
		return
	}
	if (g[2] == "SELECT DISTINCT") != distinct {
		q.fail("a query that is distinct (%v) has the text %s", distinct, text)
	}
}

// presence: a clause that isn't in the text has nothing.
func (q *queryText) presence(role string) {
	m, f := q.m, q.o.St.Facts
	for _, l := range q.leafs {
		if l.role == role && (role != rOrders || q.prefixOf(l) == rOrders) {
			return
		}
	}
	v := m.value(q.r, q.r.Base, role)
	switch role {
	case rLimit, rOffset:
		if f.LeqK(v, engine.Int(0), 0) {
			return
		}
		q.fail("%s isn't in the text although it may be positive", role)
		return
	}
	if f.LeqK(engine.Len(m.list(q.r, q.r.Base, role)), engine.Int(0), 0) {
		return
	}
	for _, ev := range q.o.St.Trace.Events() {
		if ev.Kind == engine.EvBuild && len(ev.Res) == 2 && f.StrEmpty(ev.Res[0]) {
			for _, s := range m.snaps[ev] {
				if ro, p := q.listRole(s.list); p == "" && ro == role {
					if x, _ := m.strOf(q.r, s.prefix); role != rOrders || strings.EqualFold(x, rOrders) {
						return
					}
				}
			}
		}
		if ev.Loop != nil {
			for _, l := range ev.Loop.Lams {
				if l.Ver == "" && l.Term.Typ != nil && f.LeqK(engine.Len(l.Term), engine.Int(0), 0) && q.loopRole(l) == role {
					if _, ok := l.Term.Typ.Underlying().(*types.Slice); ok || isText(l.Term.Typ) {
						lc := clause{role: role, lam: l}
						q.elements(&lc)
						return
					}
				}
			}
		}
	}
	if role == rCTEs {
		// C17 decides which are needed
		p := &ctePartition{m: m, d: m.dependencies("text"), r: q.r, q: q, s: &scope{r: q.r, f: f, evs: q.o.St.Trace.Events()}}
		if p.empty() != nil {
			return
		}
	}
	q.fail("%s isn't in the text although it may have elements", role)
}

func (q *queryText) prefixOf(l clause) string {
	if l.ev == nil {
		return ""
	}
	for _, s := range q.m.snaps[l.ev] {
		if x, ok := q.m.strOf(q.r, s.prefix); ok {
			return strings.ToUpper(strings.TrimSpace(x))
		}
	}
	return ""
}

// elements: the list of texts has that of each element in order.
func (q *queryText) elements(l *clause) {
	m := q.m
	if l.lam == nil {
		if l.role != rOrders {
			return
		}
		for _, s := range m.snaps[l.ev] {
			if lam := q.madeBy(s.list); lam != nil {
				q.walk(lam, rOrders, nil)
			}
		}
		return
	}
	if l.sep != nil && !l.wrapped {
		sep, _ := l.sep.StrVal()
		want := map[string]string{rCTEs: `^\s*,\s*$`, rTables: `^\s+$`, rUnions: `(?i)^\s*\)\s*UNION\s*\(\s*$`}[l.role]
		if want == "" || !regexp.MustCompile(want).MatchString(sep) {
			q.fail("the elements of %s are joined with %s", l.role, clip(l.sep.String()))
		}
	}
	q.walk(l.lam, l.role, func(b *engine.Back, role string, elem, t *T) string {
		return q.elementText(b, role, elem, t, l.wrapped)
	})
}

// walk: each iteration of the loop adds one element, for one of the list.
func (q *queryText) walk(lam *engine.Lam, role string, text func(b *engine.Back, role string, elem, t *T) string) {
	m := q.m
	src := m.value(q.r, q.r.Base, role)
	et := m.elemType(role)
	grown, made := isText(lam.Term.Typ), lam.Term.Op == engine.OMake
	if !grown && !made && !emptyList(lam.Init) {
		q.fail("the list of %s starts with %s", role, clip(lam.Init.String()))
		return
	}
	for _, b := range lam.Sum.Backs {
		m.c.Count("list iterations", 1)
		idx := q.indexIn(lam.Sum, b, src)
		if idx == nil {
			q.fail("the elements of %s are not taken in order", role)
			return
		}
		if !m.c.walksAll(lam.Sum, b, src, idx, q.o.St.Facts) {
			q.fail("not all elements of %s are taken", role)
			return
		}
		elem := q.r.X.Load(b.St, q.r.X.IndexAddr(src, idx, et), et)
		v := b.Upd[lam.Term]
		if made {
			v = elemSet(b, lam.Term, idx)
			if v == nil {
				q.fail("an iteration doesn't set the element of %s", role)
				return
			}
			if text == nil {
				continue
			}
			if p := text(b, role, elem, v); p != "" {
				q.fail("%s", p)
			}
			continue
		}
		if v == lam.Term || v == nil {
			if p := q.skipped(b, role, elem); p != "" {
				q.fail("an element of %s is left out, %s", role, p)
			}
			continue
		}
		if grown {
			rest, sep := q.grows(lam, b)
			if rest == nil {
				q.fail("an iteration makes the text of %s %s", role, clip(v.String()))
				return
			}
			if !q.separated(lam, b, idx, sep) {
				q.fail("the elements of %s are not separated", role)
			}
			if text == nil {
				continue
			}
			if p := text(b, role, elem, rest); p != "" {
				q.fail("%s", p)
			}
			continue
		}
		its := engine.Items(v)
		if len(its) != 2 || its[0].Op != engine.OSpread || uncap(its[0].Args[0]) != lam.Term {
			q.fail("an iteration makes the list of %s %s", role, clip(v.String()))
			return
		}
		if text == nil {
			continue
		}
		if p := text(b, role, elem, its[1]); p != "" {
			q.fail("%s", p)
		}
	}
}

// elementText: the text of an element is what it builds.
func (q *queryText) elementText(b *engine.Back, role string, elem, t *T, wrapped bool) string {
	m, f := q.m, b.St.Facts
	et := m.elemType(role)
	src := elem
	form := "^⟦built⟧$"
	if wrapped {
		form = `^UNION \( ?⟦built⟧ ?\)$`
	}
	var name *T
	switch role {
	case rTables:
		src = m.part(q.r, b.St, elem, et, m.isFragPtr)
	case rCTEs:
		src = m.part(q.r, b.St, elem, et, func(t types.Type) bool { return types.IsInterface(t) })
		name = m.part(q.r, b.St, elem, et, isType(m.sqlb("Table")))
		form = `^⟦name⟧ AS ?\( ?⟦built⟧ ?\)$`
	}
	if src == nil {
		return "an element of " + role + " has nothing to build"
	}
	empty := false
	got := render(t, f, func(t *T) string {
		if name != nil && unconv(t) == name {
			return open + "name" + shut
		}
		ev := evOf(t)
		if ev == nil || ev.Kind != engine.EvBuild || len(ev.Res) != 2 || ev.Res[0] != t || ev.Recv == nil || unboxed(ev.Recv) != unboxed(src) {
			return ""
		}
		if role != rTables && !f.StrNonEmpty(t) {
			empty = true
		}
		return open + "built" + shut
	})
	if !regexp.MustCompile("(?i)" + form).MatchString(got) {
		return "the text of an element of " + role + " is " + got
	}
	if empty {
		return "an element of " + role + " without text is added"
	}
	return ""
}

// skipped: what an iteration that adds nothing knows.
func (q *queryText) skipped(b *engine.Back, role string, elem *T) string {
	m, f := q.m, b.St.Facts
	et := m.elemType(role)
	switch role {
	case rTables:
		if opt := m.part(q.r, b.St, elem, et, isBool); opt != nil {
			if v, known := f.Eval(opt); !known || !v {
				return "although it may not be optional"
			}
		}
		if v, known := f.Eval(m.value(q.r, q.r.Base, rDistinct)); !known || !v {
			return "although the query isn't distinct"
		}
		return ""
	case rCTEs:
		// C17 decides which are needed
		name := m.part(q.r, b.St, elem, et, isType(m.sqlb("Table")))
		for t := range f.Lits() {
			if name != nil && t.Mentions(name) {
				return ""
			}
		}
	}
	for _, ev := range b.Evs {
		if ev.Kind == engine.EvBuild && len(ev.Res) == 2 && f.StrEmpty(ev.Res[0]) {
			return ""
		}
	}
	return "although it may have a text"
}
