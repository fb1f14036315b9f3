package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C29"] = &Check{
		Rule: "F, Fa and Ff return a new fragment with what they are given and nothing else; WithArgs and WithFragments set their list and AppendArgs and AppendFragments append all given values in order to it, and nothing else changes; tables build their applied name, the alias or, without one, the name; columns build a fragment of 'table.name', or of the name if they are anonymous or their table has no name, and know the applied name of their table; lists of columns have one for each name in order",
		Run:  checkC29,
	}
}

func checkC29(c *C) {
	x := &keeping{c: c, frag: c.fragType(), table: c.namedType(c.P.Sqlb, "Table"), aliased: c.namedType(c.P.Sqlb, "TableAliased"), column: c.namedType(c.P.Sqlb, "Column")}
	if x.frag == nil || x.table == nil || x.aliased == nil || x.column == nil {
		c.Fail("anchor", "types", "", "Fragment, Table, TableAliased or Column was not found")
		return
	}
	x.fragments()
	x.tables()
	x.columns()
	c.Need("fragments made", 3)
	c.Need("fragments changed", 4)
	c.Need("tables", 6)
	c.Need("columns", 12)
	c.Need("lists of columns", 5)
}

// keeping decides that what is given to constructors and setters is kept.
type keeping struct {
	c                            *C
	frag, table, aliased, column *types.Named
}

// same: the lists have the same elements.
func (x *keeping) same(r *Run, st *State, got, want *T) bool {
	f := st.Facts
	if got == nil || want == nil {
		return false
	}
	if uncap(got) == uncap(want) {
		return true
	}
	if (emptyList(got) || f.LeqK(engine.Len(got), engine.Int(0), 0)) && (emptyList(want) || f.LeqK(engine.Len(want), engine.Int(0), 0)) {
		return true
	}
	return x.appended(r, st, engine.Nil, got, want)
}

// appended: the list is the old one and then all values in order.
func (x *keeping) appended(r *Run, st *State, old, now, values *T) bool {
	f := st.Facts
	none := f.LeqK(engine.Len(values), engine.Int(0), 0)
	if n, ok := engine.Len(values).IntVal(); ok && n == 0 {
		none = true
	}
	u := uncap(now)
	if none && (u == uncap(old) || emptyList(old) && emptyList(u)) {
		return true
	}
	if emptyList(old) || f.LeqK(engine.Len(old), engine.Int(0), 0) {
		if u == uncap(values) {
			return true
		}
	}
	parts := r.X.Items(st, u)
	var left []*T
	for _, p := range parts {
		if p.Op == engine.OSpread {
			if l := uncap(p.Args[0]); emptyList(l) {
				continue
			}
		}
		left = append(left, p)
	}
	if !emptyList(old) && len(left) > 0 && left[0].Op == engine.OSpread && uncap(left[0].Args[0]) == uncap(old) {
		left = left[1:]
	} else if !emptyList(old) && !f.LeqK(engine.Len(old), engine.Int(0), 0) {
		// a loop may have added to the old one
		return x.looped(r, f, old, now, values)
	}
	if len(left) == 1 && left[0].Op == engine.OSpread {
		return uncap(left[0].Args[0]) == uncap(values)
	}
	return x.looped(r, f, old, now, values)
}

// looped: a loop over all values in order appended each to the old list.
func (x *keeping) looped(r *Run, f *Facts, old, now, values *T) bool {
	as, ok := additions(old, now, f)
	if !ok || len(as) == 0 {
		return false
	}
	for _, a := range as {
		if a.sum == nil || a.spread || len(as) != len(a.sum.Backs) {
			return false
		}
		e := a.elem
		if e.Op != engine.OLoad || e.Args[0].Op != engine.OIndexAddr || uncap(e.Args[0].Args[0]) != uncap(values) ||
			!x.c.walksAll(a.sum, a.back, values, e.Args[0].Args[1], f) {
			return false
		}
	}
	return true
}

var fragFields = []string{"Raw", "Args", "Fragments", "Prefix", "Suffix"}

func (x *keeping) fragments() {
	c := x.c
	for _, m := range []struct{ name, list string }{{"F", ""}, {"Fa", "Args"}, {"Ff", "Fragments"}} {
		fn := c.P.Root.Func(m.name)
		if fn == nil {
			c.Fail("anchor", m.name, "", "not found")
			continue
		}
		r := c.AnalyseWith(fn, "split", nil, func(r *Run, st *State) { r.X.Split = true })
		for _, o := range r.Outs {
			if o.Panic {
				c.Fail("fragment", c.name(fn), c.P.Pos(o.RetPos), "it may panic")
				continue
			}
			pos := c.P.Pos(o.RetPos)
			res := o.Vals[0]
			if res.Op != engine.OObj {
				c.Fail("fragment", c.name(fn), pos, "returns %s, not a new fragment", clip(res.String()))
				continue
			}
			for _, name := range fragFields {
				got := c.loadField(r, o.St, res, x.frag, name)
				ok := got != nil
				switch {
				case !ok:
				case name == "Raw":
					ok = x.text(o.St.Facts, got, r.Args[0])
				case name == m.list:
					ok = x.same(r, o.St, got, r.Args[1])
				case name == "Args" || name == "Fragments":
					ok = emptyList(uncap(got))
				default:
					ok = o.St.Facts.StrEmpty(got)
				}
				if !ok {
					c.Fail("fragment", c.name(fn), pos, "the %s of the fragment is %s", name, clip(tstr(got)))
				}
			}
			c.Count("fragments made", 1)
		}
	}
	for _, m := range []struct{ name, list string }{{"WithArgs", "Args"}, {"WithFragments", "Fragments"}, {"AppendArgs", "Args"}, {"AppendFragments", "Fragments"}} {
		fn := c.methodOf(types.NewPointer(x.frag), m.name)
		if fn == nil {
			c.Fail("anchor", m.name, "", "not found")
			continue
		}
		r := c.AnalyseWith(fn, "", nil, nonNilRecv)
		for _, o := range r.Outs {
			pos := c.P.Pos(o.RetPos)
			if o.Panic {
				c.Fail("fragment", c.name(fn), pos, "it may panic")
				continue
			}
			if o.Vals[0] != r.Args[0] {
				c.Fail("fragment", c.name(fn), pos, "returns %s, not the fragment", clip(o.Vals[0].String()))
			}
			for _, name := range fragFields {
				old := c.loadField(r, r.Base, r.Args[0], x.frag, name)
				got := c.loadField(r, o.St, r.Args[0], x.frag, name)
				ok := got == old
				if name == m.list {
					if m.name == "With"+name {
						ok = x.same(r, o.St, got, r.Args[1])
					} else {
						ok = x.appended(r, o.St, old, got, r.Args[1])
					}
				}
				if !ok {
					c.Fail("fragment", c.name(fn), pos, "the %s of the fragment becomes %s", name, clip(tstr(got)))
				}
			}
			c.Count("fragments changed", 1)
		}
	}
}

// text: the texts are the same.
func (x *keeping) text(f *Facts, got, want *T) bool {
	got, want = plain(got), plain(want)
	return got == want || f.StrEmpty(got) && f.StrEmpty(want)
}

// plain is a text without the conversions between types of texts.
func plain(t *T) *T {
	for t.Op == engine.OConv && isText(t.Typ) && isText(t.Args[0].Typ) {
		t = t.Args[0]
	}
	return t
}

// applied are the values a table may be applied as, with what must be known.
func (x *keeping) applied(r *Run, t *T, st *State, got *T) bool {
	f := st.Facts
	if types.Identical(r.Fn.Params[0].Type(), x.table) {
		return x.text(f, got, t)
	}
	name, alias := x.field(r, st, t, "Name"), x.field(r, st, t, "Alias")
	if name == nil || alias == nil {
		return false
	}
	switch {
	case f.StrNonEmpty(alias):
		return x.text(f, got, alias)
	case f.StrEmpty(alias):
		return x.text(f, got, name)
	}
	return false
}

func (x *keeping) field(r *Run, st *State, t *T, name string) *T {
	i := fieldIndex(x.aliased, name)
	if i < 0 {
		return nil
	}
	return engine.FieldOf(t, i, x.aliased.Underlying().(*types.Struct).Field(i).Type())
}

func (x *keeping) tables() {
	c := x.c
	for _, m := range []struct {
		t    *types.Named
		name string
	}{{x.table, "BuildFragment"}, {x.aliased, "BuildFragment"}, {x.aliased, "AppliedName"}} {
		fn := c.methodOf(m.t, m.name)
		if fn == nil {
			c.Fail("anchor", m.t.Obj().Name()+"."+m.name, "", "not found")
			continue
		}
		r := c.AnalyseWith(fn, "split", nil, func(r *Run, st *State) { r.X.Split = true })
		for _, o := range r.Outs {
			pos := c.P.Pos(o.RetPos)
			if o.Panic {
				c.Fail("table", c.name(fn), pos, "it may panic")
				continue
			}
			if len(o.Vals) > 1 && !o.St.Facts.IsNil(o.Vals[1]) {
				c.Fail("table", c.name(fn), pos, "it may return an error")
			}
			if !x.applied(r, r.Args[0], o.St, o.Vals[0]) {
				c.Fail("table", c.name(fn), pos, "returns %s, not the name the table is applied as", clip(o.Vals[0].String()))
			}
			c.Count("tables", 1)
		}
	}
	if fn := c.methodOf(x.aliased, "Names"); fn == nil {
		c.Fail("anchor", "TableAliased.Names", "", "not found")
	} else {
		r := c.Analyse(fn)
		for _, o := range r.Outs {
			var its []*T
			if !o.Panic {
				its = r.X.Items(o.St, o.Vals[0])
			}
			f := o.St.Facts
			if len(its) != 2 || !x.text(f, its[0], x.field(r, o.St, r.Args[0], "Name")) || !x.text(f, its[1], x.field(r, o.St, r.Args[0], "Alias")) {
				c.Fail("table", c.name(fn), c.P.Pos(o.RetPos), "it doesn't return the name and then the alias")
			}
			c.Count("tables", 1)
		}
	}
	mk := c.P.Sqlb.Func("NewTableAliased")
	with := c.methodOf(x.aliased, "WithAlias")
	for _, fn := range []*ssa.Function{mk, with} {
		if fn == nil || len(fn.Params) != 2 {
			c.Fail("anchor", "NewTableAliased, WithAlias", "", "not found")
			continue
		}
		r := c.AnalyseWith(fn, "split", nil, func(r *Run, st *State) { r.X.Split = true })
		for _, o := range r.Outs {
			pos := c.P.Pos(o.RetPos)
			if o.Panic {
				c.Fail("table", c.name(fn), pos, "it may panic")
				continue
			}
			name, alias := r.Args[0], r.Args[1]
			if fn == with {
				name = x.field(r, r.Base, r.Args[0], "Name")
			}
			gn, ga := x.field(r, o.St, o.Vals[0], "Name"), x.field(r, o.St, o.Vals[0], "Alias")
			if gn == nil || ga == nil || !x.text(o.St.Facts, gn, name) || !x.text(o.St.Facts, ga, alias) {
				c.Fail("table", c.name(fn), pos, "the table is %s, with the alias %s", clip(tstr(gn)), clip(tstr(ga)))
			}
			c.Count("tables", 1)
		}
	}
}

func (x *keeping) columns() {
	c := x.c
	for _, t := range []*types.Named{x.table, x.aliased} {
		for _, name := range []string{"Column", "AnonymousColumn"} {
			for _, list := range []string{"", "s"} {
				fn := c.methodOf(t, name+list)
				if fn == nil {
					c.Fail("anchor", t.Obj().Name()+"."+name+list, "", "not found")
					continue
				}
				what := func(r *Run, st *State, n, e *T) string {
					return x.columnOf(r, st, e, r.Args[0], n, name == "Column")
				}
				x.made(fn, 1, list != "", what)
			}
		}
	}
	expr := func(r *Run, st *State, n, e *T) string { return x.exprOf(r, st, e, n) }
	for i, name := range []string{"ExprColumn", "ExprColumns"} {
		fn := c.P.Sqlb.Func(name)
		if fn == nil {
			c.Fail("anchor", name, "", "not found")
			continue
		}
		x.made(fn, 0, i == 1, expr)
	}
}

// made decides a function that makes a column or a list of them.
func (x *keeping) made(fn *ssa.Function, arg int, list bool, is func(r *Run, st *State, n, e *T) string) {
	c := x.c
	r := c.AnalyseWith(fn, "split", nil, func(r *Run, st *State) { r.X.Split = true })
	for _, o := range r.Outs {
		pos := c.P.Pos(o.RetPos)
		if o.Panic {
			c.Fail("column", c.name(fn), pos, "it may panic")
			continue
		}
		f := o.St.Facts
		given, res := r.Args[arg], o.Vals[0]
		if !list {
			c.Count("columns", 1)
			if p := is(r, o.St, given, res); p != "" {
				c.Fail("column", c.name(fn), pos, "%s", p)
			}
			continue
		}
		c.Count("lists of columns", 1)
		if f.LeqK(engine.Len(given), engine.Int(0), 0) && (emptyList(res) || f.LeqK(engine.Len(res), engine.Int(0), 0)) {
			continue
		}
		es := c.elementsOf(r, res)
		if es == nil {
			c.Fail("column", c.name(fn), pos, "the list %s is not made of one column for each of those given", clip(res.String()))
			continue
		}
		for _, e := range es {
			c.Count("columns", 1)
			n := x.elem(r, e.sum, e.back, given, fn.Params[arg].Type(), f)
			if n == nil {
				c.Fail("column", c.name(fn), pos, "the loop may not be over all those given in order")
				break
			}
			if p := is(r, e.back.St, n, e.elem); p != "" {
				c.Fail("column", c.name(fn), pos, "%s", p)
			}
		}
	}
}

// elem is the value of the list an iteration is about.
func (x *keeping) elem(r *Run, sum *LoopSum, b *engine.Back, list *T, lt types.Type, f *Facts) *T {
	for _, l := range sum.Lams {
		if l.Phi == nil || l.Init == nil {
			continue
		}
		n, ok := l.Init.IntVal()
		if !ok {
			continue
		}
		idx := engine.Lin(l.Term, -n)
		if x.c.walksAll(sum, b, list, idx, f) {
			et := lt.Underlying().(*types.Slice).Elem()
			return r.X.Load(b.St, r.X.IndexAddr(list, idx, et), et)
		}
	}
	return nil
}

// built is the fragment a column builds.
func (x *keeping) built(r *Run, st *State, col *T) (*T, string) {
	if col.Op != engine.OObj {
		return nil, "it is " + clip(col.String()) + ", not a new column"
	}
	fn := x.c.methodOf(types.NewPointer(x.column), "BuildFragment")
	if fn == nil {
		return nil, "columns can't be built"
	}
	e := *r.X
	s := st.Clone()
	s.Trace = engine.NewState().Trace
	ctx := engine.Sym("column:ctx", types.NewPointer(x.c.ctxType()))
	outs, err := (&e).Run(fn, s, []*T{col, ctx})
	if err != nil {
		return nil, "building the column is not decided"
	}
	var frag *T
	for _, o := range outs {
		if o.Panic {
			return nil, "building the column may panic"
		}
		n := 0
		for _, ev := range o.St.Trace.Events() {
			if ev.Kind != engine.EvBuild {
				continue
			}
			t := ev.Recv
			if t == nil && len(ev.Args) > 0 {
				t = ev.Args[0]
			}
			n++
			if frag != nil && frag != t {
				return nil, "building the column builds different fragments"
			}
			frag = t
			if len(o.Vals) != 2 || len(ev.Res) == 0 || !x.text(o.St.Facts, o.Vals[0], ev.Res[0]) {
				return nil, "building the column returns " + clip(o.Vals[0].String())
			}
		}
		if n != 1 && !(len(o.Vals) == 2 && o.St.Facts.NonNil(o.Vals[1])) {
			return nil, "building the column builds no fragment"
		}
	}
	if frag == nil {
		return nil, "building the column builds no fragment"
	}
	return frag, ""
}

// columnOf decides that the column is the one of the name of the table.
func (x *keeping) columnOf(r *Run, st *State, col, table, name *T, prefixed bool) string {
	frag, p := x.built(r, st, col)
	if p != "" {
		return p
	}
	if frag.Op != engine.OObj {
		return "the column builds " + clip(frag.String())
	}
	f := st.Facts
	raw := plain(x.c.loadField(r, st, frag, x.frag, "Raw"))
	for _, l := range []string{"Args", "Fragments"} {
		if v := x.c.loadField(r, st, frag, x.frag, l); v == nil || !emptyList(uncap(v)) {
			return "the column has " + l + ": " + clip(tstr(v))
		}
	}
	for _, l := range []string{"Prefix", "Suffix"} {
		if v := x.c.loadField(r, st, frag, x.frag, l); v == nil || !f.StrEmpty(v) {
			return "the column has a " + l + ": " + clip(tstr(v))
		}
	}
	// what it knows of its table
	s := x.column.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), x.table) {
			t := r.X.Load(st, r.X.FieldAddr(col, x.column, i), x.table)
			if !x.applied(r, table, st, t) {
				return "the column is of the table " + clip(t.String()) + ", not the one it was made of"
			}
		}
	}
	if f.StrEmpty(name) {
		if f.StrEmpty(raw) {
			return ""
		}
	}
	if x.text(f, raw, name) {
		if !prefixed || f.StrEmpty(name) || x.unnamed(r, st, table) {
			return ""
		}
		return "the column is " + clip(raw.String()) + ", without the table"
	}
	if prefixed && raw.Op == engine.OConcat && len(raw.Args) == 3 && x.applied(r, table, st, raw.Args[0]) && x.text(f, raw.Args[2], name) {
		if v, ok := raw.Args[1].StrVal(); ok && v == "." {
			if x.unnamedMay(r, st, table) {
				return "the column is '.name' if the table has no name"
			}
			return ""
		}
	}
	return "the column is " + clip(raw.String())
}

// unnamed: the table is known to be applied as nothing.
func (x *keeping) unnamed(r *Run, st *State, t *T) bool {
	return x.applied(r, t, st, engine.Str(""))
}

// unnamedMay: the table may be applied as nothing.
func (x *keeping) unnamedMay(r *Run, st *State, t *T) bool {
	f := st.Facts
	if types.Identical(r.Fn.Params[0].Type(), x.table) {
		return !f.StrNonEmpty(t)
	}
	name, alias := x.field(r, st, t, "Name"), x.field(r, st, t, "Alias")
	return !f.StrNonEmpty(alias) && !f.StrNonEmpty(name)
}

// exprOf decides that the column builds the fragment.
func (x *keeping) exprOf(r *Run, st *State, col, frag *T) string {
	got, p := x.built(r, st, col)
	if p != "" {
		return p
	}
	if got != frag {
		return "the column builds " + clip(got.String()) + ", not the fragment it was made of"
	}
	return ""
}
