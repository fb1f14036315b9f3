package main

import (
	"go/constant"
	"go/types"

	"verif/checker/engine"
)

func init() {
	checks["C18"] = &Check{
		Rule: "a partition of a builder method that collects no error knows that the name of the table is not empty, that the order is one of the constants, that a table it joins isn't the one of FROM, and that the one of FROM isn't joined; no method drops errors; a successful partition of a build knows that no errors are collected, that there's a FROM table with a name, that the selected columns have a text, and that all calls of markers of tables succeeded, which are made for all names that the selected columns, the conditions, the groups and the columns of the orders refer to; a marker fails on each partition where the name is the one of no table, and on each where a call of a marker for the references of a table's fragment fails",
		Run:  checkC18,
	}
}

func checkC18(c *C) {
	m := c.queryModel()
	if m == nil {
		return
	}
	m.misuseRule()
	d := m.dependencies("undefined")
	d.undefined = true
	for _, name := range []string{"BuildFragment", "BuildQuery"} {
		for _, distinct := range []bool{false, true} {
			m.failsRule(d, name, distinct)
		}
	}
	d.decide()
	c.Need("misuse partitions", 20)
	c.Need("successful partitions", 100)
	c.Need("marker partitions", 2)
	c.Need("reference classes", 8)
}

// misuseRule: what builder methods do not accept is an error.
func (m *queryModel) misuseRule() {
	c := m.c
	ms := types.NewMethodSet(types.NewPointer(m.qb))
	tables := 0
	for i := 0; i < ms.Len(); i++ {
		name := ms.At(i).Obj().Name()
		if !ms.At(i).Obj().Exported() || name == "BuildQuery" || name == "BuildFragment" {
			continue
		}
		r := m.method(name)
		if r == nil {
			continue
		}
		for _, s := range m.partitions(r) {
			pos := c.P.Pos(s.o.RetPos)
			as, ok := additions(s.old(rErrors), s.now(rErrors), s.o.St.Facts)
			if !ok {
				c.Fail("misuse", c.name(r.Fn), pos, "the errors collected become %s", clip(s.now(rErrors).String()))
			}
			if s.impossible() {
				continue
			}
			c.Count("misuse partitions", 1)
			rejects := false
			for _, a := range as {
				if a.sum == nil && !a.spread && s.o.St.Facts.NonNil(a.elem) {
					rejects = true
				}
			}
			if rejects {
				if len(s.o.Vals) == 1 && types.Identical(r.Fn.Signature.Results().At(0).Type(), types.NewPointer(m.qb)) && s.o.Vals[0] != r.Args[0] {
					c.Fail("misuse", c.name(r.Fn), pos, "an error is collected, but another query builder returned")
				}
				continue
			}
			_, setter := setterSpecs[name]
			for i, a := range s.args {
				switch t := s.typ(i); {
				case types.Identical(t, m.sqlb("TableAliased")) && setter:
					tables++
					if p := s.misused(name, a); p != "" {
						c.Fail("misuse", c.name(r.Fn), pos, "%s", p)
					}
				case types.Identical(t, m.orderType()):
					c.Count("orders", 1)
					lo, hi := m.orderRange()
					f := s.o.St.Facts
					signed := true
					if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
						signed = false
					}
					if !f.LeqK(a, engine.Int(hi), 0) || signed && !f.LeqK(engine.Int(lo), a, 0) {
						c.Fail("misuse", c.name(r.Fn), pos, "an order that may be none of the constants is no error")
					}
				}
			}
		}
	}
	if tables < 6 {
		c.Fail("instances", "misuse", "", "only %d partitions of methods that take tables", tables)
	}
	c.Need("orders", 1)
}

// orderType is the type of the directions of orders.
func (m *queryModel) orderType() types.Type {
	return m.c.methodOf(types.NewPointer(m.qb), "OrderBy").Params[2].Type()
}

func (m *queryModel) orderRange() (lo, hi int64) {
	sc := m.c.P.Sqlb.Pkg.Scope()
	n := 0
	for _, name := range sc.Names() {
		k, ok := sc.Lookup(name).(*types.Const)
		if !ok || !k.Exported() || !types.Identical(k.Type(), m.orderType()) {
			continue
		}
		v, _ := constant.Int64Val(k.Val())
		if n == 0 || v < lo {
			lo = v
		}
		if n == 0 || v > hi {
			hi = v
		}
		n++
	}
	return
}

// misused: a table that's added may have no name, or collide.
func (s *setterRun) misused(name string, t *T) string {
	m, f := s.m, s.o.St.Facts
	n := nameOf(m.c.namedType(m.c.P.Sqlb, "TableAliased"), t, "Name")
	if n == nil || !f.StrNonEmpty(n) {
		return "a table that may have no name is no error"
	}
	key := s.applied(t)
	if key == nil {
		return "doesn't tell the name from the alias"
	}
	at := s.lookup(s.r.Base, rTableDict, key)
	has, known := f.Eval(engine.HasKey(at))
	if f.IsNil(at) {
		has, known = false, true
	} else if f.NonNil(at) {
		has, known = true, true
	}
	if !known {
		if name == "From" && f.LeqK(engine.Len(s.old(rTables)), engine.Int(0), 0) {
			return ""
		}
		return "whether there's a table of the name isn't known"
	}
	if !has {
		return ""
	}
	et := m.elemType(rTables)
	first := s.r.X.Load(s.r.Base, s.r.X.IndexAddr(s.old(rTables), engine.Int(0), et), et)
	same, known := f.Eval(engine.Eq(at, first))
	switch {
	case name == "From" && !(known && same):
		return "a FROM table that may be joined is no error"
	case name != "From" && !(known && !same):
		return "joining a table that may be the one of FROM is no error"
	}
	return ""
}

// failsRule: what successful builds know.
func (m *queryModel) failsRule(d *dependencies, method string, distinct bool) {
	c := m.c
	r := m.buildBy(method, distinct)
	if r == nil {
		return
	}
	fail := func(o *engine.Outcome, format string, args ...any) {
		c.Fail(d.rule, c.name(r.Fn), c.P.Pos(o.RetPos), format, args...)
	}
	for _, o := range r.Outs {
		if !o.Panic && m.value(r, o.St, rErrors) != m.value(r, r.Base, rErrors) {
			fail(o, "building changes the errors collected")
		}
		if !m.succeeds(r, o) {
			continue
		}
		f := o.St.Facts
		c.Count("successful partitions", 1)
		s := &scope{d: d, r: r, b: r.Args[0], f: f, evs: o.St.Trace.Events()}
		if !f.LeqK(engine.Len(s.value(rErrors)), engine.Int(0), 0) {
			fail(o, "a build succeeds although errors may be collected")
		}
		// FROM
		et := m.elemType(rTables)
		first := r.X.Load(r.Base, r.X.IndexAddr(s.value(rTables), engine.Int(0), et), et)
		nm := nameOf(c.namedType(c.P.Sqlb, "TableAliased"), m.part(r, r.Base, first, et, isType(m.sqlb("TableAliased"))), "Name")
		if !f.LeqK(engine.Int(1), engine.Len(s.value(rTables)), 0) || nm == nil || !f.StrNonEmpty(nm) {
			fail(o, "a build succeeds although there may be no FROM table")
		}
		// SELECT
		q := &queryText{m: m, r: r, o: o}
		render(o.Vals[0], f, q.leaf)
		ok := false
		for _, l := range q.leafs {
			ok = ok || l.role == rSelects && f.StrNonEmpty(l.term)
		}
		if !ok {
			fail(o, "a build succeeds although no columns may be selected")
		}
		// undefined tables
		best := map[string]bool{}
		for _, dict := range s.dicts() {
			if got := s.marked(dict); len(got) > len(best) {
				best = got
			}
		}
		for _, ro := range []string{rSelects, rConds, rGroups, rOrders} {
			c.Count("roots", 1)
			if !best[ro] {
				fail(o, "a build succeeds although %s may refer to a table that isn't joined", ro)
			}
		}
	}
}

// dicts are the maps that markers of tables are given.
func (s *scope) dicts() (out []*T) {
	seen := map[*T]bool{}
	eachNested(s.evs, map[*LoopSum]bool{}, func(ev *Event) {
		if ev.Kind != engine.EvCall || s.d.kind(ev.Fn) != kMark {
			return
		}
		if p := s.d.params(ev.Fn, evArgs(ev)); p.dict != nil && !seen[p.dict] {
			seen[p.dict] = true
			out = append(out, p.dict)
		}
	})
	return out
}
