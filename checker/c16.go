package main

import (
	"go/types"

	"verif/checker/engine"
)

func init() {
	checks["C16"] = &Check{
		Rule: "in each successful path partition of the build of a DISTINCT query, an iteration over the tables that adds nothing to FROM knows that the table is optional and that it isn't in the map of the needed tables, as the map is in the end; before, loops over all names that the selected columns, the conditions, the groups, the columns of the orders and the joins that are not optional refer to have called a marker with the map; a marker, on each of its partitions, enters the table of the name to the map and calls itself for all names that the fragment of the table refers to, but the table's own; an extractor, on each iteration over a list of fragments, adds the name if the element is a column of a table, a table or an aliased one, and looks at the fragments in it otherwise",
		Run:  checkC16,
	}
}

func checkC16(c *C) {
	m := c.queryModel()
	if m == nil {
		return
	}
	d := m.dependencies("needed")
	m.joinsRule(d)
	d.decide()
	c.Need("optional joins left out", 1)
	c.Need("successful partitions", 50)
	c.Need("marker partitions", 2)
	c.Need("reference classes", 8)
}

// joinsRule: joins that are left out are not in the map of needed tables, which
// has all the query refers to.
func (m *queryModel) joinsRule(d *dependencies) {
	c := m.c
	r := m.build(true)
	if r == nil {
		return
	}
	for _, o := range r.Outs {
		if !m.succeeds(r, o) {
			continue
		}
		c.Count("successful partitions", 1)
		pos := c.P.Pos(o.RetPos)
		q := &queryText{m: m, r: r, o: o}
		render(o.Vals[0], o.St.Facts, q.leaf)
		var from *clause
		for i := range q.leafs {
			if q.leafs[i].role == rTables && q.leafs[i].lam != nil {
				from = &q.leafs[i]
			}
		}
		if from == nil {
			c.Fail(d.rule, c.name(r.Fn), pos, "no loop makes the tables of FROM")
			continue
		}
		s := &scope{d: d, r: r, b: r.Args[0], f: o.St.Facts, evs: o.St.Trace.Events()}
		dicts := map[*T]bool{}
		for _, b := range from.lam.Sum.Backs {
			v := b.Upd[from.lam.Term]
			if v != nil && v != from.lam.Term {
				continue
			}
			c.Count("optional joins left out", 1)
			if !s.optional(from.lam.Sum, b) {
				c.Fail(d.rule, c.name(r.Fn), pos, "a join that may not be optional is left out")
			}
			dict := s.unneeded(from.lam.Sum, b)
			if dict == nil {
				c.Fail(d.rule, c.name(r.Fn), pos, "a join is left out, but nothing tells that it isn't needed")
				continue
			}
			dicts[dict] = true
		}
		for dict := range dicts {
			if ver := r.X.MapVer(o.St, dict); ver == nil {
				c.Fail(d.rule, c.name(r.Fn), pos, "the map of needed tables isn't known")
				continue
			}
			m.monotone(d.rule, r, dict)
			got := s.marked(dict)
			for _, ro := range []string{rSelects, rConds, rGroups, rOrders, rTables} {
				c.Count("roots", 1)
				if !got[ro] {
					what := "the tables that " + ro + " refers to are not marked as needed"
					if ro == rTables {
						what = "the joins that are not optional are not marked as needed"
					}
					c.Fail(d.rule, c.name(r.Fn), pos, "%s", what)
				}
			}
		}
	}
}

// unneeded is the map of needed tables that an iteration knows to lack its table.
func (s *scope) unneeded(sum *LoopSum, b *engine.Back) *T {
	if t, v := s.neededLookup(sum, b); t != nil && !v {
		return t.Args[0]
	}
	return nil
}

// neededLookup is what an iteration knows of the entry of its table in a map.
func (s *scope) neededLookup(sum *LoopSum, b *engine.Back) (*T, bool) {
	m := s.d.m
	el, _ := s.elem(rTables, sum, b)
	if el == nil {
		return nil, false
	}
	nm := m.part(s.r, b.St, el, m.elemType(rTables), isType(m.sqlb("TableAliased")))
	for t, v := range b.St.Facts.Lits() {
		if t.Op != engine.OLookup && t.Op != engine.OLookupOk || len(t.Args) < 3 {
			continue
		}
		k := t.Args[1]
		switch {
		case k == nm || nm != nil && k.Typ != nil && types.Identical(k.Typ, m.sqlb("TableAliased")) && sameTable(m.c, k, nm):
			s.d.byTable = true
		case k == el:
		case nm != nil && applied(m.c, b.St.Facts, nm) == k && t.Args[0] != s.value(rTableDict):
		default:
			continue
		}
		// as it is in the end
		if t.Args[2] != s.r.X.MapVer(b.St, t.Args[0]) {
			continue
		}
		return t, v
	}
	return nil, false
}

// monotone: nothing is removed from the map.
func (m *queryModel) monotone(rule string, r *Run, dict *T) {
	for _, e := range r.X.Effects {
		if e.Kind != "delete" && e.Kind != "mapupdate" || e.Addr != dict && !(e.Addr.Op == engine.OMapElem && e.Addr.Args[0] == dict) {
			continue
		}
		if e.Kind == "delete" {
			m.c.Fail(rule, m.c.name(e.Fn), m.c.P.Pos(e.Pos), "an entry of the map of needed ones is removed")
		}
		if e.Val != nil {
			if v, ok := e.Val.BoolVal(); ok && !v {
				m.c.Fail(rule, m.c.name(e.Fn), m.c.P.Pos(e.Pos), "an entry of the map of needed ones is set to false")
			}
		}
	}
}
