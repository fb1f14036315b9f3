package main

import (
	"go/types"

	"verif/checker/engine"
)

func init() {
	checks["C17"] = &Check{
		Rule: "in each successful path partition of the build of a query, distinct or not, an iteration over the CTEs that adds one knows that its name is in the map of the needed CTEs, as the map is in the end, and one that adds none knows that it isn't, or that the CTE builds no text; the map is empty before a loop over all tables, of which an iteration calls the marker of CTEs for the CTE that has the name of the table, if there's one, if and only if the table isn't a join that is left out; nothing else is entered to it; the marker enters the name of the CTE it's given, and calls itself for the CTE of each name the CTE depends on",
		Run:  checkC17,
	}
}

func checkC17(c *C) {
	m := c.queryModel()
	if m == nil {
		return
	}
	d := m.dependencies("CTEs")
	for _, distinct := range []bool{false, true} {
		m.ctesRule(d, distinct)
	}
	// C16 decides what's needed besides
	d.extractors, d.markers = nil, nil
	d.decide()
	c.Need("successful partitions", 50)
	c.Need("CTE iterations", 3)
	c.Need("table iterations", 4)
	c.Need("CTE marker partitions", 2)
}

func (m *queryModel) ctesRule(d *dependencies, distinct bool) {
	c := m.c
	r := m.build(distinct)
	if r == nil {
		return
	}
	for _, o := range r.Outs {
		if !m.succeeds(r, o) {
			continue
		}
		c.Count("successful partitions", 1)
		p := &ctePartition{m: m, d: d, r: r, q: &queryText{m: m, r: r, o: o}}
		p.s = &scope{d: d, r: r, b: r.Args[0], f: o.St.Facts, evs: o.St.Trace.Events()}
		p.decide()
		if p.q.problem != "" {
			c.Fail(d.rule, c.name(r.Fn), c.P.Pos(o.RetPos), "%s", p.q.problem)
		}
	}
}

type ctePartition struct {
	m *queryModel
	d *dependencies
	r *Run
	q *queryText
	s *scope
}

func (p *ctePartition) decide() {
	m, q, s := p.m, p.q, p.s
	if s.f.LeqK(engine.Len(s.value(rCTEs)), engine.Int(0), 0) {
		return
	}
	// the map that tells which CTEs are built
	var dict *T
	loops := 0
	for _, ev := range s.evs {
		if ev.Loop == nil || !p.builds(ev.Loop) {
			continue
		}
		loops++
		for _, b := range ev.Loop.Backs {
			m.c.Count("CTE iterations", 1)
			k := p.iteration(ev.Loop, b)
			if k == nil {
				return
			}
			if dict != nil && dict != k {
				q.fail("several maps tell which CTEs are needed")
				return
			}
			dict = k
		}
	}
	if loops == 0 {
		dict = p.empty()
	}
	if dict == nil {
		q.fail("no loop builds the CTEs")
		return
	}
	// what is in it
	if n := p.entered(dict); n != 1 {
		q.fail("%d loops over the tables tell which CTEs are needed", n)
	}
}

// empty is a map that is known to have nothing in the end.
func (p *ctePartition) empty() *T {
	for _, e := range p.s.evs {
		if e.Loop == nil {
			continue
		}
		for _, b := range e.Loop.Backs {
			for _, ev := range b.Evs {
				if ev.Kind != engine.EvCall || p.d.kind(ev.Fn) != kMarkCTE {
					continue
				}
				d := p.d.params(ev.Fn, evArgs(ev)).dict
				if d != nil && p.s.f.LeqK(p.r.X.LenOf(p.q.o.St, d), engine.Int(0), 0) {
					return d
				}
			}
		}
	}
	return nil
}

// builds: a loop over the CTEs that builds them.
func (p *ctePartition) builds(sum *LoopSum) bool {
	built := false
	for _, b := range sum.Backs {
		if el, _ := p.s.elem(rCTEs, sum, b); el == nil {
			return false
		}
		for _, ev := range b.Evs {
			built = built || ev.Kind == engine.EvBuild
		}
	}
	return built
}

// iteration is the map an iteration over the CTEs knows to have the CTE, if it
// builds it, or to lack it.
func (p *ctePartition) iteration(sum *LoopSum, b *engine.Back) *T {
	m, q, s := p.m, p.q, p.s
	el, _ := s.elem(rCTEs, sum, b)
	et := m.elemType(rCTEs)
	name := m.part(p.r, b.St, el, et, isType(m.sqlb("Table")))
	fb := m.part(p.r, b.St, el, et, func(t types.Type) bool { return types.IsInterface(t) })
	if name == nil || fb == nil {
		q.fail("the CTEs have no name or nothing to build")
		return nil
	}
	built := false
	for _, ev := range b.Evs {
		if ev.Kind == engine.EvBuild && ev.Recv != nil && unboxed(ev.Recv) == unboxed(fb) {
			built = true
		}
	}
	for t, v := range b.St.Facts.Lits() {
		if t.Op != engine.OLookup && t.Op != engine.OLookupOk || len(t.Args) < 3 || t.Args[1] != name && t.Args[1] != el {
			continue
		}
		if t.Args[0] == s.value(rCTEDict) || t.Args[0].Op != engine.OObj && t.Args[0].Op != engine.OMake {
			continue
		}
		if t.Args[2] != p.r.X.MapVer(q.o.St, t.Args[0]) {
			q.fail("whether a CTE is needed is looked up before it's known")
			return nil
		}
		if v != built {
			if built {
				q.fail("a CTE is built although it isn't needed")
			} else {
				q.fail("a needed CTE isn't built")
			}
			return nil
		}
		return t.Args[0]
	}
	q.fail("whether a CTE is needed isn't known when it's built or left out")
	return nil
}

// entered counts the loops over the tables that enter the CTEs to the map.
func (p *ctePartition) entered(dict *T) int {
	m, q, s := p.m, p.q, p.s
	n := 0
	for _, e := range p.r.X.Effects {
		if (e.Kind == "mapupdate" || e.Kind == "delete") && e.Addr == dict {
			q.fail("the map of the needed CTEs is changed other than by the marker, at %s", m.c.P.Pos(e.Pos))
		}
	}
	calls := func(evs []*Event) (out []*Event) {
		for _, ev := range evs {
			if ev.Kind == engine.EvCall && p.d.kind(ev.Fn) == kMarkCTE && p.d.params(ev.Fn, evArgs(ev)).dict == dict {
				out = append(out, ev)
			}
		}
		return
	}
	if len(calls(s.evs)) > 0 {
		q.fail("CTEs are marked outside of a loop over the tables")
	}
	for _, ev := range s.evs {
		if ev.Loop == nil {
			continue
		}
		sum := ev.Loop
		marks := false
		for _, b := range sum.Backs {
			eachNested(b.Evs, map[*LoopSum]bool{}, func(e *Event) {
				marks = marks || len(calls([]*Event{e})) > 0
			})
		}
		if !marks {
			continue
		}
		n++
		for _, l := range sum.Lams {
			if l.Loc != nil && l.Loc.Op == engine.OMapVer && len(l.Loc.Args) > 0 && l.Loc.Args[0] == dict && !emptyVer(l.Init) {
				q.fail("the map of the needed CTEs isn't empty at first")
			}
		}
		for _, b := range sum.Backs {
			m.c.Count("table iterations", 1)
			el, _ := s.elem(rTables, sum, b)
			if el == nil {
				q.fail("CTEs are marked by a loop that isn't one over all tables")
				return n
			}
			names := m.part(p.r, b.St, el, m.elemType(rTables), isType(m.sqlb("TableAliased")))
			tn := nameOf(m.c.namedType(m.c.P.Sqlb, "TableAliased"), names, "Name")
			if names == nil || tn == nil {
				q.fail("the tables have no name")
				return n
			}
			in, known := p.inQuery(sum, b)
			switch cs := calls(b.Evs); {
			case known && in:
				if why := s.marksCTE(b, dict, tn, nil); why != "" {
					q.fail("%s", why)
				}
			case known && len(cs) > 0:
				q.fail("the CTE of a join that is left out is marked as needed")
			case !known && len(cs) > 0:
				q.fail("the CTE of a join that may be left out is marked as needed")
			case !known:
				if why := s.marksCTE(b, dict, tn, nil); why != "" {
					q.fail("%s, and the table may be built", why)
				}
			}
		}
	}
	return n
}

// inQuery: the table of an iteration is known to be built, or to be left out.
func (p *ctePartition) inQuery(sum *LoopSum, b *engine.Back) (in, known bool) {
	m, s, f := p.m, p.s, b.St.Facts
	if v, ok := f.Eval(s.value(rDistinct)); ok && !v {
		return true, true
	}
	el, _ := s.elem(rTables, sum, b)
	if v, ok := f.Eval(m.part(p.r, b.St, el, m.elemType(rTables), isBool)); ok && !v {
		return true, true
	}
	if t, v := s.neededLookup(sum, b); t != nil {
		if t.Args[2] != p.r.X.MapVer(p.q.o.St, t.Args[0]) {
			p.q.fail("whether a table is built is looked up before it's known")
			return false, false
		}
		if v {
			return true, true
		}
		if d := p.elimination(); d != nil && d != t.Args[0] {
			p.q.fail("the CTEs of tables are looked for in another map than FROM")
		}
		if s.optional(sum, b) {
			return false, true
		}
	}
	return false, false
}

// elimination is the map that tells which tables FROM has.
func (p *ctePartition) elimination() *T {
	q := &queryText{m: p.m, r: p.r, o: p.q.o}
	render(q.o.Vals[0], q.o.St.Facts, q.leaf)
	for i := range q.leafs {
		if l := &q.leafs[i]; l.role == rTables && l.lam != nil {
			for _, b := range l.lam.Sum.Backs {
				if v := b.Upd[l.lam.Term]; v == nil || v == l.lam.Term {
					if d := p.s.unneeded(l.lam.Sum, b); d != nil {
						return d
					}
				}
			}
		}
	}
	return nil
}
