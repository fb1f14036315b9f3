package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/engine"
)

// grammar runs the parser on all templates, and reports what breaks a property.
func (c *C) grammar(id string) {
	m := newMachine(c)
	fn := m.pkg.Func("Parse")
	if fn == nil {
		c.Fail("anchor", "syntax.Parse", "", "there's no function Parse in package syntax")
		return
	}
	if id == "C27" {
		m.edges, m.where = map[[16]byte][][16]byte{}, map[[16]byte]*tstate{}
	}
	m.run(fn)
	for i, s := range m.stalls() {
		if i < 5 {
			m.report(s, []string{"C27"}, "goes on forever without reading the template any further")
		}
	}
	for _, f := range m.found {
		mine := false
		for _, k := range f.cats {
			mine = mine || k == id || k == "*"
		}
		if !mine {
			continue
		}
		name, pos := c.name(fn), c.P.Pos(fn.Pos())
		if f.fn != nil {
			name, pos = c.name(f.fn), c.P.Pos(f.pos)
		}
		c.Fail("template", name, pos, "%s", f.msg)
	}
	c.Count("abstract states", m.states)
	c.Count("instructions interpreted", m.steps)
	c.Count("characters of the alphabet", m.alpha.size())
	var names []string
	for f := range m.funcs {
		c.Functions[c.name(f)] = true
		names = append(names, c.name(f))
	}
	sort.Strings(names)
	c.Sample("functions interpreted: %s", strings.Join(names, " "))
	for k, n := range m.elems {
		c.Count("comparisons: "+k, n)
	}
}

func init() {
	const how = "syntax.Parse is interpreted on all templates at once (an abstract tape of character classes; values relative to the position, merged states, run until no new state appears) next to an automaton of the grammar; "
	checks["C04"] = &Check{
		Rule: how + "where it returns, the bindvars it returns are those of the template, '?' numbered by the '?' before it, '$N' by its number, and it returns an error where both styles appear, and only for malformed templates; a fragment parses its own template; the index of a bindvar refers to the args of the fragment, is checked against their number, and builds one of them",
		Run: func(c *C) {
			c.grammar("C04")
			c.templateRule()
			c.bindvarRule()
		},
	}
	checks["C12"] = &Check{
		Rule: how + "where it returns, the extents of the plain texts are the verbatim parts of the template between its references, in order and without gaps, and references are recognised exactly outside of quotes; a fragment parses its own template; the text of a plain text is added as it is to what has been built, and nothing is added to it but what the other expressions build to",
		Run: func(c *C) {
			c.grammar("C12")
			c.templateRule()
			c.verbatimRule()
		},
	}
	checks["C26"] = &Check{
		Rule: how + "where it returns, the names, kinds, order and extents of the arguments of each function call, and the values made of them, are those written in the template, and each malformed list of arguments is an error",
		Run:  func(c *C) { c.grammar("C26") },
	}
}

// templateRule: a fragment builds its own template, as it is.
func (c *C) templateRule() {
	ft := c.fragType()
	if ft == nil {
		c.Fail("anchor", "Fragment", "", "not found")
		return
	}
	fn := c.methodOf(types.NewPointer(ft), "BuildFragment")
	if fn == nil {
		c.Fail("anchor", "(*Fragment).BuildFragment", "", "not found")
		return
	}
	r := c.AnalyseWith(fn, "", c.inlineParts, nonNilRecv)
	raw := c.loadField(r, r.Base, r.Args[0], ft, "Raw")
	seen := map[*Event]bool{}
	eachEvent(r, func(st *State, ev *Event, _ string, o *engine.Outcome, b *engine.Back) {
		if seen[ev] || !strings.HasSuffix(ev.Name, "/syntax.Parse") || len(ev.Args) != 1 {
			return
		}
		seen[ev] = true
		c.Count("templates parsed", 1)
		if ev.Args[0] != raw {
			c.Fail("template", c.name(fn), c.P.Pos(ev.Pos), "parses %s rather than the template of the fragment", clip(ev.Args[0].String()))
		}
	})
	c.Need("templates parsed", 1)
}

// verbatimRule: where parsed expressions are built, the text of a plain text is
// added as it is, and nothing is added but what the other expressions build to.
func (c *C) verbatimRule() {
	pt := c.namedType(c.P.Synt, "PlainExpr")
	if pt == nil {
		c.Fail("anchor", "PlainExpr", "", "not found")
		return
	}
	for _, fn := range append(c.builds(), c.closures()...) {
		if pkgOf(fn) != c.P.Root {
			continue
		}
		r := c.Analyse(fn)
		for _, k := range sortedSums(r.X.Sums) {
			sum := r.X.Sums[k]
			var elem *T
			var acc *engine.Lam
			for _, b := range sum.Backs {
				e := c.iterElem(sum, b, pt)
				if e == nil {
					continue
				}
				elem = e
				c.Count("plain text iterations", 1)
				text := c.loadField(r, b.St, engine.AssertTo(e, types.NewPointer(pt)), pt, "Text")
				n := 0
				for _, l := range sum.Lams {
					v := b.Upd[l.Term]
					if v != nil && v.Op == engine.OConcat && v.Args[0] == l.Term {
						n++
						acc = l
						if len(v.Args) != 2 || v.Args[1] != text {
							c.Fail("verbatim", c.name(fn), c.P.Pos(sum.Pos), "adds %s for a plain text", clip(v.String()))
						}
					}
				}
				if n != 1 {
					c.Fail("verbatim", c.name(fn), c.P.Pos(sum.Pos), "a plain text is added to %d texts", n)
				}
			}
			if acc == nil {
				continue
			}
			for _, b := range sum.Backs {
				v := b.Upd[acc.Term]
				if c.iterElem(sum, b, pt) != nil {
					continue
				}
				c.Count("other iterations", 1)
				if v == nil || v == acc.Term {
					c.Fail("verbatim", c.name(fn), c.P.Pos(sum.Pos), "an expression is left out")
					continue
				}
				if v.Op != engine.OConcat || v.Args[0] != acc.Term || len(v.Args) != 2 || evOf(v.Args[1]) == nil {
					c.Fail("verbatim", c.name(fn), c.P.Pos(sum.Pos), "adds %s for an expression", clip(v.String()))
				}
			}
			if l := acc; l.Init != engine.Str("") {
				c.Fail("verbatim", c.name(fn), c.P.Pos(sum.Pos), "starts with %s", clip(l.Init.String()))
			}
			for _, o := range r.Outs {
				if o.Panic || len(o.Vals) != 2 || o.St.Facts.NonNil(o.Vals[1]) {
					continue
				}
				direct := false
				for _, ev := range o.St.Trace.Events() {
					direct = direct || ev.Loop == sum
				}
				if !direct {
					continue // part of an iteration of an outer loop
				}
				if !c.takesClause(fn) && !o.Vals[0].Mentions(acc.Term) {
					continue // part of an iteration of an outer loop, which has been left
				}
				c.Count("results", 1)
				if v := o.Vals[0]; v != acc.Term && !blank(o.St.Facts, acc.Term) && c.takesClause(fn) {
					c.Fail("verbatim", c.name(fn), c.P.Pos(o.RetPos), "returns %s rather than the text of all expressions", clip(v.String()))
				}
				l, idx := elemRef(elem)
				for _, b := range sum.Backs {
					if !c.walksAll(sum, b, l, idx, o.St.Facts) {
						c.Fail("verbatim", c.name(fn), c.P.Pos(o.RetPos), "returns before all expressions are built")
						break
					}
				}
			}
		}
	}
	c.Need("plain text iterations", 1)
	c.Need("other iterations", 3)
	c.Need("results", 1)
}

// takesClause: the function builds the expressions it is given.
func (c *C) takesClause(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && n.Obj().Pkg() == c.P.Synt.Pkg {
				return true
			}
		}
	}
	return false
}

// iterElem is the element of a list that an iteration knows to be of a type.
func (c *C) iterElem(sum *LoopSum, b *engine.Back, n *types.Named) *T {
	var found *T
	want := types.NewPointer(n)
	b.St.Facts.EachTerm(func(t *T) {
		neg, set, ok := b.St.Facts.TypeSet(t)
		if ok && !neg && len(set) == 1 && types.Identical(set[0], want) {
			if l, idx := elemRef(t); l != nil && sum.Lam(engine.Base(idx)) != nil {
				found = t
			}
		}
	})
	return found
}
