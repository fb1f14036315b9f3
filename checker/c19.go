package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"verif/checker/engine"
)

func init() {
	checks["C19"] = &Check{
		Rule: "in each successful path partition of the build of a query that isn't DISTINCT, nothing but the selected columns is in the select list, and each iteration over the orders adds the column and its direction to ORDER BY; of one that is DISTINCT, the columns of the orders are in the select list after the selected columns unless they are known to have no text, each as an alias that has the index of the order, and ORDER BY has the same alias and the direction; the direction is, for each constant of the type, the one it is named after",
		Run:  checkC19,
	}
}

func checkC19(c *C) {
	m := c.queryModel()
	if m == nil {
		return
	}
	for _, distinct := range []bool{false, true} {
		m.ordersRule(distinct)
	}
	c.Need("texts", 60)
	c.Need("order iterations", 4)
	c.Need("directions", 12)
}

// orderConsts are the constants of the type of orders, with their directions.
func (m *queryModel) orderConsts(t types.Type) map[int64]string {
	out := map[int64]string{}
	sc := m.c.P.Sqlb.Pkg.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || !k.Exported() || !types.Identical(k.Type(), t) {
			continue
		}
		v, _ := constant.Int64Val(k.Val())
		out[v] = strings.ToUpper(strings.Join(regexp.MustCompile(`[A-Z][a-z]*`).FindAllString(n, -1), " "))
	}
	return out
}

func (m *queryModel) ordersRule(distinct bool) {
	c := m.c
	r := m.build(distinct)
	if r == nil {
		return
	}
	for _, o := range r.Outs {
		if !m.succeeds(r, o) {
			continue
		}
		q := &queryText{m: m, r: r, o: o}
		f := o.St.Facts
		text := render(o.Vals[0], f, q.leaf)
		q.problem = "" // C15
		c.Count("texts", 1)
		var selected, ordered *clause
		for i, l := range q.leafs {
			if l.role == rOrders {
				if q.prefixOf(l) == rOrders {
					ordered = &q.leafs[i]
				} else {
					selected = &q.leafs[i]
				}
			}
		}
		none := f.LeqK(engine.Len(m.list(r, r.Base, rOrders)), engine.Int(0), 0)
		switch {
		case selected != nil && !distinct:
			q.fail("the orders are in the select list of a query that isn't distinct: %s", text)
		case selected != nil:
			sel, from := strings.Index(text, open+rSelects+shut), strings.Index(strings.ToUpper(text), " FROM ")
			if at := strings.Index(text, open+rOrders+shut); sel < 0 || at < sel || at > from {
				q.fail("the orders are not in the select list after the selected columns: %s", text)
			}
		case distinct && !none && !q.emptyOrders(false):
			q.fail("the columns of the orders aren't in the select list: %s", text)
		}
		if ordered == nil && !none && !q.emptyOrders(true) {
			q.fail("the query isn't ordered: %s", text)
		}
		var sa, oa string
		if selected != nil {
			sa = q.orderItems(selected, distinct, true)
		}
		if ordered != nil {
			oa = q.orderItems(ordered, distinct, false)
		}
		if selected != nil && ordered != nil && sa != oa {
			q.fail("the columns are selected as %s, but ordered by %s", sa, oa)
		}
		if q.problem != "" {
			c.Fail("orders", c.name(r.Fn), c.P.Pos(o.RetPos), "%s", q.problem)
		}
	}
}

// emptyOrders: what is built of the orders is known to be empty.
func (q *queryText) emptyOrders(clause bool) bool {
	for _, ev := range q.o.St.Trace.Events() {
		if ev.Kind != engine.EvBuild || len(ev.Res) != 2 || !q.o.St.Facts.StrEmpty(ev.Res[0]) {
			continue
		}
		for _, s := range q.m.snaps[ev] {
			if ro, p := q.listRole(s.list); p == "" && (ro == rOrders || emptyList(s.list)) {
				x, _ := q.m.strOf(q.r, s.prefix)
				if strings.EqualFold(strings.TrimSpace(x), rOrders) == clause {
					return true
				}
			}
		}
	}
	return false
}

var touchForm = regexp.MustCompile(`(?i)^#f(?:ragment)?1 AS (.+)$`)

// orderItems decides what is added for each order, and returns the alias.
func (q *queryText) orderItems(l *clause, distinct, selected bool) (alias string) {
	m := q.m
	for _, s := range m.snaps[l.ev] {
		lam := q.madeBy(s.list)
		if lam == nil {
			q.fail("the list of the orders is %s", clip(s.list.String()))
			continue
		}
		src := m.value(q.r, q.r.Base, rOrders)
		q.walk(lam, rOrders, func(b *engine.Back, role string, elem, t *T) string {
			m.c.Count("order iterations", 1)
			a, p := q.orderItem(lam.Sum, b, src, elem, t, distinct, selected)
			if p == "" && alias != "" && a != alias {
				p = "the alias of an order is " + a + " or " + alias
			}
			alias = a
			return p
		})
	}
	return alias
}

func (q *queryText) orderItem(sum *LoopSum, b *engine.Back, src, elem, t *T, distinct, selected bool) (alias, problem string) {
	m, f := q.m, b.St.Facts
	et := m.elemType(rOrders)
	meth := m.c.methodOf(types.NewPointer(m.qb), "OrderBy")
	colT, ordT := meth.Params[1].Type(), meth.Params[2].Type()
	col := m.part(q.r, b.St, elem, et, isType(colT))
	ord := m.part(q.r, b.St, elem, et, isType(ordT))
	if col == nil || ord == nil {
		return "", "the orders have no column or no direction"
	}
	frag := unboxed(t)
	ld := func(n string) *T { return m.c.loadField(q.r, b.St, frag, m.frag, n) }
	for _, n := range []string{"Prefix", "Suffix"} {
		if x, ok := m.strOf(q.r, ld(n)); !ok || strings.TrimSpace(x) != "" {
			return "", "an order has the " + strings.ToLower(n) + " " + clip(ld(n).String())
		}
	}
	if !emptyList(ld("Args")) {
		return "", "an order has args"
	}
	items := engine.Items(ld("Fragments"))
	refers := len(items) == 1 && unboxed(items[0]) == col
	if !refers && !emptyList(ld("Fragments")) && len(items) != 0 {
		return "", "an order is about " + clip(ld("Fragments").String())
	}
	idx := q.indexIn(sum, b, src)
	leaf := func(dir func(t *T) string) func(t *T) string {
		return func(t *T) string {
			if t.Op == engine.OApp && strings.HasPrefix(t.Aux, "fmt:%d") && len(t.Args) == 1 {
				if n, ok := engine.Sub(unconv(t.Args[0]), idx).IntVal(); ok {
					return fmt.Sprintf("%snumber%+d%s", open, n, shut)
				}
			}
			return dir(t)
		}
	}
	if selected {
		got := render(ld("Raw"), f, leaf(func(*T) string { return "" }))
		g := touchForm.FindStringSubmatch(got)
		if !refers || g == nil {
			return "", "the column of an order is selected as " + got
		}
		if !regexp.MustCompile(open + `number[^` + shut + `]*` + shut).MatchString(g[1]) {
			return "", "the columns of several orders are selected as " + g[1]
		}
		if strings.Contains(g[1], open+"?") {
			return "", "the column of an order is selected as " + g[1]
		}
		return g[1], ""
	}
	consts := m.orderConsts(ordT)
	var ks []int64
	for k := range consts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		if v, known := f.Eval(engine.Eq(ord, engine.Int(k))); known && !v {
			continue
		}
		m.c.Count("directions", 1)
		got := render(ld("Raw"), f, leaf(func(t *T) string {
			if s, ok := q.direction(b, t, ord, k); ok {
				return s
			}
			return ""
		}))
		rest, ok := strings.CutSuffix(strings.ToUpper(got), " "+consts[k])
		if !ok || strings.HasSuffix(rest, " ASC") || strings.HasSuffix(rest, " DESC") {
			return "", "an order that is " + consts[k] + " is built as " + got
		}
		rest = got[:len(rest)]
		if !distinct {
			if !refers || !onlyFragment.MatchString(rest) {
				return "", "an order of a query that isn't distinct is built as " + got
			}
			continue
		}
		if len(items) != 0 || strings.Contains(rest, "#") || alias != "" && rest != alias {
			return "", "an order of a distinct query is built as " + got
		}
		alias = rest
	}
	return alias, ""
}

// direction is a part of the text for a given order.
func (q *queryText) direction(b *engine.Back, t, ord *T, k int64) (string, bool) {
	var v *T
	switch {
	case t.Op == engine.OLoad && t.Args[0].Op == engine.OIndexAddr && unconv(t.Args[0].Args[1]) == ord:
		v = q.r.X.Load(b.St, q.r.X.IndexAddr(t.Args[0].Args[0], engine.Int(k), types.Typ[types.String]), types.Typ[types.String])
	case (t.Op == engine.OLookup) && unconv(t.Args[1]) == ord:
		v = q.r.X.MapGet(b.St, t.Args[0], engine.Int(k), types.Typ[types.String])
	case t.Op == engine.OConst:
		v = t
	default:
		return "", false
	}
	s, ok := v.StrVal()
	return s, ok
}
