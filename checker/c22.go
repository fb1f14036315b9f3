package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C22"] = &Check{
		Rule: "ArgsFlatted returns a list of its own, that starts empty, and to which each iteration of a loop over all given values in order appends the value, known to be no slice, array, or pointer to one, or, known to be one, each of its elements in order, or nothing, known to have none; nothing else is stored to",
		Run:  checkC22,
	}
}

func checkC22(c *C) {
	fn := c.P.Util.Func("ArgsFlatted")
	if fn == nil {
		c.Fail("anchor", "util.ArgsFlatted", "", "not found")
		return
	}
	if len(fn.Params) != 1 {
		c.Fail("anchor", "util.ArgsFlatted", c.P.Pos(fn.Pos()), "it takes %d lists", len(fn.Params))
		return
	}
	r := c.AnalyseWith(fn, "flat", func(def engine.CutFunc) engine.CutFunc {
		return func(x *engine.Engine, f *ssa.Function, args []*T) engine.EventKind {
			if f.Pkg == c.P.Util || f.Origin() != nil && f.Origin().Pkg == c.P.Util {
				return ""
			}
			return def(x, f, args)
		}
	}, func(r *Run, st *State) { r.X.Split = true })
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		x := &flattening{c: c, r: r, o: o}
		x.decide()
		if x.problem != "" {
			c.Fail("flatten", c.name(fn), c.P.Pos(o.RetPos), "%s", x.problem)
		}
	}
	for _, o := range r.X.Obligations {
		if o.Failed > 0 && o.Kind != "reflect.Value.Interface of invalid or unexported value" {
			c.Fail("flatten", c.name(o.Fn), c.P.Pos(o.Pos), "it may panic: %s", o.Kind)
		}
	}
	c.Need("partitions", 1)
	c.Need("iterations over the values", 3)
	c.Need("values kept", 1)
	c.Need("values flattened", 1)
}

type flattening struct {
	c       *C
	r       *Run
	o       *engine.Outcome
	problem string
}

func (x *flattening) fail(p string) {
	if x.problem == "" {
		x.problem = p
	}
}

func (x *flattening) decide() {
	x.c.Count("partitions", 1)
	f := x.o.St.Facts
	given := x.r.Args[0]
	res := x.o.Vals[0]
	if f.LeqK(engine.Len(given), engine.Int(0), 0) && (emptyList(res) || f.LeqK(engine.Len(res), engine.Int(0), 0)) {
		return
	}
	l := lamOf(uncap(res))
	if l == nil || l.Term != uncap(res) {
		x.fail("the result is " + clip(res.String()) + ", not a list each value is added to")
		return
	}
	if !emptyList(uncap(l.Init)) {
		x.fail("the result starts as " + clip(l.Init.String()))
		return
	}
	for _, b := range l.Sum.Backs {
		x.c.Count("iterations over the values", 1)
		elem := x.elem(l.Sum, b, given)
		if elem == nil {
			x.fail("the loop may not be over all values in order")
			return
		}
		u := b.Upd[l.Term]
		if u == nil {
			u = l.Term
		}
		if p := x.added(l.Term, u, elem, b.St); p != "" {
			x.fail(p)
			return
		}
	}
}

// elem is the value the iteration is about.
func (x *flattening) elem(sum *LoopSum, b *engine.Back, list *T) *T {
	for _, l := range sum.Lams {
		if l.Phi == nil || l.Init == nil {
			continue
		}
		n, ok := l.Init.IntVal()
		if !ok {
			continue
		}
		idx := engine.Lin(l.Term, -n)
		if x.c.walksAll(sum, b, list, idx, x.o.St.Facts) {
			et := x.r.Fn.Params[0].Type().Underlying().(*types.Slice).Elem()
			return x.r.X.Load(b.St, x.r.X.IndexAddr(list, idx, et), et)
		}
	}
	return nil
}

// added decides what an iteration appends for the value v.
func (x *flattening) added(old, now, v *T, st *State) string {
	f := st.Facts
	as, ok := additions(old, now, f)
	if !ok {
		return "the list becomes " + clip(now.String())
	}
	switch {
	case len(as) == 0:
		for _, s := range x.sources(v, st) {
			if f.LeqK(s.n, engine.Int(0), 0) {
				x.c.Count("values flattened", 1)
				return ""
			}
			if s.rv != nil {
				if nil, known := f.Eval(reflectBool("IsNil", s.rv)); known && nil {
					x.c.Count("values flattened", 1)
					return ""
				}
			}
		}
		return "nothing is added for a value that may not be empty"
	case len(as) == 1 && as[0].sum == nil && !as[0].spread:
		return x.kept(as[0].elem, v, f)
	case len(as) == 1 && as[0].sum == nil:
		list := uncap(as[0].elem)
		for _, s := range x.sources(v, st) {
			if s.list == list {
				x.c.Count("values flattened", 1)
				return ""
			}
		}
		if l := lamOf(list); l != nil && l.Term == list {
			if !emptyList(uncap(l.Init)) {
				return "the list " + clip(l.Init.String()) + " is added"
			}
			return x.added(l.Init, list, v, st)
		}
		if x.made(list, v, st) {
			x.c.Count("values flattened", 1)
			return ""
		}
		return "the list " + clip(list.String()) + " is added, not the elements of the value"
	}
	for _, a := range as {
		if a.sum == nil || a.spread || len(as) != len(a.sum.Backs) {
			return "an iteration over the elements of a value doesn't add one"
		}
		if !x.element(a, v, st) {
			return clip(a.elem.String()) + " is added, not each element of the value in order"
		}
	}
	x.c.Count("values flattened", 1)
	return ""
}

// kept: the value itself is added if it isn't a list.
func (x *flattening) kept(e, v *T, f *Facts) string {
	if e != v && !(emptyList(e) && f.IsNil(v)) && !(unboxed(e).Op == engine.OAssert && unboxed(e).Args[0] == v) {
		return clip(e.String()) + " is added in place of the value"
	}
	kind := f.KindSet(engine.KindTerm(engine.App("reflect.TypeOf", nil, v)))
	if kind[reflect.Slice] || kind[reflect.Array] {
		return "a value that may be a slice or an array is added as it is"
	}
	if kind[reflect.Pointer] && !x.noList(v, f) {
		return "a value that may be a pointer to a slice or an array is added as it is"
	}
	x.c.Count("values kept", 1)
	return ""
}

// noList: the value isn't a pointer to a slice or an array.
func (x *flattening) noList(v *T, f *Facts) bool {
	rv := engine.App("reflect.ValueOf", nil, v)
	if nil, known := f.Eval(reflectBool("IsNil", rv)); known && nil {
		return true
	}
	for _, p := range []*T{
		engine.App("reflect.VType", nil, engine.App("(reflect.Value).Elem", nil, rv)),
		engine.App("reflect.Elem", nil, engine.App("reflect.TypeOf", nil, v)),
	} {
		if s := f.KindSet(engine.KindTerm(p)); !s[reflect.Slice] && !s[reflect.Array] {
			return true
		}
	}
	return false
}

func reflectBool(m string, rv *T) *T {
	return engine.App("(reflect.Value)."+m, types.Typ[types.Bool], rv)
}

// a flatSource is a list that the value is known to be or point to.
type flatSource struct {
	list *T // if it's a list of a known type
	rv   *T // if it's a reflect.Value
	n    *T // its length
}

func (x *flattening) sources(v *T, st *State) (out []flatSource) {
	f := st.Facts
	if neg, ts, ok := f.TypeSet(v); ok && !neg && len(ts) == 1 {
		l := engine.Assert(v, ts[0])
		if p, ok := ts[0].Underlying().(*types.Pointer); ok {
			l = x.r.X.Load(st, l, p.Elem())
			ts = []types.Type{p.Elem()}
		}
		switch ts[0].Underlying().(type) {
		case *types.Slice, *types.Array:
			out = append(out, flatSource{list: l, n: engine.Len(l)})
		}
	}
	rv := engine.App("reflect.ValueOf", nil, v)
	for _, s := range []*T{rv, engine.App("(reflect.Value).Elem", nil, rv)} {
		ok := false
		for _, k := range []*T{engine.KindTerm(engine.App("reflect.VType", nil, s)), engine.KindTerm(engine.App("reflect.TypeOf", nil, v))} {
			if k.Args[0].Aux == "reflect.TypeOf" && s != rv {
				continue
			}
			ok = ok || onlyLists(f.KindSet(k))
		}
		if ok {
			out = append(out, flatSource{rv: s, n: engine.App("reflect.Len", types.Typ[types.Int], s)})
		}
	}
	return out
}

func onlyLists(ks map[reflect.Kind]bool) bool {
	for k := range ks {
		if k != reflect.Slice && k != reflect.Array {
			return false
		}
	}
	return true
}

// element: what an iteration adds is the element of the value it's about, and
// all elements are taken in order.
func (x *flattening) element(a addition, v *T, st *State) bool {
	f := st.Facts
	e := a.elem
	if e.Op == engine.OIface {
		e = e.Args[0]
	}
	for _, s := range x.sources(v, st) {
		if s.list != nil {
			l, idx := elemRef(e)
			if l != nil && uncap(l) == s.list && x.c.walksAll(a.sum, a.back, s.list, idx, f) {
				return true
			}
			continue
		}
		if e.Op != engine.OApp || e.Aux != "reflect.Interface" {
			continue
		}
		at := e.Args[0]
		if at.Op == engine.OApp && at.Aux == "(reflect.Value).Index" && at.Args[0] == s.rv && x.c.walksTo(a.sum, a.back, s.n, at.Args[1], f) {
			return true
		}
	}
	return false
}

// made: the list has been made with all elements of the value set in order.
func (x *flattening) made(list, v *T, st *State) bool {
	es := x.c.elementsOf(x.r, list)
	for _, s := range x.sources(v, st) {
		ok := len(es) > 0 && st.Facts.LeqK(engine.Len(list), s.n, 0)
		for _, e := range es {
			ok = ok && x.element(addition{elem: e.elem, sum: e.sum, back: e.back}, v, st) && x.setAt(e, list, s.n, st)
		}
		if ok {
			return true
		}
	}
	return false
}

// setAt: the element is set at an index that takes all of the list in order.
func (x *flattening) setAt(e elemAt, list, n *T, st *State) bool {
	for a, v := range e.back.St.Heap {
		if a.Op == engine.OIndexAddr && a.Args[0] == list && v == e.elem && x.c.walksTo(e.sum, e.back, n, a.Args[1], st.Facts) {
			return true
		}
	}
	return false
}
