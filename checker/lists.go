package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// builtins lists the functions every new context has: the entries of the
// package level maps of functions, by name.
func (c *C) builtins(r *Run) map[string]*T {
	out := map[string]*T{}
	for _, m := range c.P.Root.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t := g.Type().Underlying().(*types.Pointer).Elem()
		mt, ok := t.Underlying().(*types.Map)
		if !ok || !types.Identical(mt.Key(), types.Typ[types.String]) {
			continue
		}
		v := r.X.Load(r.Base, r.X.GlobalAddr(g), t)
		for k, e := range r.X.MapEntries(r.Base, v) {
			for e.Op == engine.OIface || e.Op == engine.OConv {
				e = e.Args[0]
			}
			if s, ok := k.StrVal(); ok {
				out[s] = e
			}
		}
	}
	return out
}

// fnOf is the function of a function value, with its captured values.
func fnOf(t *T) (*ssa.Function, []*T) {
	if t == nil {
		return nil, nil
	}
	fn, ok := t.Ref.(*ssa.Function)
	if !ok {
		return nil, nil
	}
	if t.Op == engine.OClosure {
		return fn, t.Args
	}
	return fn, nil
}

// elemAt is an element added to a list by an iteration of a loop.
type elemAt struct {
	elem *T
	sum  *LoopSum
	back *engine.Back
}

// elementsOf describes a list that is made by a loop: the element every
// iteration adds to it. It is nil if the list isn't made that way.
func (c *C) elementsOf(r *Run, list *T) (out []elemAt) {
	list = uncap(list)
	if l := lamOf(list); l != nil {
		if !emptyList(l.Init) {
			return nil
		}
		for _, b := range l.Sum.Backs {
			v := b.Upd[list]
			if v == nil || v.Op != engine.OSeq || len(v.Args) != 2 || v.Args[0].Op != engine.OSpread || uncap(v.Args[0].Args[0]) != list {
				return nil
			}
			out = append(out, elemAt{v.Args[1], l.Sum, b})
		}
		return out
	}
	if list.Op != engine.OMake && list.Op != engine.OObj {
		return nil
	}
	for _, k := range sortedSums(r.X.Sums) {
		sum := r.X.Sums[k]
		var es []elemAt
		for _, b := range sum.Backs {
			for addr, v := range b.St.Heap {
				if addr.Op == engine.OIndexAddr && addr.Args[0] == list && sum.Lam(engine.Base(addr.Args[1])) != nil {
					es = append(es, elemAt{v, sum, b})
				}
			}
		}
		if len(es) == len(sum.Backs) && len(es) > 0 {
			return es
		}
	}
	return nil
}

func sortedSums(m map[string]*LoopSum) []string {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return engine.SortedKeys(s)
}

func uncap(t *T) *T {
	for t != nil && (t.Op == engine.OCapped || t.Op == engine.OSeq && len(t.Args) == 1 && t.Args[0].Op == engine.OSpread) {
		t = t.Args[0]
		if t.Op == engine.OSpread {
			t = t.Args[0]
		}
	}
	return t
}

func emptyList(t *T) bool {
	if t.Op == engine.ONil || t.Op == engine.OZero {
		return true
	}
	n, ok := engine.Len(t).IntVal()
	return ok && n == 0
}

// source follows what a value made by the library builds to what it stands
// for: the builder it calls, or the arg it commits.
func (c *C) source(r *Run, st *State, v *T) *T {
	for d := 0; d < 6; d++ {
		ptr := v
		dyn := v.Typ
		if v.Op == engine.OIface {
			ptr = v.Args[0]
			dyn, _ = v.Ref.(types.Type)
		}
		if ptr.Op != engine.OObj || dyn == nil {
			return v
		}
		fn := c.methodOf(dyn, "BuildFragment")
		if fn == nil || !c.P.InRepo(fn) {
			return v
		}
		x := *r.X
		s := st.Clone()
		s.Trace = engine.NewState().Trace
		ctx := engine.Sym("source:ctx", types.NewPointer(c.ctxType()))
		s.Facts.Assume(engine.Eq(ctx, engine.Nil), false)
		outs, err := (&x).Run(fn, s, []*T{ptr, ctx})
		if err != nil {
			return nil
		}
		var next *T
		for _, o := range outs {
			if o.Panic {
				continue
			}
			for _, ev := range o.St.Trace.Events() {
				var t *T
				switch ev.Kind {
				case engine.EvBuild:
					t = ev.Recv
					if t == nil && len(ev.Args) > 0 {
						t = ev.Args[0]
					}
				case engine.EvCommit:
					if len(ev.Args) == 1 {
						t = ev.Args[0]
					}
				default:
					continue
				}
				if next != nil && t != next {
					return nil
				}
				next = t
			}
		}
		if next == nil {
			return nil
		}
		v = next
	}
	return v
}

// standsFor checks that the list has, in order, an element for each of src.
func (c *C) standsFor(r *Run, f *Facts, list, src *T) string {
	if f.LeqK(engine.Len(src), engine.Int(0), 0) && f.LeqK(engine.Len(list), engine.Int(0), 0) {
		return ""
	}
	es := c.elementsOf(r, list)
	if es == nil {
		return "the list " + clip(list.String()) + " is not made of one element for each of " + src.String()
	}
	for _, e := range es {
		t := c.source(r, e.back.St, e.elem)
		if t == nil || t.Op != engine.OLoad || t.Args[0].Op != engine.OIndexAddr || uncap(t.Args[0].Args[0]) != src {
			return "an element of the list stands for " + clip(tstr(t)) + ", not an element of " + src.String()
		}
		if !c.walksAll(e.sum, e.back, src, t.Args[0].Args[1], nil) {
			return "the elements of " + src.String() + " are not taken in order"
		}
		if !c.walksAll(e.sum, e.back, src, t.Args[0].Args[1], f) && !f.LeqK(engine.Len(src), engine.Len(list), 0) {
			return "not all elements of " + src.String() + " are taken"
		}
	}
	return ""
}

func tstr(t *T) string {
	if t == nil {
		return "nothing"
	}
	return t.String()
}
