package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C05"] = &Check{
		Rule: "(*Fragment).BuildFragment builds its template with a context whose lists have one element for each arg and fragment of the fragment, in order; Properties.Build(ctx, i) builds element i-1 on every partition with 1 <= i <= len, and returns an error that is ErrInvalidIndex on every other; a bindvar builds, and #arg and #f call Properties.Build with, the index that was given on the list of args resp. fragments of the innermost context that has a fragment, with the index known to be in range",
		Run:  checkC05,
	}
}

// propType is the interface of the elements of a list of properties.
func (c *C) propType() *types.Named { return c.namedType(c.P.Root, "Property") }

func (c *C) isProp(t *T) bool {
	p := c.propType()
	return t != nil && t.Typ != nil && p != nil && types.Identical(types.Unalias(t.Typ), p)
}

// elemRef splits a loaded element of a list.
func elemRef(t *T) (list, idx *T) {
	if t == nil || t.Op != engine.OLoad || t.Args[0].Op != engine.OIndexAddr {
		return nil, nil
	}
	return t.Args[0].Args[0], t.Args[0].Args[1]
}

// eachState visits the events of all outcomes and loop iterations, with the
// facts known after them.
func eachEvent(r *Run, visit func(st *State, ev *Event, pos string, o *engine.Outcome, b *engine.Back)) {
	seen := map[*LoopSum]bool{}
	var hist func(st *State, evs []*Event, o *engine.Outcome, b *engine.Back)
	hist = func(st *State, evs []*Event, o *engine.Outcome, b *engine.Back) {
		for _, ev := range evs {
			if ev.Loop != nil {
				if seen[ev.Loop] {
					continue
				}
				seen[ev.Loop] = true
				for _, b := range ev.Loop.Backs {
					hist(b.St, b.Evs, o, b)
				}
				continue
			}
			visit(st, ev, "", o, b)
		}
	}
	for _, o := range r.Outs {
		hist(o.St, o.St.Trace.Events(), o, nil)
	}
}

// propertiesBuild is the exported method that builds an element by index.
func (c *C) propertiesBuild() *ssa.Function {
	n := c.namedType(c.P.Root, "Properties")
	if n == nil {
		return nil
	}
	return c.methodOf(n, "Build")
}

// innermost: the list is the named field of the fragment context of the
// innermost context, from ctx upwards, that has one.
func (c *C) innermost(r *Run, st *State, list, ctx *T, field string) string {
	list = uncap(list)
	if list.Op != engine.OLoad || list.Args[0].Op != engine.OFieldAddr {
		return clip(list.String()) + " is not a list of a fragment context"
	}
	fc := list.Args[0].Args[0]
	fcT := c.namedType(c.P.Root, "FragmentContext")
	if fcT == nil || c.loadField(r, st, fc, fcT, field) != list {
		return clip(list.String()) + " is not the list of " + field
	}
	if fc.Op != engine.OLoad || fc.Args[0].Op != engine.OFieldAddr {
		return clip(fc.String()) + " is not the fragment context of a context"
	}
	if !st.Facts.NonNil(fc) {
		return clip(fc.String()) + " may be nil"
	}
	owner := fc.Args[0].Args[0]
	fieldAddr := fc.Args[0]
	if owner == ctx {
		return ""
	}
	l := lamOf(owner)
	if l == nil || l.Init != ctx {
		return clip(owner.String()) + " is not reached from the context of the build"
	}
	for _, b := range l.Sum.Backs {
		if b.Upd[owner] != c.parentOf(r, b.St, owner) {
			return "goes from a context to " + clip(tstr(b.Upd[owner])) + ", not its parent"
		}
		if !b.St.Facts.IsNil(r.X.Load(b.St, fieldAddr, fc.Typ)) {
			return "goes on to an outer context although an inner one may have a fragment"
		}
	}
	return ""
}

func checkC05(c *C) {
	c.propertiesRule()
	c.bindvarRule()
	c.builtinRule()
	c.listsRule()
}

// propertiesRule decides Properties.Build for each class of indexes.
func (c *C) propertiesRule() {
	fn := c.propertiesBuild()
	if fn == nil {
		c.Fail("anchor", "Properties.Build", "", "not found")
		return
	}
	classes := []struct {
		name  string
		below func(i, n *T) [2]*T // a < b
		valid bool
	}{
		{"i < 1", func(i, n *T) [2]*T { return [2]*T{i, engine.Int(1)} }, false},
		{"i > len", func(i, n *T) [2]*T { return [2]*T{n, i} }, false},
		{"valid", nil, true},
	}
	for _, cl := range classes {
		r := c.AnalyseWith(fn, cl.name, nil, func(r *Run, st *engine.State) {
			p, i := r.Args[0], r.Args[2]
			n := engine.Len(p)
			if cl.valid {
				st.Facts.Assume(engine.Lt(i, engine.Int(1)), false)
				st.Facts.Assume(engine.Lt(n, i), false)
			} else {
				ab := cl.below(i, n)
				st.Facts.Assume(engine.Lt(ab[0], ab[1]), true)
			}
		})
		p, i := r.Args[0], r.Args[2]
		for _, o := range r.Outs {
			pos := c.P.Pos(o.RetPos)
			c.Count("index partitions", 1)
			if o.Panic {
				c.Fail("index", c.name(fn), pos, "panics for %s", cl.name)
				continue
			}
			var builds []*Event
			for _, ev := range o.St.Trace.Events() {
				if ev.Kind == engine.EvBuild || ev.Kind == engine.EvInvoke {
					builds = append(builds, ev)
				}
			}
			if !cl.valid {
				if len(builds) > 0 {
					c.Fail("index", c.name(fn), pos, "builds an element for %s", cl.name)
				}
				if err := o.Vals[1]; !c.wraps(r, o.St, err, c.invalidIndex(r), 0) {
					c.Fail("index", c.name(fn), pos, "the error for %s is %s, not ErrInvalidIndex", cl.name, clip(err.String()))
				}
				continue
			}
			var el []*Event
			for _, ev := range builds {
				if ev.Kind == engine.EvBuild {
					el = append(el, ev)
				}
			}
			if len(el) != 1 {
				c.Fail("index", c.name(fn), pos, "builds %d elements for a valid index", len(el))
				continue
			}
			l, idx := elemRef(el[0].Recv)
			if l == nil || uncap(l) != p || idx != engine.Lin(i, -1) {
				c.Fail("index", c.name(fn), pos, "builds %s, not element i-1 of the list", clip(tstr(el[0].Recv)))
			}
			if el[0].Ctx != r.Args[1] {
				c.Fail("index", c.name(fn), pos, "doesn't build with its context")
			}
		}
		for _, ob := range r.X.Obligations {
			if ob.Failed > 0 && ob.Kind == "index out of range" {
				c.Fail("index", c.name(fn), c.P.Pos(ob.Pos), "may be out of range for %s", cl.name)
			}
		}
	}
	c.Need("index partitions", 4)
}

// bindvarRule: where a function builds elements of a list of properties by the
// index of a bindvar.
func (c *C) bindvarRule() {
	bv := c.namedType(c.P.Synt, "BindVarExpr")
	if bv == nil {
		c.Fail("anchor", "BindVarExpr", "", "not found")
		return
	}
	pb := c.propertiesBuild()
	for _, fn := range append(c.builds(), c.closures()...) {
		if fn == pb || pkgOf(fn) != c.P.Root {
			continue
		}
		r := c.Analyse(fn)
		eachEvent(r, func(st *State, ev *Event, _ string, o *engine.Outcome, b *engine.Back) {
			pos := c.P.Pos(ev.Pos)
			if ev.Kind != engine.EvBuild {
				return
			}
			var list, ref *T
			if l, idx := elemRef(ev.Recv); l != nil && c.isProp(ev.Recv) {
				list, ref = l, engine.Lin(idx, 1)
				if ref.Op == engine.OLoad && (!st.Facts.LeqK(engine.Int(1), ref, 0) || !st.Facts.LeqK(ref, engine.Len(uncap(l)), 0)) {
					c.Fail("bindvar", c.name(fn), pos, "the index of a bindvar may be out of range")
				}
			} else if ev.Fn != nil && ev.Fn == pb || pb != nil && ev.Name == pb.String() {
				as := ev.Args
				if ev.Recv != nil {
					as = append([]*T{ev.Recv}, as...)
				}
				if len(as) == 3 {
					list, ref = as[0], as[2]
				}
			}
			if list == nil {
				return
			}
			if ref.Op == engine.OLoad && ref.Args[0].Op == engine.OFieldAddr && c.loadField(r, st, ref.Args[0].Args[0], bv, "Index") == ref {
				c.Count("bindvar references", 1)
				if p := c.innermost(r, st, list, c.ctxParam(r), "Args"); p != "" {
					c.Fail("bindvar", c.name(fn), pos, "a bindvar doesn't refer to the args of the fragment: %s", p)
				}
				return
			}
			if r.X.Entry != nil && ref.Op == engine.OSym && evOf(ref) == nil {
				return // the index param of a function, see builtinRule
			}
			if l := lamOf(ref); l == nil && ref.Op != engine.OSym {
				c.Fail("bindvar", c.name(fn), pos, "builds element %s of a list", clip(ref.String()))
			}
		})
		// an expression that is a bindvar is built from the list, never skipped
		for _, k := range sortedSums(r.X.Sums) {
			sum := r.X.Sums[k]
			for _, b := range sum.Backs {
				if !c.isBindvarIter(sum, b, bv) {
					continue
				}
				n := 0
				for _, ev := range b.Evs {
					if ev.Kind == engine.EvBuild {
						n++
					}
				}
				c.Count("bindvar iterations", 1)
				if n != 1 {
					c.Fail("bindvar", c.name(fn), c.P.Pos(sum.Pos), "an iteration over a bindvar builds %d elements", n)
				}
			}
		}
	}
	c.Need("bindvar references", 1)
	c.Need("bindvar iterations", 1)
}

// isBindvarIter: the iteration is known to be about a bindvar expression.
func (c *C) isBindvarIter(sum *LoopSum, b *engine.Back, bv *types.Named) bool {
	found := false
	want := types.NewPointer(bv)
	b.St.Facts.EachTerm(func(t *T) {
		neg, set, ok := b.St.Facts.TypeSet(t)
		if ok && !neg && len(set) == 1 && types.Identical(set[0], want) {
			if l, idx := elemRef(t); l != nil && sum.Lam(engine.Base(idx)) != nil {
				found = true
			}
		}
	})
	return found
}

// ctxParam is the context of the entry.
func (c *C) ctxParam(r *Run) *T {
	for i, p := range r.Fn.Params {
		if engine.IsContextPtr(p.Type()) {
			return r.Args[i]
		}
	}
	return nil
}

// builtinRule: #arg, #f and #fragment.
func (c *C) builtinRule() {
	lists := map[string]string{"arg": "Args", "f": "Fragments", "fragment": "Fragments"}
	pb := c.propertiesBuild()
	var bs map[string]*T
	if nc := c.P.Root.Func("NewContext"); nc != nil {
		bs = c.builtins(c.Analyse(nc))
	}
	for _, name := range engine.SortedKeys(map[string]bool{"arg": true, "f": true, "fragment": true}) {
		field := lists[name]
		fn, _ := fnOf(bs[name])
		if fn == nil {
			c.Fail("anchor", "#"+name, "", "the function isn't found among the functions of a new context")
			continue
		}
		r := c.Analyse(fn)
		var idx *T
		for i, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				idx = r.Args[i]
			}
		}
		for _, o := range r.Outs {
			if o.Panic || o.St.Facts.NonNil(o.Vals[1]) {
				continue
			}
			pos := c.P.Pos(o.RetPos)
			n := 0
			for _, ev := range o.St.Trace.Events() {
				if ev.Kind != engine.EvBuild {
					continue
				}
				n++
				as := ev.Args
				if ev.Recv != nil {
					as = append([]*T{ev.Recv}, as...)
				}
				if pb == nil || ev.Name != pb.String() && ev.Fn != pb || len(as) != 3 {
					l, i := elemRef(ev.Recv)
					if l == nil {
						c.Fail("builtin", "#"+name, pos, "builds %s", engine.Short(ev.Name))
						continue
					}
					as = []*T{l, ev.Ctx, engine.Lin(i, 1)}
					if !o.St.Facts.LeqK(engine.Int(1), as[2], 0) || !o.St.Facts.LeqK(as[2], engine.Len(uncap(l)), 0) {
						c.Fail("builtin", "#"+name, pos, "the index may be out of range")
					}
				}
				if idx == nil || as[2] != idx {
					c.Fail("builtin", "#"+name, pos, "builds element %s, not the one of the given index", clip(as[2].String()))
				}
				if p := c.innermost(r, o.St, as[0], c.ctxParam(r), field); p != "" {
					c.Fail("builtin", "#"+name, pos, "doesn't refer to the %s of the fragment: %s", field, p)
				}
				c.Count("builtin references", 1)
			}
			if n != 1 {
				c.Fail("builtin", "#"+name, pos, "builds %d elements", n)
			}
		}
	}
	c.Need("builtin references", 3)
}

// fragRun is the analysis of (*Fragment).BuildFragment with a non-nil fragment,
// with the lists of the context its template is built with.
func (c *C) fragRun() (r *Run, lists map[*Event]map[string]*T) {
	ft := c.fragType()
	if ft == nil {
		return nil, nil
	}
	fn := c.methodOf(types.NewPointer(ft), "BuildFragment")
	fcT := c.namedType(c.P.Root, "FragmentContext")
	if fn == nil || fcT == nil {
		return nil, nil
	}
	lists = map[*Event]map[string]*T{}
	r = c.AnalyseWith(fn, "lists", c.inlineParts, func(r *Run, st *engine.State) {
		nonNilRecv(r, st)
		r.X.OnEvent = func(st *State, ev *Event) {
			if ev.Kind != engine.EvBuild || ev.Ctx == nil {
				return
			}
			m := map[string]*T{}
			ct := c.ctxType()
			u := ct.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if p, ok := u.Field(i).Type().(*types.Pointer); ok && types.Identical(p.Elem(), fcT) {
					fc := r.X.Load(st, r.X.FieldAddr(ev.Ctx, ct, i), u.Field(i).Type())
					for _, f := range []string{"Args", "Fragments", "Fragment"} {
						m[f] = c.loadField(r, st, fc, fcT, f)
					}
				}
			}
			lists[ev] = m
		}
	})
	r.X.OnEvent = nil
	return r, lists
}

// listsRule: the fragment context is that of the fragment.
func (c *C) listsRule() {
	r, lists := c.fragRun()
	if r == nil {
		c.Fail("anchor", "(*Fragment).BuildFragment", "", "not found")
		return
	}
	ft := c.fragType()
	f := r.Args[0]
	for _, o := range r.Outs {
		if o.Panic || o.St.Facts.NonNil(o.Vals[1]) {
			continue
		}
		for _, ev := range o.St.Trace.Events() {
			m := lists[ev]
			if ev.Kind != engine.EvBuild {
				continue
			}
			pos := c.P.Pos(ev.Pos)
			if m == nil {
				c.Fail("lists", c.name(r.Fn), pos, "builds with a context without fragment")
				continue
			}
			for _, field := range []string{"Args", "Fragments"} {
				src := c.loadField(r, r.Base, f, ft, field)
				if src == nil || m[field] == nil {
					c.Fail("anchor", "Fragment."+field, "", "not found")
					continue
				}
				if p := c.standsFor(r, o.St.Facts, m[field], src); p != "" {
					c.Fail("lists", c.name(r.Fn), pos, "the %s of the context are not those of the fragment: %s", field, p)
				}
				c.Count("lists", 1)
			}
		}
	}
	c.Need("lists", 2)
}
