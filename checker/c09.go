package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C09"] = &Check{
		Rule: "no function outside of initialisation writes to package level variables, or hands out their address; every map, list and arg store of a context, and every element of its map of functions, is allocated by the function that makes the context; a derived context has the given one as parent; functions are looked up by name from the context of the build upwards through its parents, going on only if a context doesn't have the name; args are committed to and read from the root",
		Run:  checkC09,
	}
}

func checkC09(c *C) {
	c.globalsRule()
	c.freshRule()
	c.derivedRule()
	c.lookupRule()
	c.commitRule()
}

// globalsRule: package level variables are written by initialisers only.
func (c *C) globalsRule() {
	for _, fn := range c.P.Funcs {
		if initialiser(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bad := func(v ssa.Value, what string) {
					if g := globalOf(v, map[ssa.Value]bool{}); g != nil && g.Pkg != nil && c.P.Repo[g.Pkg.Pkg] {
						c.Fail("globals", c.name(fn), c.P.Pos(in.Pos()), "%s the package level variable %s", what, g.Name())
					}
				}
				switch in := in.(type) {
				case *ssa.Store:
					c.Count("stores", 1)
					bad(in.Addr, "writes to")
					if g, ok := in.Val.(*ssa.Global); ok {
						bad(g, "keeps the address of")
					}
				case *ssa.MapUpdate:
					c.Count("stores", 1)
					bad(in.Map, "updates")
				case *ssa.Send:
					bad(in.Chan, "sends to")
				case ssa.CallInstruction:
					cc := in.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							bad(cc.Args[0], bi.Name()+"s to")
						}
						continue
					}
					mut := false
					if f := cc.StaticCallee(); f != nil && f.Pkg != nil {
						switch f.Pkg.Pkg.Path() {
						case "sort", "slices", "maps":
							mut = true
						}
					}
					for _, a := range cc.Args {
						if addressOfGlobal(a) || mut {
							if mut && !isRef(a.Type()) {
								continue
							}
							bad(a, "calls a function with")
						}
					}
				}
			}
		}
	}
	c.Need("stores", 30)
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	}
	return false
}

func initialiser(fn *ssa.Function) bool {
	f := top(fn)
	return f.Synthetic != "" && f.Name() == "init" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// addressOfGlobal: the value is the address of (a part of) a package level variable.
func addressOfGlobal(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return false
		}
	}
}

// globalOf traces what is written to back to a package level variable.
func globalOf(v ssa.Value, seen map[ssa.Value]bool) *ssa.Global {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalOf(x.X, seen)
	case *ssa.IndexAddr:
		return globalOf(x.X, seen)
	case *ssa.UnOp:
		return globalOf(x.X, seen)
	case *ssa.Slice:
		return globalOf(x.X, seen)
	case *ssa.ChangeType:
		return globalOf(x.X, seen)
	case *ssa.MakeInterface:
		return globalOf(x.X, seen)
	case *ssa.TypeAssert:
		return globalOf(x.X, seen)
	case *ssa.Lookup:
		return globalOf(x.X, seen)
	case *ssa.Extract:
		return globalOf(x.Tuple, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := globalOf(e, seen); g != nil {
				return g
			}
		}
	}
	return nil
}

// freshRule: what a context holds is made for it.
func (c *C) freshRule() {
	var runs []*Run
	for _, fn := range c.library() {
		runs = append(runs, c.Analyse(fn))
	}
	o := c.newOwnership(runs)
	ct := c.ctxType()
	for t := range o.ctx {
		c.Count("context types", 1)
		_ = t
	}
	for pkg := range c.P.Repo {
		for _, name := range pkg.Scope().Names() {
			tn, ok := pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || !o.ctx[pkg.Path()+"."+name] {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				key := pkg.Path() + "." + name + "." + f.Name()
				must := false
				switch u := f.Type().Underlying().(type) {
				case *types.Map, *types.Slice:
					must = true
				case *types.Pointer:
					must = o.ctx[typeName(u.Elem())] && !types.Identical(u.Elem(), ct)
				case *types.Interface:
					n, ok := types.Unalias(f.Type()).(*types.Named)
					must = ok && n.Obj().Pkg() != nil && c.P.Repo[n.Obj().Pkg()] && !n.Obj().Exported()
				}
				if !must {
					continue
				}
				c.Count("fields", 1)
				if !o.owned[key] {
					c.Fail("shared", name+"."+f.Name(), c.P.Pos(f.Pos()), "may refer to something that isn't made for the context: %s", o.why(runs, key))
				}
				if m, ok := f.Type().Underlying().(*types.Map); ok {
					if p, ok := m.Elem().Underlying().(*types.Pointer); ok && o.ctx[typeName(p.Elem())] && !o.elems[key] {
						c.Fail("shared", name+"."+f.Name(), c.P.Pos(f.Pos()), "an element may not be made for the context")
					}
				}
			}
		}
	}
	c.Need("fields", 4)
}

// why finds an assignment of a value a field doesn't own.
func (o *ownership) why(runs []*Run, key string) string {
	s := ""
	for _, r := range runs {
		for _, e := range r.X.Effects {
			if e.Kind == "store" && e.Addr.Op == engine.OFieldAddr && e.Addr.Aux == key && !o.exclusive(r, e.Val, e.Addr, map[*T]bool{}) {
				s = o.c.P.Pos(e.Pos) + " assigns " + clip(e.Val.String())
			}
		}
	}
	return s
}

// derivedRule: functions that make a context out of another.
func (c *C) derivedRule() {
	for _, fn := range c.P.Funcs {
		res := fn.Signature.Results()
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil || res.Len() == 0 || !engine.IsContextPtr(res.At(0).Type()) {
			continue
		}
		var from *T
		r := c.Analyse(fn)
		for i, p := range fn.Params {
			if engine.IsContextPtr(p.Type()) {
				from = r.Args[i]
			}
		}
		if from != nil && fn.Signature.Recv() != nil && !fn.Object().Exported() {
			continue // an accessor
		}
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			pos := c.P.Pos(o.RetPos)
			v := o.Vals[0]
			if len(o.Vals) == 2 && o.St.Facts.NonNil(o.Vals[1]) {
				continue
			}
			if v.Op == engine.ONil {
				continue
			}
			if from != nil && v == from {
				// nothing to add
				c.Fail("derived", c.name(fn), pos, "returns the context it's given")
				continue
			}
			if !fresh(r, v) {
				ev := evOf(v)
				if from == nil && ev != nil && ev.Kind == engine.EvNewCtx {
					continue
				}
				c.Fail("derived", c.name(fn), pos, "returns %s, not a new context", clip(v.String()))
				continue
			}
			c.Count("new contexts", 1)
			parent := c.parentOf(r, o.St, v)
			switch {
			case from == nil && !o.St.Facts.IsNil(parent):
				c.Fail("derived", c.name(fn), pos, "a new context has a parent: %s", clip(tstr(parent)))
			case from != nil && parent != from:
				c.Fail("derived", c.name(fn), pos, "the parent of the derived context is %s, not the given one", clip(tstr(parent)))
			}
		}
	}
	c.Need("new contexts", 2)
}

// lookupRule: functions are those of the innermost context that has the name.
func (c *C) lookupRule() {
	ct := c.ctxType()
	for _, fn := range c.building() {
		if fn.Signature.Recv() != nil && engine.IsContextPtr(fn.Signature.Recv().Type()) {
			continue
		}
		r := c.Analyse(fn)
		check := func(st *State, ev *Event) {
			for _, a := range append([]*T{ev.Recv}, ev.Args...) {
				if a == nil {
					continue
				}
				a.Walk(func(t *T) bool {
					if t.Op != engine.OLookup || t.Args[0].Op != engine.OLoad || t.Args[0].Args[0].Op != engine.OFieldAddr || ownerOf(t.Args[0].Args[0].Aux) != typeName(ct) {
						return true
					}
					c.Count("looked up functions", 1)
					if p := c.firstHit(r, st, t); p != "" {
						c.Fail("lookup", c.name(fn), c.P.Pos(ev.Pos), "%s", p)
					}
					return true
				})
			}
		}
		eachEvent(r, func(st *State, ev *Event, _ string, _ *engine.Outcome, _ *engine.Back) { check(st, ev) })
	}
	c.Need("looked up functions", 2)
}

// firstHit: the lookup is in the first context, from that of the build
// upwards, that has the key.
func (c *C) firstHit(r *Run, st *State, lk *T) string {
	m, key := lk.Args[0], lk.Args[1]
	owner := m.Args[0].Args[0]
	if f := lookupOk(lk); f != nil {
		if ok, known := st.Facts.Eval(f); !known || !ok {
			if !st.Facts.NonNil(lk) {
				return "uses " + clip(lk.String()) + " although the context may not have it"
			}
		}
	}
	ctx := c.ctxParam(r)
	if ctx == nil || owner == ctx {
		return ""
	}
	l := lamOf(owner)
	if l == nil || l.Init != ctx {
		return "looks up in " + clip(owner.String()) + ", which isn't reached from the context of the build"
	}
	for _, b := range l.Sum.Backs {
		if b.Upd[owner] != c.parentOf(r, b.St, owner) {
			return "goes from a context to " + clip(tstr(b.Upd[owner])) + ", not its parent"
		}
		here := r.X.Load(b.St, m.Args[0], m.Typ)
		if b.St.Facts.IsNil(here) || b.St.Facts.LeqK(engine.Len(here), engine.Int(0), 0) {
			continue
		}
		miss := false
		b.St.Facts.EachTerm(func(t *T) {
			if t.Op == engine.OLookupOk && t.Args[0] == here && t.Args[1] == key {
				if ok, known := b.St.Facts.Eval(t); known && !ok {
					miss = true
				}
			}
			if t.Op == engine.OLookup && t.Args[0] == here && t.Args[1] == key && b.St.Facts.IsNil(t) {
				miss = true
			}
		})
		if !miss {
			return "goes on to the parent of a context that may have the function"
		}
	}
	return ""
}

// lookupOk is the term for the key being there.
func lookupOk(lk *T) *T {
	if lk.Op != engine.OLookup {
		return nil
	}
	return engine.HasKey(lk)
}
