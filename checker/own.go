package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// ownership decides what may be written through, from how fields are assigned.
type ownership struct {
	c      *C
	ctx    map[string]bool // types that belong to a context
	owned  map[string]bool // fields whose values nothing else refers to
	elems  map[string]bool // fields whose elements nothing else refers to
	passed map[*Run]map[*T]bool
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func ownerOf(field string) string { return field[:strings.LastIndexByte(field, '.')] }

// contextTypes are the types a context consists of: the struct types reachable
// from it, other than those a user makes.
func (c *C) contextTypes() map[string]bool {
	out := map[string]bool{}
	seen := map[types.Type]bool{}
	prop := c.propType()
	fc := c.namedType(c.P.Root, "FragmentContext")
	ct := c.ctxType()
	var visit func(t types.Type)
	visit = func(t types.Type) {
		t = types.Unalias(t)
		if seen[t] {
			return
		}
		seen[t] = true
		n, _ := t.(*types.Named)
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Map:
			visit(u.Elem())
		case *types.Struct:
			if n != nil {
				if n.Obj().Pkg() == nil || !c.P.Repo[n.Obj().Pkg()] {
					return
				}
				if n.Obj().Exported() && n != ct && n != fc {
					return
				}
				out[typeName(n)] = true
			}
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		case *types.Interface:
			if n == nil || n.Obj().Pkg() == nil || !c.P.Repo[n.Obj().Pkg()] || n.Obj().Exported() && n != prop {
				return
			}
			for pkg := range c.P.Repo {
				for _, name := range pkg.Scope().Names() {
					if tn, ok := pkg.Scope().Lookup(name).(*types.TypeName); ok && !types.IsInterface(tn.Type()) {
						if g, ok := tn.Type().(*types.Named); ok && g.TypeParams().Len() > 0 {
							continue
						}
						if types.Implements(tn.Type(), u) || types.Implements(types.NewPointer(tn.Type()), u) {
							visit(tn.Type())
						}
					}
				}
			}
		}
	}
	if ct != nil {
		visit(ct)
	}
	return out
}

// library lists the functions a user or another builder may call.
func (c *C) library() (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if !seen[fn] && fn.Pkg != c.P.Synt && fn.Synthetic == "" {
			seen[fn] = true
			out = append(out, fn)
		}
	}
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || fn.Object() == nil {
			continue
		}
		if fn.Object().Exported() || engine.IsBuild(fn) || c.P.CalledByBuilding(fn) {
			add(fn)
		}
	}
	return out
}

// building lists the functions that are part of building.
func (c *C) building() (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	add := func(fns ...*ssa.Function) {
		for _, fn := range fns {
			if !seen[fn] {
				seen[fn] = true
				out = append(out, fn)
			}
		}
	}
	add(c.builds()...)
	add(c.queries()...)
	for _, fn := range c.P.Funcs {
		if c.P.CalledByBuilding(fn) && fn.Synthetic == "" {
			add(fn)
		}
	}
	// what takes a query builder and runs or renders it
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		for _, p := range fn.Params {
			if it, ok := p.Type().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					if m := it.Method(i).Name(); m == "BuildQuery" || m == "BuildFragment" {
						if sig := fn.Signature; sig.Results().Len() > 0 && engine.ReturnsText(sig) || errLast(sig) {
							add(fn)
						}
					}
				}
			}
		}
	}
	if fn := c.P.Util.Func("Interpolate"); fn != nil {
		add(fn)
	}
	add(c.closures()...)
	return out
}

func errLast(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && sig.Results().At(n-1).Type().String() == "error"
}

// newOwnership computes, for the functions, the fields that own their values.
func (c *C) newOwnership(runs []*Run) *ownership {
	o := &ownership{c: c, ctx: c.contextTypes(), owned: map[string]bool{}, elems: map[string]bool{}, passed: map[*Run]map[*T]bool{}}
	for pkg := range c.P.Repo {
		for _, name := range pkg.Scope().Names() {
			tn, ok := pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				key := pkg.Path() + "." + name + "." + f.Name()
				if f.Exported() && tn.Exported() && !o.ctx[pkg.Path()+"."+name] {
					continue
				}
				switch f.Type().Underlying().(type) {
				case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
					o.owned[key] = true
					o.elems[key] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		drop := func(m map[string]bool, k string) {
			if m[k] {
				delete(m, k)
				changed = true
			}
		}
		for _, r := range runs {
			for _, e := range r.X.Effects {
				o.assigned(r, e, drop)
			}
		}
	}
	return o
}

// assigned drops the fields that an effect gives values they don't own.
func (o *ownership) assigned(r *Run, e *engine.Effect, drop func(m map[string]bool, k string)) {
	field := func(addr, v *T) {
		if addr.Op != engine.OFieldAddr {
			return
		}
		if o.owned[addr.Aux] && !o.exclusive(r, v, addr, map[*T]bool{}) {
			drop(o.owned, addr.Aux)
			drop(o.elems, addr.Aux)
		}
		if o.elems[addr.Aux] && !o.exclusiveElems(r, v, addr, map[*T]bool{}) {
			drop(o.elems, addr.Aux)
		}
	}
	switch e.Kind {
	case "store":
		field(e.Addr, e.Val)
		if e.Val != nil && e.Val.Typ != nil && e.Addr.Op != engine.OFieldAddr {
			n, _ := types.Unalias(e.Val.Typ).(*types.Named)
			if n != nil {
				if st, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						field(r.X.FieldAddr(e.Addr, n, i), engine.FieldOf(e.Val, i, st.Field(i).Type()))
					}
				}
			}
		}
		if e.Addr.Op == engine.OIndexAddr {
			if f := containerField(e.Addr.Args[0]); f != nil && !o.exclusive(r, e.Val, nil, map[*T]bool{}) {
				drop(o.elems, f.Aux)
			}
		}
	case "mapupdate":
		if o.exclusive(r, e.Val, nil, map[*T]bool{}) {
			return
		}
		if f := containerField(e.Addr); f != nil {
			drop(o.elems, f.Aux)
		}
		// a map that is made here, and assigned to a field
		for _, s := range r.X.Effects {
			if s.Kind == "store" && s.Addr.Op == engine.OFieldAddr && s.Val == e.Addr {
				drop(o.elems, s.Addr.Aux)
			}
		}
	}
}

// containerField is the field a list or map was loaded from.
func containerField(t *T) *T {
	for {
		switch t.Op {
		case engine.OCapped, engine.OSlice:
			t = t.Args[0]
			continue
		case engine.OSeq:
			if len(t.Args) > 0 && t.Args[0].Op == engine.OSpread {
				t = t.Args[0].Args[0]
				continue
			}
		case engine.OLam:
			if l := lamOf(t); l != nil && l.Init != nil && l.Init != t {
				t = l.Init
				continue
			}
		case engine.OLoad:
			if t.Args[0].Op == engine.OFieldAddr {
				return t.Args[0]
			}
		}
		return nil
	}
}

func fresh(r *Run, t *T) bool {
	return (t.Op == engine.OObj || t.Op == engine.OMake) && !r.Base.Fresh[t]
}

// exclusive: nothing that outlives the call, other than what is at addr
// already, refers to the value.
func (o *ownership) exclusive(r *Run, v, addr *T, seen map[*T]bool) bool {
	if v == nil || seen[v] {
		return true
	}
	seen[v] = true
	if v.Typ != nil {
		switch v.Typ.Underlying().(type) {
		case *types.Basic, *types.Signature:
			return true
		}
	}
	switch v.Op {
	case engine.ONil, engine.OZero, engine.OConst:
		return true
	case engine.OObj, engine.OMake:
		return fresh(r, v)
	case engine.OLoad:
		return v.Args[0] == addr
	case engine.OSlice, engine.OCapped, engine.OIface, engine.OConv, engine.OSpread:
		return o.exclusive(r, v.Args[0], addr, seen)
	case engine.OSeq:
		return engine.NewList(v) || o.exclusive(r, v.Args[0].Args[0], addr, seen)
	case engine.OLam:
		l := lamOf(v)
		if l == nil || !o.exclusive(r, l.Init, addr, seen) {
			return false
		}
		for _, b := range l.Sum.Backs {
			if u, ok := b.Upd[v]; ok && !o.exclusive(r, u, addr, seen) {
				return false
			}
		}
		return true
	case engine.OSym:
		ev := evOf(v)
		return ev != nil && ev.Kind == engine.EvNewCtx
	case engine.OApp:
		return strings.HasPrefix(v.Aux, "strings.") || strings.HasPrefix(v.Aux, "errors.") || strings.HasPrefix(v.Aux, "fmt.")
	}
	return false
}

// exclusiveElems: the elements of a list that is assigned to a field are new.
func (o *ownership) exclusiveElems(r *Run, v, addr *T, seen map[*T]bool) bool {
	if v == nil || seen[v] {
		return true
	}
	seen[v] = true
	switch v.Op {
	case engine.OSeq:
		for _, it := range v.Args {
			if it.Op == engine.OSpread {
				if !o.exclusiveElems(r, it.Args[0], addr, seen) {
					return false
				}
				continue
			}
			if !o.exclusive(r, it, nil, map[*T]bool{}) {
				return false
			}
		}
		return true
	case engine.OLam:
		l := lamOf(v)
		if l == nil || !o.exclusiveElems(r, l.Init, addr, seen) {
			return false
		}
		for _, b := range l.Sum.Backs {
			if u, ok := b.Upd[v]; ok && !o.exclusiveElems(r, u, addr, seen) {
				return false
			}
		}
		return true
	case engine.OSlice, engine.OCapped:
		return o.exclusiveElems(r, v.Args[0], addr, seen)
	}
	return o.exclusive(r, v, addr, map[*T]bool{})
}

// writer decides effects of a run.
type writer struct {
	*ownership
	r    *Run
	recv *T          // what it may change, besides what is new and the context
	also map[*T]bool // more of that
	busy map[*ssa.Function]bool
}

// allowed reports why an effect is not allowed.
func (w *writer) allowed(e *engine.Effect) bool {
	if e.Fresh && !w.r.Base.Fresh[e.Base] {
		return true
	}
	switch e.Kind {
	case "append":
		return w.container(e.Addr, true, map[*T]bool{})
	case "mapupdate", "delete":
		return w.container(e.Addr, false, map[*T]bool{})
	}
	return w.location(e.Addr, map[*T]bool{})
}

func (w *writer) location(a *T, seen map[*T]bool) bool {
	switch a.Op {
	case engine.OFieldAddr:
		if w.ctx[ownerOf(a.Aux)] {
			return true
		}
		return w.object(a.Args[0], seen)
	case engine.OIndexAddr:
		return w.container(a.Args[0], false, seen)
	case engine.OCell:
		return w.object(a.Args[0], seen)
	case engine.OMapElem, engine.OMapVer:
		return w.container(a.Args[0], false, seen)
	}
	if w.object(a, seen) {
		return true
	}
	// a whole list, as of copy or sort
	if a.Typ != nil {
		if _, ok := a.Typ.Underlying().(*types.Slice); ok {
			return w.container(a, false, map[*T]bool{})
		}
	}
	return false
}

// object: the pointer refers to something that may be changed.
func (w *writer) object(p *T, seen map[*T]bool) bool {
	if p == w.recv && p != nil || w.also[p] {
		return true
	}
	if seen[p] {
		return true
	}
	seen[p] = true
	switch p.Op {
	case engine.OObj, engine.OMake:
		return fresh(w.r, p)
	case engine.OFieldAddr, engine.OIndexAddr, engine.OCell:
		return w.location(p, seen)
	case engine.OIface, engine.OConv:
		return w.object(p.Args[0], seen)
	case engine.OLam:
		l := lamOf(p)
		if l == nil || l.Init == nil || !w.object(l.Init, seen) {
			return false
		}
		for _, b := range l.Sum.Backs {
			if u, ok := b.Upd[p]; ok && !w.object(u, seen) {
				return false
			}
		}
		return true
	case engine.OLoad:
		a := p.Args[0]
		if w.also[a] {
			return true
		}
		switch a.Op {
		case engine.OFieldAddr:
			return w.owned[a.Aux] && (w.ctx[ownerOf(a.Aux)] || w.object(a.Args[0], seen))
		case engine.OIndexAddr:
			if f := containerField(a.Args[0]); f != nil {
				return w.elems[f.Aux] && w.container(a.Args[0], false, seen)
			}
		}
	case engine.OLookup:
		if f := containerField(p.Args[0]); f != nil {
			return w.elems[f.Aux] && w.container(p.Args[0], false, seen)
		}
	case engine.OSym:
		ev := evOf(p)
		return ev != nil && ev.Kind == engine.EvNewCtx
	}
	return false
}

// container: the list or map may be changed, or appended to.
func (w *writer) container(t *T, appending bool, seen map[*T]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.Op {
	case engine.ONil, engine.OZero, engine.OConst:
		return true
	case engine.OObj, engine.OMake:
		return fresh(w.r, t)
	case engine.OCapped:
		return appending || w.container(t.Args[0], appending, seen)
	case engine.OSlice, engine.OConv:
		return w.container(t.Args[0], appending, seen)
	case engine.OSeq:
		return engine.NewList(t) || w.container(t.Args[0].Args[0], appending, seen)
	case engine.OLam:
		l := lamOf(t)
		if l == nil || l.Init == nil || !w.container(l.Init, appending, seen) {
			return false
		}
		for _, b := range l.Sum.Backs {
			if u, ok := b.Upd[t]; ok && !w.container(u, appending, seen) {
				return false
			}
		}
		return true
	case engine.OLoad:
		if a := t.Args[0]; a.Op == engine.OObj && fresh(w.r, a) && len(t.Args) > 1 && w.cell(a, t.Args[1], appending, seen) {
			return true
		}
		return w.object(t, map[*T]bool{})
	case engine.OApp:
		return strings.HasPrefix(t.Aux, "strings.") || strings.HasPrefix(t.Aux, "conv:")
	case engine.OSym:
		if w.also[t] {
			return true
		}
		ev := evOf(t)
		return ev != nil && (ev.Kind == engine.EvNewCtx || ev.Kind == engine.EvCall && strings.HasSuffix(ev.Name, "/util.ArgsFlatted") || w.grows(ev, t, appending, seen))
	}
	return false
}

// cell: the list in a new variable may be changed after a call of a recursive
// function with a pointer to it: what was there before, and all that the
// function stores there, may be.
func (w *writer) cell(a, ver *T, appending bool, seen map[*T]bool) bool {
	ev := evOf(ver)
	if ev == nil || ev.Fn == nil {
		return false
	}
	for _, e := range w.r.X.Effects {
		if e.Kind == "store" && e.Addr == a && (e.Val == nil || !w.container(e.Val, appending, seen)) {
			return false
		}
	}
	r := w.c.Analyse(ev.Fn)
	for i, p := range evArgs(ev) {
		if p != a || i >= len(r.Args) {
			continue
		}
		in := &writer{ownership: w.ownership, r: r, also: w.c.passedOn(w.ownership, r)}
		if !in.also[r.Args[i]] {
			return false
		}
		for _, e := range r.X.Effects {
			if e.Kind == "store" && e.Addr == r.Args[i] && (e.Val == nil || !in.container(e.Val, appending, map[*T]bool{})) {
				return false
			}
		}
	}
	return true
}

// recursive lists the functions that call themselves and are not contracts.
func (c *C) recursive() (out []*ssa.Function) {
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || fn.Pkg == c.P.Synt || fn.Pkg == nil || engine.IsBuild(fn) {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var reaches func(f *ssa.Function) bool
		reaches = func(f *ssa.Function) bool {
			if seen[f] || !c.P.InRepo(f) || engine.IsBuild(f) {
				return false
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && (g == fn || reaches(g)) {
							return true
						}
					}
				}
			}
			return false
		}
		if reaches(fn) {
			out = append(out, fn)
		}
	}
	return out
}

// passedOn are the params a recursive function passes to itself unchanged, or
// as lists that may be changed if they may: what it writes through them is
// what its callers give it.
func (c *C) passedOn(o *ownership, r *Run) map[*T]bool {
	if k := o.passed[r]; k != nil {
		return k
	}
	keep := map[*T]bool{}
	for _, a := range r.Args {
		keep[a] = true
	}
	o.passed[r] = keep
	for changed := true; changed; {
		changed = false
		eachEvent(r, func(_ *State, ev *Event, _ string, _ *engine.Outcome, _ *engine.Back) {
			if ev.Kind != engine.EvCall || ev.Fn != r.Fn {
				return
			}
			as := evArgs(ev)
			for i, a := range r.Args {
				if !keep[a] || i < len(as) && (as[i] == a || isList(a) && (&writer{ownership: o, r: r, also: keep}).container(as[i], true, map[*T]bool{})) {
					continue
				}
				delete(keep, a)
				changed = true
			}
		})
	}
	return keep
}

func isList(t *T) bool {
	if t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Slice)
	return ok
}

// grows: the list that a recursive function returns may be appended to, as it
// is new, or what became of lists it has been given that may be.
func (w *writer) grows(ev *Event, t *T, appending bool, seen map[*T]bool) bool {
	if ev == nil || ev.Fn == nil || ev.Kind != engine.EvCall || !strings.HasPrefix(ev.Name, "rec:") || !isList(t) {
		return false
	}
	at := -1
	for i, v := range ev.Res {
		if v == t {
			at = i
		}
	}
	if at < 0 {
		return false
	}
	r := w.c.Analyse(ev.Fn)
	as := evArgs(ev)
	if len(as) != len(r.Args) {
		return false
	}
	in := w
	if r != w.r || w.also == nil {
		in = &writer{ownership: w.ownership, r: r, also: w.c.passedOn(w.ownership, r)}
	}
	for i, a := range r.Args {
		if isList(a) && in.also[a] && in.depends(a, at) && !w.container(as[i], appending, seen) {
			return false
		}
	}
	if in == w || w.busy[ev.Fn] {
		return true // by induction
	}
	if w.busy == nil {
		w.busy = map[*ssa.Function]bool{}
	}
	w.busy[ev.Fn] = true
	defer delete(w.busy, ev.Fn)
	in.busy = w.busy
	for _, o := range r.Outs {
		if !o.Panic && !in.container(o.Vals[at], appending, map[*T]bool{}) {
			return false
		}
	}
	return true
}

// depends: a result, or what's written, may be the list the function is given.
func (w *writer) depends(a *T, at int) bool {
	for _, o := range w.r.Outs {
		if !o.Panic && o.Vals[at].Mentions(a) {
			return true
		}
	}
	for _, e := range w.r.X.Effects {
		if e.Addr.Mentions(a) {
			return true
		}
		if l := lamOf(uncap(e.Addr)); l != nil && l.Init != nil && l.Init.Mentions(a) {
			return true
		}
	}
	return false
}

// writes checks the effects of the functions, and of recursive ones they call.
func (c *C) writes(o *ownership, runs []*Run, recv func(r *Run) *T) {
	check := func(r *Run, w *writer) {
		for _, e := range r.X.Effects {
			c.Count("writes", 1)
			if !w.allowed(e) {
				c.Fail("writes", c.name(e.Fn), c.P.Pos(e.Pos), "%s", describe(c, e))
			}
		}
	}
	for _, r := range runs {
		w := &writer{ownership: o, r: r}
		if recv != nil {
			w.recv = recv(r)
		}
		check(r, w)
	}
	for _, fn := range c.recursive() {
		r := c.Analyse(fn)
		check(r, &writer{ownership: o, r: r, also: c.passedOn(o, r)})
		c.Count("recursive functions", 1)
	}
}
