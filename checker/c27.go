package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C27"] = &Check{
		Rule: "termination: in the graph of the states of the parser, on all templates, every cycle reads the template further; every iteration of every other loop that goes on has a rank: it takes the next entry of a map or character of a text, changes a counter towards a bound the loop doesn't change, follows a field that is set in new objects only, or calls foreign code that is to end it; each call of a recursive function by itself passes a part of what it was given, or is made after adding to a set what it's known not to have",
		Run: func(c *C) {
			c.grammar("C27")
			c.loops()
			c.recursion()
		},
	}
}

// loops: every loop has a rank.
func (c *C) loops() {
	seen := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, l := range [][]*ssa.Function{c.library(), c.building(), c.recursive()} {
		for _, fn := range l {
			if !seen[fn] && pkgOf(fn) != c.P.Synt {
				seen[fn] = true
				fns = append(fns, fn)
			}
		}
	}
	for _, fn := range fns {
		r := c.Analyse(fn)
		for _, k := range sortedSums(r.X.Sums) {
			sum := r.X.Sums[k]
			if len(sum.Backs) == 0 {
				continue
			}
			c.Count("loops", 1)
			// a rank that all iterations have in common
			var names []string
			ranks := c.ranks(r, sum, sum.Backs[0])
			for _, b := range sum.Backs[1:] {
				now := c.ranks(r, sum, b)
				for n := range ranks {
					ranks[n] = ranks[n] && now[n]
				}
			}
			for n, ok := range ranks {
				if ok {
					names = append(names, n)
				}
			}
			if len(names) == 0 {
				c.Fail("loop", c.name(sum.Fn), c.P.Pos(headPos(sum)), "goes on without anything known to end it")
			}
		}
	}
	c.Need("loops", 20)
}

func headPos(sum *engine.LoopSum) (p token.Pos) {
	p = sum.Pos
	for _, b := range append([]*ssa.BasicBlock{sum.Header}, sum.Header.Succs...) {
		for _, in := range b.Instrs {
			if !p.IsValid() {
				p = in.Pos()
			}
		}
	}
	if !p.IsValid() {
		p = sum.Fn.Pos()
	}
	return p
}

// ranks lists what decreases in an iteration.
func (c *C) ranks(r *Run, sum *engine.LoopSum, b *engine.Back) map[string]bool {
	out := map[string]bool{}
	f := b.St.Facts
	for _, in := range sum.Header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			out["next"] = true
		}
	}
	// what doesn't change in the loop
	own := map[*T]bool{}
	for _, l := range sum.Lams {
		if l.Term != nil {
			own[l.Term] = true
		}
	}
	start := c.symsOf(r, sum)
	var fixed func(t *T) bool
	fixed = func(t *T) bool {
		if own[t] {
			return false
		}
		if _, ok := t.IntVal(); ok {
			return true
		}
		if t.Op == engine.OSym && !start[t] {
			return false
		}
		for _, a := range t.Args {
			if !fixed(a) {
				return false
			}
		}
		return true
	}
	for _, l := range sum.Lams {
		t, up := l.Term, b.Upd[l.Term]
		if t == nil || up == nil || up == t {
			continue
		}
		d, ok := step(t, up)
		if t.Typ != nil {
			if _, list := t.Typ.Underlying().(*types.Slice); list {
				if f.LeqK(engine.Len(t), engine.Len(up), -1) {
					t, d, ok = engine.Len(t), 1, true // it counts by making a list longer
				}
			}
		}
		if ok && d != 0 {
			for u := range f.Terms() {
				for _, u := range []*T{u, engine.Int(0)} {
					if u == t || u == up || u.Typ == nil || !fixed(u) {
						continue
					}
					if d > 0 && f.LeqK(t, u, 0) || d < 0 && f.LeqK(u, t, 0) {
						out["counter "+t.String()] = true
					}
				}
			}
			// an index given to foreign code that tells where the list ends
			if given(b.Evs, t, map[*engine.LoopSum]bool{}) {
				out["foreign "+t.String()] = true
			}
		}
		// up is the rest of t
		if up.Op == engine.OSlice && up.Args[0] == t && up.Args[1] != nil && f.LeqK(engine.Int(1), up.Args[1], 0) || f.LeqK(engine.Len(up), engine.Len(t), -1) {
			out["rest "+t.String()] = true
		}
		// up is what foreign code made of t
		for _, ev := range b.Evs {
			if ev.Kind == engine.EvInvoke || ev.Kind == engine.EvValue || ev.Kind == engine.EvCustom {
				for _, x := range ev.Res {
					if mentions(up, x, 6) {
						out["foreign "+t.String()] = true
					}
				}
				if ev.Recv != nil && mentions(ev.Recv, t, 6) {
					out["foreign "+t.String()] = true
				}
			}
		}
		// up is a field of t
		if up.Op == engine.OLoad && up.Args[0].Op == engine.OFieldAddr && up.Args[0].Args[0] == t && c.setOnce(t, up.Args[0]) {
			out["link "+t.String()] = true
		}
	}
	for _, ev := range b.Evs {
		if ev.Kind == engine.EvInvoke && len(ev.Res) > 0 {
			if v, ok := f.Eval(ev.Res[0]); ok && v {
				out["foreign "+ev.Name] = true
			}
		}
	}
	return out
}

func step(t, up *T) (int64, bool) {
	if up.Op == engine.OLin && up.Args[0] == t {
		return up.N, true
	}
	return 0, false
}

// setOnce: the field is set in new objects only.
func (c *C) setOnce(t, addr *T) bool {
	p, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type(), types.NewPointer(p.Elem())) || int64(fa.Field) != addr.N {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return true
}

// symsOf are the values that an iteration starts with.
func (c *C) symsOf(r *Run, sum *engine.LoopSum) map[*T]bool {
	out, seen := map[*T]bool{}, map[*T]bool{}
	var add func(t *T)
	add = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == engine.OSym {
			out[t] = true
		}
		for _, a := range t.Args {
			add(a)
		}
	}
	for _, a := range r.Args {
		add(a)
	}
	for t := range sum.Start.Facts.Terms() {
		add(t)
	}
	for t := range sum.Entry.Facts.Terms() {
		add(t)
	}
	for l, v := range sum.Start.Heap {
		add(l)
		add(v)
	}
	for _, v := range sum.Start.Ver {
		add(v)
	}
	for _, ev := range sum.Start.Trace.Events() {
		for _, t := range ev.Res {
			add(t)
		}
	}
	return out
}

// given: other code, which is to end the loop, is given the counter itself, and
// not an element at its place.
func given(evs []*engine.Event, i *T, seen map[*engine.LoopSum]bool) bool {
	for _, ev := range evs {
		if ev.Kind == engine.EvLoop && ev.Loop != nil && !seen[ev.Loop] {
			seen[ev.Loop] = true
			for _, b := range ev.Loop.Backs {
				if given(b.Evs, i, seen) {
					return true
				}
			}
			continue
		}
		for _, a := range append([]*T{ev.Recv}, ev.Args...) {
			if a != nil && mentions(a, i, 12) {
				return true
			}
		}
	}
	return false
}

func mentions(t, x *T, depth int) bool {
	if t == x {
		return true
	}
	if t.Op == engine.OIndexAddr {
		return mentions(t.Args[0], x, depth)
	}
	if depth > 0 {
		for _, a := range t.Args {
			if mentions(a, x, depth-1) {
				return true
			}
		}
	}
	return false
}

// recursion: it descends, or is guarded by a set.
func (c *C) recursion() {
	fns := c.recursive()
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		seen[fn] = true
	}
	for _, fn := range c.builds() {
		if !seen[fn] {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		type call struct {
			pos  token.Pos
			sets [][2]*T
		}
		var calls []call
		r := c.AnalyseWith(fn, "c27", nil, func(r *Run, st *State) {
			r.X.OnEvent = func(st *State, ev *engine.Event) {
				if ev.Fn != fn {
					return
				}
				args := evArgs(ev)
				if len(args) != len(r.Args) {
					return
				}
				c.Count("recursive calls", 1)
				for i, a := range args {
					if partOf(a, r.Args[i], false) || foreign(a, st) {
						return
					}
				}
				if engine.IsBuild(fn) && args[0] != r.Args[0] {
					return // another one, of a finite tree
				}
				calls = append(calls, call{ev.Pos, c.sets(r, st, args)})
			}
		})
		for _, k := range calls {
			if !c.visited(r, k.sets) {
				c.Fail("recursion", c.name(fn), c.P.Pos(k.pos), "calls itself neither with a part of what it's given, nor after adding to a set what it's known not to have")
			}
		}
	}
	c.Need("recursive calls", 4)
}

// partOf: t is (strictly) a part of what u is, or refers to.
func partOf(t, u *T, strict bool) bool {
	for t != nil && len(t.Args) > 0 {
		if t == u {
			return strict
		}
		switch {
		case t.Op == engine.OLoad:
			strict = true
		case t.Op == engine.OApp && (strings.HasPrefix(t.Aux, "reflect.Elem") || strings.HasPrefix(t.Aux, "reflect.Index") || strings.HasPrefix(t.Aux, "reflect.Value.")):
			strict = true
		case t.Op == engine.OApp && !strings.HasPrefix(t.Aux, "reflect."):
			return false
		case t.Op == engine.OLookup:
			return false
		}
		t = t.Args[0]
	}
	return t == u && strict
}

// foreign: it was made by foreign code.
func foreign(t *T, st *State) bool {
	for _, ev := range st.Trace.Events() {
		if ev.Kind == engine.EvInvoke || ev.Kind == engine.EvValue || ev.Kind == engine.EvCustom {
			for _, r := range ev.Res {
				if mentions(t, r, 6) {
					return true
				}
			}
		}
	}
	return false
}

// sets are those that are passed on, as they are now, and what they're known not to have had before.
func (c *C) sets(r *Run, st *State, args []*T) (out [][2]*T) {
	for l, v := range st.Facts.Lits() {
		if v || l.Op != engine.OLookup && l.Op != engine.OLookupOk || r.X.MapVer(st, l.Args[0]) == l.Args[2] {
			continue
		}
		for i, a := range args {
			if a == r.Args[i] && (l.Args[0] == a || partOf(l.Args[0], a, false)) {
				out = append(out, [2]*T{r.X.MapVer(st, l.Args[0]), l.Args[1]})
			}
		}
	}
	return out
}

// visited: one of the sets has got it.
func (c *C) visited(r *Run, sets [][2]*T) bool {
	lams := map[*T]*T{}
	for _, sum := range r.X.Sums {
		for _, l := range sum.Lams {
			if l.Term != nil {
				lams[l.Term] = l.Init
			}
		}
	}
	var has func(ver, k *T, n int) bool
	has = func(ver, k *T, n int) bool {
		switch {
		case ver == nil || n == 0:
			return false
		case lams[ver] != nil:
			return has(lams[ver], k, n-1)
		case ver.Op == engine.OApp && ver.Aux == "upd":
			v, ok := ver.Args[2].BoolVal()
			return ver.Args[1] == k && (!ok || v) || has(ver.Args[0], k, n-1)
		case ver.Op == engine.OSym && strings.HasPrefix(ver.Aux, "w:CALL:rec:"):
			return true // by a call before, that was all right
		}
		return false
	}
	for _, s := range sets {
		if has(s[0], s[1], 20) {
			return true
		}
	}
	return false
}
