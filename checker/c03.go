package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C03"] = &Check{
		Rule: "each successful partition of (*Fragment).BuildFragment has, after the template was built, walked over all elements of both lists of its context, knowing Used() of each; these elements start unused; every property implementation is used when it builds its value and logs itself if it wasn't; nothing else marks properties as used; whenever args are dropped the properties logged since the same point are reset to unused, and the log is cut",
		Run:  checkC03,
	}
}

// propMethods finds a method of every type that implements Property.
func (c *C) propMethods(name string) (out []*ssa.Function) {
	p := c.propType()
	if p == nil {
		return nil
	}
	it, _ := p.Underlying().(*types.Interface)
	for _, fn := range c.P.Funcs {
		recv := fn.Signature.Recv()
		if recv == nil || fn.Name() != name || fn.Synthetic != "" || !types.Implements(recv.Type(), it) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func checkC03(c *C) {
	if c.propType() == nil {
		c.Fail("anchor", "Property", "", "not found")
		return
	}
	c.usageRule()
	flags := c.usedFlags()
	logs := c.resetRule(flags)
	c.markRule(flags, logs)
	c.storesRule(flags)
}

// usageRule: a fragment succeeds only if all its properties are used.
func (c *C) usageRule() {
	r, lists := c.fragRun()
	if r == nil {
		c.Fail("anchor", "(*Fragment).BuildFragment", "", "not found")
		return
	}
	for _, o := range r.Outs {
		if o.Panic || o.St.Facts.NonNil(o.Vals[1]) {
			continue
		}
		pos := c.P.Pos(o.RetPos)
		evs := o.St.Trace.Events()
		last := -1
		var m map[string]*T
		for i, ev := range evs {
			if ev.Kind == engine.EvBuild || ev.Kind == engine.EvCustom {
				last = i
				if lists[ev] != nil {
					m = lists[ev]
				}
			}
		}
		c.Count("successful partitions", 1)
		if m == nil {
			c.Fail("usage", c.name(r.Fn), pos, "succeeds without having built with a context of the fragment")
			continue
		}
		for _, field := range []string{"Args", "Fragments"} {
			c.Count("lists", 1)
			list := uncap(m[field])
			if o.St.Facts.LeqK(engine.Len(list), engine.Int(0), 0) {
				continue
			}
			why := "never"
			ok := false
			for _, ev := range evs[last+1:] {
				if ev.Loop == nil {
					continue
				}
				w := c.checksUsage(ev.Loop, list, o.St.Facts)
				if w == "" {
					ok = true
					break
				}
				if w != "never" {
					why = w
				}
			}
			if !ok {
				c.Fail("usage", c.name(r.Fn), pos, "succeeds although an element of %s may be unused: they are checked %s", field, why)
			}
			// they start unused
			for _, e := range c.elementsOf(r, list) {
				c.Count("new properties", 1)
				if u := c.usedAt(r, e.back.St, e.elem); u == nil || u != engine.False {
					if v, ok := e.back.St.Facts.Eval(u); !ok || v {
						c.Fail("usage", c.name(r.Fn), c.P.Pos(e.sum.Pos), "a new property may be used from the start: %s", clip(tstr(u)))
					}
				}
			}
		}
	}
	c.Need("lists", 2)
	c.Need("new properties", 2)
}

// usedAt is the value of Used() of a property in a state.
func (c *C) usedAt(r *Run, st *State, v *T) *T {
	ptr, dyn := v, v.Typ
	if v.Op == engine.OIface {
		ptr = v.Args[0]
		dyn, _ = v.Ref.(types.Type)
	}
	if dyn == nil {
		return nil
	}
	fn := c.methodOf(dyn, "Used")
	if fn == nil || !c.P.InRepo(fn) {
		return nil
	}
	return c.valueAt(r, st, fn, ptr)
}

// checksUsage: the loop visits all elements of the list, each is known to be
// used, or else a variable is changed from its initial value for good.
func (c *C) checksUsage(sum *LoopSum, list *T, f *Facts) string {
	if len(sum.Backs) == 0 {
		return "never"
	}
	for _, b := range sum.Backs {
		var used, idx *T
		for _, ev := range b.Evs {
			if ev.Kind == engine.EvInvoke && strings.HasSuffix(ev.Name, ".Used") && len(ev.Res) == 1 {
				if l, i := elemRef(ev.Recv); l != nil && uncap(l) == list {
					used, idx = ev.Res[0], i
				}
			}
		}
		if used == nil {
			return "never"
		}
		if !c.walksAll(sum, b, list, idx, f) {
			return "not to the last one"
		}
		v, ok := b.St.Facts.Eval(used)
		if ok && v {
			continue
		}
		if ok && !v && dirties(sum, b, f) {
			continue
		}
		return "but not required to be used"
	}
	return ""
}

// dirties: the iteration changes a variable that is known to have its initial,
// empty value after the loop, and no iteration empties it again.
func dirties(sum *LoopSum, b *engine.Back, f *Facts) bool {
	for _, l := range sum.Lams {
		v := b.Upd[l.Term]
		if v == nil || v == l.Term {
			continue
		}
		grows := func(v *T) bool {
			if v == nil || v == l.Term {
				return true
			}
			if v == engine.True {
				return true
			}
			return (v.Op == engine.OSeq || v.Op == engine.OConcat) && len(v.Args) > 1 && engine.Base(v.Args[0]).Mentions(l.Term) && b.St.Facts.LeqK(engine.Int(1), engine.Len(v), 0)
		}
		ok := grows(v)
		for _, o := range sum.Backs {
			ok = ok && grows(o.Upd[l.Term])
		}
		if !ok {
			continue
		}
		if v == engine.True {
			if b, known := f.Eval(l.Term); known && !b {
				return true
			}
			continue
		}
		if f.LeqK(engine.Len(l.Term), engine.Int(0), 0) {
			return true
		}
	}
	return false
}

// usedFlags: the fields behind Used() of the implementations.
func (c *C) usedFlags() map[string]types.Type {
	out := map[string]types.Type{}
	for _, fn := range c.propMethods("Used") {
		r := c.AnalyseWith(fn, "", nil, nonNilRecv)
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			v := o.Vals[0]
			if v.Op != engine.OLoad || v.Args[0].Op != engine.OFieldAddr || v.Args[0].Args[0] != r.Args[0] {
				c.Fail("flag", c.name(fn), c.P.Pos(o.RetPos), "reports %s, which is not a flag of the property", clip(v.String()))
				continue
			}
			out[v.Args[0].Aux] = fn.Signature.Recv().Type()
			c.Count("flags", 1)
		}
	}
	c.Need("flags", 1)
	return out
}

// resetRule: dropping args resets the flags of what was used since.
func (c *C) resetRule(flags map[string]types.Type) (logs map[string]bool) {
	logs = map[string]bool{}
	for _, fn := range append(c.builds(), c.closures()...) {
		r := c.Analyse(fn)
		check := func(st *State, evs []*Event, pos string) {
			for i, ev := range evs {
				if ev.Kind != engine.EvTrunc {
					continue
				}
				c.Count("dropped args", 1)
				// the point the args are dropped to
				mark := -1
				for j, e := range evs[:i] {
					if e.Kind == engine.EvArgs && len(ev.Args) == 1 && len(e.Res) == 1 && engine.Len(e.Res[0]) == ev.Args[0] {
						mark = j
					}
				}
				if mark < 0 {
					c.Fail("reset", c.name(fn), pos, "drops args to a length that isn't that at an earlier point of the build")
					continue
				}
				log, p := c.resets(r, st, evs, mark, i, flags)
				if p != "" {
					c.Fail("reset", c.name(fn), pos, "args are dropped, but %s", p)
					continue
				}
				logs[log] = true
				c.Count("resets", 1)
			}
		}
		for _, o := range r.Outs {
			if !o.Panic {
				check(o.St, o.St.Trace.Events(), c.P.Pos(o.RetPos))
			}
		}
		for _, k := range sortedSums(r.X.Sums) {
			for _, b := range r.X.Sums[k].Backs {
				check(b.St, b.Evs, c.P.Pos(r.X.Sums[k].Pos))
			}
		}
	}
	c.Need("resets", 1)
	return logs
}

// resets: in the state the log of used properties is cut to its length at
// the mark, after the flags of all the others were reset.
func (c *C) resets(r *Run, st *State, evs []*Event, mark, trunc int, flags map[string]types.Type) (log, problem string) {
	why := "no flag of a property is reset"
	for _, ev := range evs[mark+1:] {
		if ev.Loop == nil {
			continue
		}
		sum := ev.Loop
		for flag := range flags {
			n, ok := 0, true
			var lst, idx *T
			for _, b := range sum.Backs {
				for k, v := range b.St.Heap {
					if k.Op != engine.OFieldAddr || k.Aux != flag || v != engine.False {
						continue
					}
					l, i := elemRef(k.Args[0])
					if l == nil || sum.Lam(lamIn(sum, i)) == nil {
						continue
					}
					n++
					if lst != nil && (lst != l || idx != i) {
						ok = false
					}
					lst, idx = l, i
				}
			}
			if n == 0 || n != len(sum.Backs) || !ok {
				continue
			}
			lst = uncap(lst)
			if lst.Op != engine.OLoad || lst.Args[0].Op != engine.OFieldAddr {
				why = "the log of used properties is " + clip(lst.String())
				continue
			}
			addr := lst.Args[0]
			now := uncap(r.X.Load(st, addr, lst.Typ))
			if now.Op != engine.OSlice || uncap(now.Args[0]) != lst || !isZero(now.Args[1]) {
				why = "the log of used properties is not cut but " + clip(now.String())
				continue
			}
			keep := now.Args[2]
			if keep.Op != engine.OLen || uncap(keep.Args[0]).Op != engine.OLoad || uncap(keep.Args[0]).Args[0] != addr {
				why = "the log of used properties is cut to " + clip(keep.String()) + ", which isn't its length at the same point"
				continue
			}
			good := true
			for _, b := range sum.Backs {
				good = good && c.walksFrom(r, sum, b, idx, keep, engine.Len(lst), st.Facts)
			}
			if !good {
				why = "not all properties used since then are reset"
				continue
			}
			return addr.Aux, ""
		}
	}
	return "", why
}

// lamIn is the variable of the loop an index depends on.
func lamIn(sum *LoopSum, idx *T) *T {
	var out *T
	idx.Walk(func(t *T) bool {
		if t.Op == engine.OLam && sum.Lam(t) != nil {
			out = t
		}
		return out == nil
	})
	return out
}

// walksFrom: the index takes all values from start up to end.
func (c *C) walksFrom(r *Run, sum *LoopSum, b *engine.Back, idx, start, end *T, f *Facts) bool {
	l := sum.Lam(lamIn(sum, idx))
	if l == nil || b.Upd[l.Term] != engine.Lin(l.Term, 1) {
		return false
	}
	first := r.X.Subst(idx, map[*T]*T{l.Term: l.Init})
	rest := engine.Sub(idx, l.Term) // idx = λ + rest
	next := engine.Add(l.Term, rest)
	if first != start {
		return false
	}
	if f == nil {
		return true
	}
	return f.LeqK(end, next, 0) || f.LeqK(engine.Sub(end, rest), l.Term, 0) || f.LeqK(engine.Sub(end, start), engine.Add(l.Term, engine.Sub(engine.Int(0), l.Init)), 0)
}

// markRule: a property that builds is used, and logged if it wasn't.
func (c *C) markRule(flags map[string]types.Type, logs map[string]bool) {
	for _, fn := range c.propMethods("BuildFragment") {
		type at struct {
			ev  *Event
			msg string
		}
		var bad []at
		n := 0
		r := c.AnalyseWith(fn, "mark", nil, func(r *Run, st *engine.State) {
			nonNilRecv(r, st)
			st.Facts.Assume(engine.Eq(c.ctxArg(r), engine.Nil), false)
			p := r.Args[0]
			was := c.usedAt(r, st, p)
			base := st.Clone()
			r.X.OnEvent = func(st *State, ev *Event) {
				if ev.Kind != engine.EvBuild {
					return
				}
				n++
				u := c.usedAt(r, st, p)
				if u == nil {
					bad = append(bad, at{ev, "can't be decided"})
					return
				}
				if v, ok := st.Facts.Eval(u); !ok || !v {
					bad = append(bad, at{ev, "builds its value without being used"})
				}
				if v, ok := st.Facts.Eval(was); ok && v {
					return // was used already, and logged
				}
				logged := false
				for k, v := range st.Heap {
					if k.Op != engine.OFieldAddr || !logs[k.Aux] {
						continue
					}
					old := r.X.Load(base, k, v.Typ)
					if ok, same := appended(v, old, p); ok && same {
						logged = true
					}
				}
				if !logged && len(logs) > 0 {
					bad = append(bad, at{ev, "may become used without being logged, so that it stays used when it's dropped"})
				}
			}
		})
		r.X.OnEvent = nil
		for _, b := range bad {
			c.Fail("mark", c.name(fn), c.P.Pos(b.ev.Pos), "%s", b.msg)
		}
		c.Count("marks", n)
		// what it builds is its value
		_ = r
	}
	c.Need("marks", 1)
}

func (c *C) ctxArg(r *Run) *T {
	if t := c.ctxParam(r); t != nil {
		return t
	}
	return engine.Nil
}

// storesRule: only properties themselves become used, by building or being told so.
func (c *C) storesRule(flags map[string]types.Type) {
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					n, ok := types.Unalias(fa.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Named)
					if !ok || n.Obj().Pkg() == nil {
						continue
					}
					name := n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + n.Underlying().(*types.Struct).Field(fa.Field).Name()
					t, ok := flags[name]
					if !ok {
						continue
					}
					c.Count("stores to flags", 1)
					if cst, ok := in.Val.(*ssa.Const); ok && cst.Value != nil && cst.Value.String() == "false" {
						continue
					}
					if recv := top(fn).Signature.Recv(); recv == nil || !types.Identical(recv.Type(), t) {
						c.Fail("marking", c.name(fn), c.P.Pos(in.Pos()), "marks a property as used from outside")
						continue
					}
					switch fn.Name() {
					case "BuildFragment", "ReportUsed":
						continue
					}
					// a helper: it must only be reachable from those
					for _, caller := range c.callers(fn) {
						switch caller.Name() {
						case "BuildFragment", "ReportUsed":
						default:
							c.Fail("marking", c.name(caller), c.P.Pos(in.Pos()), "marks a property as used without building it")
						}
					}
				case ssa.CallInstruction:
					cc := in.Common()
					name := ""
					if cc.IsInvoke() {
						name = cc.Method.Name()
					} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
						name = f.Name()
					}
					if name != "ReportUsed" || fn.Synthetic != "" {
						continue
					}
					if recv := top(fn).Signature.Recv(); recv != nil && fn.Name() == "BuildFragment" && c.isPropImpl(recv.Type()) {
						continue
					}
					c.Fail("marking", c.name(fn), c.P.Pos(in.Pos()), "marks a property as used without building it")
				}
			}
		}
	}
	// ReportUsed marks
	for _, fn := range c.propMethods("ReportUsed") {
		r := c.AnalyseWith(fn, "", nil, nonNilRecv)
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			u := c.usedAt(r, o.St, r.Args[0])
			if u == nil {
				continue
			}
			if v, ok := o.St.Facts.Eval(u); !ok || !v {
				c.Fail("marking", c.name(fn), c.P.Pos(o.RetPos), "doesn't mark the property as used")
			}
		}
	}
	c.Need("stores to flags", 2)
}

func (c *C) isPropImpl(t types.Type) bool {
	it, _ := c.propType().Underlying().(*types.Interface)
	return it != nil && types.Implements(t, it)
}

func top(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// callers lists the functions with a static call of fn.
func (c *C) callers(fn *ssa.Function) (out []*ssa.Function) {
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

var _ = fmt.Sprint
