package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

var checks = map[string]*Check{}

func init() {
	checks["C01"] = &Check{
		Rule: "in every function that builds text with a context, on every path partition that may succeed, the built parts of the returned text are those of the build, call and commit events of the context, each once and in the order of the events (loops: per iteration, on an append-only accumulator); events are left out only if their text is known to be blank or their args were truncated; BuildQuery returns the args of the context it built with, read last",
		Run:  checkC01,
	}
}

func checkC01(c *C) {
	for _, fn := range c.builds() {
		c.textRule(fn)
	}
	for _, fn := range c.closures() {
		c.textRule(fn)
	}
	for _, fn := range c.queries() {
		c.queryRule(fn)
	}
	c.commitRule()
	c.Need("text functions", 8)
	c.Need("query functions", 2)
	c.Need("events matched", 20)
}

func (c *C) textRule(fn *ssa.Function) {
	r := c.Analyse(fn)
	c.Count("text functions", 1)
	m := &textMatcher{c: c, r: r, own: ownCtx, memo: map[*engine.Lam]string{}, busy: map[*T]bool{}}
	for _, o := range r.Outs {
		if o.Panic || o.St.Facts.NonNil(o.Vals[1]) {
			continue
		}
		c.Count("successful partitions", 1)
		its, p := m.outcome(o, o.Vals[0])
		if p != "" {
			c.Fail("text-matches-args", c.name(fn), c.P.Pos(o.RetPos), "%s", p)
			continue
		}
		c.Sample("%s: %s ⇐ %v", c.name(fn), clip(o.Vals[0].String()), its)
	}
	c.Count("events matched", m.stats.items)
}

func (c *C) queryRule(fn *ssa.Function) {
	r := c.Analyse(fn)
	c.Count("query functions", 1)
	m := &textMatcher{c: c, r: r, own: foreignCtx, memo: map[*engine.Lam]string{}, busy: map[*T]bool{}}
	for _, o := range r.Outs {
		if o.Panic || o.St.Facts.NonNil(o.Vals[2]) {
			continue
		}
		evs := o.St.Trace.Events()
		its, p := m.outcome(o, o.Vals[0])
		var ctx *T
		for _, ev := range evs {
			if ev.Kind == engine.EvNewCtx {
				if ctx != nil {
					p = "uses more than one context"
				}
				ctx = ev.Res[0]
			}
		}
		if p == "" && len(its) > 0 {
			// the args of the same context, after the last build
			args := o.Vals[1]
			for args.Op == engine.OSeq && len(args.Args) == 1 {
				args = args.Args[0]
			}
			for args.Op == engine.OSpread || args.Op == engine.OCapped {
				args = args.Args[0]
			}
			e := evOf(args)
			switch {
			case e == nil || e.Kind != engine.EvArgs:
				p = "the returned args are not those of the context"
			case e.Ctx != ctx:
				p = "the returned args are of another context"
			default:
				read, last := -1, -1
				for i, ev := range evs {
					if ev == e {
						read = i
					}
					if ev.Kind == engine.EvBuild || ev.Kind == engine.EvCommit || ev.Kind == engine.EvCustom {
						last = i
					}
				}
				if read < last {
					p = "the args are read before the build is complete"
				}
			}
		}
		if p != "" {
			c.Fail("query-matches-args", c.name(fn), c.P.Pos(o.RetPos), "%s", p)
		}
	}
	c.Count("events matched", m.stats.items)
}

// commitRule: committing goes to the store of the root context, unchanged, and
// that is where the args are read from.
func (c *C) commitRule() {
	t := types.NewPointer(c.ctxType())
	stores := map[string]string{}
	for _, name := range []string{"CommitArg", "Args"} {
		fn := c.methodOf(t, name)
		if fn == nil {
			c.Fail("anchor", "(*Context)."+name, "", "not found")
			return
		}
		r := c.Analyse(fn)
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			pos := c.P.Pos(o.RetPos)
			var evs []*Event
			for _, ev := range o.St.Trace.Events() {
				if ev.Kind == engine.EvCommit || ev.Kind == engine.EvArgs || ev.Kind == engine.EvTrunc {
					evs = append(evs, ev)
				} else if ev.Kind != engine.EvLoop {
					c.Fail("context-store", c.name(fn), pos, "calls %s", engine.Short(ev.Name))
				}
			}
			if len(evs) != 1 {
				c.Fail("context-store", c.name(fn), pos, "calls the store of args %d times", len(evs))
				continue
			}
			ev := evs[0]
			want := engine.EvCommit
			if name == "Args" {
				want = engine.EvArgs
			}
			v := o.Vals[0]
			for v.Op == engine.OCapped || v.Op == engine.OSeq && len(v.Args) == 1 && v.Args[0].Op == engine.OSpread {
				v = v.Args[0]
				if v.Op == engine.OSpread {
					v = v.Args[0]
				}
			}
			if ev.Kind != want || v != ev.Res[0] {
				c.Fail("context-store", c.name(fn), pos, "doesn't return what the store of args returns")
			}
			if name == "CommitArg" && (len(ev.Args) != 1 || ev.Args[0] != r.Args[1]) {
				c.Fail("context-store", c.name(fn), pos, "commits something other than the arg")
			}
			field, p := c.rootField(r, o.St, ev.Recv, r.Args[0])
			if p != "" {
				c.Fail("context-store", c.name(fn), pos, "%s", p)
				continue
			}
			c.Count("store accesses", 1)
			stores[name] = field
		}
	}
	if stores["CommitArg"] != stores["Args"] {
		c.Fail("context-store", "Context", "", "args are committed to %s but read from %s", stores["CommitArg"], stores["Args"])
	}
	c.Need("store accesses", 2)
}

// rootField: t is the content of a field of the root of ctx.
func (c *C) rootField(r *Run, st *State, t, ctx *T) (field, problem string) {
	if t.Op != engine.OLoad || t.Args[0].Op != engine.OFieldAddr {
		return "", "uses " + clip(t.String()) + ", not a field of the root context"
	}
	field = t.Args[0].Aux
	root := t.Args[0].Args[0]
	parent := c.parentOf(r, st, root)
	if parent == nil {
		return field, "the contexts have no parent"
	}
	if !st.Facts.IsNil(parent) {
		return field, "uses the store of " + clip(root.String()) + ", which may not be the root"
	}
	if root == ctx {
		return field, ""
	}
	l := lamOf(root)
	if l == nil || l.Init != ctx && c.parentOf(r, st, ctx) != l.Init {
		return field, "uses the store of " + clip(root.String()) + ", which isn't reached from the context"
	}
	for _, b := range l.Sum.Backs {
		if u := b.Upd[l.Term]; u != c.parentOf(r, b.St, l.Term) && u != l.Term {
			return field, "goes from a context to " + clip(u.String()) + ", not its parent"
		}
	}
	return field, ""
}

// parentOf loads the parent of a context: its only field of type *Context.
func (c *C) parentOf(r *Run, st *State, ctx *T) *T {
	n := c.ctxType()
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if p, ok := u.Field(i).Type().(*types.Pointer); ok && types.Identical(p.Elem(), n) {
			return r.X.Load(st, r.X.FieldAddr(ctx, n, i), u.Field(i).Type())
		}
	}
	return nil
}
