package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C08"] = &Check{
		Rule: "every store, map update, deletion and append of every function that is part of building, on every partition, is to an object the function allocates, to a field of a type that belongs to the context, or to a list or map such a field exclusively owns; an append is to a list that is new, so owned, or capped; nothing iterated over a map builds text; nothing else depends on time, randomness or the environment",
		Run:  checkC08,
	}
}

func checkC08(c *C) {
	var runs []*Run
	for _, fn := range c.library() {
		runs = append(runs, c.Analyse(fn))
	}
	var brs []*Run
	for _, fn := range c.building() {
		brs = append(brs, c.Analyse(fn))
	}
	o := c.newOwnership(append(runs, brs...))
	c.writes(o, brs, nil)
	c.globalsRule()
	c.freshRule()
	c.orderRule(brs)
	c.impureRule()
	c.Need("writes", 50)
}

func describe(c *C, e *engine.Effect) string {
	what := map[string]string{"store": "writes to", "mapupdate": "updates the map", "delete": "deletes from the map", "append": "may append within the list"}[e.Kind]
	return what + " " + clip(e.Addr.String()) + ", in " + c.name(e.Entry)
}

// orderRule: what is iterated in the random order of a map has no effect that
// depends on the order.
func (c *C) orderRule(runs []*Run) {
	for _, r := range runs {
		for _, k := range sortedSums(r.X.Sums) {
			sum := r.X.Sums[k]
			if !overMap(sum) {
				continue
			}
			c.Count("iterations over maps", 1)
			for _, b := range sum.Backs {
				eachNested(b.Evs, map[*LoopSum]bool{}, func(ev *Event) {
					switch ev.Kind {
					case engine.EvBuild, engine.EvCommit, engine.EvCustom, engine.EvInvoke, engine.EvValue, engine.EvCall:
						c.Fail("order", c.name(r.Fn), c.P.Pos(ev.Pos), "calls %s in the random order of a map", ev.Name)
					}
				})
				for _, l := range sum.Lams {
					v := b.Upd[l.Term]
					if v == nil || v == l.Term || l.Ver != "" || l.Loc != nil && l.Loc.Op == engine.OMapVer && l.Loc.Aux != "" || v.Op == engine.OConst {
						continue
					}
					if v.Typ != nil {
						if bt, ok := v.Typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
							continue
						}
					}
					if keyed(v, l.Term) || sorted(r, l.Term) {
						continue
					}
					c.Fail("order", c.name(r.Fn), c.P.Pos(headerPos(sum)), "makes %s in the random order of a map", clip(v.String()))
				}
			}
		}
	}
}

// overMap: the loop ranges over a map.
func overMap(sum *LoopSum) bool {
	if sum.Header == nil {
		return false
	}
	for _, in := range sum.Header.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return true
		}
	}
	return false
}

// eachNested visits the events, and those of the loops among them.
func eachNested(evs []*Event, seen map[*LoopSum]bool, visit func(ev *Event)) {
	for _, ev := range evs {
		visit(ev)
		if ev.Loop != nil && !seen[ev.Loop] {
			seen[ev.Loop] = true
			for _, b := range ev.Loop.Backs {
				eachNested(b.Evs, seen, visit)
			}
		}
	}
}

func headerPos(sum *LoopSum) token.Pos {
	for _, in := range sum.Header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if n.Pos().IsValid() {
				return n.Pos()
			}
			return n.Iter.Pos()
		}
	}
	return sum.Pos
}

// keyed: the map is changed for the key of the iteration only.
func keyed(v, was *T) bool {
	for v != was {
		if v.Op != engine.OApp || v.Aux != "upd" && v.Aux != "del" || !strings.HasPrefix(v.Args[1].Aux, "next.key:") {
			return false
		}
		v = v.Args[0]
	}
	return true
}

// sorted: the list is sorted later.
func sorted(r *Run, t *T) bool {
	for _, e := range r.X.Effects {
		if e.Kind == "store" && e.Addr == e.Val && uncap(e.Addr) == t {
			return true
		}
	}
	return false
}

// impureRule: building depends on nothing but what is built.
func (c *C) impureRule() {
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					c.Fail("pure", c.name(fn), c.P.Pos(in.Pos()), "starts a goroutine")
				case *ssa.Select:
					c.Fail("pure", c.name(fn), c.P.Pos(in.Pos()), "selects between channels")
				case ssa.CallInstruction:
					f := in.Common().StaticCallee()
					if f == nil || f.Pkg == nil {
						continue
					}
					c.Count("calls", 1)
					switch p := f.Pkg.Pkg.Path(); {
					case p == "math/rand", p == "math/rand/v2", p == "crypto/rand", p == "hash/maphash",
						p == "time" && (f.Name() == "Now" || f.Name() == "Since" || f.Name() == "Until"),
						p == "os" && f.Signature.Recv() == nil && f.Name() != "Exit",
						p == "runtime", p == "unsafe":
						c.Fail("pure", c.name(fn), c.P.Pos(in.Pos()), "calls %s", f.String())
					}
				}
			}
		}
	}
	c.Need("calls", 100)
}
