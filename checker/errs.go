package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C06"] = &Check{
		Rule: "in every function of the building packages that can return an error, on every path partition (and every partition of every loop iteration), the error of each build, call or inlined function is known to be nil, or returned (wrapped where it is the error of a nested build or call). Exception: errors known to be ErrInvalidIndex and known not to be nested",
		Run:  checkC06,
	}
	checks["C07"] = &Check{
		Rule: "in every function that returns a query, args, rows or text and an error, on every path partition whose error isn't known to be nil, all other results are zero values or forwarded, with the error, from a function the rule is applied to as well",
		Run:  checkC07,
	}
	checks["C10"] = &Check{
		Rule: "every call of a registered function is made below a deferred recover: each partition in which it panics ends with a returned error that is known not to be nil",
		Run:  checkC10,
	}
}

// errFuncs lists the functions of the building packages with an error as last result.
func (c *C) errFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		rs := fn.Signature.Results()
		if fn.Parent() != nil || fn.Synthetic != "" || rs.Len() == 0 || !isErr(rs.At(rs.Len()-1).Type()) {
			continue
		}
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		if p := pkgOf(fn); p == c.P.Synt || p == nil {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// errClosures lists the closures with an error result that no analysed function inlined.
func (c *C) errClosures() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		rs := fn.Signature.Results()
		if fn.Parent() == nil || c.inlined[fn] || rs.Len() == 0 || !isErr(rs.At(rs.Len()-1).Type()) || pkgOf(fn) == c.P.Synt {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil && fn.Origin() != nil {
		return fn.Origin().Pkg
	}
	return fn.Pkg
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// eachRun analyses the functions, then the closures they didn't inline.
func (c *C) eachErrRun(f func(r *Run)) {
	for _, fn := range c.errFuncs() {
		f(c.Analyse(fn))
	}
	for _, fn := range c.errClosures() {
		f(c.Analyse(fn))
	}
}

func checkC06(c *C) {
	c.eachErrRun(func(r *Run) {
		c.Count("functions with error", 1)
		e := &errRule{c: c, r: r, loops: map[*LoopSum]bool{}}
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			evs := o.St.Trace.Events()
			e.history(o.St, evs, o.Vals[len(o.Vals)-1], c.P.Pos(o.RetPos))
		}
	})
	c.Need("functions with error", 15)
	c.Need("errors followed", 100)
	c.Need("wrapped errors", 40)
	c.nestedRule()
}

type errRule struct {
	c     *C
	r     *Run
	loops map[*LoopSum]bool
}

func (e *errRule) history(st *State, evs []*Event, ret *T, pos string) {
	for _, ev := range evs {
		if ev.Loop != nil {
			if e.loops[ev.Loop] {
				continue
			}
			e.loops[ev.Loop] = true
			for _, b := range ev.Loop.Backs {
				e.history(b.St, b.Evs, nil, e.c.P.Pos(ev.Loop.Pos))
			}
			continue
		}
		if ev.Panic {
			continue
		}
		if p := e.followed(st, ev, ret); p != "" {
			e.c.Fail("error-swallowed", e.c.name(e.r.Fn)+" "+string(ev.Kind)+" "+engine.Short(ev.Name), pos, "%s", p)
		}
	}
}

// followed reports why the error of an event is neither nil nor returned.
func (e *errRule) followed(st *State, ev *Event, ret *T) string {
	f := st.Facts
	var err *T
	weak := ev.Kind == engine.EvErr
	if n := len(ev.Res); n > 0 && ev.Res[n-1].Typ != nil && isErr(ev.Res[n-1].Typ) || weak {
		err = ev.Res[n-1]
	}
	if ev.Kind == engine.EvCustom {
		return e.customFollowed(st, ev, ret)
	}
	if err == nil || strings.HasPrefix(ev.Name, "(*database/sql.") || strings.Contains(ev.Name, "/util.Interpolate") {
		// running queries is C21; interpolated queries are for logs only, see below
		return ""
	}
	e.c.Count("errors followed", 1)
	if f.IsNil(err) {
		return ""
	}
	if ret != nil {
		if e.c.wraps(e.r, st, ret, err, 0) {
			e.c.Count("wrapped errors", 1)
			return ""
		}
		if f.NonNil(ret) && (weak || e.c.lineageOf(e.r, st, ev.Ctx) == foreignCtx && ev.Ctx != nil) {
			return ""
		}
	}
	if e.exhausted(st, err) {
		e.c.Count("ends of lists", 1)
		return ""
	}
	if ret == nil {
		return "the iteration goes on although " + engine.Short(ev.Name) + " may have failed"
	}
	if f.IsNil(ret) {
		return "succeeds although " + engine.Short(ev.Name) + " may have failed"
	}
	return "the error of " + engine.Short(ev.Name) + " is lost, the returned error is " + clip(ret.String())
}

// exhausted: known to be ErrInvalidIndex, and not a nested error.
func (e *errRule) exhausted(st *State, err *T) bool {
	is, as := false, false
	for k, v := range st.Facts.Lits() {
		if k.Op != engine.OApp || len(k.Args) == 0 || k.Args[0] != err {
			continue
		}
		if k.Aux == "errors.Is" && v && k.Args[1] == e.c.invalidIndex(e.r) {
			is = true
		}
		if strings.HasPrefix(k.Aux, "errors.As:") && !v {
			as = true
		}
	}
	return is && as && e.indexed(st, evOf(err))
}

// indexed reports whether the call was given an index that is counted by a
// loop, or is a probe in a context of its own.
func (e *errRule) indexed(st *State, ev *Event) bool {
	if ev == nil {
		return false
	}
	if ev.Ctx != nil && e.c.lineageOf(e.r, st, ev.Ctx) == foreignCtx {
		return true
	}
	for _, a := range ev.Args {
		for _, it := range e.r.X.Items(st, a) {
			if it.Op != engine.OIface {
				continue
			}
			if l := lamOf(engine.Base(it.Args[0])); l != nil && l.Sum != nil {
				for _, b := range l.Sum.Backs {
					if u := b.Upd[l.Term]; u == engine.Lin(l.Term, 1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// invalidIndex is the value of sqlf.ErrInvalidIndex.
func (c *C) invalidIndex(r *Run) *T {
	g, _ := c.P.Root.Members["ErrInvalidIndex"].(*ssa.Global)
	if g == nil {
		return nil
	}
	return r.X.Load(r.Base, r.X.GlobalAddr(g), g.Type().Underlying().(*types.Pointer).Elem())
}

// customFollowed: a function without error result, or the error is nil or returned.
func (e *errRule) customFollowed(st *State, ev *Event, ret *T) string {
	f := st.Facts
	res := ev.Res[0]
	e.c.Count("errors followed", 1)
	if f.LeqK(engine.Len(res), engine.Int(1), 0) {
		return ""
	}
	// the terms known to be nil, or an error, that come from the second result
	isNil, isError := false, false
	st.Facts.EachNil(func(t *T, isnil bool) {
		if !fromResult(t, res, 1) {
			return
		}
		if isnil {
			isNil = true
		}
	})
	for k, v := range st.Facts.Lits() {
		if k.Op == engine.OAssertOk && v && isErr(k.Ref.(types.Type)) && fromResult(k.Args[0], res, 1) {
			isError = true
		}
	}
	if isNil {
		return ""
	}
	if ret != nil {
		if e.c.wrapsFunc(e.r, st, ret, func(t *T) bool { return fromResult(t, res, 1) }, 0) {
			e.c.Count("wrapped errors", 1)
			return ""
		}
		if f.NonNil(ret) && (!isError || e.c.lineageOf(e.r, st, ev.Ctx) == foreignCtx) {
			return ""
		}
	}
	// the exception
	for k := range st.Facts.Lits() {
		if k.Op == engine.OApp && k.Aux == "errors.Is" {
			t := k.Args[0]
			if e.exhausted(st, t) && e.c.wrapsFunc(e.r, st, t, func(t *T) bool { return fromResult(t, res, 1) }, 0) {
				return ""
			}
		}
	}
	if ret == nil {
		return "the iteration goes on although the called function may have failed"
	}
	return "the error of the called function is lost, the returned error is " + clip(ret.String())
}

// fromResult reports whether t is made from the i-th element of the results of a reflect call.
func fromResult(t, res *T, i int64) bool {
	for d := 0; d < 12; d++ {
		switch t.Op {
		case engine.OAssert, engine.OConv, engine.OField, engine.OIface, engine.OFieldAddr:
			t = t.Args[0]
		case engine.OLoad:
			t = t.Args[0]
		case engine.OIndexAddr:
			n, ok := t.Args[1].IntVal()
			return t.Args[0] == res && ok && n == i
		case engine.OApp:
			if len(t.Args) == 0 {
				return false
			}
			t = t.Args[0]
		default:
			return false
		}
	}
	return false
}

// wraps reports whether the error err is or wraps the target.
func (c *C) wraps(r *Run, st *State, err, target *T, depth int) bool {
	return c.wrapsFunc(r, st, err, func(t *T) bool { return t == target }, depth)
}

func (c *C) wrapsFunc(r *Run, st *State, err *T, is func(t *T) bool, depth int) bool {
	if err == nil || depth > 10 {
		return false
	}
	if is(err) {
		return true
	}
	switch err.Op {
	case engine.OApp:
		switch err.Aux {
		case "fmt.Errorf":
			f, ok := err.Args[0].StrVal()
			if !ok {
				return false
			}
			for i, v := range verbs(f) {
				if v == 'w' && i+1 < len(err.Args) {
					a := err.Args[i+1]
					if a.Op == engine.OIface && !strings.HasPrefix(a.Ref.(types.Type).String(), "*") {
						if c.wrapsFunc(r, st, a.Args[0], is, depth+1) {
							return true
						}
					}
					if c.wrapsFunc(r, st, a, is, depth+1) {
						return true
					}
				}
			}
		case "errors.Join":
			for _, a := range err.Args {
				found := false
				a.Walk(func(u *T) bool {
					if !found && c.wrapsFunc(r, st, u, is, depth+1) {
						found = true
					}
					return !found && u.Op == engine.OSeq
				})
				if found {
					return true
				}
			}
		}
	case engine.OIface:
		dyn, ok := err.Ref.(types.Type)
		if !ok {
			return false
		}
		sel := c.P.SSA.MethodSets.MethodSet(dyn).Lookup(nil, "Unwrap")
		if sel == nil {
			return false
		}
		fn := c.P.SSA.MethodValue(sel)
		if fn == nil || !c.P.InRepo(fn) || fn.Signature.Results().Len() != 1 {
			return false
		}
		x := *r.X
		outs, e := (&x).Run(fn, st.Clone(), []*T{err.Args[0]})
		if e != nil || len(outs) == 0 {
			return false
		}
		for _, o := range outs {
			if o.Panic || !c.wrapsFunc(r, o.St, o.Vals[0], is, depth+1) {
				return false
			}
		}
		return true
	case engine.OAssert:
		return c.wrapsFunc(r, st, err.Args[0], is, depth+1)
	}
	return false
}

// verbs lists the verbs of a format, one per arg.
func verbs(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}

// nestedRule: what a property refers to is built with its errors marked as
// nested, by the type #join tells its own invalid indexes apart with.
func (c *C) nestedRule() {
	for _, fn := range c.builds() {
		r := c.Analyse(fn)
		inv := c.invalidIndex(r)
		reports := false
		for _, o := range r.Outs {
			if !o.Panic && c.wraps(r, o.St, o.Vals[1], inv, 0) {
				reports = true
			}
		}
		if !reports {
			continue
		}
		c.Count("index functions", 1)
		c.marks(fn, 0)
	}
	frag := c.P.Root.Type("Fragment")
	if frag == nil {
		c.Fail("anchor", "Fragment", "", "type not found")
		return
	}
	fn := c.method(frag, "BuildFragment")
	if fn == nil {
		c.Fail("anchor", "(*Fragment).BuildFragment", "", "method not found")
		return
	}
	c.marks(fn, 0)
	c.Count("index functions", 1)
	c.Need("index functions", 2)
	c.Need("nested errors", 2)
}

// marks checks that the errors of nested builds are marked by the function, or
// by the static functions it calls.
func (c *C) marks(fn *ssa.Function, depth int) {
	r := c.Analyse(fn)
	for _, o := range r.Outs {
		if o.Panic || o.St.Facts.IsNil(o.Vals[1]) {
			continue
		}
		for _, ev := range o.St.Trace.Events() {
			if ev.Kind != engine.EvBuild && ev.Kind != engine.EvValue || len(ev.Res) != 2 || o.St.Facts.IsNil(ev.Res[1]) || !c.wraps(r, o.St, o.Vals[1], ev.Res[1], 0) {
				continue
			}
			marked := false
			o.Vals[1].Walk(func(u *T) bool {
				if u.Op == engine.OIface && c.nestedTypes()[types.TypeString(u.Ref.(types.Type), nil)] && c.wraps(r, o.St, u, ev.Res[1], 0) {
					marked = true
				}
				return !marked
			})
			c.Count("nested errors", 1)
			if marked {
				continue
			}
			if ev.Fn != nil && depth < 4 {
				c.marks(ev.Fn, depth+1)
				continue
			}
			c.Fail("nested-not-marked", c.name(fn), c.P.Pos(o.RetPos), "an error from building what the index refers to is returned like an invalid index of its own, #join would take it as the end of the list")
		}
	}
}

// method of a named type (or the pointer to it).
func (c *C) method(t *ssa.Type, name string) *ssa.Function {
	return c.P.SSA.LookupMethod(types.NewPointer(t.Type()), t.Package().Pkg, name)
}

// nestedTypes are the types errors are tested for (errors.As).
func (c *C) nestedTypes() map[string]bool {
	out := map[string]bool{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || callee.String() != "errors.As" {
					continue
				}
				if mi, ok := ci.Common().Args[1].(*ssa.MakeInterface); ok {
					if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
						out[types.TypeString(p.Elem(), nil)] = true
					}
				}
			}
		}
	}
	return out
}

func checkC07(c *C) {
	c.eachErrRun(func(r *Run) {
		rs := r.Fn.Signature.Results()
		if rs.Len() < 2 || !c.c07Subject(r.Fn) {
			return
		}
		c.Count("functions", 1)
		for _, o := range r.Outs {
			n := len(o.Vals)
			if o.Panic || o.St.Facts.IsNil(o.Vals[n-1]) {
				continue
			}
			c.Count("error partitions", 1)
			err := o.Vals[n-1]
			if ev := evOf(err); ev != nil && len(ev.Res) == n && ev.Res[n-1] == err && (ev.Fn != nil || r.Fn.Name() != "BuildQuery") {
				all := ev.Kind == engine.EvBuild || ev.Kind == engine.EvValue || ev.Kind == engine.EvCall
				for i := range o.Vals {
					all = all && (o.Vals[i] == ev.Res[i] || zeroVal(o, i))
				}
				if all {
					c.Count("forwarded", 1)
					continue
				}
			}
			for i := 0; i < n-1; i++ {
				if !zeroVal(o, i) {
					c.Fail("result-with-error", c.name(r.Fn), c.P.Pos(o.RetPos), "result %d is %s, although the error may not be nil", i, clip(o.Vals[i].String()))
				}
			}
		}
	})
	c.Need("functions", 15)
	c.Need("error partitions", 100)
}

// c07Subject: functions that return text, queries, args, or rows.
func (c *C) c07Subject(fn *ssa.Function) bool {
	if engine.IsBuild(fn) || engine.ReturnsText(fn.Signature) && (fn.Parent() != nil || fn.Object() != nil && fn.Object().Exported()) {
		return true
	}
	return fn.Object() != nil && fn.Object().Exported() && (fn.Name() == "BuildQuery" || pkgOf(fn) == c.P.Util)
}

func zeroVal(o *engine.Outcome, i int) bool {
	v := o.Vals[i]
	switch v.Op {
	case engine.ONil, engine.OZero:
		return true
	case engine.OConst:
		if n, ok := v.IntVal(); ok {
			return n == 0
		}
		if s, ok := v.StrVal(); ok {
			return s == ""
		}
		if b, ok := v.BoolVal(); ok {
			return !b
		}
	}
	return o.St.Facts.IsNil(v) || v.Typ != nil && isStr(v.Typ) && o.St.Facts.StrEmpty(v)
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func checkC10(c *C) {
	c.eachErrRun(func(r *Run) {
		for _, o := range r.Outs {
			var calls, panics []*Event
			collect(o.St.Trace.Events(), map[*LoopSum]bool{}, func(ev *Event) {
				if ev.Kind == engine.EvCustom {
					calls = append(calls, ev)
					if ev.Panic {
						panics = append(panics, ev)
					}
				}
			})
			c.Count("calls of registered functions", len(calls))
			if len(panics) == 0 {
				continue
			}
			c.Count("panicking partitions", 1)
			if o.Panic {
				c.Fail("panic-escapes", c.name(r.Fn), c.P.Pos(o.RetPos), "a panic of the function called with %s escapes", engine.Short(panics[0].Name))
				continue
			}
			if !o.St.Facts.NonNil(o.Vals[len(o.Vals)-1]) {
				c.Fail("panic-lost", c.name(r.Fn), c.P.Pos(o.RetPos), "no error is returned after a panic of the function called with %s", engine.Short(panics[0].Name))
			}
		}
	})
	c.Need("calls of registered functions", 4)
	c.Need("panicking partitions", 2)
	// every call site of reflect's Call was seen
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || callee.String() != "(reflect.Value).Call" && callee.String() != "(reflect.Value).CallSlice" {
					continue
				}
				c.Count("call sites", 1)
				if !c.Functions[c.name(fn)] {
					c.Fail("call-not-analysed", c.name(fn), c.P.Pos(in.Pos()), "calls a function by reflection outside of the analysed building functions")
				}
			}
		}
	}
	c.Need("call sites", 1)
}

// collect visits the events, including those of the iterations of loops.
func collect(evs []*Event, seen map[*LoopSum]bool, f func(ev *Event)) {
	for _, ev := range evs {
		f(ev)
		if ev.Loop != nil && !seen[ev.Loop] {
			seen[ev.Loop] = true
			for _, b := range ev.Loop.Backs {
				collect(b.Evs, seen, f)
			}
		}
	}
}
