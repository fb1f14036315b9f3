package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C02"] = &Check{
		Rule: "every implementation that stores committed args: each partition of CommitArg appends the arg, unchanged, and returns '?', or '$' and the new number of args, recorded as the number of the arg (unless its type is known to be unhashable), or, only if a number is recorded, returns that and stores nothing; truncating cuts the list and removes exactly the larger numbers; NewContext uses the store of the requested style; args are hashed only if known to be hashable",
		Run:  checkC02,
	}
}

// argStores lists the concrete types with CommitArg, other than the context.
func (c *C) argStores() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		recv := fn.Signature.Recv()
		if fn.Synthetic != "" || recv == nil || fn.Name() != "CommitArg" || fn.Signature.Params().Len() != 1 {
			continue
		}
		if p, ok := recv.Type().(*types.Pointer); ok && types.Identical(p.Elem(), c.ctxType()) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func (c *C) methodOf(t types.Type, name string) *ssa.Function {
	return c.P.SSA.LookupMethod(t, c.P.Root.Pkg, name)
}

// valueAt runs a method without params on a state and returns its only value.
func (c *C) valueAt(r *Run, st *State, fn *ssa.Function, recv *T) *T {
	x := *r.X
	outs, err := (&x).Run(fn, st.Clone(), []*T{recv})
	if err != nil || len(outs) != 1 || outs[0].Panic {
		return nil
	}
	return outs[0].Vals[0]
}

func checkC02(c *C) {
	stores := c.argStores()
	styles := map[string]string{} // type -> style
	var preds []*ssa.Function
	for _, fn := range stores {
		c.Count("arg stores", 1)
		styles[types.TypeString(fn.Signature.Recv().Type(), nil)] = c.commitStore(fn, &preds)
		c.truncateStore(fn)
	}
	c.Need("arg stores", 1)
	for _, p := range preds {
		c.predicate(p, false)
	}
	c.styleRule()
	c.commitRule()
}

// commitStore checks CommitArg of a store and returns its style.
func (c *C) commitStore(fn *ssa.Function, preds *[]*ssa.Function) string {
	name := c.name(fn)
	recvT := fn.Signature.Recv().Type()
	argsFn := c.methodOf(recvT, "Args")
	if argsFn == nil {
		c.Fail("anchor", name, c.P.Pos(fn.Pos()), "has no method Args")
		return ""
	}
	r := c.AnalyseWith(fn, "", nil, func(r *Run, st *engine.State) { st.Facts.Assume(engine.Eq(r.Args[0], engine.Nil), false) })
	s, arg := r.Args[0], r.Args[1]
	old := c.valueAt(r, r.Base, argsFn, s)
	if old == nil {
		c.Fail("anchor", name, c.P.Pos(fn.Pos()), "Args doesn't return a list")
		return ""
	}
	style := ""
	var dict *T
	dicts := func(o *engine.Outcome) []*T {
		var ms []*T
		for k, v := range o.St.Heap {
			if k.Op == engine.OMapVer && k.Aux == "" && r.Base.Heap[k] != v {
				ms = append(ms, k.Args[0])
			}
		}
		return ms
	}
	for _, o := range r.Outs {
		if n := numbered(retVal(o)); n != nil && n.Op == engine.OLookup {
			dict = n.Args[0]
		}
	}
	for _, o := range r.Outs {
		for _, m := range dicts(o) {
			if dict != nil && dict != m {
				c.Fail("commit", name, c.P.Pos(o.RetPos), "more than one map is changed")
			}
			dict = m
		}
	}
	for _, o := range r.Outs {
		pos := c.P.Pos(o.RetPos)
		if o.Panic {
			c.Fail("commit", name, pos, "may panic")
			continue
		}
		c.Count("commit partitions", 1)
		f := o.St.Facts
		now := c.valueAt(r, o.St, argsFn, s)
		stored, ok := appended(now, old, arg)
		if !ok {
			c.Fail("commit", name, pos, "the args become %s, neither the old ones nor those and the arg", now)
			continue
		}
		text := o.Vals[0]
		if v, ok := text.StrVal(); ok && v == "?" {
			if style == "$" {
				c.Fail("commit", name, pos, "mixes '?' and '$'")
			}
			style = "?"
			if !stored {
				c.Fail("commit", name, pos, "returns '?' without storing the arg")
			}
			continue
		}
		n := numbered(text)
		if n == nil {
			c.Fail("commit", name, pos, "returns %s, want '?' or '$' and the number of the arg", clip(text.String()))
			continue
		}
		if style == "?" {
			c.Fail("commit", name, pos, "mixes '?' and '$'")
		}
		style = "$"
		next := engine.Lin(engine.Len(old), 1)
		if stored {
			if n != next {
				c.Fail("commit", name, pos, "stores the arg as number %s, but returns number %s", next, n)
			}
			if dict == nil {
				c.Fail("commit", name, pos, "never remembers the numbers of args, equal args aren't merged")
				continue
			}
			ver := r.X.MapVer(o.St, dict)
			was := r.X.MapVer(r.Base, dict)
			switch {
			case ver == was:
				// not remembered: only what can't be hashed
				p := c.unhashable(f, arg)
				if p == nil {
					c.Fail("commit", name, pos, "doesn't remember the number of the arg although it may be hashable")
				} else if p.Ref != nil {
					*preds = append(*preds, p.Ref.(*ssa.Function))
				} else {
					for _, fn := range c.P.Funcs {
						if "pure:"+fn.String() == p.Aux {
							*preds = append(*preds, fn)
						}
					}
				}
			case ver.Op == engine.OApp && ver.Aux == "upd" && ver.Args[0] == was && ver.Args[1] == arg && ver.Args[2] == next:
				if !missed(f, dict, arg) {
					c.Fail("commit", name, pos, "stores the arg without having looked for an equal one")
				}
			default:
				c.Fail("commit", name, pos, "the remembered numbers become %s", clip(ver.String()))
			}
			continue
		}
		if n.Op != engine.OLookup || dict == nil || n.Args[0] != dict || n.Args[1] != arg {
			c.Fail("commit", name, pos, "doesn't store the arg, but returns number %s", clip(n.String()))
			continue
		}
		if !found(f, n) {
			c.Fail("commit", name, pos, "returns the number of an equal arg without knowing that there is one")
		}
		if r.X.MapVer(o.St, dict) != r.X.MapVer(r.Base, dict) {
			c.Fail("commit", name, pos, "changes the remembered numbers of merged args")
		}
		c.Count("merging partitions", 1)
	}
	if style == "$" {
		c.Need("merging partitions", 1)
	}
	for _, ob := range r.X.Obligations {
		if ob.Kind == "hash of unhashable type" {
			c.Count("hashed args", 1)
			if ob.Failed > 0 {
				c.Fail("hash", name, c.P.Pos(ob.Pos), "the arg is used as a map key without knowing that it's hashable")
			}
		}
	}
	return style
}

// appended: now is old, or old and the arg.
func appended(now, old, arg *T) (stored, ok bool) {
	if now == nil {
		return false, false
	}
	for now.Op == engine.OCapped {
		now = now.Args[0]
	}
	if now == old {
		return false, true
	}
	if now.Op != engine.OSeq || len(now.Args) != 2 {
		return false, false
	}
	a := now.Args[0]
	if a.Op != engine.OSpread {
		return false, false
	}
	a = a.Args[0]
	for a.Op == engine.OCapped {
		a = a.Args[0]
	}
	return true, a == old && now.Args[1] == arg
}

func retVal(o *engine.Outcome) *T {
	if o.Panic || len(o.Vals) == 0 {
		return engine.Nil
	}
	return o.Vals[0]
}

// numbered returns n of "$" ++ n.
func numbered(t *T) *T {
	if t.Op != engine.OConcat || len(t.Args) != 2 {
		return nil
	}
	if s, ok := t.Args[0].StrVal(); !ok || s != "$" {
		return nil
	}
	if n := t.Args[1]; n.Op == engine.OApp && n.Aux == "fmt:%d" {
		n = n.Args[0]
		for n.Op == engine.OIface || n.Op == engine.OConv {
			n = n.Args[0]
		}
		return n
	}
	return nil
}

func missed(f *Facts, dict, arg *T) bool {
	for k, v := range f.Lits() {
		if k.Op == engine.OLookupOk && !v && k.Args[0] == dict && k.Args[1] == arg {
			return true
		}
	}
	hit := false
	f.EachTerm(func(t *T) {
		if t.Op == engine.OLookup && t.Args[0] == dict && t.Args[1] == arg && f.LeqK(t, engine.Int(0), 0) {
			hit = true
		}
	})
	return hit
}

func found(f *Facts, n *T) bool {
	for k, v := range f.Lits() {
		if k.Op == engine.OLookupOk && v && k.Args[0] == n.Args[0] && k.Args[1] == n.Args[1] {
			return true
		}
	}
	return f.LeqK(engine.Int(1), n, 0)
}

// unhashable returns the predicate that is known to be false for the type of the arg.
func (c *C) unhashable(f *Facts, arg *T) *T {
	for k, v := range f.Lits() {
		if v || k.Op != engine.OApp || len(k.Args) != 1 {
			continue
		}
		a := k.Args[0]
		if strings.HasPrefix(k.Aux, "pure:") && a.Op == engine.OApp && a.Aux == "reflect.TypeOf" && a.Args[0] == arg {
			return k
		}
		if strings.HasSuffix(k.Aux, "Comparable") && a.Mentions(arg) {
			return k
		}
	}
	return nil
}

// predicate checks a recursive predicate on types that decides what is hashed.
// Only the types that can't be hashed matter if that's all the rule asks for (safety).
func (c *C) predicate(fn *ssa.Function, safety bool) {
	if c.seen["pred:"+fn.String()] {
		return
	}
	c.seen["pred:"+fn.String()] = true
	r := c.Analyse(fn)
	name := c.name(fn)
	t := r.Args[0]
	structs := false
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		c.Count("type partitions", 1)
		pos := c.P.Pos(o.RetPos)
		kinds := kindsOf(o.St.Facts, t)
		v := o.Vals[0]
		if b, ok := o.St.Facts.Eval(v); ok {
			for _, k := range kinds {
				switch k {
				case reflect.Array, reflect.Struct:
					if b && k == reflect.Struct && fieldsComplete(c, r, o, fn, t) {
						structs = true
						continue
					}
					if b {
						c.Fail("hashable-types", name, pos, "holds for any %s type, but the hashability depends on its elements", k)
					}
				case reflect.Interface, reflect.Func, reflect.Map, reflect.Slice:
					if b {
						c.Fail("hashable-types", name, pos, "holds for %s types, which can't be hashed", k)
					}
				default:
					if !b && k != reflect.Invalid && !safety {
						c.Fail("hashable-types", name, pos, "doesn't hold for %s types, so that equal args aren't merged", k)
					}
				}
			}
			continue
		}
		comparable := v.Op == engine.OApp && v.Aux == "reflect.Comparable" && v.Args[0] == t
		elem := v.Op == engine.OApp && v.Aux == "pure:"+fn.String() && v.Args[0].Op == engine.OApp && v.Args[0].Aux == "reflect.Elem" && v.Args[0].Args[0] == t
		for _, k := range kinds {
			switch k {
			case reflect.Interface, reflect.Struct:
				c.Fail("hashable-types", name, pos, "can't be decided by %s for %s types", clip(v.String()), k)
			case reflect.Array:
				if !elem {
					c.Fail("hashable-types", name, pos, "can't be decided by %s for %s types", clip(v.String()), k)
				}
			default:
				if !comparable {
					c.Fail("hashable-types", name, pos, "can't be decided by %s for %s types", clip(v.String()), k)
				}
			}
		}
	}
	if !structs && !safety {
		c.Fail("hashable-types", name, c.P.Pos(fn.Pos()), "never holds for struct types, so that equal structs (e.g. time.Time) aren't merged")
	}
	c.Need("type partitions", 3)
}

// kindsOf lists the kinds the type may have.
func kindsOf(f *Facts, t *T) []reflect.Kind {
	k := engine.App("reflect.Kind", nil, t)
	var out []reflect.Kind
	for i := reflect.Invalid; i <= reflect.UnsafePointer; i++ {
		if v, ok := f.Eval(engine.Eq(k, engine.Int(int64(i)))); ok && !v {
			continue
		}
		out = append(out, i)
	}
	return out
}

// fieldsComplete: every iteration of a loop over all fields that goes on knows
// the predicate to hold for the type of the field.
func fieldsComplete(c *C, r *Run, o *engine.Outcome, fn *ssa.Function, t *T) bool {
	n := engine.App("reflect.NumField", nil, t)
	for _, sum := range r.X.Sums {
		for _, l := range sum.Lams {
			if v, ok := l.Init.IntVal(); !ok || v != 0 || !o.St.Facts.LeqK(n, l.Term, 0) || len(sum.Backs) == 0 {
				continue
			}
			good := true
			for _, b := range sum.Backs {
				holds := false
				for k, v := range b.St.Facts.Lits() {
					if v && k.Op == engine.OApp && k.Aux == "pure:"+fn.String() && k.Args[0].Mentions(l.Term) && k.Args[0].Mentions(t) {
						holds = true
					}
				}
				good = good && holds && b.Upd[l.Term] == engine.Lin(l.Term, 1)
			}
			if good {
				return true
			}
		}
	}
	return false
}

// truncateStore checks the method that drops args.
func (c *C) truncateStore(commit *ssa.Function) {
	recvT := commit.Signature.Recv().Type()
	argsFn := c.methodOf(recvT, "Args")
	ms := c.P.SSA.MethodSets.MethodSet(recvT)
	for i := 0; i < ms.Len(); i++ {
		sig := ms.At(i).Obj().Type().(*types.Signature)
		if sig.Params().Len() != 1 || sig.Results().Len() != 0 || !types.Identical(sig.Params().At(0).Type(), types.Typ[types.Int]) {
			continue
		}
		fn := c.P.SSA.MethodValue(ms.At(i))
		name := c.name(fn)
		c.Count("truncating methods", 1)
		r := c.AnalyseWith(fn, "", nil, func(r *Run, st *engine.State) { st.Facts.Assume(engine.Eq(r.Args[0], engine.Nil), false) })
		s, n := r.Args[0], r.Args[1]
		old := c.valueAt(r, r.Base, argsFn, s)
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			pos := c.P.Pos(fn.Pos())
			now := c.valueAt(r, o.St, argsFn, s)
			cut := now
			for cut != nil && cut.Op == engine.OCapped {
				cut = cut.Args[0]
			}
			same := now == old && o.St.Facts.LeqK(engine.Len(old), n, 0)
			if !same && (cut == nil || cut.Op != engine.OSlice || cut.Args[0] != old || !isZero(cut.Args[1]) || cut.Args[2] != n) {
				c.Fail("truncate", name, pos, "the args become %v, want the first n", now)
			}
			// the numbers: looked up by the maps the type has
			u, _ := recvT.(*types.Pointer)
			if u == nil {
				continue
			}
			st, _ := u.Elem().Underlying().(*types.Struct)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Map); !ok {
					continue
				}
				m := r.X.Load(o.St, r.X.FieldAddr(s, u.Elem(), i), st.Field(i).Type())
				c.Count("maps of numbers", 1)
				if same {
					continue
				}
				if p := numbersDropped(c, r, o, m, n); p != "" {
					c.Fail("truncate", name, pos, "%s", p)
				}
			}
		}
	}
}

func isZero(t *T) bool {
	v, ok := t.IntVal()
	return ok && v == 0 || t.Op == engine.ONil
}

// numbersDropped: a loop over the whole map deletes exactly what is greater than n.
func numbersDropped(c *C, r *Run, o *engine.Outcome, m, n *T) string {
	for _, ev := range o.St.Trace.Events() {
		if ev.Loop == nil {
			continue
		}
		over := false
		for k, v := range o.St.Facts.Lits() {
			if !v && strings.HasPrefix(k.String(), "next.ok:") {
				over = true
			}
		}
		if !over {
			continue
		}
		deletes := false
		for _, b := range ev.Loop.Backs {
			var key *T
			for l, v := range b.Upd {
				_ = l
				if v.Op == engine.OApp && v.Aux == "del" {
					key = v.Args[1]
				} else if v.Op == engine.OApp && v.Aux == "upd" {
					return "numbers are changed while args are dropped"
				}
			}
			var val *T
			b.St.Facts.EachTerm(func(t *T) {
				if strings.HasPrefix(t.String(), "next.val:") {
					val = t
				}
			})
			if val == nil {
				return "the numbers are dropped without comparing them with the number of kept args"
			}
			if key != nil {
				deletes = true
				if !strings.HasPrefix(key.String(), "next.key:") {
					return "drops the number of another arg"
				}
				if !b.St.Facts.LeqK(n, val, -1) {
					return "may drop the number of an arg that is kept"
				}
			} else if !b.St.Facts.LeqK(val, n, 0) {
				return "may keep the number of an arg that is dropped"
			}
		}
		if deletes {
			c.Count("dropped numbers", 1)
			return ""
		}
	}
	return "the numbers of the dropped args are kept"
}

// styleRule: the first arg of a new context is "$1" or "?", according to its style.
func (c *C) styleRule() {
	nc := c.P.Root.Func("NewContext")
	commit := c.methodOf(types.NewPointer(c.ctxType()), "CommitArg")
	if nc == nil || commit == nil {
		c.Fail("anchor", "NewContext", "", "not found")
		return
	}
	r := c.Analyse(nc)
	arg := engine.Sym("committed", types.NewInterfaceType(nil, nil))
	style := engine.Eq(r.Args[0], engine.Int(0)) // syntax.Dollar
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		for _, dollar := range []bool{true, false} {
			st := o.St.Clone()
			if v, ok := st.Facts.Eval(style); ok && v != dollar {
				continue
			}
			st.Facts.Assume(style, dollar)
			x := *r.X
			outs, err := (&x).Run(commit, st, []*T{o.Vals[0], arg})
			if err != nil {
				c.Fail("style", "NewContext", c.P.Pos(o.RetPos), "can't be analysed: %v", err)
				continue
			}
			for _, oo := range outs {
				if oo.Panic {
					continue
				}
				c.Count("styles", 1)
				text := oo.Vals[0]
				n := numbered(text)
				s, lit := text.StrVal()
				if dollar && !(lit && s == "$1") && n == nil || !dollar && !(lit && s == "?") {
					c.Fail("style", "NewContext", c.P.Pos(o.RetPos), "with Dollar=%v the first committed arg is %s", dollar, clip(text.String()))
				}
			}
		}
	}
	c.Need("styles", 2)
}
