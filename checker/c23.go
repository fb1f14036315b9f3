package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/engine"
)

func init() {
	checks["C23"] = &Check{
		Rule: "of each kind of param and type of literal, the conversion of literals succeeds in exactly the allowed partitions, with the literal converted to the type of the param, and with the converted integer known to be equal; the names and signatures that a registration accepts are decided per class of characters, per results and per kind of params; a call passes each literal to the conversion with the type of the param at the same place",
		Run:  checkC23,
	}
}

func goodKind(k reflect.Kind) bool {
	return k == reflect.String || k == reflect.Bool || numKind(k)
}

func numKind(k reflect.Kind) bool {
	return k >= reflect.Int && k <= reflect.Uint64 || k == reflect.Float32 || k == reflect.Float64
}

func isRType(t types.Type) bool { return t.String() == "reflect.Type" }

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func checkC23(c *C) {
	var convs []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Synthetic != "" || fn.Parent() != nil || pkgOf(fn) != c.P.Root {
			continue
		}
		ti, ai := -1, -1
		for i, p := range fn.Params {
			switch {
			case isRType(p.Type()):
				ti = i
			case isAny(p.Type()):
				ai = i
			}
		}
		res := fn.Signature.Results()
		if ti >= 0 && ai >= 0 && len(fn.Params) == 2 && res.Len() == 2 && res.At(0).Type().String() == "reflect.Value" && res.At(1).Type().String() == "error" {
			convs = append(convs, fn)
			c.Count("conversions of literals", 1)
			c.literals(fn, ti, ai)
		}
	}
	c.Need("conversions of literals", 1)
	if ro := c.registration(); ro != nil && ro.of["in"] > 0 && ro.of["variadic"] > 0 && ro.of["context"] > 0 && ro.of["fixed"] > 0 {
		c.passing(convs, ro)
	} else {
		c.Count("not decided: calls, for the fields of the descriptions aren't recognised", 1)
	}
}

// literals: the table of kinds of params and types of literals.
func (c *C) literals(fn *ssa.Function, ti, ai int) {
	lits := map[string]types.Type{"float64": types.Typ[types.Float64], "int": types.Typ[types.Int], "string": types.Typ[types.String], "bool": types.Typ[types.Bool], "nil": nil}
	for _, name := range []string{"float64", "int", "string", "bool", "nil"} {
		for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
			if !goodKind(k) {
				continue
			}
			var typ, arg *T
			feasible := true
			r := c.AnalyseWith(fn, "c23:"+name+k.String(), nil, func(r *Run, st *State) {
				typ, arg = r.Args[ti], r.Args[ai]
				st.Facts.Assume(engine.Eq(typ, engine.Nil), false)
				feasible = st.Facts.Assume(engine.Eq(engine.KindTerm(typ), engine.Int(int64(k))), true)
				if t := lits[name]; t != nil {
					feasible = st.Facts.Assume(engine.AssertOk(arg, t), true) && feasible
				} else {
					feasible = st.Facts.Assume(engine.Eq(arg, engine.Nil), true) && feasible
				}
			})
			c.Count("kinds of params with types of literals", 1)
			if !feasible {
				c.Fail("analysis", c.name(fn), c.P.Pos(fn.Pos()), "%s for %s can't be assumed", name, k)
				continue
			}
			want := name == "string" && k == reflect.String || name == "bool" && k == reflect.Bool || (name == "float64" || name == "int") && numKind(k)
			whole := numKind(k) && k != reflect.Float32 && k != reflect.Float64
			n := 0
			for _, o := range r.Outs {
				if o.Panic {
					continue
				}
				pos := c.P.Pos(o.RetPos)
				failed := !o.St.Facts.IsNil(o.Vals[1])
				if failed && !o.St.Facts.NonNil(o.Vals[1]) {
					c.Fail("literal", c.name(fn), pos, "a %s literal for a %s param: it isn't known whether it's an error", name, k)
					continue
				}
				switch {
				case failed && want && !(whole && compared(o.St.Facts, arg, false)):
					c.Fail("literal", c.name(fn), pos, "a %s literal for a %s param is an error", name, k)
				case !failed && !want:
					c.Fail("literal", c.name(fn), pos, "a %s literal is accepted for a %s param", name, k)
				case !failed:
					n++
					if !isConverted(o.Vals[0], arg, typ) {
						c.Fail("literal", c.name(fn), pos, "a %s literal for a %s param becomes %s, not the literal in the type of the param", name, k, clip(o.Vals[0].String()))
					}
					if whole && !compared(o.St.Facts, arg, true) {
						c.Fail("literal", c.name(fn), pos, "a %s literal for a %s param is accepted without knowing that it fits", name, k)
					}
				}
			}
			if want && n == 0 {
				c.Fail("literal", c.name(fn), c.P.Pos(fn.Pos()), "a %s literal for a %s param is never accepted", name, k)
			}
		}
	}
}

// isLit reports whether t is the literal, in an interface or not.
func isLit(t, arg *T) bool {
	for t.Op == engine.OIface || t.Op == engine.OAssert {
		if t == arg {
			return true
		}
		t = t.Args[0]
	}
	return t == arg
}

// isConverted: v is the literal, converted to the type.
func isConverted(v, arg, typ *T) bool {
	if v.Op != engine.OApp || v.Aux != "reflect.Convert" || v.Args[1] != typ {
		return false
	}
	from := v.Args[0]
	return from.Op == engine.OApp && from.Aux == "reflect.ValueOf" && isLit(from.Args[0], arg)
}

// compared: the converted literal has been found to be the same as the literal, or not.
func compared(f *Facts, arg *T, same bool) bool {
	for l, v := range f.Lits() {
		if l.Mentions(arg) && mentionsConvert(l, 6) && (l.Op != engine.OEq || v == same) {
			return true
		}
	}
	return false
}

func mentionsConvert(t *T, depth int) bool {
	if t.Op == engine.OApp && strings.HasPrefix(t.Aux, "reflect.Convert") || t.Op == engine.OApp && strings.HasPrefix(t.Aux, "reflect.Overflow") {
		return true
	}
	if depth > 0 {
		for _, a := range t.Args {
			if mentionsConvert(a, depth-1) {
				return true
			}
		}
	}
	return false
}

// registration: what the functions that register functions accept.
func (c *C) registration() (ro *roles) {
	for _, fn := range c.P.Funcs {
		if fn.Synthetic != "" || pkgOf(fn) != c.P.Root || fn.Parent() != nil {
			continue
		}
		var in, out *ssa.Parameter
		var info *types.Named
		for _, p := range fn.Params {
			m, ok := p.Type().Underlying().(*types.Map)
			if !ok || !isString(m.Key()) {
				continue
			}
			if isAny(m.Elem()) {
				in = p
			} else if pt, ok := m.Elem().(*types.Pointer); ok {
				if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
					out, info = p, n
				}
			}
		}
		if in == nil || out == nil {
			continue
		}
		c.Count("registering functions", 1)
		names, sigs := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		for _, g := range c.callees(fn) {
			s := g.Signature
			if s.Params().Len()+recvs(s) != 1 || s.Results().Len() != 1 {
				continue
			}
			t := g.Params[0].Type()
			switch res := s.Results().At(0).Type(); {
			case isString(t) && res == types.Typ[types.Bool]:
				names[g] = true
				c.goodNames(g)
			case types.Identical(t, types.NewPointer(info)) && res.String() == "error":
				sigs[g] = true
			}
		}
		ro = c.registers(fn, in, out, info, names, sigs)
		if len(sigs) == 0 {
			c.Count("not decided: signatures, which aren't checked by a function of their own", 1)
		}
		for g := range sigs {
			c.goodSignatures(g, ro)
		}
	}
	c.Need("registering functions", 1)
	return
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func recvs(s *types.Signature) int {
	if s.Recv() != nil {
		return 1
	}
	return 0
}

// callees are the repo functions that are called by the function itself.
func (c *C) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && c.P.InRepo(g) && len(g.Blocks) > 0 && !seen[g] {
					seen[g] = true
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// goodNames: a predicate on names holds for one or more letters or underscores.
func (c *C) goodNames(fn *ssa.Function) {
	r := c.AnalyseWith(fn, "c23", func(def engine.CutFunc) engine.CutFunc { return def }, func(r *Run, st *State) { r.X.Split = true })
	name := c.name(fn)
	// the characters of a generic iteration
	var runes []*T
	for _, k := range sortedSums(r.X.Sums) {
		for _, b := range r.X.Sums[k].Backs {
			for l := range b.St.Facts.Lits() {
				if l.Op == engine.OApp && strings.HasPrefix(l.Aux, "next.ok:") {
					runes = append(runes, engine.App("next.val:"+strings.TrimPrefix(l.Aux, "next.ok:"), types.Typ[types.Rune], l.Args...))
				}
			}
		}
	}
	if len(runes) == 0 {
		c.Count("not decided: name predicates without a loop over the characters", 1)
		return
	}
	rn := runes[0]
	c.Count("name predicates", 1)
	for _, rn := range runes {
		if over := rn.Args[0]; over.Op == engine.OApp && over.Aux == "range" && plain(over.Args[0]) != r.Args[0] {
			c.Fail("names", name, c.P.Pos(fn.Pos()), "only the characters of %s are looked at", clip(over.Args[0].String()))
		}
	}
	empty := false
	// the outcomes, by what they return
	type outcome struct {
		v  bool
		fs *Facts
		at token.Pos
	}
	var outs []outcome
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		for _, v := range []bool{false, true} {
			if f := o.St.Facts.Clone(); f.Assume(o.Vals[0], v) {
				outs = append(outs, outcome{v, f, o.RetPos})
			}
		}
	}
	for _, o := range outs {
		v := o.v
		f := o.fs.Clone()
		isEmpty := f.Assume(engine.Eq(r.Args[0], engine.Str("")), true)
		if isEmpty && v {
			c.Fail("names", name, c.P.Pos(o.at), "the empty name is accepted")
		}
		empty = empty || isEmpty && !v
		if f := o.fs.Clone(); !v && !inLoop(f, rn) && f.Assume(engine.Eq(r.Args[0], engine.Str("")), false) && feasibleLits(f) {
			c.Fail("names", name, c.P.Pos(o.at), "names are rejected whatever their characters are")
		}
	}
	if !empty {
		c.Fail("names", name, c.P.Pos(fn.Pos()), "the empty name isn't rejected")
	}
	for _, ch := range []rune{0, '\t', ' ', '#', '(', '-', '.', '/', '0', '9', ':', '@', 'A', 'B', 'M', 'Y', 'Z', '[', '^', '_', '`', 'a', 'b', 'm', 'y', 'z', '{', '~', 0x7f, 0x80, 0xaa, 0xb5, 0xe9, 0x17f, 0x212a, 0x4e2d, 0xfffd, 0x10ffff} {
		want := ch == '_' || 'a' <= ch && ch <= 'z' || 'A' <= ch && ch <= 'Z'
		c.Count("classes of characters in names", 1)
		goesOn, rejected := false, false
		is := func(f *Facts) bool {
			f = f.Clone()
			return f.Assume(engine.Eq(rn, engine.Int(int64(ch))), true) && feasibleLits(f)
		}
		for _, k := range sortedSums(r.X.Sums) {
			for _, b := range r.X.Sums[k].Backs {
				goesOn = goesOn || is(b.St.Facts)
			}
		}
		for _, o := range outs {
			if !o.v && inLoop(o.fs, rn) {
				rejected = rejected || is(o.fs)
			}
		}
		switch {
		case want && (rejected || !goesOn):
			c.Fail("names", name, c.P.Pos(fn.Pos()), "names with %q are rejected", ch)
		case !want && (goesOn || !rejected):
			c.Fail("names", name, c.P.Pos(fn.Pos()), "names with %q are accepted", ch)
		}
	}
}

// inLoop: the partition has left the loop from within an iteration.
func inLoop(f *Facts, rn *T) bool {
	for l, v := range f.Lits() {
		if l.Op == engine.OApp && strings.HasPrefix(l.Aux, "next.ok:") && strings.TrimPrefix(l.Aux, "next.ok:") == strings.TrimPrefix(rn.Aux, "next.val:") {
			return v
		}
	}
	return false
}

func feasibleLits(f *Facts) bool {
	for l, v := range f.Lits() {
		if w, ok := f.Eval(l); ok && w != v {
			return false
		}
	}
	return true
}

// roles are the fields of the description of a function, by what the registration stores there.
type roles struct {
	info *types.Named
	of   map[string]int
}

func (ro *roles) load(r *Run, st *State, o *T, role string) *T {
	i, ok := ro.of[role]
	if !ok {
		return nil
	}
	return r.X.Load(st, r.X.FieldAddr(o, ro.info, i), ro.info.Underlying().(*types.Struct).Field(i).Type())
}

// hasRole decides what the value stored in a field is.
func hasRole(role string, v *T, f *Facts, typ *T) bool {
	app := func(t *T, name string) bool {
		return t.Op == engine.OApp && t.Aux == name && t.Args[0] == typ
	}
	switch role {
	case "params":
		return app(v, "reflect.NumIn")
	case "results":
		return app(v, "reflect.NumOut")
	case "variadic":
		if b, ok := v.BoolVal(); ok {
			w, known := f.Eval(engine.App("reflect.IsVariadic", types.Typ[types.Bool], typ))
			return known && w == b
		}
		return app(v, "reflect.IsVariadic")
	case "fixed":
		n, variadic := engine.App("reflect.NumIn", types.Typ[types.Int], typ), engine.App("reflect.IsVariadic", types.Typ[types.Bool], typ)
		w, known := f.Eval(variadic)
		return known && (w && v == engine.Lin(n, -1) || !w && v == n)
	case "in":
		l := engine.Len(v)
		return v.Typ != nil && l != v && app(l, "reflect.NumIn")
	case "out":
		l := engine.Len(v)
		return v.Typ != nil && l != v && app(l, "reflect.NumOut")
	case "context":
		if b, ok := v.BoolVal(); ok {
			return !b && f.LeqK(engine.App("reflect.NumIn", types.Typ[types.Int], typ), engine.Int(0), 0)
		}
		if v.Op != engine.OEq {
			return false
		}
		for i := 0; i < 2; i++ {
			x, y := v.Args[i], v.Args[1-i]
			if app(x, "reflect.In") && x.Args[1] == engine.Int(0) && y.Op == engine.OSym && strings.HasPrefix(y.Aux, "rtype:*") && strings.HasSuffix(y.Aux, ".Context") {
				return true
			}
		}
	}
	return false
}

// registers checks the function that registers functions, and finds the fields of their descriptions.
func (c *C) registers(fn *ssa.Function, in, out *ssa.Parameter, info *types.Named, names, sigs map[*ssa.Function]bool) *roles {
	name := c.name(fn)
	r := c.AnalyseWith(fn, "c23", func(def engine.CutFunc) engine.CutFunc {
		return func(x *engine.Engine, g *ssa.Function, args []*T) engine.EventKind {
			if names[g] || sigs[g] {
				return engine.EvPure
			}
			return def(x, g, args)
		}
	}, func(r *Run, st *State) {
		r.X.OnStore = func(st *State, addr, val *T, g *ssa.Function, pos token.Pos) {
			if addr.Op != engine.OIndexAddr || val.Op != engine.OApp || val.Aux != "reflect.In" && val.Aux != "reflect.Out" {
				return
			}
			c.Count("stored types of params and results", 1)
			if val.Args[1] != addr.Args[1] {
				c.Fail("types", name, c.P.Pos(pos), "stores type %s at place %s", clip(val.Args[1].String()), clip(addr.Args[1].String()))
			}
		}
	})
	pure := func(t *T, gs map[*ssa.Function]bool) bool {
		for g := range gs {
			if t.Op == engine.OApp && t.Aux == "pure:"+g.String() {
				return true
			}
		}
		return false
	}
	// what a partition knows about a new function: unknown, good or bad
	verdict := func(f *Facts) (ok, bad bool) {
		goodName, isFunc, goodSig := len(names) == 0, false, len(sigs) == 0
		for l, v := range f.Lits() {
			switch {
			case pure(l, names):
				goodName, bad = goodName || v, bad || !v
			case l.Op == engine.OLookupOk && v:
				bad = true
			case l.Op == engine.OApp && strings.HasPrefix(l.Aux, "next.ok:") && v:
				val := engine.App("next.val:"+strings.TrimPrefix(l.Aux, "next.ok:"), nil, l.Args...)
				_ = val
			}
		}
		for t := range f.Terms() {
			switch {
			case t.Op == engine.OApp && t.Aux == "reflect.Kind" && t.Args[0].Op == engine.OApp && t.Args[0].Aux == "reflect.TypeOf":
				ks := f.KindSet(t)
				isFunc = isFunc || len(ks) == 1 && ks[reflect.Func]
				bad = bad || !ks[reflect.Func]
			case pure(t, sigs):
				goodSig = goodSig || f.IsNil(t)
				bad = bad || f.NonNil(t)
			}
		}
		return goodName && isFunc && goodSig, bad
	}
	var ro *roles
	str := info.Underlying().(*types.Struct)
	for _, k := range sortedSums(r.X.Sums) {
		sum := r.X.Sums[k]
		if sum.Fn != fn {
			continue
		}
		for _, b := range sum.Backs {
			var made *T
			for o := range b.St.Fresh {
				if n := objStruct(o); n != nil && types.Identical(n, info) && !sum.Start.Fresh[o] {
					made = o
				}
			}
			if made == nil {
				continue
			}
			c.Count("accepting partitions", 1)
			f := b.St.Facts
			if ok, bad := verdict(f); !ok || bad {
				c.Fail("accepted", name, c.P.Pos(fn.Pos()), "a function is accepted without knowing its name and signature to be good")
			}
			var typ *T
			for t := range f.Terms() {
				if t.Op == engine.OApp && t.Aux == "reflect.Kind" && t.Args[0].Op == engine.OApp && t.Args[0].Aux == "reflect.TypeOf" {
					typ = t.Args[0]
				}
			}
			if typ == nil {
				continue
			}
			now := &roles{info, map[string]int{}}
			for _, role := range []string{"params", "results", "variadic", "fixed", "in", "out", "context"} {
				for i := 0; i < str.NumFields(); i++ {
					if ro != nil {
						if j, ok := ro.of[role]; !ok || i != j {
							continue
						}
					}
					v := r.X.Load(b.St, r.X.FieldAddr(made, info, i), str.Field(i).Type())
					if _, done := now.of[role]; !done && hasRole(role, v, f, typ) && !(role == "fixed" && now.has(i)) {
						now.of[role] = i
					}
				}
			}
			ro = now
		}
	}
	for _, o := range r.Outs {
		if o.Panic || len(o.Vals) == 0 || o.St.Facts.IsNil(o.Vals[len(o.Vals)-1]) {
			continue
		}
		if _, bad := verdict(o.St.Facts); !bad {
			c.Fail("rejected", name, c.P.Pos(o.RetPos), "a function is rejected whose name and signature aren't known to be bad")
		}
	}
	c.Need("accepting partitions", 1)
	return ro
}

func (ro *roles) has(i int) bool {
	for _, j := range ro.of {
		if j == i {
			return true
		}
	}
	return false
}

// goodSignatures: a predicate on descriptions of functions holds for exactly the allowed ones.
func (c *C) goodSignatures(fn *ssa.Function, ro *roles) {
	name := c.name(fn)
	pos := c.P.Pos(fn.Pos())
	if ro == nil || len(ro.of) == 0 {
		c.Count("not decided: signatures, for the fields of the descriptions aren't recognised", 1)
		return
	}
	for _, role := range []string{"variadic", "context", "in", "out"} {
		if _, ok := ro.of[role]; !ok {
			c.Count("not decided: signatures, for the "+role+" field isn't recognised", 1)
			return
		}
	}
	// outcomes of a scenario: whether some partition accepts, rejects, or goes on with the next param
	run := func(key string, n, nOut int, variadic, context bool, start func(r *Run, st *State, f *T), onType func(r *Run, st *State, i, t *T)) (r *Run, accepts, rejects bool) {
		r = c.AnalyseWith(fn, "c23:"+key, nil, func(r *Run, st *State) {
			f := r.Args[0]
			eq := func(t *T, n int) {
				if t != nil && n >= 0 {
					st.Facts.AssumeLeq(t, engine.Int(int64(n)))
					st.Facts.AssumeLeq(engine.Int(int64(n)), t)
					st.Facts.Assume(engine.Eq(t, engine.Int(int64(n))), true)
				}
			}
			same := func(a, b *T) {
				if a != nil {
					st.Facts.AssumeLeq(a, b)
					st.Facts.AssumeLeq(b, a)
				}
			}
			st.Facts.Assume(engine.Eq(f, engine.Nil), false)
			lin, lout := engine.Len(ro.load(r, st, f, "in")), engine.Len(ro.load(r, st, f, "out"))
			eq(lin, n)
			eq(lout, nOut)
			eq(ro.load(r, st, f, "params"), n)
			eq(ro.load(r, st, f, "results"), nOut)
			same(ro.load(r, st, f, "params"), lin)
			if v := ro.load(r, st, f, "fixed"); v != nil {
				if variadic {
					same(engine.Lin(v, 1), lin)
				} else {
					same(v, lin)
				}
			}
			st.Facts.Assume(ro.load(r, st, f, "variadic"), variadic)
			st.Facts.Assume(ro.load(r, st, f, "context"), context)
			if start != nil {
				start(r, st, f)
			}
			list := ro.load(r, st, f, "in")
			r.X.OnLoad = func(st *State, t *T) {
				if t.Op == engine.OLoad && t.Args[0].Op == engine.OIndexAddr && t.Args[0].Args[0] == list && onType != nil {
					st.Facts.Assume(engine.Eq(t, engine.Nil), false)
					onType(r, st, t.Args[0].Args[1], t)
				}
			}
		})
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			if o.St.Facts.IsNil(o.Vals[0]) {
				accepts = true
			} else {
				rejects = true
			}
		}
		c.Count("signatures", 1)
		return
	}
	goesOn := func(r *Run) bool {
		for _, k := range sortedSums(r.X.Sums) {
			if len(r.X.Sums[k].Backs) > 0 {
				return true
			}
		}
		return false
	}
	// results
	strT, errT := engine.TypeTerm(types.Typ[types.String]), engine.TypeTerm(types.Universe.Lookup("error").Type())
	for _, s := range []struct {
		n        int
		str, err bool
		want     bool
		what     string
	}{{0, false, false, true, "no result"}, {1, true, false, true, "a string"}, {1, false, false, false, "a result that isn't a string"},
		{2, true, true, true, "a string and an error"}, {2, false, true, false, "an error after something that isn't a string"},
		{2, true, false, false, "a string and something that isn't an error"}, {3, true, true, false, "three results"}, {4, true, true, false, "four results"}} {
		_, accepts, rejects := run("results:"+s.what, 0, s.n, false, false, func(r *Run, st *State, f *T) {
			outs := ro.load(r, st, f, "out")
			for i, want := range []bool{s.str, s.err} {
				if i < s.n {
					t := r.X.Load(st, r.X.IndexAddr(outs, engine.Int(int64(i)), c.rtype()), c.rtype())
					st.Facts.Assume(engine.Eq(t, []*T{strT, errT}[i]), want)
				}
			}
		}, nil)
		if s.want && rejects {
			c.Fail("results", name, pos, "a function with %s is rejected", s.what)
		}
		if !s.want && accepts {
			c.Fail("results", name, pos, "a function with %s is accepted", s.what)
		}
	}
	// params
	kind := func(st *State, t *T, k reflect.Kind) {
		st.Facts.Assume(engine.Eq(engine.KindTerm(t), engine.Int(int64(k))), true)
	}
	elem := func(t *T) *T { return engine.App("reflect.Elem", c.rtype(), t) }
	for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
		r, _, rejects := run("param:"+k.String(), -1, 0, false, false, nil, func(r *Run, st *State, _, t *T) { kind(st, t, k) })
		if goodKind(k) && rejects {
			c.Fail("params", name, pos, "a function with a %s param is rejected", k)
		}
		if !goodKind(k) && (goesOn(r) || !rejects) {
			c.Fail("params", name, pos, "a function with a %s param is accepted", k)
		}
		r, _, rejects = run("variadic:"+k.String(), 1, 0, true, false, nil, func(r *Run, st *State, _, t *T) {
			kind(st, t, reflect.Slice)
			kind(st, elem(t), k)
		})
		if goodKind(k) && rejects {
			c.Fail("params", name, pos, "a function with a variadic %s param is rejected", k)
		}
		if !goodKind(k) && (goesOn(r) || !rejects) {
			c.Fail("params", name, pos, "a function with a variadic %s param is accepted", k)
		}
	}
	// a list is only good as the variadic param
	var at [][2]*T
	list := func(r *Run, st *State, i, t *T) {
		at = append(at, [2]*T{i, t})
		kind(st, t, reflect.Slice)
		kind(st, elem(t), reflect.String)
	}
	onlyAt := func(what string, r *Run, last bool) {
		for _, k := range sortedSums(r.X.Sums) {
			for _, b := range r.X.Sums[k].Backs {
				terms := b.St.Facts.Terms()
				for _, it := range at {
					if !terms[engine.KindTerm(it[1])] {
						continue // not in this partition
					}
					i := it[0]
					n := engine.Len(ro.load(r, b.St, r.Args[0], "in"))
					f := b.St.Facts
					if last && !(f.LeqK(engine.Lin(n, -1), i, 0)) || !last && !f.LeqK(i, engine.Int(0), 0) {
						c.Fail("params", name, pos, "a function with %s is accepted", what)
					}
				}
			}
		}
	}
	r, _, _ := run("lists", -1, 0, true, false, nil, list)
	onlyAt("a list as a param before the variadic one", r, true)
	at = nil
	pointer := func(r *Run, st *State, i, t *T) {
		at = append(at, [2]*T{i, t})
		kind(st, t, reflect.Pointer)
		st.Facts.Assume(engine.Eq(t, engine.TypeTerm(types.NewPointer(c.ctxType()))), true)
	}
	r, _, _ = run("contexts", -1, 0, false, true, nil, pointer)
	onlyAt("a context as a param other than the first", r, false)
	if _, accepts, rejects := run("context", 1, 0, false, true, nil, pointer); rejects || !accepts {
		c.Fail("params", name, pos, "a function with a context as its only param is rejected")
	}
}

func (c *C) rtype() types.Type {
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			return p.Pkg.Scope().Lookup("Type").Type()
		}
	}
	return nil
}

// passing: a call of a registered function converts each literal to the type of its param.
func (c *C) passing(convs []*ssa.Function, ro *roles) {
	for _, fn := range c.P.Funcs {
		if fn.Synthetic != "" || pkgOf(fn) != c.P.Root || fn.Parent() != nil || len(convs) == 0 {
			continue
		}
		calls := false
		for _, g := range c.callees(fn) {
			calls = calls || g == convs[0]
		}
		if !calls {
			continue
		}
		for _, variadic := range []bool{false, true} {
			for _, context := range []bool{false, true} {
				c.passes(fn, convs[0], ro, variadic, context)
			}
		}
		if c.Counts["passed literals"] == 0 {
			c.Count("not decided: the values "+c.name(fn)+" passes", 1)
		}
	}
}

func (c *C) passes(fn, conv *ssa.Function, ro *roles, variadic, context bool) {
	var f, args, ctx *T
	name := c.name(fn)
	what := map[bool]string{true: "variadic", false: "fixed"}[variadic] + " params" + map[bool]string{true: " and a context", false: ""}[context]
	var params, fixed, list *T
	same := func(f *Facts, a, b *T) bool { return a == b || f.LeqK(a, b, 0) && f.LeqK(b, a, 0) }
	at := func(t, of *T) *T { // the place in the list of an element of it
		if t.Op == engine.OLoad && t.Args[0].Op == engine.OIndexAddr && t.Args[0].Args[0] == of {
			return t.Args[0].Args[1]
		}
		return nil
	}
	// what's wrong with value val being the argument at place i
	passed := func(fs *Facts, i, val *T) string {
		if val.Op == engine.OApp && val.Aux == "reflect.ValueOf" {
			isCtx := func(x *T) bool { return x == ctx || x.Op == engine.OIface && x.Args[0] == ctx }
			x := val.Args[0]
			first := x.Op == engine.OLoad && x.Args[0].Op == engine.OIndexAddr && fs.LeqK(x.Args[0].Args[1], engine.Int(0), 0) &&
				len(x.Args[0].Args[0].Args) == 2 && isCtx(x.Args[0].Args[0].Args[0])
			if !isCtx(x) && !first {
				return "passes " + clip(x.String()) + " as it is"
			}
			if !context || !fs.LeqK(i, engine.Int(0), 0) {
				return "passes the context at place " + clip(i.String())
			}
			return ""
		}
		if val.Op != engine.OApp || val.Aux != "pure:"+conv.String()+".0" {
			return "passes " + clip(val.String())
		}
		var typ, arg *T
		for _, a := range val.Args {
			switch {
			case a.Typ != nil && isRType(a.Typ):
				typ = a
			default:
				arg = a
			}
		}
		if typ == nil || arg == nil {
			return "passes " + clip(val.String())
		}
		last := engine.Lin(engine.Len(list), -1)
		if typ.Op == engine.OApp && typ.Aux == "reflect.Elem" {
			if j := at(typ.Args[0], list); !variadic || j == nil || !same(fs, j, last) {
				return "converts a literal to " + clip(typ.String())
			}
			if !fs.LeqK(last, i, 0) {
				return "converts a literal before those of the variadic param to its element type"
			}
		} else if j := at(typ, list); j == nil || !same(fs, j, i) {
			return "converts the literal for place " + clip(i.String()) + " to " + clip(typ.String())
		} else if variadic && !fs.LeqK(i, last, -1) {
			return "converts a literal of the variadic param to its list type"
		}
		var j *T
		if arg.Op == engine.OLoad && arg.Args[0].Op == engine.OIndexAddr {
			j = arg.Args[0].Args[1]
			switch l := arg.Args[0].Args[0]; {
			case l == args:
				if context {
					j = engine.Lin(j, 1)
				}
			case context && len(l.Args) == 2 && l.Args[1].Op == engine.OSpread && l.Args[1].Args[0] == args: // the context and the literals
			default:
				j = nil
			}
		}
		if j == nil || !same(fs, j, i) {
			return "passes literal " + clip(arg.String()) + " at place " + clip(i.String())
		}
		return ""
	}
	r := c.AnalyseWith(fn, "c23:"+what, func(def engine.CutFunc) engine.CutFunc {
		return func(x *engine.Engine, g *ssa.Function, args []*T) engine.EventKind {
			if g == conv {
				return engine.EvPure
			}
			return def(x, g, args)
		}
	}, func(r *Run, st *State) {
		for i, p := range fn.Params {
			switch t := p.Type().Underlying().(type) {
			case *types.Slice:
				if isAny(t.Elem()) {
					args = r.Args[i]
				}
			case *types.Pointer:
				if types.Identical(t.Elem(), ro.info) {
					f = r.Args[i]
				} else if engine.IsContextPtr(p.Type()) {
					ctx = r.Args[i]
				}
			}
		}
		if f == nil || args == nil || ctx == nil {
			return
		}
		st.Facts.Assume(engine.Eq(f, engine.Nil), false)
		list, params, fixed = ro.load(r, st, f, "in"), ro.load(r, st, f, "params"), ro.load(r, st, f, "fixed")
		n := engine.Len(list)
		same := func(a, b *T) {
			if a != nil {
				st.Facts.AssumeLeq(a, b)
				st.Facts.AssumeLeq(b, a)
			}
		}
		same(params, n)
		st.Facts.Assume(ro.load(r, st, f, "variadic"), variadic)
		st.Facts.Assume(ro.load(r, st, f, "context"), context)
		least := int64(0)
		if context {
			least++
		}
		if variadic {
			least++
			same(fixed, engine.Lin(n, -1))
			if params != nil {
				same(fixed, engine.Lin(params, -1))
			}
		} else {
			same(fixed, n)
			if params != nil {
				same(fixed, params)
			}
		}
		st.Facts.AssumeLeq(engine.Int(least), n)
		r.X.OnStore = func(st *State, addr, val *T, g *ssa.Function, pos token.Pos) {
			if addr.Op != engine.OIndexAddr || val.Typ == nil || val.Typ.String() != "reflect.Value" || !isSlice(addr.Args[0]) {
				return
			}
			c.Count("passed literals", 1)
			if why := passed(st.Facts, addr.Args[1], val); why != "" {
				c.Fail("passed", name, c.P.Pos(pos), "%s: %s", what, why)
			}
		}
	})
	if f == nil || args == nil || ctx == nil {
		c.Count("not decided: calls, for the params of "+name+" aren't recognised", 1)
		return
	}
	// as many literals as params
	ctxs := int64(0)
	if context {
		ctxs = 1
	}
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		n := engine.Len(list)
		called, failed := false, false
		for _, ev := range o.St.Trace.Events() {
			called = called || ev.Kind == engine.EvCustom
		}
		for t := range o.St.Facts.Terms() {
			failed = failed || t.Op == engine.OApp && t.Aux == "pure:"+conv.String()+".1" && o.St.Facts.NonNil(t)
		}
		c.Count("outcomes of calls", 1)
		f := o.St.Facts
		switch {
		case called && variadic && !f.LeqK(engine.Lin(n, -1-ctxs), engine.Len(args), 0):
			c.Fail("count", name, c.P.Pos(o.RetPos), "%s: the function is called with fewer literals than it needs", what)
		case called && !variadic && !(f.LeqK(engine.Lin(n, -ctxs), engine.Len(args), 0) && f.LeqK(engine.Len(args), engine.Lin(n, -ctxs), 0)):
			c.Fail("count", name, c.P.Pos(o.RetPos), "%s: the function is called with more or fewer literals than params", what)
		case !called && !failed:
			g := f.Clone()
			ok := g.AssumeLeq(engine.Lin(n, -ctxs), engine.Len(args))
			if variadic {
				g = f.Clone()
				ok = g.AssumeLeq(engine.Lin(n, -1-ctxs), engine.Len(args))
			} else {
				ok = ok && g.AssumeLeq(engine.Len(args), engine.Lin(n, -ctxs))
				for _, m := range []*T{n, params} {
					if m != nil {
						ok = ok && g.Assume(engine.Eq(engine.Len(args), engine.Lin(m, -ctxs)), true)
					}
				}
			}
			if ok {
				c.Fail("count", name, c.P.Pos(o.RetPos), "%s: fails although the number of literals is right and each was converted", what)
			}
		}
	}
}

// isSlice: a list, not an array.
func isSlice(t *T) bool {
	if t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Slice)
	return ok
}
