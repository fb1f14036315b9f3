package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C20"] = &Check{
		Rule: "each iteration over the parsed query appends the text of a plain expression, or, for a bindvar known to refer to an arg, an encoding of that arg: NULL for what's known to be nil, the encoding of what Value returns without an error for a Valuer, between quotes, with the quotes in them doubled, the formatted time, the String of a Stringer and the contents of a string, the number of a number, TRUE or FALSE by the value of a bool; an error is that of the parser, a Valuer, or of an encoding, or the partition knows that the index has no arg, that the expression is of no known type or the arg of no supported one",
		Run:  checkC20,
	}
}

func checkC20(c *C) {
	fn := c.P.Util.Func("Interpolate")
	if fn == nil {
		c.Fail("anchor", "util.Interpolate", "", "not found")
		return
	}
	e := &encoding{c: c}
	for _, t := range []struct {
		to        **types.Named
		pkg, name string
	}{{&e.valuer, "database/sql/driver", "Valuer"}, {&e.stringer, "fmt", "Stringer"}, {&e.time, "time", "Time"}} {
		if p := c.P.SSA.ImportedPackage(t.pkg); p != nil {
			*t.to = c.namedType(p, t.name)
		}
		if *t.to == nil {
			c.Fail("anchor", t.pkg+"."+t.name, "", "not used")
			return
		}
	}
	e.plain, e.bindvar = c.namedType(c.P.Synt, "PlainExpr"), c.namedType(c.P.Synt, "BindVarExpr")
	clause := c.namedType(c.P.Synt, "Clause")
	if e.plain == nil || e.bindvar == nil || clause == nil {
		c.Fail("anchor", "syntax", "", "the types of expressions are not found")
		return
	}
	e.clause = clause
	e.noNull = map[*T]bool{}
	e.done = map[*ssa.Function]bool{}
	e.query(e.analyse(fn))
	for len(e.todo) > 0 {
		f := e.todo[0]
		e.todo = e.todo[1:]
		e.encoder(e.analyse(f))
	}
	c.Need("successful partitions of Interpolate", 1)
	c.Need("plain texts", 1)
	c.Need("args encoded", 8)
	c.Need("quoted texts", 3)
	c.Need("unsupported values", 1)
	c.Need("invalid indexes", 1)
}

type encoding struct {
	c                                              *C
	valuer, stringer, time, plain, bindvar, clause *types.Named
	done                                           map[*ssa.Function]bool
	noNull                                         map[*T]bool // known by induction
	todo                                           []*ssa.Function
	lams                                           []*engine.Lam // of the run
}

func (e *encoding) analyse(fn *ssa.Function) *Run {
	r := e.run(fn)
	e.lams = nil
	for _, k := range sortedSums(r.X.Sums) {
		e.lams = append(e.lams, r.X.Sums[k].Lams...)
	}
	return r
}

func (e *encoding) run(fn *ssa.Function) *Run {
	return e.c.AnalyseWith(fn, "encode", func(def engine.CutFunc) engine.CutFunc {
		return func(x *engine.Engine, f *ssa.Function, args []*T) engine.EventKind {
			if f.Pkg == e.c.P.Util {
				return ""
			}
			return def(x, f, args)
		}
	}, func(r *Run, st *State) { r.X.Split = true })
}

// settle takes an outcome as one that fails or succeeds.
func settle(o *engine.Outcome) (st *State, fails bool) {
	err := o.Vals[len(o.Vals)-1]
	if o.St.Facts.NonNil(err) {
		return o.St, true
	}
	st = o.St.Clone()
	if !st.Facts.Assume(engine.Eq(err, engine.Nil), true) {
		return o.St, true
	}
	return st, false
}

// query decides Interpolate.
func (e *encoding) query(r *Run) {
	c := e.c
	fail := func(o *engine.Outcome, p string) {
		c.Fail("interpolate", c.name(r.Fn), c.P.Pos(o.RetPos), "%s", p)
	}
	var args *T
	for i, p := range r.Fn.Params {
		if l, ok := p.Type().Underlying().(*types.Slice); ok && types.IsInterface(l.Elem()) {
			args = r.Args[i]
		}
	}
	if args == nil {
		c.Fail("anchor", c.name(r.Fn), "", "it has no args")
		return
	}
	for _, o := range r.X.Obligations {
		if o.Failed > 0 && strings.Contains(o.Kind, "out of range") {
			c.Fail("interpolate", c.name(o.Fn), c.P.Pos(o.Pos), "it may panic: %s", o.Kind)
		}
	}
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		st, fails := settle(o)
		var parsed *Event
		for _, ev := range o.St.Trace.Events() {
			if strings.HasSuffix(ev.Name, "syntax.Parse") && len(ev.Args) == 1 && ev.Args[0] == r.Args[0] {
				parsed = ev
			}
		}
		if parsed == nil {
			fail(o, "the query isn't parsed")
			continue
		}
		if !fails && !st.Facts.IsNil(parsed.Res[1]) {
			fail(o, "it succeeds although parsing may have failed")
			continue
		}
		decls := c.loadField(r, st, parsed.Res[0], e.clause, "ExprList")
		at := func(st *State, idx *T) *T {
			et := e.clause.Underlying().(*types.Struct).Field(fieldIndex(e.clause, "ExprList")).Type().Underlying().(*types.Slice).Elem()
			return r.X.Load(st, r.X.IndexAddr(decls, idx, et), et)
		}
		if fails {
			if p := e.failure(r, o.St, o.Vals[len(o.Vals)-1], args, func(visit func(decl *T)) {
				for _, ev := range o.St.Trace.Events() {
					if ev.Loop == nil {
						continue
					}
					for _, l := range ev.Loop.Lams {
						if l.Phi == nil || l.Init == nil {
							continue
						}
						if n, ok := l.Init.IntVal(); ok {
							visit(at(o.St, engine.Lin(l.Term, -n)))
						}
					}
				}
			}); p != "" {
				fail(o, p)
			}
			continue
		}
		c.Count("successful partitions of Interpolate", 1)
		text := o.Vals[0]
		if st.Facts.LeqK(engine.Len(decls), engine.Int(0), 0) && st.Facts.StrEmpty(text) {
			continue
		}
		l := lamOf(text)
		if text.Op == engine.OApp && text.Aux == "strings.Join" {
			if sep, ok := text.Args[1].StrVal(); ok && sep == "" {
				if its := engine.Items(text.Args[0]); len(its) == 1 && its[0].Op == engine.OSpread {
					text = uncap(its[0].Args[0])
					if l = lamOf(text); l != nil && (l.Init == nil || !emptyList(uncap(l.Init))) {
						l = nil
					}
				}
			}
		}
		if l == nil || l.Init == nil || l.Term != text || isText(text.Typ) && !st.Facts.StrEmpty(l.Init) {
			fail(o, "the result is "+clip(text.String())+", not what each expression adds to")
			continue
		}
		for _, b := range l.Sum.Backs {
			if p := e.iteration(r, st, l, b, decls, args, at); p != "" {
				fail(o, p)
			}
		}
	}
}

// iteration decides what an expression adds to the text.
func (e *encoding) iteration(r *Run, st *State, l *engine.Lam, b *engine.Back, decls, args *T, at func(st *State, idx *T) *T) string {
	f := b.St.Facts
	u := b.Upd[l.Term]
	if u == nil {
		u = l.Term
	}
	ps, ok := e.pieces(u, l.Term)
	if l.Term.Typ != nil && !isTextual(l.Term.Typ) {
		var as []addition
		if as, ok = additions(l.Term, u, f); ok {
			var ts []*T
			for _, a := range as {
				if a.spread || a.sum != nil {
					return "the texts become " + clip(u.String())
				}
				ts = append(ts, a.elem)
			}
			ps, ok = e.pieces(engine.Concat(ts...), nil)
		}
	}
	if !ok {
		return "the text becomes " + clip(u.String())
	}
	var decl *T
	for _, i := range l.Sum.Lams {
		if i.Phi == nil || i.Init == nil {
			continue
		}
		if n, ok := i.Init.IntVal(); ok && e.c.walksAll(l.Sum, b, decls, engine.Lin(i.Term, -n), st.Facts) {
			decl = at(b.St, engine.Lin(i.Term, -n))
		}
	}
	if decl == nil {
		return "the loop may not be over all expressions in order"
	}
	switch n := e.declType(f, decl); n {
	case e.plain:
		want := e.c.loadField(r, b.St, engine.Assert(decl, types.NewPointer(n)), n, "Text")
		if len(ps) == 0 && f.StrEmpty(want) {
			return ""
		}
		if len(ps) != 1 || ps[0].t != want {
			return "a plain text adds " + show(ps)
		}
		e.c.Count("plain texts", 1)
		return ""
	case e.bindvar:
		idx := e.c.loadField(r, b.St, engine.Assert(decl, types.NewPointer(n)), n, "Index")
		if !f.LeqK(engine.Int(1), idx, 0) || !f.LeqK(idx, engine.Len(args), 0) {
			return "an index may have no arg"
		}
		et := args.Typ.Underlying().(*types.Slice).Elem()
		return e.encodes(b.St, ps, r.X.Load(b.St, r.X.IndexAddr(args, engine.Lin(idx, -1), et), et))
	}
	return "an expression of unknown type adds " + show(ps)
}

// declType is the type an expression is known to point to.
func (e *encoding) declType(f *Facts, decl *T) *types.Named {
	neg, ts, ok := f.TypeSet(decl)
	if !ok || neg || len(ts) != 1 {
		return nil
	}
	if p, ok := ts[0].(*types.Pointer); ok {
		n, _ := types.Unalias(p.Elem()).(*types.Named)
		return n
	}
	return nil
}

// encoder decides a function that calls itself to encode a value.
func (e *encoding) encoder(r *Run) {
	c := e.c
	var arg *T
	for i, p := range r.Fn.Params {
		if it, ok := p.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			arg = r.Args[i]
		}
	}
	if arg == nil {
		c.Fail("interpolate", c.name(r.Fn), c.P.Pos(r.Fn.Pos()), "it isn't given a value to encode")
		return
	}
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		st, fails := settle(o)
		p := ""
		if fails {
			p = e.unsupported(r, st, o.Vals[len(o.Vals)-1], []*T{arg})
		} else if ps, ok := e.result(r, o); ok {
			p = e.encodes(st, ps, arg)
		} else {
			p = "it doesn't add to what there is"
		}
		if p != "" {
			c.Fail("interpolate", c.name(r.Fn), c.P.Pos(o.RetPos), "%s", p)
		}
	}
}

// result lists what a function that encodes returns, or adds.
func (e *encoding) result(r *Run, o *engine.Outcome) ([]textPiece, bool) {
	for i, p := range r.Fn.Params {
		switch tstrOf(p.Type()) {
		case "*strings.Builder", "*bytes.Buffer":
			return e.pieces(r.X.Content(o.St, r.Args[i]), r.X.Content(r.Base, r.Args[i]))
		}
	}
	if !isTextual(r.Fn.Signature.Results().At(0).Type()) {
		return nil, false
	}
	for i, p := range r.Fn.Params {
		if types.Identical(p.Type(), r.Fn.Signature.Results().At(0).Type()) {
			if ps, ok := e.pieces(o.Vals[0], r.Args[i]); ok {
				return ps, ok
			}
		}
	}
	return e.pieces(o.Vals[0], nil)
}

func tstrOf(t types.Type) string { return types.TypeString(t, nil) }

// a piece of text is constant, a term, or what a loop adds.
type textPiece struct {
	s    string
	t    *T
	loop *engine.Lam
}

func show(ps []textPiece) string {
	if len(ps) == 0 {
		return "nothing"
	}
	var out []string
	for _, p := range ps {
		switch {
		case p.loop != nil:
			out = append(out, "what a loop adds")
		case p.t != nil:
			out = append(out, p.t.String())
		default:
			out = append(out, p.s)
		}
	}
	return clip(strings.Join(out, " ++ "))
}

// pieces lists what's added to the text from on.
func (e *encoding) pieces(t, from *T) (ps []textPiece, ok bool) {
	seen := from == nil
	add := func(p textPiece) {
		if p.t == nil && p.loop == nil {
			if p.s == "" {
				return
			}
			if n := len(ps); n > 0 && ps[n-1].t == nil && ps[n-1].loop == nil {
				ps[n-1].s += p.s
				return
			}
		}
		ps = append(ps, p)
	}
	good := true
	var visit func(t *T)
	visit = func(t *T) {
		if t == from {
			if seen || len(ps) > 0 {
				good = false
			}
			seen = true
			return
		}
		if s, ok := t.StrVal(); ok {
			add(textPiece{s: s})
			return
		}
		switch t.Op {
		case engine.OConcat:
			for _, a := range t.Args {
				visit(a)
			}
			return
		case engine.OCapped:
			visit(t.Args[0])
			return
		case engine.OSpread:
			visit(t.Args[0])
			return
		case engine.OSeq:
			for _, a := range t.Args {
				if n, ok := a.IntVal(); ok {
					add(textPiece{s: string([]byte{byte(n)})})
				} else {
					visit(a)
				}
			}
			return
		case engine.OConv:
			if isTextual(t.Typ) && isTextual(t.Args[0].Typ) {
				visit(t.Args[0])
				return
			}
		case engine.OLam:
			if l := lamOf(t); l != nil && l.Init != nil && l.Term == t && e.grows(l) {
				visit(l.Init)
				add(textPiece{loop: l})
				return
			}
		case engine.OSym:
			// what a function that encodes has been given to append to
			if ev := evOf(t); ev != nil && strings.HasPrefix(ev.Name, "rec:") && !seen {
				for _, a := range ev.Args {
					if isTextual(a.Typ) || a.Op == engine.OSeq {
						visit(a)
					}
				}
			}
		case engine.ONil, engine.OMake:
			if emptyList(t) {
				return
			}
		}
		add(textPiece{t: t})
	}
	visit(t)
	return ps, good && seen
}

// grows: each iteration of the loop adds to the text.
func (e *encoding) grows(l *engine.Lam) bool {
	for _, b := range l.Sum.Backs {
		if u := b.Upd[l.Term]; u != nil {
			if _, ok := e.pieces(u, l.Term); !ok {
				return false
			}
		}
	}
	return true
}

func isTextual(t types.Type) bool {
	if t == nil {
		return false
	}
	if isText(t) {
		return true
	}
	l, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(l.Elem(), types.Typ[types.Byte])
}

// is reports whether the value is known to be of the type, or not to be.
func is(f *Facts, v *T, t types.Type) (bool, bool) {
	return f.Eval(engine.AssertOk(v, t))
}

func (e *encoding) isNo(f *Facts, v *T, ts ...*types.Named) bool {
	for _, t := range ts {
		if yes, known := is(f, v, t); known && !yes {
			continue
		}
		// known to be of a type which isn't
		neg, set, ok := f.TypeSet(v)
		if !ok || neg {
			return false
		}
		for _, d := range set {
			if types.Identical(d, t) {
				return false
			}
			if i, ok := t.Underlying().(*types.Interface); ok && types.Implements(d, i) {
				return false
			}
		}
	}
	return true
}

func kinds(f *Facts, v *T) map[reflect.Kind]bool {
	return f.KindSet(engine.KindTerm(engine.App("reflect.TypeOf", nil, v)))
}

// isNull: the value is nil, or a pointer that is.
func isNull(f *Facts, v *T) bool {
	if f.IsNil(v) {
		return true
	}
	if ks := kinds(f, v); len(ks) == 1 && ks[reflect.Invalid] {
		return true
	}
	is, known := f.Eval(reflectBool("IsNil", engine.App("reflect.ValueOf", nil, v)))
	return known && is
}

// noNullPointer: the value is no pointer, or one that isn't nil.
func (e *encoding) noNullPointer(f *Facts, v *T) bool {
	if e.noNull[v] {
		return true
	}
	if ks := kinds(f, v); !ks[reflect.Pointer] {
		return true
	}
	is, known := f.Eval(reflectBool("IsNil", engine.App("reflect.ValueOf", nil, v)))
	return known && !is
}

// same: v is the value, or what an assertion takes it as.
func same(v, arg *T) bool {
	for v != nil && v != arg && (v.Op == engine.OAssert || v.Op == engine.OConv || v.Op == engine.OIface) {
		v = v.Args[0]
	}
	return v == arg
}

// encodes decides whether the pieces encode the value.
func (e *encoding) encodes(st *State, ps []textPiece, arg *T) string {
	e.c.Count("args encoded", 1)
	f := st.Facts
	arg = e.unwrapped(st, arg)
	if len(ps) == 1 && ps[0].t == nil && ps[0].loop == nil {
		return e.constant(f, ps[0].s, arg)
	}
	if isNull(f, arg) {
		return "a nil value is encoded as " + show(ps)
	}
	if len(ps) == 1 && ps[0].t != nil {
		return e.literal(st, ps[0].t, arg)
	}
	if n := len(ps); (n == 3 || n == 4) && ps[0].s == "'" && ps[n-1].s == "'" {
		var text *T
		if n == 3 {
			text = e.doubled(st, ps[1])
		} else {
			text = e.cut(st, ps[1].loop, ps[2].t)
		}
		if text == nil {
			return "the quotes may not be doubled in " + show(ps)
		}
		e.c.Count("quoted texts", 1)
		return e.text(st, text, arg)
	}
	return "a value is encoded as " + show(ps)
}

// unwrapped is what a loop, that takes what Valuers return, makes of the value.
func (e *encoding) unwrapped(st *State, arg *T) *T {
	for _, l := range e.lams {
		if l.Init != arg || l.Term.Typ == nil || !types.IsInterface(l.Term.Typ) || !e.takesValues(st, l) {
			continue
		}
		if e.isNo(st.Facts, l.Term, e.valuer) || isNull(st.Facts, l.Term) {
			e.noNull[l.Term] = true
			return l.Term
		}
	}
	return arg
}

// takesValues: each iteration replaces the value by what its Value returns.
func (e *encoding) takesValues(st *State, l *engine.Lam) bool {
	for _, b := range l.Sum.Backs {
		f := b.St.Facts
		u := b.Upd[l.Term]
		var call *Event
		for _, ev := range b.Evs {
			if strings.HasSuffix(ev.Name, "Valuer.Value") && same(ev.Recv, l.Term) {
				call = ev
			}
		}
		if u == nil || call == nil || !f.IsNil(call.Res[1]) {
			return false
		}
		if u.Op == engine.ONil && isNull(f, call.Res[0]) {
			continue
		}
		if u != call.Res[0] || !e.noNullPointer(f, u) {
			return false
		}
	}
	// no Valuer is a nil pointer at first, nor after an iteration
	return e.noNullPointer(st.Facts, l.Init) || isNull(st.Facts, l.Init)
}

func (e *encoding) constant(f *Facts, s string, arg *T) string {
	ks := kinds(f, arg)
	onlyBool := len(ks) == 1 && ks[reflect.Bool]
	var val, known bool
	if onlyBool && e.isNo(f, arg, e.valuer, e.stringer) {
		for _, t := range []*T{reflectBool("Bool", engine.App("reflect.ValueOf", nil, arg)), engine.Assert(arg, types.Typ[types.Bool])} {
			if v, ok := f.Eval(t); ok {
				val, known = v, true
			}
		}
	} else if neg, ts, ok := f.TypeSet(arg); ok && !neg && len(ts) == 1 && types.Identical(ts[0], types.Typ[types.Bool]) {
		val, known = f.Eval(engine.Assert(arg, ts[0]))
	}
	switch {
	case isNull(f, arg):
		if strings.EqualFold(s, "NULL") {
			return ""
		}
	case strings.EqualFold(s, "TRUE"), strings.EqualFold(s, "FALSE"):
		if known && val == strings.EqualFold(s, "TRUE") {
			return ""
		}
	case len(s) > 1 && s[0] == '\'' && s[len(s)-1] == '\'' && !strings.Contains(strings.ReplaceAll(s[1:len(s)-1], "''", ""), "'"):
		t := engine.Assert(arg, e.time)
		if v, ok := f.Eval(engine.App("(time.Time).IsZero", types.Typ[types.Bool], t)); ok && v && e.isTime(f, arg) {
			return ""
		}
	}
	return "a value is encoded as " + s
}

// literal decides what isn't quoted.
func (e *encoding) literal(st *State, t, arg *T) string {
	f := st.Facts
	bad := clip(t.String()) + " isn't quoted"
	for t.Op == engine.OConv && isTextual(t.Typ) {
		t = t.Args[0]
	}
	if ev := evOf(t); ev != nil {
		return e.recursive(f, ev, t, arg)
	}
	if t.Op == engine.OLoad && len(t.Args) > 1 {
		if ev := evOf(t.Args[1]); ev != nil {
			return e.recursive(f, ev, t, arg)
		}
	}
	if t.Op != engine.OApp {
		return bad
	}
	ks := kinds(f, arg)
	n := t.Args[0]
	rv := engine.App("reflect.ValueOf", nil, arg)
	if !e.isNo(f, arg, e.valuer, e.stringer, e.time) {
		return "a value that may be a Valuer, a Stringer or a time is encoded as " + clip(t.String())
	}
	typed := func(info types.BasicInfo, not types.BasicInfo) bool {
		u := n
		for u.Op == engine.OConv {
			b, ok := u.Typ.Underlying().(*types.Basic)
			a, ok2 := u.Args[0].Typ.Underlying().(*types.Basic)
			if !ok || !ok2 || b.Info()&info == 0 || a.Info()&info == 0 || b.Info()&types.IsUnsigned != a.Info()&types.IsUnsigned {
				return false
			}
			u = u.Args[0]
		}
		if u.Op != engine.OAssert || u.Args[0] != arg {
			return false
		}
		b, ok := u.Typ.Underlying().(*types.Basic)
		return ok && b.Info()&info != 0 && b.Info()&not == 0 && b.Kind() != types.Uintptr
	}
	from := func(m string, lo, hi reflect.Kind) bool {
		if n.Op != engine.OApp || n.Aux != "(reflect.Value)."+m || n.Args[0] != rv {
			return false
		}
		for k := range ks {
			if k < lo || k > hi {
				return false
			}
		}
		return true
	}
	switch t.Aux {
	case "fmt:%d", "strconv.FormatInt", "strconv.FormatUint":
		if t.Aux != "fmt:%d" {
			if b, ok := t.Args[1].IntVal(); !ok || b != 10 {
				return "a number isn't decimal: " + clip(t.String())
			}
		}
		if from("Int", reflect.Int, reflect.Int64) || from("Uint", reflect.Uint, reflect.Uint64) || typed(types.IsInteger, 0) {
			return ""
		}
	case "strconv.FormatFloat":
		if len(t.Args) != 4 || !from("Float", reflect.Float32, reflect.Float64) && !typed(types.IsFloat, 0) {
			break
		}
		verb, _ := t.Args[1].IntVal()
		prec, ok := t.Args[2].IntVal()
		if !ok || prec != -1 || !strings.ContainsRune("feg", rune(verb)) {
			break
		}
		bits := t.Args[3]
		if b, ok := bits.IntVal(); ok {
			single := len(ks) == 1 && ks[reflect.Float32]
			if neg, ts, ok := f.TypeSet(arg); ok && !neg && len(ts) == 1 && types.Identical(ts[0], types.Typ[types.Float32]) {
				single = true
			}
			if b == 64 || b == 32 && single {
				return ""
			}
			break
		}
		if bits.Op == engine.OApp && bits.Aux == "reflect.Bits" && bits.Args[0].Mentions(arg) {
			return ""
		}
	case "strconv.FormatBool":
		if from("Bool", reflect.Bool, reflect.Bool) || typed(types.IsBoolean, 0) {
			return ""
		}
	case "strings.ToUpper":
		if n.Op == engine.OApp && n.Aux == "strconv.FormatBool" {
			return e.literal(st, n, arg)
		}
	}
	return bad
}

// recursive decides the encoding of what a Valuer returns.
func (e *encoding) recursive(f *Facts, ev *Event, t, arg *T) string {
	if ev.Fn == nil || ev.Kind != engine.EvCall || len(ev.Res) == 0 || ev.Res[0] != t && len(ev.Res) != 1 {
		return clip(t.String()) + " isn't quoted"
	}
	if !f.IsNil(ev.Res[len(ev.Res)-1]) {
		return "a value that may not have been encoded is taken"
	}
	if !e.done[ev.Fn] {
		e.done[ev.Fn] = true
		e.todo = append(e.todo, ev.Fn)
	}
	for i, p := range ev.Fn.Params {
		it, ok := p.Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() != 0 {
			continue
		}
		v := ev.Args[i]
		if same(v, arg) {
			return ""
		}
		call := evOf(v)
		if call == nil || !strings.HasSuffix(call.Name, "Valuer.Value") || !same(call.Recv, arg) || call.Res[0] != v {
			return "it encodes " + clip(v.String())
		}
		if !f.IsNil(call.Res[1]) {
			return "what a Valuer returns is taken although it may have failed"
		}
		if !e.noNullPointer(f, arg) {
			return "the method of a pointer that may be nil is called"
		}
		return ""
	}
	return "it encodes something else"
}

// text decides whether it's the text of the value.
func (e *encoding) text(st *State, t, arg *T) string {
	f := st.Facts
	bad := "the text is " + clip(t.String()) + ", not that of the value"
	for t.Op == engine.OConv && isTextual(t.Typ) {
		t = t.Args[0]
	}
	if ev := evOf(t); ev != nil {
		if !strings.HasSuffix(ev.Name, "Stringer.String") || !same(ev.Recv, arg) {
			return bad
		}
		if !e.isNo(f, arg, e.valuer, e.time) {
			return "String is called of a value that may be a Valuer or a time"
		}
		if !e.noNullPointer(f, arg) {
			return "the method of a pointer that may be nil is called"
		}
		return ""
	}
	switch {
	case t.Op == engine.OApp && t.Aux == "(reflect.Value).String":
		if ks := kinds(f, arg); len(ks) != 1 || !ks[reflect.String] || t.Args[0] != engine.App("reflect.ValueOf", nil, arg) {
			return bad
		}
		if !e.isNo(f, arg, e.valuer, e.stringer) {
			return "a string that may be a Valuer or a Stringer is taken as it is"
		}
		return ""
	case t.Op == engine.OAssert && t.Args[0] == arg:
		if isText(t.Typ) && e.isNo(f, arg, e.valuer, e.stringer) {
			return ""
		}
	case t.Op == engine.OApp && t.Aux == "(time.Time).Format":
		if t.Args[0].Mentions(engine.Assert(arg, e.time)) && e.isTime(f, arg) {
			return ""
		}
	}
	return bad
}

func (e *encoding) isTime(f *Facts, arg *T) bool {
	is, known := is(f, arg, e.time)
	return known && is
}

// doubled is the text whose quotes are doubled.
func (e *encoding) doubled(st *State, p textPiece) *T {
	if p.loop != nil {
		return e.doubling(st, p.loop)
	}
	t := p.t
	if t == nil || t.Op != engine.OApp {
		return nil
	}
	str := func(i int, s string) bool {
		if i >= len(t.Args) {
			return false
		}
		ps, ok := e.pieces(t.Args[i], nil)
		return ok && len(ps) == 1 && ps[0].t == nil && ps[0].loop == nil && ps[0].s == s
	}
	switch t.Aux {
	case "strings.ReplaceAll", "bytes.ReplaceAll":
		if str(1, "'") && str(2, "''") {
			return t.Args[0]
		}
	case "strings.Replace", "bytes.Replace":
		if n, ok := t.Args[3].IntVal(); ok && n < 0 && str(1, "'") && str(2, "''") {
			return t.Args[0]
		}
	case "(*strings.Replacer).Replace":
		if n := t.Args[0]; n.Op == engine.OApp && n.Aux == "strings.NewReplacer" && len(n.Args) == 1 {
			its := engine.Items(n.Args[0])
			if len(its) == 2 {
				a, _ := its[0].StrVal()
				b, _ := its[1].StrVal()
				if a == "'" && b == "''" {
					return t.Args[1]
				}
			}
		}
	case "strings.Join":
		its := engine.Items(t.Args[0])
		if len(its) == 1 && its[0].Op == engine.OSpread && str(1, "''") {
			if s := its[0].Args[0]; s.Op == engine.OApp && s.Aux == "strings.Split" {
				if sep, _ := s.Args[1].StrVal(); sep == "'" {
					return s.Args[0]
				}
			}
		}
	}
	return nil
}

// doubling: the loop adds each character of a text, and each quote twice.
func (e *encoding) doubling(st *State, l *engine.Lam) (text *T) {
	for _, b := range l.Sum.Backs {
		u := b.Upd[l.Term]
		if u == nil {
			u = l.Term
		}
		ps, ok := e.pieces(u, l.Term)
		if !ok {
			return nil
		}
		s, char := e.character(st, l, b)
		if s == nil || text != nil && s != text {
			return nil
		}
		text = s
		quote, known := b.St.Facts.Eval(engine.Eq(char, engine.Int('\'')))
		isChar := func(p textPiece) bool {
			return p.t != nil && (p.t == char || p.t.Op == engine.OApp && strings.HasPrefix(p.t.Aux, "string(") && p.t.Args[0] == char || p.t.Op == engine.OConv && p.t.Args[0] == char)
		}
		switch {
		case known && quote && len(ps) == 1 && ps[0].t == nil && ps[0].loop == nil && ps[0].s == "''":
		case known && quote && len(ps) == 2 && (isChar(ps[0]) || ps[0].s == "'") && (isChar(ps[1]) || ps[1].s == "'"):
		case known && !quote && len(ps) == 1 && isChar(ps[0]):
		default:
			return nil
		}
	}
	return text
}

// cut: the loop adds what's before the first quote of the rest of a text, and
// two quotes, as long as there's one, and then the rest is added.
func (e *encoding) cut(st *State, l *engine.Lam, rest *T) *T {
	if l == nil || rest == nil {
		return nil
	}
	r := lamOf(rest)
	if r == nil || r.Sum != l.Sum || r.Term != rest || r.Init == nil {
		return nil
	}
	at := func(name string, q *T) *T { return engine.App(name, types.Typ[types.Int], rest, q) }
	for _, i := range []*T{at("strings.IndexByte", engine.Int('\'')), at("strings.IndexRune", engine.Int('\'')), at("strings.Index", engine.Str("'"))} {
		if !st.Facts.LeqK(i, engine.Int(0), -1) {
			continue
		}
		for _, b := range l.Sum.Backs {
			u, after := b.Upd[l.Term], b.Upd[rest]
			if u == nil || after == nil {
				return nil
			}
			ps, ok := e.pieces(u, l.Term)
			if !ok || len(ps) != 2 || ps[1].s != "''" || !slices(ps[0].t, rest, engine.Int(0), i) || !slices(after, rest, engine.Lin(i, 1), engine.Len(rest)) {
				return nil
			}
		}
		return r.Init
	}
	return nil
}

// slices: t is the slice of the text.
func slices(t, of, lo, hi *T) bool {
	return t != nil && t.Op == engine.OSlice && t.Args[0] == of && t.Args[1] == lo && t.Args[2] == hi
}

// character is the one of a text the iteration is about.
func (e *encoding) character(st *State, l *engine.Lam, b *engine.Back) (text, char *T) {
	for t, v := range b.St.Facts.Lits() {
		if !v || t.Op != engine.OApp || !strings.HasPrefix(t.Aux, "next.ok:") || len(t.Args) != 1 || t.Args[0].Op != engine.OApp || t.Args[0].Aux != "range" {
			continue
		}
		if !isText(t.Args[0].Args[0].Typ) {
			continue
		}
		if l.Sum.Header != nil && !overText(l.Sum) {
			continue
		}
		if end, known := st.Facts.Eval(t); known && !end {
			return t.Args[0].Args[0], engine.App("next.val:"+strings.TrimPrefix(t.Aux, "next.ok:"), types.Typ[types.Rune], t.Args...)
		}
	}
	for _, i := range l.Sum.Lams {
		if i.Phi == nil || i.Init == nil {
			continue
		}
		n, ok := i.Init.IntVal()
		if !ok {
			continue
		}
		idx := engine.Lin(i.Term, -n)
		var found *T
		visit := func(t *T) {
			t.Walk(func(u *T) bool {
				if u.Op == engine.OApp && u.Aux == "index" && u.Args[1] == idx && isText(u.Args[0].Typ) {
					found = u
				}
				return true
			})
		}
		if u := b.Upd[l.Term]; u != nil {
			visit(u)
		}
		b.St.Facts.EachTerm(visit)
		if found != nil && e.c.walksAll(l.Sum, b, found.Args[0], idx, st.Facts) {
			return found.Args[0], found
		}
	}
	return nil, nil
}

// overText: the loop ranges over a text.
func overText(sum *LoopSum) bool {
	for _, in := range sum.Header.Instrs {
		if n, ok := in.(*ssa.Next); ok && n.IsString {
			return true
		}
	}
	return false
}

// failure decides why Interpolate fails.
func (e *encoding) failure(r *Run, st *State, err, args *T, decls func(visit func(decl *T))) string {
	f := st.Facts
	good := false
	var cands []*T
	decls(func(decl *T) {
		if yes, known := is(f, decl, types.NewPointer(e.plain)); known && !yes {
			if yes, known := is(f, decl, types.NewPointer(e.bindvar)); known && !yes {
				good = true
			}
		}
		idx := e.c.loadField(r, st, engine.Assert(decl, types.NewPointer(e.bindvar)), e.bindvar, "Index")
		if yes, known := is(f, decl, types.NewPointer(e.bindvar)); !known || !yes {
			return
		}
		if f.LeqK(idx, engine.Int(0), 0) || f.LeqK(engine.Len(args), idx, -1) {
			e.c.Count("invalid indexes", 1)
			good = true
		}
		et := args.Typ.Underlying().(*types.Slice).Elem()
		cands = append(cands, r.X.Load(st, r.X.IndexAddr(args, engine.Lin(idx, -1), et), et))
	})
	if good {
		return ""
	}
	return e.unsupported(r, st, err, cands)
}

// unsupported decides why encoding a value fails.
func (e *encoding) unsupported(r *Run, st *State, err *T, args []*T) string {
	f := st.Facts
	failed := ""
	check := func(ev *Event) {
		if len(ev.Res) == 0 || ev.Kind == engine.EvErr {
			return
		}
		x := ev.Res[len(ev.Res)-1]
		if isErrType(x.Typ) && f.NonNil(x) {
			if err.Mentions(x) {
				failed = "ok"
			}
			if ev.Fn != nil && strings.HasPrefix(ev.Name, "rec:") && !e.done[ev.Fn] {
				e.done[ev.Fn] = true
				e.todo = append(e.todo, ev.Fn)
			}
		}
	}
	for _, ev := range st.Trace.Events() {
		check(ev)
	}
	if failed != "" {
		return ""
	}
	for _, a := range args {
		a = e.unwrapped(st, a)
		if isNull(f, a) || !e.isNo(f, a, e.valuer, e.stringer, e.time) {
			continue
		}
		supported := false
		for k := range kinds(f, a) {
			if k >= reflect.Bool && k <= reflect.Uint64 || k == reflect.Float32 || k == reflect.Float64 || k == reflect.String {
				supported = true
			}
		}
		if !supported {
			e.c.Count("unsupported values", 1)
			return ""
		}
	}
	return "it fails with " + clip(err.String()) + " although the query, its indexes and the args may be supported"
}
