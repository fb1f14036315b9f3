package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C14"] = &Check{
		Rule: "for each class of index lists given to #join (none, one, two, more; start and end positive): invalid ones fail; else the template is built in a loop whose index starts with the start and grows by one, every iterated function gets that index, the loop is left for success only by an iteration whose iterated function reported ErrInvalidIndex (beyond a given start and not before a given end), or at the given end; each iteration appends nothing for an empty item, the item if nothing was appended, else the separator and the item; every function of the template is looked up and found compatible and there is one; a function is found compatible only if it has the signature and reports ErrInvalidIndex for 0",
		Run:  checkC14,
	}
}

// fnInfo is the type of the registered functions of a context.
func (c *C) fnInfo() *types.Named {
	ct := c.ctxType()
	if ct == nil {
		return nil
	}
	st := ct.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			e := m.Elem()
			if p, ok := e.Underlying().(*types.Pointer); ok {
				e = p.Elem()
			}
			if n, ok := types.Unalias(e).(*types.Named); ok {
				if _, ok := n.Underlying().(*types.Struct); ok {
					return n
				}
			}
		}
	}
	return nil
}

// isVerdict: a function that decides on a registered function.
func (c *C) isVerdict(fn *ssa.Function) bool {
	info := c.fnInfo()
	if info == nil || fn.Parent() != nil || fn.Synthetic != "" || len(fn.Params) != 1 || !c.P.InRepo(fn) {
		return false
	}
	t := fn.Params[0].Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	res := fn.Signature.Results()
	return types.Identical(t, info) && res.Len() == 1 && isErr(res.At(0).Type())
}

// probes: a function that calls a registered function to decide on it.
func (c *C) probes(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] || !c.P.InRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					if g != nil && (engine.IsBuild(g) || visit(g)) {
						return true
					}
				}
			}
		}
		return false
	}
	return c.isVerdict(fn) && visit(fn)
}

type joinClass struct {
	name       string
	n          int
	valid      bool
	start, end *T
}

func checkC14(c *C) {
	nc := c.P.Root.Func("NewContext")
	if nc == nil {
		c.Fail("anchor", "NewContext", "", "not found")
		return
	}
	fn, _ := fnOf(c.builtins(c.Analyse(nc))["join"])
	if fn == nil {
		c.Fail("anchor", "#join", "", "the function isn't found among the functions of a new context")
		return
	}
	c.verdictRule()
	cut := func(def engine.CutFunc) engine.CutFunc {
		return func(x *engine.Engine, f *ssa.Function, args []*T) engine.EventKind {
			if c.probes(f) {
				return engine.EvCall
			}
			return def(x, f, args)
		}
	}
	np := len(fn.Params)
	if np < 3 || !fn.Signature.Variadic() {
		c.Fail("anchor", "#join", c.P.Pos(fn.Pos()), "isn't a function of a template, a separator and indexes")
		return
	}
	it := fn.Params[np-1].Type().Underlying().(*types.Slice).Elem()
	i1, i2, i3 := engine.Sym("param:start", it), engine.Sym("param:end", it), engine.Sym("param:third", it)
	one := engine.Int(1)
	formats := map[string]bool{}
	for _, cl := range []joinClass{
		{"no index", 0, true, one, nil},
		{"a start", 1, true, i1, nil},
		{"a start and an end", 2, true, i1, i2},
		{"a start after the end", 2, false, i1, i2},
		{"three indexes", 3, false, nil, nil},
	} {
		cl := cl
		r := c.AnalyseWith(fn, "join:"+cl.name, cut, func(r *Run, st *engine.State) {
			r.Args[np-1] = engine.Seq("", fn.Params[np-1].Type(), []*T{i1, i2, i3}[:cl.n]...)
			if cl.n > 0 {
				st.Facts.Assume(engine.Lt(i1, one), false)
			}
			if cl.n > 1 {
				st.Facts.Assume(engine.Lt(i2, one), false)
				st.Facts.Assume(engine.Lt(i2, i1), !cl.valid && cl.n == 2)
			}
		})
		if cl.n == 3 {
			// the engine knows exactly 3; more go the same way if the count is what is tested
			r3 := c.AnalyseWith(fn, "join:more", cut, func(r *Run, st *engine.State) {
				st.Facts.Assume(engine.Lt(engine.Len(r.Args[np-1]), engine.Int(3)), false)
			})
			c.joinFails(r3, cl)
		}
		if !cl.valid {
			c.joinFails(r, cl)
			continue
		}
		j := &joinRule{c: c, r: r, cl: cl}
		ok := 0
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			if !o.St.Facts.IsNil(o.Vals[1]) {
				if f := j.format(o); f != "" {
					if cl.n == 0 {
						formats[f] = true
					} else if !formats[f] {
						c.Fail("rejects", "#join", c.P.Pos(o.RetPos), "fails for %s with %q", cl.name, f)
					}
				}
				continue
			}
			ok++
			c.Count("successful partitions", 1)
			j.success(o)
		}
		if ok == 0 {
			c.Fail("rejects", "#join", c.P.Pos(fn.Pos()), "never succeeds for %s", cl.name)
		}
	}
	c.Need("successful partitions", 3)
	c.Need("iterations", 3)
}

func (c *C) joinFails(r *Run, cl joinClass) {
	for _, o := range r.Outs {
		c.Count("invalid index partitions", 1)
		if !o.Panic && !o.St.Facts.NonNil(o.Vals[1]) {
			c.Fail("accepts", "#join", c.P.Pos(o.RetPos), "may succeed for %s", cl.name)
		}
		for _, ev := range o.St.Trace.Events() {
			if ev.Kind == engine.EvBuild {
				c.Fail("accepts", "#join", c.P.Pos(ev.Pos), "builds for %s", cl.name)
			}
		}
	}
}

type joinRule struct {
	c   *C
	r   *Run
	cl  joinClass
	sum *LoopSum // the iterations
	idx *T       // the index given to the iterated functions
	lam *engine.Lam
}

func (j *joinRule) fail(pos, format string, args ...any) {
	j.c.Fail("join", "#join("+j.cl.name+")", pos, format, args...)
}

// format is the constant text of a new error that wraps none.
func (j *joinRule) format(o *engine.Outcome) string {
	f := ""
	wraps := false
	o.Vals[1].Walk(func(t *T) bool {
		if ev := evOf(t); ev != nil {
			wraps = true
		}
		if t.Op == engine.OLoad && t.Args[0].Op == engine.OGlobal {
			wraps = true
		}
		if t.Op == engine.OApp && (t.Aux == "fmt.Errorf" || t.Aux == "errors.New") {
			if s, ok := t.Args[0].StrVal(); ok && f == "" {
				f = s
			}
		}
		return true
	})
	if wraps {
		return ""
	}
	return f
}

// indexOf is the index a build in an iteration of the loop gets.
func (j *joinRule) indexOf(sum *LoopSum, st *State, ev *Event) *T {
	if ev.Kind != engine.EvBuild {
		return nil
	}
	for _, a := range ev.Args {
		its := j.r.X.Items(st, a)
		if len(its) != 1 || its[0].Op != engine.OIface {
			continue
		}
		v := its[0].Args[0]
		if l := lamOf(engine.Base(v)); l != nil && l.Sum == sum {
			return v
		}
	}
	return nil
}

func (j *joinRule) success(o *engine.Outcome) {
	pos := j.c.P.Pos(o.RetPos)
	evs := o.St.Trace.Events()
	at := -1
	for i, ev := range evs {
		if ev.Loop == nil {
			continue
		}
		for _, b := range ev.Loop.Backs {
			eachNested(b.Evs, map[*LoopSum]bool{}, func(e *Event) {
				if v := j.indexOf(ev.Loop, b.St, e); v != nil {
					at = i
				}
			})
		}
	}
	if at < 0 {
		j.fail(pos, "doesn't iterate the functions of the template")
		return
	}
	j.sum, j.idx, j.lam = evs[at].Loop, nil, nil
	for _, b := range j.sum.Backs {
		j.iteration(b)
	}
	if j.idx == nil {
		return
	}
	j.index()
	j.precheck(o, evs[:at], pos)
	j.exit(o, evs[at+1:], pos)
}

// iteration: one build of the template, with one index.
func (j *joinRule) iteration(b *engine.Back) {
	j.c.Count("iterations", 1)
	pos := j.c.P.Pos(headerPos2(j.c, j.sum))
	var vs []*T
	n := 0
	for _, ev := range b.Evs {
		has := false
		eachNested([]*Event{ev}, map[*LoopSum]bool{}, func(e *Event) {
			if v := j.indexOf(j.sum, b.St, e); v != nil {
				has = true
				vs = append(vs, v)
			}
		})
		if has {
			n++
		}
	}
	if n != 1 {
		j.fail(pos, "an iteration builds the template %d times", n)
		return
	}
	for _, v := range vs {
		if j.idx == nil {
			j.idx = v
		}
		if v != j.idx {
			j.fail(pos, "the iterated functions of one iteration get different indexes")
		}
	}
	j.lam = lamOf(engine.Base(j.idx))
	if u := b.Upd[j.lam.Term]; u != engine.Lin(j.lam.Term, 1) {
		j.fail(pos, "the next index is %s", clip(tstr(u)))
	}
	if j.cl.end != nil && !b.St.Facts.LeqK(j.idx, j.cl.end, -1) && !b.St.Facts.LeqK(j.idx, j.cl.end, 0) {
		j.fail(pos, "goes on beyond the end")
	}
	j.text(b, pos)
}

// index: the first one.
func (j *joinRule) index() {
	pos := j.c.P.Pos(headerPos2(j.c, j.sum))
	first := engine.Add(j.lam.Init, engine.Sub(j.idx, j.lam.Term))
	if first == j.cl.start {
		return
	}
	f := j.sum.Entry.Facts
	if !f.LeqK(first, j.cl.start, 0) || !f.LeqK(j.cl.start, first, 0) {
		j.fail(pos, "the first index is %s, not %s", clip(first.String()), clip(j.cl.start.String()))
	}
}

// text: what an iteration appends.
func (j *joinRule) text(b *engine.Back, pos string) {
	for _, l := range j.accumulators() {
		j.appended(b.St.Facts, l, b.Upd[l.Term], pos)
	}
}

// appended: the value is that of the accumulator, with the item of the
// iteration, if it isn't empty, after the separator, if there was an item.
func (j *joinRule) appended(f *Facts, acc *engine.Lam, u *T, pos string) {
	if u == acc.Term {
		return
	}
	if u.Op == engine.OSeq {
		// a list of items, to be joined
		its := u.Args
		if len(its) == 1 && its[0].Op == engine.OSpread && its[0].Args[0] == acc.Term {
			return
		}
		if len(its) == 1 && f.LeqK(engine.Len(acc.Term), engine.Int(0), 0) {
			its = append([]*T{nil}, its...)
		} else if len(its) != 2 || its[0].Op != engine.OSpread || its[0].Args[0] != acc.Term {
			j.fail(pos, "an iteration makes the items %s", clip(u.String()))
			return
		}
		if !f.StrNonEmpty(its[1]) {
			j.fail(pos, "an item that may be empty is appended")
		}
		return
	}
	empty := f.StrEmpty(acc.Term) || j.nothingYet(f, acc)
	some := f.StrNonEmpty(acc.Term) || j.somethingYet(f, acc)
	ps := parts(u)
	if len(ps) == 0 || ps[0] != acc.Term {
		// text that is empty is left out of a concatenation
		if !empty {
			j.fail(pos, "an iteration drops what was built before: %s", clip(u.String()))
			return
		}
	} else {
		ps = ps[1:]
	}
	sep := j.r.Args[2]
	n := 0
	var item []*T
	var by *T
	for i, p := range ps {
		if p == sep || j.sepLam(p, acc) {
			n++
			by = p
			if i != 0 {
				j.fail(pos, "the separator isn't before the item")
			}
			continue
		}
		item = append(item, p)
	}
	if len(item) == 1 && !f.StrNonEmpty(item[0]) {
		j.fail(pos, "an item that may be empty is appended")
	}
	switch {
	case n == 0 && len(item) > 0 && !empty:
		j.fail(pos, "an item is appended without separator, although there may be one before it")
	case n == 1 && by == sep && !some:
		j.fail(pos, "a separator is appended although there may be no item before it")
	case n > 1:
		j.fail(pos, "%d separators are appended", n)
	}
}

func parts(t *T) []*T {
	if t.Op == engine.OConcat {
		return t.Args
	}
	return []*T{t}
}

// sepLam: the text is empty as long as nothing was appended, then the separator.
func (j *joinRule) sepLam(p *T, acc *engine.Lam) bool {
	l := lamOf(p)
	if l == nil || l.Sum != j.sum || l.Init == nil {
		return false
	}
	if s, ok := l.Init.StrVal(); !ok || s != "" {
		return false
	}
	for _, b := range j.sum.Backs {
		u := b.Upd[l.Term]
		if j.appends(b, acc) && u != j.r.Args[2] || !j.appends(b, acc) && u != l.Term {
			return false
		}
	}
	return true
}

func (j *joinRule) appends(b *engine.Back, acc *engine.Lam) bool {
	return b.Upd[acc.Term] != acc.Term
}

// flag: a variable with another value once anything was appended.
func (j *joinRule) flags(acc *engine.Lam, visit func(l *engine.Lam, isInit func(f *Facts) (bool, bool)) bool) bool {
	for _, l := range j.sum.Lams {
		l := l
		if l.Term == acc.Term || l.Init == nil || l.Ver != "" {
			continue
		}
		ok := true
		for _, b := range j.sum.Backs {
			u := b.Upd[l.Term]
			if u == nil {
				ok = false
				break
			}
			if !j.appends(b, acc) {
				ok = ok && u == l.Term
				continue
			}
			switch {
			case u == engine.Lin(l.Term, 1):
			case u.Op == engine.OConst && l.Init.Op == engine.OConst && u != l.Init:
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		if visit(l, func(f *Facts) (bool, bool) {
			if v, known := sameAs(f, l.Term, l.Init); known {
				return v, true
			}
			if f.LeqK(l.Term, l.Init, 0) {
				return true, true
			}
			if f.LeqK(l.Init, l.Term, -1) {
				return false, true
			}
			return false, false
		}) {
			return true
		}
	}
	return false
}

func (j *joinRule) nothingYet(f *Facts, acc *engine.Lam) bool {
	return j.flags(acc, func(_ *engine.Lam, isInit func(f *Facts) (bool, bool)) bool {
		v, known := isInit(f)
		return known && v
	})
}

func (j *joinRule) somethingYet(f *Facts, acc *engine.Lam) bool {
	return j.flags(acc, func(_ *engine.Lam, isInit func(f *Facts) (bool, bool)) bool {
		v, known := isInit(f)
		return known && !v
	})
}

// accumulators are the texts, or lists of items, that the iterations append to.
func (j *joinRule) accumulators() (out []*engine.Lam) {
	for _, l := range j.sum.Lams {
		if l.Init == nil || l.Ver != "" {
			continue
		}
		s, ok := l.Init.StrVal()
		text, list := ok && s == "", false
		used := false
		for _, b := range j.sum.Backs {
			u := b.Upd[l.Term]
			if u == nil || u == l.Term {
				continue
			}
			used = true
			if u == j.r.Args[2] {
				text = false
			}
			if u.Op == engine.OSeq && emptyList(l.Init) {
				list = true
			}
		}
		if used && (text || list) {
			out = append(out, l)
		}
	}
	return out
}

// exit: how the iterations are left, and what is returned.
func (j *joinRule) exit(o *engine.Outcome, rest []*Event, pos string) {
	f := o.St.Facts
	e := &errRule{c: j.c, r: j.r}
	exhausted := false
	built := false
	eachNested(rest, map[*LoopSum]bool{}, func(ev *Event) {
		if j.indexOf(j.sum, o.St, ev) == nil {
			return
		}
		built = true
		if n := len(ev.Res); n > 0 && e.exhausted(o.St, ev.Res[n-1]) {
			exhausted = true
		}
	})
	switch {
	case exhausted && j.cl.end != nil:
		j.fail(pos, "succeeds although an iterated function ended before the given end")
	case exhausted && j.cl.n > 0:
		eq, known := f.Eval(engine.Eq(j.idx, j.cl.start))
		if !f.LeqK(j.cl.start, j.idx, -1) && !(known && !eq) {
			j.fail(pos, "succeeds although the given start may be invalid")
		}
	case exhausted:
	case j.cl.end == nil:
		j.fail(pos, "stops before an iterated function reports its end")
	case built:
		if !f.LeqK(j.cl.end, j.idx, 0) {
			j.fail(pos, "stops before the given end")
		}
	default:
		if !f.LeqK(j.cl.end, j.idx, -1) {
			j.fail(pos, "stops before the given end")
		}
	}
	j.c.Count("exits", 1)
	// the text is that of the iterations
	v := o.Vals[0]
	if v.Op == engine.OApp && v.Aux == "strings.Join" {
		if v.Args[1] != j.r.Args[2] {
			j.fail(pos, "joins with %s", clip(v.Args[1].String()))
		}
		v = v.Args[0]
		if len(v.Args) == 1 && v.Args[0].Op == engine.OSpread {
			v = v.Args[0].Args[0]
		}
	}
	accs := j.accumulators()
	for _, acc := range accs {
		if v == acc.Term {
			if built && !exhausted && !j.noItem(o, rest) {
				j.fail(pos, "drops the item at the given end")
			}
			return
		}
		if !exhausted && built && v.Mentions(acc.Term) {
			j.appended(f, acc, v, pos)
			return
		}
	}
	if len(accs) == 1 && f.StrEmpty(accs[0].Term) && !exhausted {
		// the only item
		j.appended(f, accs[0], v, pos)
		return
	}
	if len(accs) == 1 && f.StrEmpty(accs[0].Term) && f.StrEmpty(v) {
		return
	}
	j.fail(pos, "returns %s, not the items", clip(v.String()))
}

// noItem: what was built last is known to be empty.
func (j *joinRule) noItem(o *engine.Outcome, rest []*Event) bool {
	for _, ev := range rest {
		if ev.Loop != nil {
			for _, l := range ev.Loop.Lams {
				if l.Init == nil {
					continue
				}
				if s, ok := l.Init.StrVal(); ok && s == "" && o.St.Facts.StrEmpty(l.Term) {
					return true
				}
			}
		}
		if ev.Kind == engine.EvBuild && len(ev.Res) > 0 && o.St.Facts.StrEmpty(ev.Res[0]) {
			return true
		}
	}
	return false
}

// precheck: all functions of the template are known and compatible, and there
// is one.
func (j *joinRule) precheck(o *engine.Outcome, before []*Event, pos string) {
	fe := j.c.namedType(j.c.P.Synt, "FuncExpr")
	if fe == nil {
		j.c.Fail("anchor", "syntax.FuncExpr", "", "not found")
		return
	}
	problem := "the functions of the template aren't checked"
	for _, ev := range before {
		if ev.Loop == nil {
			continue
		}
		if p := j.checksAll(ev.Loop, o.St.Facts, fe); p == "" {
			return
		} else if p != "-" {
			problem = p
		}
	}
	j.fail(pos, "%s", problem)
}

// checksAll: the loop walks all expressions and checks the functions among them.
func (j *joinRule) checksAll(sum *LoopSum, facts *Facts, fe *types.Named) string {
	isFn := map[*engine.Back]bool{}
	for _, b := range sum.Backs {
		var elem *T
		fn, not := false, false
		b.St.Facts.EachTerm(func(t *T) {
			if t.Op == engine.OApp {
				return
			}
			t.Walk(func(u *T) bool {
				if l, i := elemRef(u); l != nil && elem == nil && isExprList(u, fe) {
					if lm := lamOf(engine.Base(i)); lm != nil && lm.Sum == sum && j.c.walksAll(sum, b, l, i, facts) {
						elem = u
					}
				}
				return true
			})
		})
		if elem == nil {
			return "-"
		}
		if v, known := b.St.Facts.Eval(assertOk(elem, types.NewPointer(fe))); known {
			fn, not = v, !v
		}
		if not {
			continue
		}
		isFn[b] = true
		_ = fn
		good := false
		for _, ev := range b.Evs {
			if ev.Kind != engine.EvCall || len(ev.Res) != 1 || ev.Fn == nil || !j.c.isVerdict(ev.Fn) {
				continue
			}
			arg := ev.Recv
			if arg == nil && len(ev.Args) > 0 {
				arg = ev.Args[0]
			}
			if arg == nil || arg.Op != engine.OLookup || !arg.Mentions(elem) {
				continue
			}
			if !b.St.Facts.IsNil(ev.Res[0]) {
				return "goes on although a function of the template may be incompatible"
			}
			if ok, known := b.St.Facts.Eval(engine.HasKey(arg)); !(known && ok) && !b.St.Facts.NonNil(arg) {
				return "goes on although a function of the template may be unknown"
			}
			good = true
		}
		if !good {
			return "a function of the template isn't checked"
		}
	}
	// one at least
	for _, l := range sum.Lams {
		if l.Init == nil || l.Ver != "" {
			continue
		}
		only, some := true, false
		for b, f := range backsOf(sum, isFn) {
			u := b.Upd[l.Term]
			if u == nil || !f && u != l.Term {
				only = false
			}
			if f && u != l.Term {
				some = true
			}
		}
		if !only || !some {
			continue
		}
		if v, known := sameAs(facts, l.Term, l.Init); known && !v {
			return ""
		}
		if facts.LeqK(l.Init, l.Term, -1) {
			return ""
		}
		if l.Term.Typ != nil {
			if _, ok := l.Term.Typ.Underlying().(*types.Slice); ok && emptyList(l.Init) && (facts.LeqK(engine.Int(1), engine.Len(l.Term), 0)) {
				return ""
			}
		}
	}
	return "succeeds although the template may have no function"
}

// sameAs evaluates the equality of two values.
func sameAs(f *Facts, a, b *T) (bool, bool) {
	if b == engine.True || b == engine.False {
		v, known := f.Eval(a)
		return v == (b == engine.True), known
	}
	return f.Eval(engine.Eq(a, b))
}

func backsOf(sum *LoopSum, isFn map[*engine.Back]bool) map[*engine.Back]bool {
	out := map[*engine.Back]bool{}
	for _, b := range sum.Backs {
		out[b] = isFn[b]
	}
	return out
}

func isExprList(elem *T, fe *types.Named) bool {
	if elem.Typ == nil {
		return false
	}
	it, ok := elem.Typ.Underlying().(*types.Interface)
	return ok && types.Implements(types.NewPointer(fe), it) && it.NumMethods() > 0
}

func assertOk(v *T, t types.Type) *T { return engine.AssertOk(v, t) }

func headerPos2(c *C, sum *LoopSum) token.Pos {
	for _, in := range sum.Header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, b := range sum.Header.Succs {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return sum.Pos
}

// verdictRule: a function is compatible only if it has the signature and
// reports the end of the indexes.
func (c *C) verdictRule() {
	info := c.fnInfo()
	if info == nil {
		c.Fail("anchor", "functions of a context", "", "not found")
		return
	}
	n := 0
	for _, fn := range c.P.Funcs {
		if !c.probes(fn) {
			continue
		}
		// those that ask another one only remember its verdict
		r := c.AnalyseWith(fn, "verdict", func(def engine.CutFunc) engine.CutFunc {
			return func(x *engine.Engine, f *ssa.Function, args []*T) engine.EventKind {
				if f != fn && c.probes(f) {
					return engine.EvCall
				}
				return def(x, f, args)
			}
		}, nil)
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			pos := c.P.Pos(o.RetPos)
			v := o.Vals[0]
			if o.St.Facts.NonNil(v) {
				continue
			}
			if ev := evOf(v); ev != nil && ev.Kind == engine.EvCall {
				continue
			}
			if c.remembered(r, o, v) {
				continue
			}
			n++
			c.Count("verdicts", 1)
			if p := c.compatible(r, o); p != "" {
				c.Fail("verdict", c.name(fn), pos, "%s", p)
			}
		}
	}
	if n == 0 {
		c.Fail("verdict", "#join", "", "no function decides on compatibility")
	}
}

// remembered: a field of the function that is assigned verdicts only.
func (c *C) remembered(r *Run, o *engine.Outcome, v *T) bool {
	if v.Op != engine.OLoad || v.Args[0].Op != engine.OFieldAddr || ownerOf(v.Args[0].Aux) != typeName(c.fnInfo()) {
		return false
	}
	field := v.Args[0].Aux
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				st, ok := pt.Elem().Underlying().(*types.Struct)
				if !ok || typeName(pt.Elem())+"."+st.Field(fa.Field).Name() != field {
					continue
				}
				call, ok := s.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !c.probes(call.Call.StaticCallee()) {
					return false
				}
			}
		}
	}
	// and it was: another field says so, which is set together with it
	told := false
	o.St.Facts.EachTerm(func(t *T) {
		t.Walk(func(u *T) bool {
			if u.Op == engine.OLoad && u.Args[0].Op == engine.OFieldAddr && u != v && u.Args[0].Args[0] == v.Args[0].Args[0] && strings.HasPrefix(u.Args[0].Aux, typeName(c.fnInfo())+".") {
				if b, known := o.St.Facts.Eval(u); known && b {
					told = true
				}
			}
			return true
		})
	})
	return told
}

// compatible: what is known of a function that is found compatible.
func (c *C) compatible(r *Run, o *engine.Outcome) string {
	e := &errRule{c: c, r: r}
	probe := false
	for _, ev := range o.St.Trace.Events() {
		if ev.Kind != engine.EvBuild || len(ev.Res) != 2 {
			continue
		}
		zero := false
		for _, a := range ev.Args {
			its := r.X.Items(o.St, a)
			if len(its) == 1 && its[0].Op == engine.OIface && its[0].Args[0] == engine.Int(0) {
				zero = true
			}
		}
		if zero && e.exhausted(o.St, ev.Res[1]) {
			probe = true
		}
	}
	if !probe {
		return "finds a function compatible that may not report ErrInvalidIndex for 0"
	}
	return ""
}
