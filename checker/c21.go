package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C21"] = &Check{
		Rule: "a partition of Scan that succeeds knows that the query has, that Next is false in the end and Err is nil after that, and that each iteration has seen Next be true, has scanned the row into the fields without an error, and appends the destination they belong to; rows are closed in every partition, panics included, that got them; ScanRow scans into the given destinations followed by one of its own, which takes everything, for each further column; Count returns the number scanned from SELECT COUNT of the query; errors are returned; ScanBuilder and CountBuilder run what has been built, and nothing if building fails",
		Run:  checkC21,
	}
}

func checkC21(c *C) {
	for _, n := range []string{"Scan", "ScanBuilder", "ScanRow", "Count", "CountBuilder"} {
		fn := c.P.Util.Func(n)
		if fn == nil {
			c.Fail("anchor", "util."+n, "", "not found")
			continue
		}
		r := c.AnalyseWith(fn, "scan", func(def engine.CutFunc) engine.CutFunc {
			return func(x *engine.Engine, f *ssa.Function, args []*T) engine.EventKind {
				p := f.Pkg
				if o := f.Origin(); o != nil {
					p = o.Pkg
				}
				if p == c.P.Util && f.Name() != "Interpolate" {
					return ""
				}
				return def(x, f, args)
			}
		}, func(r *Run, st *State) { r.X.Panics = true })
		for _, o := range r.Outs {
			s := &scanning{c: c, r: r, o: o, evs: o.St.Trace.Events()}
			s.decide(n)
			if s.problem != "" {
				c.Fail("scan", c.name(fn), c.P.Pos(o.RetPos), "%s", s.problem)
			}
		}
	}
	c.Need("partitions that succeed", 5)
	c.Need("partitions with rows", 3)
	c.Need("rows scanned", 2)
	c.Need("columns dropped", 1)
	c.Need("numbers of rows", 2)
	c.Need("queries built", 2)
}

type scanning struct {
	c       *C
	r       *Run
	o       *engine.Outcome
	evs     []*Event
	problem string
}

func (s *scanning) fail(p string) {
	if s.problem == "" {
		s.problem = p
	}
}

// arg is the argument of a type.
func (s *scanning) arg(is func(t types.Type) bool) *T {
	for i, p := range s.r.Fn.Params {
		if is(p.Type()) {
			return s.r.Args[i]
		}
	}
	return nil
}

func (s *scanning) decide(name string) {
	st := s.o.St
	if !s.o.Panic {
		err := s.o.Vals[len(s.o.Vals)-1]
		if !st.Facts.NonNil(err) {
			st = st.Clone()
			if !st.Facts.Assume(engine.Eq(err, engine.Nil), true) {
				return
			}
		}
		s.errors(st, err)
	}
	if name == "ScanRow" {
		s.row(st)
		return
	}
	db := s.arg(func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && hasMethod(i, "Query")
	})
	text := s.arg(isText)
	list := s.arg(func(t types.Type) bool {
		l, ok := t.Underlying().(*types.Slice)
		return ok && types.IsInterface(l.Elem())
	})
	if strings.HasSuffix(name, "Builder") {
		b := s.arg(func(t types.Type) bool {
			i, ok := t.Underlying().(*types.Interface)
			return ok && hasMethod(i, "BuildQuery")
		})
		var built *Event
		n := 0
		for _, ev := range s.evs {
			if strings.HasSuffix(ev.Name, ".BuildQuery") && ev.Recv == b {
				built = ev
				n++
			}
		}
		if n == 0 && s.o.Panic {
			return
		}
		if n != 1 {
			s.fail("the query isn't built once")
			return
		}
		if len(built.Res) != 3 || !st.Facts.IsNil(built.Res[2]) {
			for _, ev := range s.evs {
				if ev.Recv == db {
					s.fail("a query that may not have been built is run")
				}
			}
			return
		}
		s.c.Count("queries built", 1)
		text, list = built.Res[0], built.Res[1]
	}
	if db == nil || text == nil || list == nil {
		s.fail("no database, query or args among the parameters")
		return
	}
	var q *Event
	for _, ev := range s.evs {
		if ev.Recv != db {
			continue
		}
		if q != nil {
			s.fail("several queries are run")
			return
		}
		q = ev
	}
	if q == nil {
		if !s.o.Panic && !st.Facts.NonNil(s.o.Vals[len(s.o.Vals)-1]) {
			s.fail("it succeeds without a query")
		}
		return
	}
	if q.Panic || len(q.Res) == 0 {
		return
	}
	if len(q.Args) != 2 || uncap(q.Args[1]) != uncap(list) {
		s.fail("the query is run with other args")
		return
	}
	if strings.HasPrefix(name, "Count") {
		s.count(st, q, text)
		return
	}
	if q.Args[0] != text {
		s.fail("another query is run")
		return
	}
	s.rows(st, q)
}

func hasMethod(i *types.Interface, name string) bool {
	for j := 0; j < i.NumMethods(); j++ {
		if i.Method(j).Name() == name {
			return true
		}
	}
	return false
}

// errors: what failed is what it fails with.
func (s *scanning) errors(st *State, err *T) {
	for _, ev := range s.evs {
		if ev.Kind == engine.EvErr || ev.Kind == engine.EvLoop || len(ev.Res) == 0 || strings.HasSuffix(ev.Name, ".Interpolate") || strings.HasSuffix(ev.Name, ".Close") {
			continue
		}
		e := ev.Res[len(ev.Res)-1]
		if !isErrType(e.Typ) || st.Facts.IsNil(e) || s.noRows(st, e) {
			continue
		}
		if !st.Facts.NonNil(e) {
			s.fail("the error of " + engine.Short(ev.Name) + " isn't checked")
			continue
		}
		if !s.c.wraps(s.r, st, err, e, 0) {
			s.fail("it doesn't fail with the error of " + engine.Short(ev.Name))
		}
	}
}

func isErrType(t types.Type) bool { return t != nil && isErr(t) }

// noRows: the error says that there are no rows.
func (s *scanning) noRows(st *State, e *T) bool {
	for t, v := range st.Facts.Lits() {
		if v && (t.Op == engine.OEq || t.Op == engine.OApp && t.Aux == "errors.Is") && t.Mentions(e) && strings.Contains(t.String(), "sql.ErrNoRows") {
			return true
		}
	}
	return false
}

// rows decides what becomes of the rows of a query.
func (s *scanning) rows(st *State, q *Event) {
	f := st.Facts
	if len(q.Res) != 2 {
		s.fail("the query returns no rows")
		return
	}
	rows, qerr := q.Res[0], q.Res[1]
	if !f.IsNil(qerr) {
		return
	}
	s.c.Count("partitions with rows", 1)
	closed := false
	var next, end *Event
	for _, ev := range s.evs {
		if ev.Recv != rows {
			continue
		}
		switch {
		case closed:
			s.fail("closed rows are used")
			return
		case strings.HasSuffix(ev.Name, "Rows).Close"):
			closed = true
		case strings.HasSuffix(ev.Name, "Rows).Next"):
			next, end = ev, nil
		case strings.HasSuffix(ev.Name, "Rows).Err"):
			end = ev
		}
	}
	if !closed {
		s.fail("the rows aren't closed")
		return
	}
	if s.o.Panic || f.NonNil(s.o.Vals[len(s.o.Vals)-1]) {
		return
	}
	s.c.Count("partitions that succeed", 1)
	if next == nil {
		s.fail("it succeeds without reading rows")
		return
	}
	if v, known := f.Eval(next.Res[0]); !known || v {
		s.fail("it succeeds although there may be further rows")
		return
	}
	if end == nil || !f.IsNil(end.Res[0]) {
		s.fail("it succeeds although reading the rows may have failed")
		return
	}
	fn := s.arg(func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
	res := uncap(s.o.Vals[0])
	l := lamOf(res)
	if l == nil || l.Term != res || !emptyList(uncap(l.Init)) {
		s.fail("the result isn't a list of its own each row is added to")
		return
	}
	for _, b := range l.Sum.Backs {
		s.iteration(l, b, rows, fn)
	}
	s.once(l, rows)
}

// once: no other loop takes rows.
func (s *scanning) once(l *engine.Lam, rows *T) {
	for _, ev := range s.evs {
		if ev.Loop == nil || ev.Loop == l.Sum {
			continue
		}
		for _, b := range ev.Loop.Backs {
			for _, e := range b.Evs {
				if e.Recv == rows && strings.HasSuffix(e.Name, "Rows).Next") {
					s.fail("another loop takes rows")
				}
			}
		}
	}
}

// iteration: it takes a row and adds what it has been scanned into.
func (s *scanning) iteration(l *engine.Lam, b *engine.Back, rows, fn *T) {
	f := b.St.Facts
	var next, dest, scan *Event
	nexts, dests, scans := 0, 0, 0
	for _, ev := range b.Evs {
		switch {
		case ev.Recv == rows && strings.HasSuffix(ev.Name, "Rows).Next"):
			next = ev
			nexts++
		case ev.Recv == rows && strings.HasSuffix(ev.Name, "Rows).Scan"):
			scan = ev
			scans++
			if nexts == 0 || dests == 0 {
				s.fail("a row is scanned before there's one")
			}
		case ev.Kind == engine.EvValue && ev.Recv == fn:
			dest = ev
			dests++
		}
	}
	if nexts != 1 || scans != 1 || dests != 1 {
		s.fail("an iteration doesn't take one row and scan it into one destination")
		return
	}
	if v, known := f.Eval(next.Res[0]); !known || !v {
		s.fail("an iteration may have no row")
		return
	}
	if !f.IsNil(scan.Res[0]) {
		s.fail("a row that may not have been scanned is taken")
		return
	}
	u := b.Upd[l.Term]
	if u == nil {
		u = l.Term
	}
	as, ok := additions(l.Term, u, f)
	if !ok || len(as) != 1 || as[0].spread || as[0].sum != nil || as[0].elem != dest.Res[0] {
		s.fail("the list becomes " + clip(u.String()) + " in place of getting the scanned destination")
		return
	}
	s.c.Count("rows scanned", 1)
	s.destinations(b.St, b.Evs, scan, rows, dest.Res[1])
}

// row decides ScanRow.
func (s *scanning) row(st *State) {
	if s.o.Panic || st.Facts.NonNil(s.o.Vals[len(s.o.Vals)-1]) {
		return
	}
	s.c.Count("partitions that succeed", 1)
	rows := s.r.Args[0]
	given := s.arg(func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok })
	n := 0
	for _, ev := range s.evs {
		if ev.Recv == rows && strings.HasSuffix(ev.Name, "Rows).Scan") {
			n++
			s.destinations(st, s.evs, ev, rows, given)
		}
	}
	if n != 1 {
		s.fail("the row isn't scanned once")
	}
}

// destinations: a row is scanned to the given destinations, and one for each
// further column.
func (s *scanning) destinations(st *State, evs []*Event, scan *Event, rows, given *T) {
	f := st.Facts
	if len(scan.Args) != 1 {
		s.fail("the destinations aren't a list")
		return
	}
	list := scan.Args[0]
	var cols *T
	for _, ev := range evs {
		if ev.Recv == rows && strings.HasSuffix(ev.Name, "Rows).Columns") && len(ev.Res) == 2 && f.IsNil(ev.Res[1]) {
			cols = engine.Len(ev.Res[0])
		}
	}
	if cols == nil {
		s.fail("it isn't known how many columns there are")
		return
	}
	more := engine.Sub(cols, engine.Len(given))
	if uncap(list) == uncap(given) {
		if !f.LeqK(more, engine.Int(0), 0) && !f.LeqK(cols, engine.Len(given), 0) {
			s.fail("further columns may not be dropped")
		}
		return
	}
	base := given
	if l := lamOf(uncap(list)); l != nil && l.Init != nil {
		if its := s.r.X.Items(st, l.Init); len(its) == 1 && its[0].Op == engine.OSpread && uncap(its[0].Args[0]) == uncap(given) {
			base = l.Init // a copy
		}
	}
	as, ok := additions(base, list, f)
	if !ok || len(as) == 0 {
		s.fail("a row is scanned into " + clip(list.String()) + ", not the given destinations and further ones")
		return
	}
	for _, a := range as {
		if a.sum == nil || a.spread || len(as) != len(a.sum.Backs) || !s.counts(a, uncap(list), cols, more, f) {
			s.fail("there may not be a destination for each further column")
			return
		}
		if p := s.drops(a.elem); p != "" {
			s.fail("the destination " + clip(a.elem.String()) + " of a further column " + p)
			return
		}
	}
	s.c.Count("columns dropped", 1)
}

// counts: the loop runs once per further column.
func (s *scanning) counts(a addition, list, cols, more *T, f *Facts) bool {
	in := a.back.St.Facts
	// by the length of the list
	if f.LeqK(cols, engine.Len(list), 0) && in.LeqK(engine.Len(list), cols, -1) {
		return true
	}
	for _, l := range a.sum.Lams {
		if l.Phi == nil || l.Init == nil {
			continue
		}
		if l.Init == more && a.back.Upd[l.Term] == engine.Lin(l.Term, -1) {
			if f.LeqK(l.Term, engine.Int(0), 0) && in.LeqK(engine.Int(0), l.Term, -1) {
				return true
			}
		}
		if a.back.Upd[l.Term] != engine.Lin(l.Term, 1) {
			continue
		}
		at, to := l.Term, cols
		if n, ok := l.Init.IntVal(); ok {
			at, to = engine.Lin(l.Term, -n), more
		} else if l.Init != engine.Sub(cols, more) {
			continue
		}
		if f.LeqK(to, at, 0) && in.LeqK(at, to, -1) {
			return true
		}
	}
	return false
}

// drops: the destination takes every value, and is nothing of the caller.
func (s *scanning) drops(e *T) string {
	if e.Op != engine.OIface {
		return "may not take every value"
	}
	t := e.Ref.(types.Type)
	for {
		if m := s.scanner(t); m != nil {
			r := s.c.Analyse(m)
			for _, o := range r.Outs {
				if o.Panic || len(o.Vals) != 1 || !o.St.Facts.IsNil(o.Vals[0]) {
					return "may reject a value"
				}
			}
			break
		}
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return "may not take every value"
		}
		t = p.Elem()
		if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
			break
		}
		if l, ok := t.Underlying().(*types.Slice); ok && types.Identical(l.Elem(), types.Typ[types.Byte]) {
			break
		}
	}
	v := e.Args[0]
	if _, ok := e.Ref.(types.Type).Underlying().(*types.Pointer); ok && v.Op != engine.OObj && !emptyList(v) && lamOf(v) == nil {
		return "isn't its own"
	}
	return ""
}

// scanner is the method Scan of a type of the repository.
func (s *scanning) scanner(t types.Type) *ssa.Function {
	sel := s.c.P.SSA.MethodSets.MethodSet(t).Lookup(nil, "Scan")
	if sel == nil {
		return nil
	}
	return s.c.P.SSA.MethodValue(sel)
}

var countForm = regexp.MustCompile(`(?i)^SELECT COUNT ?\( ?(1|\*) ?\) FROM \( ?⟦query⟧ ?\) (AS )?\w+$`)

// count decides the number that's returned.
func (s *scanning) count(st *State, q *Event, text *T) {
	f := st.Facts
	got := render(q.Args[0], f, func(t *T) string {
		if t == text {
			return open + "query" + shut
		}
		return ""
	})
	if !countForm.MatchString(got) {
		s.fail("the number is that of " + got)
		return
	}
	if s.o.Panic || f.NonNil(s.o.Vals[len(s.o.Vals)-1]) {
		return
	}
	s.c.Count("partitions that succeed", 1)
	n := 0
	for _, ev := range s.evs {
		if ev.Recv != q.Res[0] || !strings.HasSuffix(ev.Name, "Row).Scan") {
			continue
		}
		n++
		if s.noRows(st, ev.Res[0]) {
			if v, ok := s.o.Vals[0].IntVal(); !ok || v != 0 {
				if l := s.o.Vals[0]; l.Op != engine.OLoad {
					s.fail("no rows are counted as " + l.String())
				}
			}
			return
		}
		if !f.IsNil(ev.Res[0]) {
			s.fail("it succeeds although the query may have failed")
			return
		}
		its := s.r.X.Items(st, ev.Args[0])
		v := s.o.Vals[0]
		for v.Op == engine.OConv {
			v = v.Args[0]
		}
		if len(its) != 1 || v.Op != engine.OLoad || v.Args[0] != unboxed(its[0]) {
			s.fail("the number isn't what has been scanned")
			return
		}
		s.c.Count("numbers of rows", 1)
	}
	if n != 1 {
		s.fail("the number isn't scanned once")
	}
}
