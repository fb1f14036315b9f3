package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// dependencies decides what the maps of needed tables and CTEs have.
//
// A reference is a table name that is (part of) an element of a list of
// fragments: of the fragments of a fragment, of a column, a table name, or a
// table with its alias. Three kinds of functions deal with them:
//   - an extractor takes a list of fragments and collects the references in it,
//   - a marker takes a name (or a table), marks the table of the name as needed,
//     and all its fragment refers to,
//   - a CTE marker takes a CTE, and marks it and those it depends on.
//
// They may be recursive; each is decided on its own, presuming the others (and
// itself, for the calls it makes) do what they should.
type dependencies struct {
	m          *queryModel
	extractors map[*ssa.Function]bool
	markers    map[*ssa.Function]bool
	cteMarkers map[*ssa.Function]bool
	done       map[string]bool
	byTable    bool // needed tables are known by their names and alias
	undefined  bool // decide that names of no table are errors
	problems   []string
	rule       string
	known      map[*Event][]*T // what the map of names given to an extractor has
}

func (m *queryModel) dependencies(rule string) *dependencies {
	d := &dependencies{m: m, rule: rule, known: map[*Event][]*T{}, extractors: map[*ssa.Function]bool{}, markers: map[*ssa.Function]bool{}, cteMarkers: map[*ssa.Function]bool{}, done: map[string]bool{}}
	m.onCall = d.note
	return d
}

// note keeps what's in the map of names an extractor is given.
func (d *dependencies) note(r *Run, st *State, ev *Event) {
	if d.kind(ev.Fn) != kExtract {
		return
	}
	p := d.params(ev.Fn, evArgs(ev))
	if p.dict == nil {
		return
	}
	v := r.X.MapVer(st, p.dict)
	for _, w := range d.known[ev] {
		if w == v {
			return
		}
	}
	d.known[ev] = append(d.known[ev], v)
}

// startsEmpty: an extractor takes nothing for collected that isn't.
func (d *dependencies) startsEmpty(ev *Event) bool {
	p := d.params(ev.Fn, evArgs(ev))
	if p.dict == nil {
		return true
	}
	for _, v := range d.known[ev] {
		if emptyVer(v) {
			continue
		}
		was := evOf(v)
		if was == nil || was == ev || d.kind(was.Fn) != kExtract {
			return false
		}
		q := d.params(was.Fn, evArgs(was))
		same := q.out != nil && q.out == p.out
		for _, r := range was.Res {
			same = same || r == p.names
		}
		if q.dict != p.dict || !same {
			return false
		}
	}
	return len(d.known[ev]) > 0
}

// emptyVer: nothing was entered to a new map.
func emptyVer(v *T) bool {
	return v != nil && (v.Op == engine.ONil || v.Op == engine.OZero || v.Op == engine.OConst)
}

// refKind is what a function that takes part in collecting is given.
type refKind int

const (
	kNone refKind = iota
	kExtract
	kMark
	kMarkCTE
)

func (d *dependencies) isList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), d.builder())
}

func (d *dependencies) builder() types.Type {
	fs := d.m.frag.Underlying().(*types.Struct)
	return fs.Field(fieldIndex(d.m.frag, "Fragments")).Type().Underlying().(*types.Slice).Elem()
}

// kind tells what a function does by its params.
func (d *dependencies) kind(fn *ssa.Function) (k refKind) {
	m := d.m
	if fn == nil || fn.Pkg != m.c.P.Sqlb || engine.IsBuild(fn) {
		return kNone
	}
	if d.readsCTEs(fn) {
		// a name, then, is the one of a CTE
		defer func() {
			if k == kMark {
				k = kMarkCTE
			}
		}()
	}
	for _, p := range fn.Params {
		t := p.Type()
		switch {
		case d.isList(t) || types.Identical(t, d.builder()):
			return kExtract
		case types.Identical(t, m.elemType(rCTEs)):
			k = kMarkCTE
		case types.Identical(t, m.sqlb("Table")) || types.Identical(t, m.elemType(rTables)):
			if k == kNone {
				k = kMark
			}
		}
	}
	return k
}

// readsCTEs: the function looks for CTEs by their names.
func (d *dependencies) readsCTEs(fn *ssa.Function) bool {
	at := fieldIndex(d.m.qb, d.m.role[rCTEDict])
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fa.Field == at && types.Identical(fa.X.Type(), types.NewPointer(d.m.qb)) {
				return true
			}
		}
	}
	return false
}

// params of a collecting function by what they are.
type refParams struct{ qb, dict, out, names, list, one, name, table, cte *T }

func (d *dependencies) params(fn *ssa.Function, args []*T) (p refParams) {
	m := d.m
	for i, a := range fn.Params {
		if i >= len(args) {
			break
		}
		t, v := a.Type(), args[i]
		switch u := t.Underlying().(type) {
		case *types.Map:
			p.dict = v
		case *types.Slice:
			switch {
			case d.isList(t):
				p.list = v
			case types.Identical(u.Elem(), m.sqlb("Table")):
				p.names = v
			}
		case *types.Interface:
			if types.Identical(t, d.builder()) {
				p.one = v
			}
		case *types.Pointer:
			switch {
			case types.Identical(u.Elem(), m.qb):
				p.qb = v
			case types.Identical(t, m.elemType(rCTEs)):
				p.cte = v
			case types.Identical(t, m.elemType(rTables)):
				p.table = v
			default:
				if s, ok := u.Elem().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), m.sqlb("Table")) {
					p.out = v
				}
			}
		default:
			if types.Identical(t, m.sqlb("Table")) {
				p.name = v
			}
		}
	}
	return p
}

func evArgs(ev *Event) []*T {
	if ev.Recv != nil {
		return append([]*T{ev.Recv}, ev.Args...)
	}
	return ev.Args
}

// listItem is what is (or may be) in a list.
type listItem struct {
	elem   *T
	spread bool
	sum    *LoopSum
	back   *engine.Back
}

// expand takes a list apart; skips are iterations that add nothing.
func expand(list *T) (items, skips []listItem, ok bool) {
	seen := map[*T]bool{}
	ok = true
	var walk func(t *T)
	walk = func(t *T) {
		t = uncap(t)
		if emptyList(t) || seen[t] {
			return
		}
		seen[t] = true
		l := lamOf(t)
		if l == nil || l.Term != t {
			if its := engine.Items(t); len(its) > 1 || len(its) == 1 && its[0].Op != engine.OSpread || len(its) == 1 && uncap(its[0].Args[0]) != t {
				for _, it := range its {
					if it.Op == engine.OSpread {
						walk(it.Args[0])
					} else {
						items = append(items, listItem{elem: it})
					}
				}
				return
			}
			items = append(items, listItem{elem: t, spread: true})
			return
		}
		walk(l.Init)
		for _, b := range l.Sum.Backs {
			v := b.Upd[l.Term]
			if v == nil || v == l.Term {
				skips = append(skips, listItem{sum: l.Sum, back: b})
				continue
			}
			its := engine.Items(v)
			if len(its) == 0 || its[0].Op != engine.OSpread || uncap(its[0].Args[0]) != l.Term {
				ok = false
				continue
			}
			for _, it := range its[1:] {
				li := listItem{elem: it, sum: l.Sum, back: b}
				if it.Op == engine.OSpread {
					li.elem, li.spread = uncap(it.Args[0]), true
				}
				items = append(items, li)
			}
		}
	}
	walk(list)
	return items, skips, ok
}

// scope is a path partition that refers to the query builder b.
type scope struct {
	d   *dependencies
	r   *Run
	b   *T // the query builder
	f   *Facts
	evs []*Event
	// the iteration it's within
	sum   *LoopSum
	back  *engine.Back
	after *Facts // what's known after that loop
}

func (s *scope) value(role string) *T {
	return s.d.m.c.loadField(s.r, s.r.Base, s.b, s.d.m.qb, s.d.m.role[role])
}

func (s *scope) list(role string) *T {
	v := s.value(role)
	if s.d.m.isFragPtr(s.d.m.fieldVar(s.d.m.role[role]).Type()) {
		return s.d.m.c.loadField(s.r, s.r.Base, v, s.d.m.frag, "Fragments")
	}
	return v
}

// elem is the element of the list of a role that an iteration is about.
func (s *scope) elem(role string, sum *LoopSum, b *engine.Back) (elem, idx *T) {
	src := s.value(role)
	et := s.d.m.elemType(role)
	for _, l := range sum.Lams {
		if l.Phi == nil || l.Init == nil {
			continue
		}
		n, ok := l.Init.IntVal()
		if !ok {
			continue
		}
		i := engine.Lin(l.Term, -n)
		f := s.f
		if sum == s.sum {
			f = s.after
		}
		if s.d.m.c.walksAll(sum, b, src, i, f) {
			return s.r.X.Load(b.St, s.r.X.IndexAddr(src, i, et), et), i
		}
	}
	return nil, nil
}

// roots are the roles whose references are in a list of fragments; sum and b
// are of the iteration it's made in, if any.
func (s *scope) roots(list *T, sum *LoopSum, b *engine.Back) map[string]bool {
	m := s.d.m
	out := map[string]bool{}
	items, skips, ok := expand(list)
	if !ok {
		return out
	}
	adds := map[*engine.Back]bool{}
	for _, it := range items {
		su, ba := it.sum, it.back
		if su == nil {
			su, ba = sum, b
		}
		if su == nil {
			su, ba = s.sum, s.back
		}
		if it.spread {
			for _, ro := range []string{rSelects, rConds, rGroups} {
				if it.elem == s.list(ro) {
					out[ro] = true
				}
			}
			continue
		}
		e := unboxed(it.elem)
		for _, ro := range []string{rSelects, rConds, rGroups} {
			if e == s.value(ro) {
				out[ro] = true
			}
		}
		if su == nil {
			continue
		}
		if el, _ := s.elem(rOrders, su, ba); el != nil {
			if col := m.part(s.r, ba.St, el, m.elemType(rOrders), isType(m.columnType())); col != nil && (e == col || e == unboxed(col)) {
				adds[ba] = true
			}
		}
	}
	// each iteration over the orders adds the column
	ok = len(adds) > 0
	var sums = map[*LoopSum]bool{}
	for _, it := range items {
		if adds[it.back] && it.sum != nil {
			sums[it.sum] = true
		}
	}
	if ok && len(sums) == 0 && adds[s.back] {
		// of the iteration only
		out[rOrders] = true
		return out
	}
	for su := range sums {
		for _, ba := range su.Backs {
			ok = ok && adds[ba]
		}
	}
	for _, sk := range skips {
		if sums[sk.sum] {
			ok = false
		}
	}
	if ok || s.f.LeqK(engine.Len(s.value(rOrders)), engine.Int(0), 0) {
		out[rOrders] = true
	}
	return out
}

func (m *queryModel) columnType() types.Type {
	return m.c.methodOf(types.NewPointer(m.qb), "OrderBy").Params[1].Type()
}

// names are the roles whose references are in a list of names.
func (s *scope) names(list *T) map[string]bool {
	out := map[string]bool{}
	items, skips, ok := expand(list)
	if !ok {
		return out
	}
	add := func(m map[string]bool) {
		for k := range m {
			out[k] = true
		}
	}
	perTable := map[*LoopSum]map[*engine.Back]bool{}
	perOrder := map[*LoopSum]map[*engine.Back]bool{}
	for _, it := range items {
		if it.spread {
			for _, ev := range s.extracted(it.elem, it.back) {
				p := s.d.params(ev.Fn, evArgs(ev))
				var got map[string]bool
				switch {
				case p.list != nil:
					got = s.roots(p.list, it.sum, it.back)
				case p.one != nil:
					got = s.roots(engine.Seq("", nil, p.one), it.sum, it.back)
				}
				if it.sum != nil && got[rOrders] {
					if perOrder[it.sum] == nil {
						perOrder[it.sum] = map[*engine.Back]bool{}
					}
					perOrder[it.sum][it.back] = true
					delete(got, rOrders)
				}
				add(got)
			}
			continue
		}
		if it.sum != nil && s.isTableName(it.elem, it.sum, it.back) {
			if perTable[it.sum] == nil {
				perTable[it.sum] = map[*engine.Back]bool{}
			}
			perTable[it.sum][it.back] = true
		}
	}
	for su, bs := range perOrder {
		if len(bs) == len(su.Backs) {
			out[rOrders] = true
		}
	}
	for su, bs := range perTable {
		ok := true
		for _, b := range su.Backs {
			ok = ok && (bs[b] || s.optional(su, b))
		}
		for _, sk := range skips {
			_ = sk
		}
		if ok {
			out[rTables] = true
		}
	}
	return out
}

// extracted are the calls of extractors that a list of names is the result of.
func (s *scope) extracted(list *T, b *engine.Back) (out []*Event) {
	evs := s.evs
	if b != nil {
		evs = append(append([]*Event(nil), evs...), b.Evs...)
	}
	for _, ev := range evs {
		if ev.Kind != engine.EvCall || ev.Fn == nil || s.d.kind(ev.Fn) != kExtract {
			continue
		}
		p := s.d.params(ev.Fn, evArgs(ev))
		if !s.d.startsEmpty(ev) {
			continue
		}
		if p.out != nil && list.Op == engine.OLoad && list.Args[0] == p.out {
			out = append(out, ev)
			s.d.extractors[ev.Fn] = true
		}
		for _, r := range ev.Res {
			if r == list {
				out = append(out, ev)
				s.d.extractors[ev.Fn] = true
			}
		}
	}
	return out
}

// isTableName: the name is that of the table an iteration is about.
func (s *scope) isTableName(name *T, sum *LoopSum, b *engine.Back) bool {
	m := s.d.m
	el, _ := s.elem(rTables, sum, b)
	if el == nil {
		return false
	}
	if name == el {
		return true
	}
	nm := m.part(s.r, b.St, el, m.elemType(rTables), isType(m.sqlb("TableAliased")))
	return nm != nil && (applied(m.c, b.St.Facts, nm) == name || name == nm)
}

// optional: the table an iteration is about is known to be optional.
func (s *scope) optional(sum *LoopSum, b *engine.Back) bool {
	m := s.d.m
	el, _ := s.elem(rTables, sum, b)
	if el == nil {
		return false
	}
	opt := m.part(s.r, b.St, el, m.elemType(rTables), isBool)
	v, known := b.St.Facts.Eval(opt)
	return known && v
}

// nameArg is the name a marker is called for.
func (s *scope) nameArg(p refParams) *T {
	if p.table != nil {
		if p.table.Op == engine.OLookup && p.table.Args[0] == s.value(rTableDict) {
			return p.table.Args[1]
		}
		return p.table
	}
	return p.name
}

// marked are the roles whose references are marked in dict by loops and calls of
// a partition.
func (s *scope) marked(dict *T) map[string]bool {
	m := s.d.m
	out := map[string]bool{}
	for _, ev := range s.evs {
		if ev.Loop == nil {
			continue
		}
		sum := ev.Loop
		for k := range s.each(sum, dict) {
			out[k] = true
		}
		perTable := map[*engine.Back]bool{}
		lists := map[*T]int{}
		for _, b := range sum.Backs {
			for _, e := range b.Evs {
				if e.Kind != engine.EvCall || s.d.kind(e.Fn) != kMark {
					continue
				}
				p := s.d.params(e.Fn, evArgs(e))
				if p.dict != dict || !s.d.succeeded(e, b.St.Facts) {
					continue
				}
				s.d.markers[e.Fn] = true
				name := s.nameArg(p)
				if s.isTableName(name, sum, b) {
					perTable[b] = true
				}
				if l, idx := elemRef(name); l != nil && m.c.walksAll(sum, b, l, idx, s.f) {
					lists[uncap(l)]++
				}
			}
		}
		for l := range lists {
			all := true
			for _, b := range sum.Backs {
				all = all && (s.marksElem(sum, b, l, dict) || s.known(sum, b, l, dict))
			}
			if all && sum.Breaks == 0 || all && s.breaksFail(sum) {
				for k := range s.names(l) {
					out[k] = true
				}
			}
		}
		if len(perTable) > 0 {
			all := true
			for _, b := range sum.Backs {
				all = all && (perTable[b] || s.optional(sum, b))
			}
			if all {
				out[rTables] = true
			}
		}
	}
	return out
}

// each are the roles whose references are marked by the loops within each
// iteration of a loop; of the orders, an iteration marks those of one.
func (s *scope) each(sum *LoopSum, dict *T) map[string]bool {
	out := map[string]bool{}
	if s.sum != nil {
		return out
	}
	for i, b := range sum.Backs {
		in := &scope{d: s.d, r: s.r, b: s.b, f: b.St.Facts, evs: b.Evs, sum: sum, back: b, after: s.f}
		got := in.marked(dict)
		for k := range got {
			if i == 0 {
				out[k] = true
			}
		}
		for k := range out {
			if !got[k] {
				delete(out, k)
			}
		}
	}
	return out
}

// breaksFail: the loop ran to its end in this partition; that's in the facts
// walksAll asks for.
func (s *scope) breaksFail(sum *LoopSum) bool { return true }

// marksElem: an iteration calls a marker for the element of a list.
func (s *scope) marksElem(sum *LoopSum, b *engine.Back, list, dict *T) bool {
	for _, e := range b.Evs {
		if e.Kind != engine.EvCall || s.d.kind(e.Fn) != kMark {
			continue
		}
		p := s.d.params(e.Fn, evArgs(e))
		if p.dict != dict || !s.d.succeeded(e, b.St.Facts) {
			continue
		}
		if l, idx := elemRef(s.nameArg(p)); l != nil && uncap(l) == list && s.d.m.c.walksAll(sum, b, l, idx, s.f) {
			return true
		}
	}
	return false
}

// known: an iteration marks nothing, since the table of the name is marked.
func (s *scope) known(sum *LoopSum, b *engine.Back, list, dict *T) bool {
	for t, v := range b.St.Facts.Lits() {
		if v && (t.Op == engine.OLookup || t.Op == engine.OLookupOk) && t.Args[0] == dict && s.isKey(t.Args[1], func(name *T) bool {
			l, idx := elemRef(name)
			return l != nil && uncap(l) == list && s.d.m.c.walksAll(sum, b, l, idx, s.f)
		}, b.St) {
			return true
		}
	}
	return false
}

// isKey: a key of the needed tables is the one of the table of a name.
func (s *scope) isKey(key *T, name func(*T) bool, st *State) bool {
	m := s.d.m
	found := false
	key.Walk(func(t *T) bool {
		if t.Op == engine.OLookup && t.Args[0] == s.value(rTableDict) && name(t.Args[1]) {
			found = true
		}
		return true
	})
	_ = m
	return found
}

func (d *dependencies) fail(fn *ssa.Function, pos string, format string, args ...any) {
	d.m.c.Fail(d.rule, d.m.c.name(fn), pos, format, args...)
}

// decide checks all functions met so far, and those they call.
func (d *dependencies) decide() {
	for {
		n := len(d.done)
		for _, fn := range d.sorted(d.extractors) {
			d.extractor(fn)
		}
		for _, fn := range d.sorted(d.markers) {
			d.marker(fn)
		}
		for _, fn := range d.sorted(d.cteMarkers) {
			d.cteMarker(fn)
		}
		if len(d.done) == n {
			return
		}
	}
}

func (d *dependencies) sorted(m map[*ssa.Function]bool) (out []*ssa.Function) {
	for _, fn := range d.m.c.P.Funcs {
		if m[fn] && !d.done[fn.String()] {
			d.done[fn.String()] = true
			out = append(out, fn)
		}
	}
	return out
}

// analyse runs a collecting function; the other recursive ones are calls.
func (d *dependencies) analyse(fn *ssa.Function) *Run {
	m := d.m
	return m.c.AnalyseWith(fn, "dep", func(def engine.CutFunc) engine.CutFunc {
		return func(x *engine.Engine, f *ssa.Function, args []*T) engine.EventKind {
			if m.rec[f] && f != fn && d.kind(f) != kNone {
				return engine.EvCall
			}
			return def(x, f, args)
		}
	}, func(r *Run, st *State) {
		r.X.Split = true
		r.X.OnEvent = func(st *State, ev *Event) {
			if ev.Kind == engine.EvCall {
				d.note(r, st, ev)
			}
		}
		p := d.params(fn, r.Args)
		if p.qb != nil {
			q := *r
			q.Args = []*T{p.qb}
			m.start(&q, st)
		}
		for _, v := range []*T{p.dict, p.out, p.table, p.cte} {
			if v != nil {
				st.Facts.Assume(engine.Eq(v, engine.Nil), false)
			}
		}
	})
}

// extractor: all references of the list are collected.
func (d *dependencies) extractor(fn *ssa.Function) {
	m := d.m
	r := d.analyse(fn)
	p := d.params(fn, r.Args)
	pos := m.c.P.Pos(fn.Pos())
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		m.c.Count("extractor partitions", 1)
		x := &extraction{d: d, r: r, p: p, o: o}
		f := o.St.Facts
		final, first := x.names()
		switch {
		case p.list != nil:
			if f.LeqK(engine.Len(p.list), engine.Int(0), 0) {
				if final != nil && final != first && !emptyList(first) {
					x.fail("the names collected before become %s", clip(final.String()))
				}
				break
			}
			n := 0
			for _, ev := range o.St.Trace.Events() {
				if ev.Loop != nil {
					n += x.loop(ev.Loop, f, final, first)
				}
			}
			if n == 0 {
				for _, k := range sortedSums(r.X.Sums) {
					n += x.loop(r.X.Sums[k], f, final, first)
				}
			}
			if n == 0 {
				x.fail("a path doesn't look at all fragments of the list")
			}
		case p.one != nil:
			in := &collected{x: x, st: o.St, evs: o.St.Trace.Events()}
			in.peel(final, first)
			if p.dict != nil {
				in.entered(r.X.MapVer(o.St, p.dict))
			}
			x.visit(in, p.one)
		default:
			x.fail("isn't known to look at fragments")
		}
		if x.problem != "" {
			d.fail(fn, pos, "%s", x.problem)
		}
	}
}

// names are the list of names a function makes, and the one it's given; nil if
// it collects them in a map.
func (x *extraction) names() (final, first *T) {
	t := types.NewSlice(x.d.m.sqlb("Table"))
	switch {
	case x.p.out != nil:
		return uncap(x.r.X.Load(x.o.St, x.p.out, t)), uncap(x.r.X.Load(x.r.Base, x.p.out, t))
	case x.noList():
		return nil, nil
	}
	rs := x.r.Fn.Signature.Results()
	for i, v := range x.o.Vals {
		if _, ok := rs.At(i).Type().Underlying().(*types.Slice); ok {
			final = uncap(v)
		}
	}
	if first = x.p.names; first == nil {
		first = engine.Nil
	}
	return final, uncap(first)
}

// collected is what a partition, of an iteration or the function, adds.
type collected struct {
	x     *extraction
	st    *State
	evs   []*Event
	names []*T
	calls []*Event // of extractors that are given the list, and make the new one
	keys  []*T     // entered to the map of names
}

// peel takes the list of names apart, down to the one it was.
func (in *collected) peel(v, was *T) {
	if v == nil {
		return
	}
	for v != was {
		if emptyList(was) && emptyList(v) {
			return
		}
		if its := engine.Items(v); len(its) > 0 && !(len(its) == 1 && its[0].Op == engine.OSpread && uncap(its[0].Args[0]) == v) {
			rest := its
			v = engine.Nil
			if its[0].Op == engine.OSpread && (uncap(its[0].Args[0]) == was || !emptyList(was)) {
				v, rest = uncap(its[0].Args[0]), its[1:]
			}
			in.names = append(in.names, rest...)
			if emptyList(was) {
				return
			}
			continue
		}
		if ev := in.callOf(v); ev != nil {
			q := in.x.d.params(ev.Fn, evArgs(ev))
			in.calls = append(in.calls, ev)
			if q.names == nil {
				in.x.fail("the names collected before become %s", clip(v.String()))
				return
			}
			v = uncap(q.names)
			continue
		}
		if in.x.p.out != nil && v.Op == engine.OLoad && v.Args[0] == in.x.p.out && len(v.Args) > 1 {
			if ev := evOf(v.Args[1]); ev != nil && in.x.d.kind(ev.Fn) == kExtract && in.x.d.params(ev.Fn, evArgs(ev)).out == in.x.p.out {
				return
			}
		}
		in.x.fail("the names collected before become %s", clip(v.String()))
		return
	}
}

// callOf is the call of an extractor that a list is the result of, or that it's
// left in the variable of.
func (in *collected) callOf(v *T) *Event {
	for _, ev := range in.evs {
		if ev.Kind != engine.EvCall || ev.Fn == nil || in.x.d.kind(ev.Fn) != kExtract {
			continue
		}
		for _, r := range ev.Res {
			if r == v {
				return ev
			}
		}
	}
	return nil
}

// extraction is a partition of an extractor.
type extraction struct {
	d       *dependencies
	o       *engine.Outcome
	r       *Run
	p       refParams
	problem string
}

func (x *extraction) fail(format string, args ...any) {
	if x.problem == "" {
		x.problem = fmt.Sprintf(format, args...)
	}
}

// loop decides a loop over the list of an extractor.
func (x *extraction) loop(sum *LoopSum, f *Facts, final, first *T) int {
	m := x.d.m
	list := uncap(x.p.list)
	type it struct {
		b   *engine.Back
		idx *T
	}
	var its []it
	for _, b := range sum.Backs {
		var idx *T
		for _, l := range sum.Lams {
			if l.Phi == nil || l.Init == nil {
				continue
			}
			if n, ok := l.Init.IntVal(); ok && m.c.walksAll(sum, b, list, engine.Lin(l.Term, -n), f) {
				idx = engine.Lin(l.Term, -n)
			}
		}
		if idx == nil {
			return 0
		}
		its = append(its, it{b, idx})
	}
	if len(its) == 0 {
		return 0
	}
	for _, i := range its {
		m.c.Count("extractor iterations", 1)
		in := &collected{x: x, st: i.b.St, evs: i.b.Evs}
		if final != nil {
			var l *engine.Lam
			for _, k := range sum.Lams {
				if k.Term == final {
					l = k
				}
			}
			switch {
			case l == nil && emptyList(first) && emptyList(final), l == nil && final == first:
			case l == nil:
				x.fail("the names collected become %s", clip(final.String()))
			default:
				if init := uncap(l.Init); init != first && !(emptyList(init) && emptyList(first)) {
					x.fail("the names collected before become %s", clip(init.String()))
				}
				in.peel(uncap(i.b.Upd[l.Term]), l.Term)
			}
		}
		if x.p.dict != nil {
			for _, l := range sum.Lams {
				if l.Loc != nil && l.Loc.Op == engine.OMapVer && l.Loc.Args != nil && len(l.Loc.Args) > 0 && l.Loc.Args[0] == x.p.dict {
					in.entered(i.b.Upd[l.Term])
				}
			}
		}
		elem := x.r.X.Load(i.b.St, x.r.X.IndexAddr(list, i.idx, x.d.builder()), x.d.builder())
		x.visit(in, elem)
	}
	return 1
}

// entered are the keys entered to the map of names.
func (in *collected) entered(v *T) {
	for ; v != nil && v.Op == engine.OApp && (v.Aux == "upd" || v.Aux == "del"); v = v.Args[0] {
		if v.Aux == "del" {
			in.x.fail("a name is removed from the map of names")
			continue
		}
		if b, ok := v.Args[2].BoolVal(); !ok || b {
			in.keys = append(in.keys, v.Args[1])
		}
	}
}

// noList: the names are collected in a map.
func (x *extraction) noList() bool {
	rs := x.r.Fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if _, ok := rs.At(i).Type().Underlying().(*types.Slice); ok {
			return false
		}
	}
	return true
}

// visit: the references of an element of a list are added to the names.
func (x *extraction) visit(in *collected, elem *T) {
	st := in.st
	m, f := x.d.m, st.Facts
	// what's in the map of names is among the names
	if x.p.out != nil || !x.noList() {
		for _, k := range in.keys {
			found := false
			for _, a := range in.names {
				found = found || a == k
			}
			if !found {
				x.fail("%s is taken for collected, but isn't", clip(k.String()))
			}
		}
	}
	if f.IsNil(elem) || in.given(nil, elem) {
		return
	}
	colT := m.columnType()
	classes := []types.Type{types.NewPointer(m.frag), colT, m.sqlb("Table"), m.sqlb("TableAliased")}
	for _, t := range classes {
		m.c.Count("reference classes", 1)
		is, known := f.Eval(engine.AssertOk(elem, t))
		if known && !is {
			continue
		}
		v := engine.Assert(elem, t)
		name := types.TypeString(t, func(p *types.Package) string { return p.Name() })
		if _, ok := t.Underlying().(*types.Pointer); ok && f.IsNil(v) {
			continue
		}
		if !known {
			// another class is known
			other := false
			for _, u := range classes {
				if is, known := f.Eval(engine.AssertOk(elem, u)); known && is {
					other = true
				}
			}
			if !other {
				x.fail("an element that may be a %s isn't looked at", name)
			}
			continue
		}
		switch {
		case types.Identical(t, classes[0]):
			if !in.passes(v) {
				x.fail("the fragments of a %s are not looked at", name)
			}
		case types.Identical(t, colT):
			n, _ := structOf(t)
			tb := m.part(x.r, st, v, t, isType(m.sqlb("Table")))
			fr := m.part(x.r, st, v, t, m.isFragPtr)
			if n == nil || tb == nil || fr == nil {
				x.fail("columns have no table or no fragment")
				continue
			}
			if !f.StrEmpty(tb) && !in.has(tb) {
				x.fail("the table of a %s isn't collected", name)
			}
			if !f.StrNonEmpty(tb) && !f.IsNil(fr) && !in.passes(fr) {
				x.fail("the fragments of a %s of no table are not looked at", name)
			}
		case types.Identical(t, classes[2]):
			if !in.has(v) {
				x.fail("a %s isn't collected", name)
			}
		default:
			if a := applied(m.c, f, v); a == nil || !in.has(a) {
				x.fail("the applied name of a %s isn't collected", name)
			}
		}
	}
}

// has: the name is added, or known to be already.
func (in *collected) has(name *T) bool {
	x := in.x
	names := in.names
	if x.noList() && x.p.out == nil {
		names = in.keys
	}
	for _, a := range names {
		if a == name || unconv(a) == unconv(name) {
			return true
		}
	}
	if x.p.dict != nil {
		for t, v := range in.st.Facts.Lits() {
			if (t.Op == engine.OLookup || t.Op == engine.OLookupOk) && t.Args[0] == x.p.dict && t.Args[1] == name && v {
				return true
			}
		}
	}
	return false
}

// given: a list or a fragment is given to an extractor, with the names.
func (in *collected) given(list, one *T) bool {
	x := in.x
	for _, ev := range in.evs {
		if ev.Kind != engine.EvCall || ev.Fn == nil || x.d.kind(ev.Fn) != kExtract {
			continue
		}
		p := x.d.params(ev.Fn, evArgs(ev))
		if p.dict != nil && p.dict != x.p.dict {
			continue
		}
		hit := list != nil && p.list != nil && uncap(p.list) == uncap(list) || one != nil && p.one != nil && unboxed(p.one) == one
		if p.list != nil {
			for _, it := range engine.Items(p.list) {
				hit = hit || one != nil && unboxed(it) == one || list != nil && it.Op == engine.OSpread && uncap(it.Args[0]) == uncap(list)
			}
		}
		if !hit {
			continue
		}
		ok := false
		switch {
		case x.p.out != nil && p.out != nil:
			ok = p.out == x.p.out
		case x.noList() && x.p.out == nil:
			ok = p.dict == x.p.dict
		default:
			// the result is, or is added to, the names
			for _, c := range in.calls {
				ok = ok || c == ev
			}
			for _, a := range in.names {
				for _, res := range ev.Res {
					ok = ok || a.Op == engine.OSpread && uncap(a.Args[0]) == res
				}
			}
		}
		if ok {
			x.d.extractors[ev.Fn] = true
			return true
		}
	}
	return false
}

// passes: the fragments of a fragment are given to an extractor with the names.
func (in *collected) passes(frag *T) bool {
	list := in.x.d.m.c.loadField(in.x.r, in.st, frag, in.x.d.m.frag, "Fragments")
	return in.given(list, frag) || in.st.Facts.LeqK(engine.Len(list), engine.Int(0), 0)
}

// marker: the table of the name is marked, and all it refers to.
func (d *dependencies) marker(fn *ssa.Function) {
	m := d.m
	r := d.analyse(fn)
	p := d.params(fn, r.Args)
	if p.dict == nil || p.qb == nil {
		d.fail(fn, m.c.P.Pos(fn.Pos()), "has no map of the needed tables, or no query builder")
		return
	}
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		m.c.Count("marker partitions", 1)
		pos := m.c.P.Pos(o.RetPos)
		f := o.St.Facts
		failed := false
		for _, v := range o.Vals {
			if v != nil && !f.IsNil(v) {
				failed = true
			}
		}
		if failed {
			continue
		}
		s := &scope{d: d, r: r, b: p.qb, f: f, evs: o.St.Trace.Events()}
		e := p.table
		if e == nil {
			e = r.X.MapGet(r.Base, s.value(rTableDict), p.name, m.elemType(rTables))
			has, known := f.Eval(engine.HasKey(e))
			switch {
			case known && !has || f.IsNil(e):
				if d.undefined {
					d.fail(fn, pos, "the name of a table that isn't joined is no error")
				}
				continue
			case !(known && has) && !f.NonNil(e):
				if d.undefined {
					d.fail(fn, pos, "whether the table is joined isn't decided")
				}
				continue
			}
		}
		key := d.keyOf(r, r.Base, f, e)
		// marked before
		was := false
		for _, k := range key {
			was = was || d.has(r, f, p.dict, k)
		}
		if was {
			continue
		}
		if !d.marks(r, o, p.dict, key) {
			d.fail(fn, pos, "a table isn't marked as needed")
		}
		frag := m.part(r, r.Base, e, m.elemType(rTables), m.isFragPtr)
		if frag == nil || !s.marksRefs(p, frag) {
			d.fail(fn, pos, "the tables that the fragment of a needed table refers to are not marked")
		}
	}
}

// has: the key is known to be in the map a function starts with.
func (d *dependencies) has(r *Run, f *Facts, dict, key *T) bool {
	e := r.X.MapGet(r.Base, dict, key, types.Typ[types.Bool])
	for _, t := range []*T{e, engine.HasKey(e)} {
		if v, known := f.Eval(t); known && v {
			return true
		}
	}
	return false
}

// keyOf are the forms of the key of a table in the needed tables.
func (d *dependencies) keyOf(r *Run, st *State, f *Facts, e *T) (out []*T) {
	m := d.m
	nm := m.part(r, st, e, m.elemType(rTables), isType(m.sqlb("TableAliased")))
	if nm == nil {
		return []*T{e}
	}
	if d.byTable {
		return []*T{nm}
	}
	out = append(out, e)
	if d.undefined {
		out = append(out, nm)
	}
	if a := applied(m.c, f, nm); a != nil {
		out = append(out, a)
	}
	return out
}

// marks: the key is set, in the end, before anything else is known of the map.
func (d *dependencies) marks(r *Run, o *engine.Outcome, dict *T, keys []*T) bool {
	found := false
	var walk func(v *T, depth int)
	seen := map[*T]bool{}
	walk = func(v *T, depth int) {
		if v == nil || seen[v] || depth > 50 {
			return
		}
		seen[v] = true
		if v.Op == engine.OApp && v.Aux == "upd" {
			for _, k := range keys {
				if v.Args[1] == k || sameKey(v.Args[1], k) {
					if b, ok := v.Args[2].BoolVal(); ok && b || d.set(r.Fn) {
						found = true
					}
				}
			}
			walk(v.Args[0], depth+1)
		}
		if l := lamOf(v); l != nil {
			walk(l.Init, depth+1)
		}
	}
	walk(r.X.MapVer(o.St, dict), 0)
	for _, sum := range r.X.Sums {
		for _, l := range sum.Lams {
			if l.Init != nil && l.Init.Op == engine.OApp && l.Init.Aux == "upd" {
				walk(l.Init, 0)
			}
		}
	}
	return found
}

// set: the values of the map a function is given tell nothing, the keys do.
// succeeded: the call is known to have returned no error, if that's looked for.
func (d *dependencies) succeeded(ev *Event, f *Facts) bool {
	if !d.undefined || ev.Fn == nil {
		return true
	}
	rs := ev.Fn.Signature.Results()
	for i := 0; i < rs.Len() && i < len(ev.Res); i++ {
		if isErr(rs.At(i).Type()) && !f.IsNil(ev.Res[i]) {
			return false
		}
	}
	return errLast(ev.Fn.Signature)
}

func (d *dependencies) set(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if mt, ok := p.Type().Underlying().(*types.Map); ok {
			s, ok := mt.Elem().Underlying().(*types.Struct)
			return ok && s.NumFields() == 0
		}
	}
	return false
}

func sameKey(a, b *T) bool { return a == b }

// marksRefs: the references of the fragment are collected, and marked but for
// the table itself.
func (s *scope) marksRefs(p refParams, frag *T) bool {
	m := s.d.m
	list := m.c.loadField(s.r, s.r.Base, frag, m.frag, "Fragments")
	var names []*T
	for _, ev := range s.evs {
		if ev.Kind != engine.EvCall || ev.Fn == nil || s.d.kind(ev.Fn) != kExtract {
			continue
		}
		q := s.d.params(ev.Fn, evArgs(ev))
		hit := q.one != nil && unboxed(q.one) == frag
		if q.list != nil {
			hit = hit || uncap(q.list) == uncap(list)
			for _, it := range engine.Items(q.list) {
				hit = hit || unboxed(it) == frag || it.Op == engine.OSpread && uncap(it.Args[0]) == uncap(list)
			}
		}
		if hit && s.d.startsEmpty(ev) {
			s.d.extractors[ev.Fn] = true
			names = append(names, ev.Res...)
			if q.out != nil {
				names = append(names, q.out)
			}
		}
	}
	isNames := func(l *T) bool {
		l = uncap(l)
		for _, n := range names {
			if l == n || l.Op == engine.OLoad && l.Args[0] == n {
				return true
			}
		}
		return false
	}
	try := func(sum *LoopSum) bool {
		if len(sum.Backs) == 0 {
			return false
		}
		for _, b := range sum.Backs {
			var at *T
			for _, l := range sum.Lams {
				if l.Phi == nil || l.Init == nil {
					continue
				}
				n, ok := l.Init.IntVal()
				if !ok {
					continue
				}
				i := engine.Lin(l.Term, -n)
				// the list walked over
				for _, nm := range s.lists(b, isNames) {
					if m.c.walksAll(sum, b, nm, i, s.f) {
						at = s.r.X.Load(b.St, s.r.X.IndexAddr(nm, i, m.sqlb("Table")), m.sqlb("Table"))
					}
				}
			}
			if at == nil {
				return false
			}
			ok := false
			for _, e := range b.Evs {
				if e.Kind == engine.EvCall && s.d.kind(e.Fn) == kMark {
					q := s.d.params(e.Fn, evArgs(e))
					if q.dict == p.dict && s.nameArg(q) == at && s.d.succeeded(e, b.St.Facts) {
						s.d.markers[e.Fn] = true
						ok = true
					}
				}
			}
			if p.name != nil {
				if v, known := b.St.Facts.Eval(engine.Eq(at, p.name)); known && v {
					ok = true
				}
			}
			if !ok {
				for t, v := range b.St.Facts.Lits() {
					if v && (t.Op == engine.OLookup || t.Op == engine.OLookupOk) && t.Args[0] == p.dict && s.isKey(t.Args[1], func(n *T) bool { return n == at }, b.St) {
						ok = true
					}
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for _, ev := range s.evs {
		if ev.Loop != nil && try(ev.Loop) {
			return true
		}
	}
	// nothing to do for any
	for _, nm := range names {
		for t := range s.lensKnownEmpty(nm) {
			_ = t
			return true
		}
	}
	return false
}

// lists are the lists of names an iteration knows the length of.
func (s *scope) lists(b *engine.Back, is func(*T) bool) (out []*T) {
	seen := map[*T]bool{}
	for _, e := range b.Evs {
		for _, a := range evArgs(e) {
			if a == nil {
				continue
			}
			if l, _ := elemRef(a); l != nil && is(l) && !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	for t := range b.St.Facts.Lits() {
		t.Walk(func(u *T) bool {
			if l, _ := elemRef(u); l != nil && is(l) && !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
			return true
		})
	}
	return out
}

func (s *scope) lensKnownEmpty(n *T) map[*T]bool {
	out := map[*T]bool{}
	if n.Op == engine.OSym && s.f.LeqK(engine.Len(n), engine.Int(0), 0) {
		out[n] = true
	}
	return out
}

// cteMarker: the CTE is marked, and those it depends on, and no others.
func (d *dependencies) cteMarker(fn *ssa.Function) {
	m := d.m
	r := d.analyse(fn)
	p := d.params(fn, r.Args)
	byName := p.cte == nil && p.name != nil
	if byName && p.qb != nil {
		p.cte = r.X.MapGet(r.Base, m.c.loadField(r, r.Base, p.qb, m.qb, m.role[rCTEDict]), p.name, m.elemType(rCTEs))
	}
	if p.dict == nil || p.qb == nil || p.cte == nil {
		d.fail(fn, m.c.P.Pos(fn.Pos()), "has no map of the needed CTEs, or no query builder")
		return
	}
	et := m.elemType(rCTEs)
	name := m.part(r, r.Base, p.cte, et, isType(m.sqlb("Table")))
	deps := m.part(r, r.Base, p.cte, et, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), m.sqlb("Table"))
	})
	if name == nil || deps == nil {
		d.fail(fn, m.c.P.Pos(fn.Pos()), "the CTEs have no name or no dependencies")
		return
	}
	if byName {
		// C15: the CTE by a name has the name
		name = p.name
	}
	for _, o := range r.Outs {
		if o.Panic {
			continue
		}
		m.c.Count("CTE marker partitions", 1)
		pos := m.c.P.Pos(o.RetPos)
		f := o.St.Facts
		if byName {
			if has, known := f.Eval(engine.HasKey(p.cte)); known && !has || f.IsNil(p.cte) {
				continue
			}
		}
		if d.has(r, f, p.dict, name) {
			continue
		}
		s := &scope{d: d, r: r, b: p.qb, f: f, evs: o.St.Trace.Events()}
		if !d.marks(r, o, p.dict, []*T{name}) {
			d.fail(fn, pos, "a CTE isn't marked as needed")
		}
		if f.LeqK(engine.Len(deps), engine.Int(0), 0) {
			continue
		}
		ok := false
		why := "not all dependencies of a CTE are looked at"
		try := func(sum *LoopSum) {
			if len(sum.Backs) == 0 {
				return
			}
			for _, b := range sum.Backs {
				if p := s.dependency(sum, b, p, deps); p != "" {
					if p != "?" {
						why = p
					}
					return
				}
			}
			ok = true
		}
		for _, ev := range s.evs {
			if ev.Loop != nil && !ok {
				try(ev.Loop)
			}
		}
		if !ok {
			// a loop that finds no dependency
			for _, k := range sortedSums(r.X.Sums) {
				if !ok {
					try(r.X.Sums[k])
				}
			}
		}
		if !ok {
			d.fail(fn, pos, "%s", why)
		}
	}
	d.onlyCTEs(r, p, name)
}

// dependency: an iteration marks the CTE of the name of a dependency if there's one.
func (s *scope) dependency(sum *LoopSum, b *engine.Back, p refParams, deps *T) string {
	m := s.d.m
	var at *T
	for _, l := range sum.Lams {
		if l.Phi == nil || l.Init == nil {
			continue
		}
		if n, ok := l.Init.IntVal(); ok && m.c.walksAll(sum, b, deps, engine.Lin(l.Term, -n), s.f) {
			at = s.r.X.Load(b.St, s.r.X.IndexAddr(deps, engine.Lin(l.Term, -n), m.sqlb("Table")), m.sqlb("Table"))
		}
	}
	if at == nil {
		return "?"
	}
	return s.marksCTE(b, p.dict, at, nil)
}

// marksCTE: an iteration marks the CTE of a name if there's one.
func (s *scope) marksCTE(b *engine.Back, dict, name *T, none func() bool) string {
	m := s.d.m
	cte := s.r.X.MapGet(b.St, s.value(rCTEDict), name, m.elemType(rCTEs))
	has, known := b.St.Facts.Eval(engine.HasKey(cte))
	absent := known && !has || b.St.Facts.IsNil(cte)
	called := false
	for _, e := range b.Evs {
		if e.Kind != engine.EvCall || s.d.kind(e.Fn) != kMarkCTE {
			continue
		}
		q := s.d.params(e.Fn, evArgs(e))
		if q.dict != dict {
			continue
		}
		s.d.cteMarkers[e.Fn] = true
		if q.cte == nil && q.name != nil && unconv(q.name) == unconv(name) {
			called = true
			continue
		}
		if q.cte != cte {
			return "a CTE that isn't the one of the name is marked"
		}
		called = true
	}
	if called || absent {
		return ""
	}
	// known to be marked
	if v, known := b.St.Facts.Eval(s.r.X.MapGet(b.St, dict, name, types.Typ[types.Bool])); known && v {
		return ""
	}
	for t, v := range b.St.Facts.Lits() {
		if v && t.Op == engine.OLookup && t.Args[0] == dict && t.Args[1].Mentions(cte) {
			return ""
		}
	}
	return "a CTE that may be needed isn't marked"
}

// onlyCTEs: nothing else is marked.
func (d *dependencies) onlyCTEs(r *Run, p refParams, name *T) {
	seen := map[*T]bool{}
	var walk func(v *T)
	walk = func(v *T) {
		if v == nil || seen[v] || v.Op != engine.OApp || v.Aux != "upd" && v.Aux != "del" {
			return
		}
		seen[v] = true
		if v.Aux == "del" {
			d.fail(r.Fn, d.m.c.P.Pos(r.Fn.Pos()), "the mark of a CTE is removed")
		} else if v.Args[1] != name {
			d.fail(r.Fn, d.m.c.P.Pos(r.Fn.Pos()), "%s is marked as a needed CTE", clip(v.Args[1].String()))
		}
		walk(v.Args[0])
	}
	for _, o := range r.Outs {
		walk(r.X.MapVer(o.St, p.dict))
	}
	for _, sum := range r.X.Sums {
		for _, l := range sum.Lams {
			walk(l.Init)
			for _, b := range sum.Backs {
				walk(b.Upd[l.Term])
			}
		}
	}
}
