package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

type (
	T       = engine.Term
	Facts   = engine.Facts
	State   = engine.State
	Event   = engine.Event
	LoopSum = engine.LoopSum
)

// evOf returns the event a symbol is a result of.
func evOf(t *T) *Event {
	if t != nil && t.Op == engine.OSym {
		if e, ok := t.Ref.(*Event); ok {
			return e
		}
	}
	return nil
}

func lamOf(t *T) *engine.Lam {
	if t != nil && t.Op == engine.OLam {
		if l, ok := t.Ref.(*engine.Lam); ok {
			return l
		}
	}
	return nil
}

// ctxField is the field of the context that refers to the parent context.
func (c *C) ctxType() *types.Named {
	tn, _ := c.P.Root.Pkg.Scope().Lookup("Context").(*types.TypeName)
	if tn == nil {
		return nil
	}
	n, _ := tn.Type().(*types.Named)
	return n
}

// lineage of a context.
type lineage int

const (
	unknownCtx lineage = iota
	ownCtx             // the context of the entry, or derived from it
	foreignCtx         // another root context
)

// lineageOf classifies a context by its chain of parents.
func (c *C) lineageOf(r *Run, st *State, ctx *T) lineage {
	n := c.ctxType()
	if n == nil || ctx == nil {
		return unknownCtx
	}
	s := n.Underlying().(*types.Struct)
	for d := 0; d < 20; d++ {
		if ctx.Op == engine.OSym && evOf(ctx) == nil {
			// a parameter or a captured variable of the entry
			return ownCtx
		}
		if e := evOf(ctx); e != nil {
			if e.Kind == engine.EvNewCtx {
				return foreignCtx
			}
			return unknownCtx
		}
		if ctx.Op == engine.ONil {
			return foreignCtx
		}
		if ctx.Op == engine.OLoad && ctx.Args[0].Op == engine.OSym {
			return ownCtx // captured by reference
		}
		if ctx.Op != engine.OObj {
			return unknownCtx
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if engine.IsContextPtr(s.Field(i).Type()) {
				ctx, found = r.X.Load(st, r.X.FieldAddr(ctx, n, i), s.Field(i).Type()), true
				break
			}
		}
		if !found {
			return unknownCtx
		}
	}
	return unknownCtx
}

// item is something in the history that may commit args.
type item struct {
	ev  *Event
	sum *LoopSum
}

func (it item) String() string {
	if it.sum != nil {
		return "loop in " + it.sum.Fn.Name()
	}
	return string(it.ev.Kind) + " " + engine.Short(it.ev.Name)
}

// textMatcher relates texts to the history of events.
type textMatcher struct {
	c     *C
	r     *Run
	own   lineage // which events count
	memo  map[*engine.Lam]string
	busy  map[*T]bool
	scope []map[*T]*engine.Lam // the loop variables of the history at hand
	stats struct{ items, tokens int }
}

// relevant reports whether the event may commit args to the context of the entry.
func (m *textMatcher) relevant(st *State, ev *Event) (bool, string) {
	switch ev.Kind {
	case engine.EvBuild, engine.EvCustom, engine.EvCommit:
	case engine.EvValue:
		if len(ev.Res) != 2 && ev.Ctx == nil {
			return false, ""
		}
		if len(ev.Res) == 2 {
			// a function value that may build with a context it captured
			return true, ""
		}
		for _, a := range ev.Args {
			if a.Typ != nil && engine.IsContextPtr(a.Typ) {
				return false, fmt.Sprintf("passes a context to an unknown function (%s)", ev.Name)
			}
		}
		return false, ""
	case engine.EvInvoke, engine.EvCall:
		for _, a := range append([]*T{ev.Recv}, ev.Args...) {
			if a != nil && a.Typ != nil && engine.IsContextPtr(a.Typ) && m.c.lineageOf(m.r, st, a) != foreignCtx {
				return false, fmt.Sprintf("passes its context to %s", engine.Short(ev.Name))
			}
		}
		return false, ""
	default:
		return false, ""
	}
	switch m.c.lineageOf(m.r, st, ev.Ctx) {
	case m.own:
		return true, ""
	case ownCtx, foreignCtx:
		return false, ""
	}
	if ev.Kind == engine.EvCustom && ev.Ctx == nil {
		return true, "" // called without context in sight, by a helper
	}
	return false, fmt.Sprintf("%s builds with a context that is neither its own nor a new one", engine.Short(ev.Name))
}

// push makes the loops of a history known, pop forgets them.
func (m *textMatcher) push(evs []*Event) {
	sc := map[*T]*engine.Lam{}
	for _, ev := range evs {
		if ev.Loop != nil {
			for _, l := range ev.Loop.Lams {
				sc[l.Term] = l
			}
		}
	}
	m.scope = append(m.scope, sc)
}

func (m *textMatcher) pop() { m.scope = m.scope[:len(m.scope)-1] }

// lam is the loop variable of a term.
func (m *textMatcher) lam(t *T) *engine.Lam {
	if t == nil || t.Op != engine.OLam {
		return nil
	}
	for i := len(m.scope) - 1; i >= 0; i-- {
		if l := m.scope[i][t]; l != nil {
			return l
		}
	}
	return lamOf(t)
}

// itemsOf lists the items of a history, without what has been erased again.
func (m *textMatcher) itemsOf(st *State, evs []*Event) (its []item, problem string) {
	mark := map[*T]int{} // length of the args -> items by then
	for _, ev := range evs {
		switch ev.Kind {
		case engine.EvArgs:
			if len(ev.Res) == 1 {
				mark[engine.Len(ev.Res[0])] = len(its)
			}
			continue
		case engine.EvTrunc:
			n, ok := -1, false
			if len(ev.Args) == 1 {
				n, ok = mark[ev.Args[0]], false
				_, ok = mark[ev.Args[0]]
			}
			if !ok {
				return nil, "drops args to a length that isn't the one at an earlier point of the same build"
			}
			its = its[:n:n]
			continue
		case engine.EvLoop:
			rel := false
			for _, b := range ev.Loop.Backs {
				bi, p := m.itemsOf(b.St, b.Evs)
				if p != "" {
					return nil, p
				}
				if len(bi) > 0 {
					rel = true
				}
			}
			if rel {
				its = append(its, item{sum: ev.Loop})
			}
			continue
		}
		rel, p := m.relevant(st, ev)
		if p != "" {
			return nil, p
		}
		if rel {
			its = append(its, item{ev: ev})
		}
	}
	return its, ""
}

// textOf is the text an event results in, peeled returns the event behind a text.
func peel(t *T) *Event {
	for i := 0; i < 12 && t != nil; i++ {
		if e := evOf(t); e != nil {
			if e.Kind == engine.EvCustom || len(e.Res) > 0 && e.Res[0] == t {
				return e
			}
			return nil
		}
		switch t.Op {
		case engine.OAssert, engine.OConv, engine.OField, engine.OLoad, engine.OIndexAddr, engine.OFieldAddr, engine.OIface:
			t = t.Args[0]
		case engine.OApp:
			if strings.HasPrefix(t.Aux, "reflect.") && len(t.Args) > 0 {
				t = t.Args[0]
				continue
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// tok is a part of a text that stands for an item.
type tok struct {
	item
	term *T
}

// mentionsText reports whether the term contains text of an item.
func (m *textMatcher) mentionsText(t *T) bool {
	found := false
	t.Walk(func(u *T) bool {
		if found {
			return false
		}
		if e := evOf(u); e != nil {
			switch e.Kind {
			case engine.EvBuild, engine.EvCustom, engine.EvCommit, engine.EvValue:
				if len(e.Res) > 0 && (e.Res[0] == u) {
					found = true
				}
			}
		}
		if l := m.lam(u); l != nil && l.Sum != nil {
			if m.lamHasText(l) {
				found = true
			}
		}
		if u.Op == engine.OLen || u.Op == engine.OEq || u.Op == engine.OLt {
			return false // numbers about a text
		}
		return true
	})
	return found
}

func (m *textMatcher) lamHasText(l *engine.Lam) bool {
	if m.busy[l.Term] {
		return false
	}
	m.busy[l.Term] = true
	defer delete(m.busy, l.Term)
	if l.Init != nil && m.mentionsText(l.Init) {
		return true
	}
	for _, b := range l.Sum.Backs {
		m.push(b.Evs)
		v := b.Upd[l.Term]
		has := v != nil && v != l.Term && m.mentionsText(v)
		m.pop()
		if has {
			return true
		}
	}
	return false
}

// tokens flattens a text (or a sequence of texts).
func (m *textMatcher) tokens(t *T, facts *Facts) (ts []tok, problem string) {
	if t == nil {
		return nil, ""
	}
	switch t.Op {
	case engine.OConst:
		if s, ok := t.StrVal(); ok && strings.ContainsAny(s, "?$") {
			return nil, fmt.Sprintf("the constant text %q contains what may be a placeholder without arg", s)
		}
		return nil, ""
	case engine.ONil, engine.OZero:
		return nil, ""
	case engine.OConcat, engine.OSeq:
		for _, a := range t.Args {
			x, p := m.tokens(a, facts)
			if p != "" {
				return nil, p
			}
			ts = append(ts, x...)
		}
		return ts, ""
	case engine.OSpread, engine.OCapped, engine.OConv:
		return m.tokens(t.Args[0], facts)
	case engine.OMake:
		return nil, ""
	case engine.OLam:
		l := m.lam(t)
		if l == nil || l.Sum == nil {
			return nil, "unknown loop variable " + t.String()
		}
		return m.lamTokens(l, facts)
	case engine.OApp:
		switch t.Aux {
		case "strings.TrimSpace":
			return m.tokens(t.Args[0], facts)
		case "strings.Join":
			if m.mentionsText(t.Args[1]) {
				return nil, "uses a built text as separator"
			}
			if _, p := m.tokens(t.Args[1], facts); p != "" {
				return nil, p
			}
			return m.tokens(t.Args[0], facts)
		}
	}
	if e := peel(t); e != nil {
		switch e.Kind {
		case engine.EvBuild, engine.EvCustom, engine.EvCommit, engine.EvValue:
			return []tok{{item{ev: e}, t}}, ""
		}
	}
	if m.mentionsText(t) {
		return nil, "the text " + clip(t.String()) + " alters, cuts or copies a built text, its placeholders may not be those of the args"
	}
	return nil, ""
}

func clip(s string) string {
	if len(s) > 160 {
		return strings.ToValidUTF8(s[:160], "") + "…"
	}
	return s
}

// lamTokens are the tokens of an accumulator of a loop.
func (m *textMatcher) lamTokens(l *engine.Lam, facts *Facts) ([]tok, string) {
	if m.busy[l.Term] {
		return nil, "recursive loop variable"
	}
	init, p := m.tokens(l.Init, facts)
	if p != "" {
		return nil, p
	}
	if !m.lamHasText(l) {
		// still check the constants
		for _, b := range l.Sum.Backs {
			if v := b.Upd[l.Term]; v != nil && v != l.Term {
				if _, p := m.afterLam(l, v, b); p != "" {
					// a text without any items may be replaced by another
					if ts, p2 := m.tokens(v, b.St.Facts); p2 == "" && len(ts) == 0 && len(init) == 0 {
						continue
					}
					return nil, p
				}
			}
		}
		return init, ""
	}
	if seq := m.fold(l, facts); seq != nil {
		ts, p := m.tokens(seq, facts)
		return append(init, ts...), p
	}
	msg, done := m.memo[l]
	if !done {
		m.busy[l.Term] = true
		for _, b := range l.Sum.Backs {
			if p := m.matchBack(l, b); p != "" {
				msg = p
				break
			}
		}
		delete(m.busy, l.Term)
		m.memo[l] = msg
	}
	if msg != "" {
		return nil, msg
	}
	return append(init, tok{item{sum: l.Sum}, l.Term}), ""
}

// afterLam are the tokens an iteration adds to an accumulator.
func (m *textMatcher) afterLam(l *engine.Lam, v *T, b *engine.Back) ([]tok, string) {
	var parts []*T
	switch {
	case v == l.Term:
		return nil, ""
	case v.Op == engine.OConcat:
		parts = v.Args
	case v.Op == engine.OSeq:
		parts = v.Args
	default:
		return nil, "an iteration replaces the text built by the iterations before"
	}
	first := parts[0]
	if first.Op == engine.OSpread {
		first = first.Args[0]
	}
	if first != l.Term {
		return nil, "an iteration does not append to the text built by the iterations before: " + clip(v.String())
	}
	var ts []tok
	for _, a := range parts[1:] {
		x, p := m.tokens(a, b.St.Facts)
		if p != "" {
			return nil, p
		}
		for _, t := range x {
			if t.term == l.Term {
				return nil, "an iteration repeats the text built by the iterations before"
			}
		}
		ts = append(ts, x...)
	}
	return ts, ""
}

// matchBack checks that an iteration adds the text of its own items to the accumulator.
func (m *textMatcher) matchBack(l *engine.Lam, b *engine.Back) string {
	m.push(b.Evs)
	defer m.pop()
	v := b.Upd[l.Term]
	if v == nil {
		v = l.Term
	}
	ts, p := m.afterLam(l, v, b)
	if p != "" {
		return p
	}
	its, p := m.itemsOf(b.St, b.Evs)
	if p != "" {
		return p
	}
	return m.match(its, ts, b.St.Facts)
}

// fold recognises a loop that appends every element of a sequence, in order.
func (m *textMatcher) fold(l *engine.Lam, facts *Facts) *T {
	its, _ := m.itemsOf(l.Sum.Start, loopEvents(l.Sum))
	if len(its) > 0 {
		return nil
	}
	var seq *T
	for _, b := range l.Sum.Backs {
		v := b.Upd[l.Term]
		if v == nil || v == l.Term {
			return nil
		}
		var parts []*T
		switch v.Op {
		case engine.OConcat, engine.OSeq:
			parts = v.Args
		default:
			return nil
		}
		first := parts[0]
		if first.Op == engine.OSpread {
			first = first.Args[0]
		}
		if first != l.Term {
			return nil
		}
		n := 0
		for _, a := range parts[1:] {
			if !m.mentionsText(a) {
				continue
			}
			if a.Op != engine.OLoad || a.Args[0].Op != engine.OIndexAddr {
				return nil
			}
			s, idx := a.Args[0].Args[0], a.Args[0].Args[1]
			if seq != nil && s != seq {
				return nil
			}
			if !m.c.walksAll(l.Sum, b, s, idx, facts) {
				return nil
			}
			seq = s
			n++
		}
		if n != 1 {
			return nil
		}
	}
	return seq
}

func loopEvents(s *LoopSum) []*Event {
	var evs []*Event
	for _, b := range s.Backs {
		evs = append(evs, b.Evs...)
	}
	return evs
}

// walksAll reports whether the index used in an iteration walks over all
// elements of the sequence, and the loop has been left after the last of them.
func (c *C) walksAll(sum *LoopSum, b *engine.Back, seq, idx *T, facts *Facts) bool {
	return c.walksTo(sum, b, engine.Len(seq), idx, facts)
}

// walksTo is walksAll for a sequence of the length.
func (c *C) walksTo(sum *LoopSum, b *engine.Back, length, idx *T, facts *Facts) bool {
	for _, l := range sum.Lams {
		if l.Phi == nil {
			continue
		}
		n, ok := l.Init.IntVal()
		if !ok {
			continue
		}
		up, ok := b.Upd[l.Term]
		if !ok || up != engine.Lin(l.Term, 1) {
			continue
		}
		// first index is 0
		if idx != engine.Lin(l.Term, -n) {
			continue
		}
		// left with the next index beyond the last one
		if facts == nil || facts.LeqK(length, engine.Lin(l.Term, -n), 0) {
			return true
		}
	}
	return false
}

// blank reports whether the text is known to be nothing but white space.
func blank(facts *Facts, t *T) bool {
	if facts.StrEmpty(t) {
		return true
	}
	return facts.StrEmpty(engine.App("strings.TrimSpace", types.Typ[types.String], t))
}

// droppable reports whether an item is known to have no text, hence no args.
func (m *textMatcher) droppable(it item, facts *Facts) bool {
	if it.sum != nil {
		for _, l := range it.sum.Lams {
			if l.Ver != "" || l.Term.Typ == nil {
				continue
			}
			switch l.Term.Typ.Underlying().(type) {
			case *types.Basic:
				if !blank(facts, l.Term) {
					continue
				}
			case *types.Slice:
				if !facts.LeqK(engine.Len(l.Term), engine.Int(0), 0) {
					continue
				}
			default:
				continue
			}
			if _, p := m.lamTokens(l, facts); p == "" {
				return true
			}
		}
	} else {
		ev := it.ev
		if ev.Panic || len(ev.Res) == 0 {
			return false
		}
		if ev.Kind == engine.EvCustom {
			if facts.LeqK(engine.Len(ev.Res[0]), engine.Int(0), 0) {
				return true // a function without result
			}
		} else if blank(facts, ev.Res[0]) {
			return true
		}
	}
	// a text that contains it is known to be blank
	for _, t := range facts.BlankTerms() {
		ts, p := m.tokens(t, facts)
		if p != "" {
			continue
		}
		for _, k := range ts {
			if k.item == it {
				return true
			}
		}
	}
	return false
}

// outcome relates the text of an outcome to its history.
func (m *textMatcher) outcome(o *engine.Outcome, text *T) (its []item, problem string) {
	evs := o.St.Trace.Events()
	m.push(evs)
	defer m.pop()
	its, p := m.itemsOf(o.St, evs)
	if p != "" {
		return nil, p
	}
	ts, p := m.tokens(text, o.St.Facts)
	if p != "" {
		return its, p
	}
	return its, m.match(its, ts, o.St.Facts)
}

// match relates the tokens of a text to the items of the history.
func (m *textMatcher) match(its []item, ts []tok, facts *Facts) string {
	i := 0
	for _, t := range ts {
		j := i
		for j < len(its) && its[j] != t.item {
			j++
		}
		if j == len(its) {
			for _, o := range its[:i] {
				if o == t.item {
					return fmt.Sprintf("the text of (%s) is out of order or repeated, its args were committed earlier", t.item)
				}
			}
			return fmt.Sprintf("the text contains (%s), which is not part of this build, or was dropped", t.item)
		}
		for _, o := range its[i:j] {
			if !m.droppable(o, facts) {
				// is it used later?
				for _, u := range ts {
					if u.item == o {
						return fmt.Sprintf("the text of (%s) comes after that of (%s), but its args are committed before", o, t.item)
					}
				}
				return fmt.Sprintf("the text of (%s) is missing, its args stay behind", o)
			}
		}
		i = j + 1
	}
	for _, o := range its[i:] {
		if !m.droppable(o, facts) {
			return fmt.Sprintf("the text of (%s) is missing, its args stay behind", o)
		}
	}
	m.stats.items += len(its)
	m.stats.tokens += len(ts)
	return ""
}

// builds lists the functions that build text within a context.
func (c *C) builds() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if engine.IsBuild(fn) && fn.Parent() == nil && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	return out
}

// closures lists the text building closures that were not analysed as part of
// the functions they are passed to.
func (c *C) closures() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil && engine.ReturnsText(fn.Signature) && !c.inlined[fn] && c.P.InRepo(fn) {
			out = append(out, fn)
		}
	}
	return out
}

// queries lists the BuildQuery methods.
func (c *C) queries() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Name() == "BuildQuery" && fn.Signature.Recv() != nil && fn.Synthetic == "" && fn.Signature.Results().Len() == 3 {
			out = append(out, fn)
		}
	}
	return out
}

// inlineParts analyses the unexported, loop free parts that only one function
// calls as parts of it, although they build text themselves.
func (c *C) inlineParts(def engine.CutFunc) engine.CutFunc {
	return func(x *engine.Engine, fn *ssa.Function, args []*T) engine.EventKind {
		k := def(x, fn, args)
		if k != engine.EvBuild || fn.Object() == nil || fn.Object().Exported() || hasLoop(fn) {
			return k
		}
		if cs := c.callers(fn); len(cs) != 1 || cs[0] == fn {
			return k
		}
		return ""
	}
}

func hasLoop(fn *ssa.Function) bool {
	state := make([]int, len(fn.Blocks))
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 || state[s.Index] == 0 && visit(s) {
				return true
			}
		}
		state[b.Index] = 2
		return false
	}
	return len(fn.Blocks) > 0 && visit(fn.Blocks[0])
}
