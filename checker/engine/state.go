package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EventKind is the kind of an event in the history.
type EventKind string

// kinds
const (
	EvBuild  EventKind = "BUILD"  // a contract call that builds text: (string, error)
	EvCustom EventKind = "CUSTOM" // reflect call of a registered function
	EvCommit EventKind = "COMMIT" // an arg is committed
	EvArgs   EventKind = "ARGS"   // the args are read
	EvTrunc  EventKind = "TRUNC"  // args are dropped
	EvInvoke EventKind = "INVOKE" // other interface method
	EvCall   EventKind = "CALL"   // other contract call, recursion or external effect
	EvValue  EventKind = "VALUE"  // call of an unknown function value
	EvLoop   EventKind = "LOOP"   // iterations of a loop
	EvNewCtx EventKind = "NEWCTX"
	EvPure   EventKind = "PURE" // not an event: a predicate without effects
	EvErr    EventKind = "ERR"  // a function of the repository returned an error
)

// Event is an effect in the history of a path.
type Event struct {
	id    int
	Kind  EventKind
	Name  string
	Site  string
	Recv  *Term
	Args  []*Term
	Res   []*Term
	Ctx   *Term // the context in effect
	Fn    *ssa.Function
	Loop  *LoopSum
	Pos   token.Pos
	In    *ssa.Function
	Stack []Frame
	Panic bool // the call panicked
}

// Frame is an active call.
type Frame struct {
	Fn   *ssa.Function
	Args []*Term
	Bind []*Term
	Site string
	root map[*Term]bool
}

// Trace is a persistent list of events.
type Trace struct {
	id   int
	n    int
	Prev *Trace
	Ev   *Event
	objs map[*Term]bool
}

var (
	eventIntern = map[string]*Event{}
	traceIntern = map[[2]int]*Trace{}
	traceCount  int
)

// emptyTrace
var emptyTrace = &Trace{}

func internEvent(e *Event) *Event {
	var sb strings.Builder
	sb.WriteString(string(e.Kind) + "|" + e.Name + "|" + e.Site + "|" + strconv.FormatBool(e.Panic))
	w := func(t *Term) {
		if t == nil {
			sb.WriteString(",_")
			return
		}
		sb.WriteString("," + strconv.Itoa(t.ID))
	}
	w(e.Recv)
	w(e.Ctx)
	for _, a := range e.Args {
		w(a)
	}
	sb.WriteString("|")
	for _, a := range e.Res {
		w(a)
	}
	if e.Loop != nil {
		sb.WriteString("|" + e.Loop.Key)
	}
	k := sb.String()
	if o, ok := eventIntern[k]; ok {
		if e.Loop != nil {
			o.Loop = e.Loop
		}
		return o
	}
	e.id = len(eventIntern) + 1
	eventIntern[k] = e
	return e
}

// Add appends an event.
func (t *Trace) Add(e *Event) *Trace {
	e = internEvent(e)
	k := [2]int{t.id, e.id}
	if n, ok := traceIntern[k]; ok {
		return n
	}
	traceCount++
	n := &Trace{id: traceCount, n: t.n + 1, Prev: t, Ev: e}
	n.objs = t.objs
	add := map[*Term]bool{}
	for _, a := range append(append([]*Term{e.Recv, e.Ctx}, e.Args...), e.Res...) {
		if a != nil {
			for o := range a.objs {
				if !t.objs[o] {
					add[o] = true
				}
			}
		}
	}
	if len(add) > 0 {
		for o := range t.objs {
			add[o] = true
		}
		n.objs = add
	}
	traceIntern[k] = n
	return n
}

// Events lists the events, oldest first.
func (t *Trace) Events() []*Event {
	out := make([]*Event, t.n)
	for n := t; n.Ev != nil; n = n.Prev {
		out[n.n-1] = n.Ev
	}
	return out
}

// Since lists the events after base.
func (t *Trace) Since(base *Trace) []*Event {
	evs := t.Events()
	if base.n <= len(evs) {
		return evs[base.n:]
	}
	return evs
}

// State is the abstract state of a path partition.
type State struct {
	Facts   *Facts
	Heap    map[*Term]*Term
	Ver     map[string]*Term
	Trace   *Trace
	Fresh   map[*Term]bool
	Escaped map[*Term]bool
}

// NewState makes a state.
func NewState() *State {
	return &State{Facts: NewFacts(), Heap: map[*Term]*Term{}, Ver: map[string]*Term{}, Trace: emptyTrace, Fresh: map[*Term]bool{}, Escaped: map[*Term]bool{}}
}

// Clone copies the state.
func (s *State) Clone() *State {
	n := &State{Facts: s.Facts.Clone(), Heap: make(map[*Term]*Term, len(s.Heap)+4), Ver: make(map[string]*Term, len(s.Ver)), Trace: s.Trace, Fresh: make(map[*Term]bool, len(s.Fresh)), Escaped: make(map[*Term]bool, len(s.Escaped))}
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	for k, v := range s.Ver {
		n.Ver[k] = v
	}
	for k, v := range s.Fresh {
		n.Fresh[k] = v
	}
	for k, v := range s.Escaped {
		n.Escaped[k] = v
	}
	return n
}

// baseObj returns the root of an address (or map, slice) term.
func baseObj(t *Term) *Term {
	for {
		switch t.Op {
		case OFieldAddr, OIndexAddr, OMapElem, OMapVer, OCell, OCapped, OSlice:
			t = t.Args[0]
		default:
			return t
		}
	}
}

// gc drops heap entries of unreachable objects.
func (s *State) gc(roots map[*Term]bool) {
	reach := map[*Term]bool{}
	var work []*Term
	add := func(o *Term) {
		if !reach[o] {
			reach[o] = true
			work = append(work, o)
		}
	}
	for o := range roots {
		add(o)
	}
	for o := range s.Escaped {
		add(o)
	}
	for o := range s.Trace.objs {
		add(o)
	}
	by := map[*Term][]*Term{}
	for k, v := range s.Heap {
		b := baseObj(k)
		if b.Op == OObj || b.Op == OMake {
			by[b] = append(by[b], k)
			continue
		}
		for o := range v.objs {
			add(o)
		}
		for o := range k.objs {
			add(o)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, k := range by[o] {
			for p := range s.Heap[k].objs {
				add(p)
			}
			for p := range k.objs {
				add(p)
			}
		}
	}
	for o, ks := range by {
		if !reach[o] {
			for _, k := range ks {
				delete(s.Heap, k)
			}
			delete(s.Fresh, o)
		}
	}
	for o := range s.Fresh {
		if !reach[o] {
			delete(s.Fresh, o)
		}
	}
}

func (s *State) key(sb *strings.Builder) {
	ks := make([]string, 0, len(s.Heap)+len(s.Ver))
	for k, v := range s.Heap {
		ks = append(ks, strconv.Itoa(k.ID)+"="+strconv.Itoa(v.ID))
	}
	for k, v := range s.Ver {
		ks = append(ks, k+"="+strconv.Itoa(v.ID))
	}
	for k := range s.Escaped {
		ks = append(ks, "e"+strconv.Itoa(k.ID))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ";"))
	sb.WriteString("#" + strconv.Itoa(s.Trace.id))
	s.statuses(sb)
}

// statuses adds what is known about the results of the events, so that joins
// don't mix failed and successful events.
func (s *State) statuses(sb *strings.Builder) {
	for n := s.Trace; n.Ev != nil; n = n.Prev {
		ev := n.Ev
		if ev.Kind == EvLoop || len(ev.Res) == 0 {
			continue
		}
		if ev.Kind == EvCustom {
			r := ev.Res[0]
			l := Len(r)
			for i := int64(0); i < 3; i++ {
				if v, ok := s.Facts.Eval(Eq(l, Int(i))); ok {
					sb.WriteString("|" + strconv.FormatInt(i, 10) + strconv.FormatBool(v))
				}
			}
			var ks []string
			for k, c := range s.Facts.cs {
				if !c.neg && len(c.set) == 1 && c.set["nil"] != nil && k.Mentions(r) {
					ks = append(ks, strconv.Itoa(k.ID))
				}
			}
			sort.Strings(ks)
			sb.WriteString("|" + strings.Join(ks, ","))
			continue
		}
		for _, r := range ev.Res {
			switch {
			case r.Typ == nil:
			case isString(r.Typ):
				if s.Facts.StrEmpty(r) {
					sb.WriteString("|e" + strconv.Itoa(r.ID))
				}
			case typeKey(r.Typ) == "error":
				if s.Facts.IsNil(r) {
					sb.WriteString("|n" + strconv.Itoa(r.ID))
				} else if s.Facts.NonNil(r) {
					sb.WriteString("|x" + strconv.Itoa(r.ID))
				}
			}
		}
	}
}

// Outcome is the end of a path partition of a function.
type Outcome struct {
	St     *State
	Panic  bool
	Vals   []*Term
	Pv     *Term
	RetPos token.Pos
}

// LoopSum is the summary of a loop: what one generic iteration does.
type LoopSum struct {
	Key    string
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Site   string
	Lams   []*Lam
	Backs  []*Back
	Pos    token.Pos
	Entry  *State // state at the loop entry
	Start  *State // generic iteration start
	byTerm map[*Term]*Lam
	Facts  *Facts // facts of a generic iteration at the header
	Base   *Trace
	Breaks int // exits other than by the condition
}

// Lam is a location or variable changed by the loop.
type Lam struct {
	Term *Term // the λ symbol: value at the start of an iteration
	Init *Term
	Loc  *Term // heap location, nil for phis
	Phi  *ssa.Phi
	Ver  string // region version
	Sum  *LoopSum
}

// Back is a partition of the generic iteration that continues the loop.
type Back struct {
	St   *State
	Upd  map[*Term]*Term // λ -> value at the end of the iteration
	Evs  []*Event
	Base *Trace
}

// Lam returns the λ of a term.
func (l *LoopSum) Lam(t *Term) *Lam { return l.byTerm[t] }

// region of an address: type and field, element type ...
func (x *Engine) region(addr *Term) string {
	switch addr.Op {
	case OFieldAddr:
		return addr.Aux
	case OIndexAddr:
		return "elem:" + x.elemKey(addr)
	case OGlobal:
		return "global:" + addr.Aux
	case OCell:
		return "cell"
	case OMapElem, OMapVer:
		return "map:" + addr.Aux
	}
	if addr.Typ != nil {
		if p, ok := addr.Typ.Underlying().(*types.Pointer); ok {
			return "deref:" + typeKey(p.Elem())
		}
	}
	return "deref:?"
}

func (x *Engine) elemKey(addr *Term) string {
	if addr.Typ != nil {
		if p, ok := addr.Typ.Underlying().(*types.Pointer); ok {
			return typeKey(p.Elem())
		}
	}
	return "?"
}

func (x *Engine) ver(s *State, region string) *Term {
	if v, ok := s.Ver[region]; ok {
		return v
	}
	return Nil
}

// FieldAddr makes the address of a field.
func (x *Engine) FieldAddr(base *Term, st types.Type, i int) *Term {
	u := st.Underlying().(*types.Struct)
	name := typeKey(st)
	if n, ok := st.(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			name = n.Obj().Pkg().Path() + "." + name
		}
	}
	f := u.Field(i)
	return mk(OFieldAddr, name+"."+f.Name(), int64(i), types.NewPointer(f.Type()), nil, base)
}

// Load reads a location.
func (x *Engine) Load(s *State, addr *Term, typ types.Type) *Term {
	if st, ok := typ.Underlying().(*types.Struct); ok && !x.opaqueStruct(typ) {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = x.Load(s, x.FieldAddr(addr, typ, i), st.Field(i).Type())
		}
		return mkStruct(typ, args)
	}
	if v, ok := s.Heap[addr]; ok {
		return v
	}
	if addr.Op == OIndexAddr {
		sl := addr.Args[0]
		for sl.Op == OCapped {
			sl = sl.Args[0]
		}
		if sl != addr.Args[0] {
			return x.Load(s, mk(OIndexAddr, addr.Aux, 0, addr.Typ, nil, sl, addr.Args[1]), typ)
		}
		if sl.Op == OSlice {
			return x.Load(s, mk(OIndexAddr, addr.Aux, 0, addr.Typ, nil, sl.Args[0], Add(addr.Args[1], sl.Args[1])), typ)
		}
		if n, ok := addr.Args[1].IntVal(); ok && sl.Op == OSeq && n >= 0 {
			for i, it := range sl.Args {
				if it.Op == OSpread {
					if i == int(n) && false {
						break
					}
					// index into the tail
					idx := Int(n - int64(i))
					if i == len(sl.Args)-1 {
						return x.Load(s, mk(OIndexAddr, addr.Aux, 0, addr.Typ, nil, it.Args[0], idx), typ)
					}
					break
				}
				if i == int(n) {
					return it
				}
			}
		}
		if sl.Op == OSeq {
			// single spread: same elements
			if len(sl.Args) == 1 && sl.Args[0].Op == OSpread {
				return x.Load(s, mk(OIndexAddr, addr.Aux, 0, addr.Typ, nil, sl.Args[0].Args[0], addr.Args[1]), typ)
			}
			return x.named(s, mk(OLoad, "", 0, typ, nil, addr, Nil))
		}
		if sl.Op == OMake || sl.Op == OObj {
			v := x.ver(s, "elems#"+strconv.Itoa(sl.ID))
			if v == Nil && s.Fresh[sl] {
				return x.Zero(typ)
			}
			return x.named(s, mk(OLoad, "", 0, typ, nil, addr, v))
		}
	}
	b := baseObj(addr)
	if (b.Op == OObj) && s.Fresh[b] && addr.Op != OIndexAddr {
		return x.Zero(typ)
	}
	if addr.Op == OCell {
		if b.Op == OObj {
			return Empty
		}
		return mk(OLoad, "", 0, types.Typ[types.String], nil, addr, x.ver(s, "cell"))
	}
	r := x.region(addr)
	x.noteRead(r)
	if x.immutableGlobal(addr) {
		if v, ok := x.globalInit[addr]; ok {
			return v
		}
	}
	return x.named(s, mk(OLoad, "", 0, typ, nil, addr, x.ver(s, r)))
}

func (x *Engine) named(s *State, t *Term) *Term {
	if x.OnLoad != nil {
		x.OnLoad(s, t)
	}
	return t
}

func mkStruct(typ types.Type, args []*Term) *Term {
	// {v.0, v.1, ...} is v
	if len(args) > 0 && args[0].Op == OField {
		v := args[0].Args[0]
		ok := v.Typ != nil && types.Identical(v.Typ, typ)
		for i, a := range args {
			if a.Op != OField || a.Args[0] != v || a.N != int64(i) {
				ok = false
				break
			}
		}
		if ok {
			return v
		}
	}
	return mk(OStruct, typeKey(typ), 0, typ, nil, args...)
}

// Store writes a location.
func (x *Engine) Store(s *State, addr, val *Term, typ types.Type, site string) {
	if st, ok := typ.Underlying().(*types.Struct); ok && !x.opaqueStruct(typ) {
		for i := 0; i < st.NumFields(); i++ {
			x.Store(s, x.FieldAddr(addr, typ, i), FieldOf(val, i, st.Field(i).Type()), st.Field(i).Type(), site)
		}
		return
	}
	b := baseObj(addr)
	if addr.Op == OIndexAddr {
		sl := addr.Args[0]
		for sl.Op == OCapped {
			sl = sl.Args[0]
		}
		addr = mk(OIndexAddr, addr.Aux, 0, addr.Typ, nil, sl, addr.Args[1])
		// forget the other elements that may be the same
		for k := range s.Heap {
			if k.Op == OIndexAddr && k.Args[0] == sl && k != addr {
				if Eq(k.Args[1], addr.Args[1]) != False {
					if v, ok := s.Facts.Eval(Eq(k.Args[1], addr.Args[1])); !ok || v {
						delete(s.Heap, k)
					}
				}
			}
		}
		s.Heap[addr] = val
		if addr.Args[1].Op != OConst || s.Ver["elems#"+strconv.Itoa(sl.ID)] != nil || !(sl.Op == OObj || sl.Op == OMake) {
			s.Ver["elems#"+strconv.Itoa(sl.ID)] = Sym("v"+site, nil)
		}
		if b.Op != OObj && b.Op != OMake {
			s.Ver[x.region(addr)] = Sym("v"+site, nil)
		}
		x.escapeStore(s, b, val)
		return
	}
	fresh := b.Op == OObj && !s.Escaped[b]
	if !fresh {
		// other addresses of the region may be the same
		r := x.region(addr)
		for k := range s.Heap {
			if k == addr || k.Op != addr.Op || x.region(k) != r {
				continue
			}
			kb := baseObj(k)
			if kb.Op == OObj && !s.Escaped[kb] {
				continue
			}
			if kb.Op == OObj && b.Op == OObj {
				continue
			}
			if x.distinct(s, k, addr) {
				continue
			}
			delete(s.Heap, k)
			if kb.Op == OObj {
				s.Heap[k] = mk(OLoad, "", 0, val.Typ, nil, k, Sym("v"+site, nil))
			}
		}
		s.Ver[r] = Sym("v"+site+":"+strconv.Itoa(addr.ID), nil)
	}
	s.Heap[addr] = val
	x.escapeStore(s, b, val)
}

func (x *Engine) distinct(s *State, a, b *Term) bool {
	if a.Op == OFieldAddr && b.Op == OFieldAddr {
		if v, ok := s.Facts.Eval(Eq(a.Args[0], b.Args[0])); ok && !v {
			return true
		}
	}
	return false
}

// escapeStore marks what is stored outside of fresh objects as escaped.
func (x *Engine) escapeStore(s *State, base, val *Term) {
	if (base.Op == OObj || base.Op == OMake) && !s.Escaped[base] {
		return
	}
	x.Escape(s, val)
}

// Escape marks all objects reachable from the value as escaped.
func (x *Engine) Escape(s *State, val *Term) {
	var work []*Term
	for o := range val.objs {
		if !s.Escaped[o] {
			s.Escaped[o] = true
			work = append(work, o)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if x.OnEscape != nil {
			x.OnEscape(s, o)
		}
		for k, v := range s.Heap {
			if baseObj(k) == o {
				for p := range v.objs {
					if !s.Escaped[p] {
						s.Escaped[p] = true
						work = append(work, p)
					}
				}
			}
		}
	}
}

// Havoc forgets the mutable regions owned by contexts.
func (x *Engine) Havoc(s *State, regions map[string]bool, site string) {
	v := Sym("h"+site, nil)
	for r := range regions {
		s.Ver[r] = v
	}
	for k := range s.Heap {
		r := x.region(k)
		if !regions[r] {
			continue
		}
		b := baseObj(k)
		if (b.Op == OObj || b.Op == OMake) && !s.Escaped[b] {
			continue
		}
		delete(s.Heap, k)
	}
	for o := range s.Escaped {
		if o.Op != OObj || !s.Fresh[o] {
			continue
		}
		st, ok := objType(o)
		if !ok {
			continue
		}
		u, ok := st.Underlying().(*types.Struct)
		if !ok || x.opaqueStruct(st) {
			continue
		}
		for i := 0; i < u.NumFields(); i++ {
			a := x.FieldAddr(o, st, i)
			if regions[a.Aux] {
				s.Heap[a] = mk(OLoad, "", 0, u.Field(i).Type(), nil, a, v)
			}
		}
	}
}

func objType(o *Term) (types.Type, bool) {
	if o.Typ == nil {
		return nil, false
	}
	p, ok := o.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func (x *Engine) noteRead(r string) {
	for _, m := range x.readSets {
		m[r] = true
	}
}

func fmtPos(fset *token.FileSet, p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}
