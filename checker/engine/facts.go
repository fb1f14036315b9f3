package engine

import (
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// cset is a set of constants a term is known to be in (or not in, if neg).
type cset struct {
	neg bool
	set map[string]*Term
}

func (c *cset) key() string {
	ks := make([]string, 0, len(c.set))
	for k := range c.set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if c.neg {
		return "!" + strings.Join(ks, "|")
	}
	return strings.Join(ks, "|")
}

type zkey struct{ x, y *Term } // x - y <= c, nil stands for 0

// Facts is what is known about values on a path.
type Facts struct {
	lits map[*Term]bool
	zone map[zkey]int64
	cs   map[*Term]*cset // values
	ty   map[*Term]*cset // dynamic types of interface values
}

// NewFacts returns no facts.
func NewFacts() *Facts {
	return &Facts{lits: map[*Term]bool{}, zone: map[zkey]int64{}, cs: map[*Term]*cset{}, ty: map[*Term]*cset{}}
}

// Clone copies the facts.
func (f *Facts) Clone() *Facts {
	g := &Facts{
		lits: make(map[*Term]bool, len(f.lits)+4), zone: make(map[zkey]int64, len(f.zone)+4),
		cs: make(map[*Term]*cset, len(f.cs)+4), ty: make(map[*Term]*cset, len(f.ty)+2),
	}
	for k, v := range f.lits {
		g.lits[k] = v
	}
	for k, v := range f.zone {
		g.zone[k] = v
	}
	for k, v := range f.cs {
		g.cs[k] = v
	}
	for k, v := range f.ty {
		g.ty[k] = v
	}
	return g
}

// Join keeps what holds in both.
func (f *Facts) Join(g *Facts) *Facts {
	r := NewFacts()
	for k, v := range f.lits {
		if w, ok := g.evalLit(k); ok && w == v {
			r.lits[k] = v
		}
	}
	for k, v := range g.lits {
		if w, ok := f.evalLit(k); ok && w == v {
			r.lits[k] = v
		}
	}
	for k, v := range f.zone {
		if c, ok := g.diff(k.x, k.y); ok {
			if c < v {
				c = v
			}
			r.zone[k] = c
		}
	}
	for k, v := range g.zone {
		if _, done := r.zone[k]; done {
			continue
		}
		if c, ok := f.diff(k.x, k.y); ok {
			if c < v {
				c = v
			}
			r.zone[k] = c
		}
	}
	joinSets(f.cs, g.cs, r.cs)
	joinSets(f.ty, g.ty, r.ty)
	// what is known of a value as one of a type holds where it isn't of the type
	for _, p := range [][2]*Facts{{f, g}, {g, f}} {
		for k, v := range p[0].cs {
			if k.Op != OAssert || k.Ref == nil || r.cs[k] != nil || p[1].cs[k] != nil {
				continue
			}
			if t, ok := k.Ref.(types.Type); ok {
				if is, known := p[1].Eval(AssertOk(k.Args[0], t)); known && !is {
					r.cs[k] = v
				}
			}
		}
	}
	return r
}

func (f *Facts) evalLit(k *Term) (bool, bool) {
	v, ok := f.lits[k]
	if !ok && k.Op == OLookupOk && f.IsNil(k.Args[0]) {
		return false, true
	}
	return v, ok
}

func joinSets(a, b, out map[*Term]*cset) {
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			continue
		}
		r := &cset{set: map[string]*Term{}}
		switch {
		case !x.neg && !y.neg:
			for k, v := range x.set {
				r.set[k] = v
			}
			for k, v := range y.set {
				r.set[k] = v
			}
		case x.neg && y.neg:
			r.neg = true
			for k, v := range x.set {
				if _, ok := y.set[k]; ok {
					r.set[k] = v
				}
			}
		default:
			n, p := x, y
			if !x.neg {
				n, p = y, x
			}
			r.neg = true
			for k, v := range n.set {
				if _, ok := p.set[k]; !ok {
					r.set[k] = v
				}
			}
		}
		if r.neg && len(r.set) == 0 {
			continue
		}
		out[k] = r
	}
}

// Key is a canonical key.
func (f *Facts) Key() string {
	var ss []string
	for k, v := range f.lits {
		ss = append(ss, "l"+strconv.Itoa(k.ID)+"="+strconv.FormatBool(v))
	}
	for k, v := range f.zone {
		x, y := 0, 0
		if k.x != nil {
			x = k.x.ID
		}
		if k.y != nil {
			y = k.y.ID
		}
		ss = append(ss, "z"+strconv.Itoa(x)+"-"+strconv.Itoa(y)+"<"+strconv.FormatInt(v, 10))
	}
	for k, v := range f.cs {
		ss = append(ss, "c"+strconv.Itoa(k.ID)+v.key())
	}
	for k, v := range f.ty {
		ss = append(ss, "t"+strconv.Itoa(k.ID)+v.key())
	}
	sort.Strings(ss)
	return strings.Join(ss, ";")
}

// nonNegTerm tells if the int term is never negative.
func nonNegTerm(t *Term) bool {
	switch t.Op {
	case OLen, OCap:
		return true
	case OApp:
		switch t.Aux {
		case "reflect.Kind", "reflect.NumIn", "reflect.NumOut", "reflect.NumField", "reflect.Len", "reflect.Bits", "runelen":
			return true
		}
	case OBin:
		if t.Aux == "+" {
			return nonNegTerm(t.Args[0]) && nonNegTerm(t.Args[1])
		}
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && t.Op != OBin {
			return true
		}
	}
	return false
}

// diff returns the least known c with x - y <= c.
func (f *Facts) diff(x, y *Term) (int64, bool) {
	if x == y {
		return 0, true
	}
	// Bellman-Ford from y... shortest path y -> x where edge b->a has weight c for a - b <= c.
	dist := map[*Term]int64{y: 0}
	type edge struct {
		a, b *Term
		c    int64
	}
	var edges []edge
	seen := map[*Term]bool{}
	var addTerm func(t *Term)
	addTerm = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if nonNegTerm(t) {
			edges = append(edges, edge{nil, t, 0}) // 0 - t <= 0
		}
		if t.Op == OBin && len(t.Args) == 2 {
			a, b := t.Args[0], t.Args[1]
			switch t.Aux {
			case "-": // a - b with b >= 0: t <= a
				if f.lower0(b) {
					addTerm(a)
					edges = append(edges, edge{t, a, 0})
				}
				// facts about a - b
				if c, ok := f.zone[zkey{a, b}]; ok {
					edges = append(edges, edge{t, nil, c})
				}
				if c, ok := f.zone[zkey{b, a}]; ok {
					edges = append(edges, edge{nil, t, c})
				}
			case "+":
				if f.lower0(a) {
					addTerm(b)
					edges = append(edges, edge{b, t, 0})
				}
				if f.lower0(b) {
					addTerm(a)
					edges = append(edges, edge{a, t, 0})
				}
			}
		}
		// length of a minimum etc. could go here
	}
	addTerm(x)
	addTerm(y)
	for k, c := range f.zone {
		addTerm(k.x)
		addTerm(k.y)
		edges = append(edges, edge{k.x, k.y, c})
	}
	for i := 0; i < len(seen)+2; i++ {
		changed := false
		for _, e := range edges {
			if d, ok := dist[e.b]; ok {
				if old, ok2 := dist[e.a]; !ok2 || d+e.c < old {
					dist[e.a] = d + e.c
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	d, ok := dist[x]
	return d, ok
}

func (f *Facts) lower0(t *Term) bool {
	if nonNegTerm(t) {
		return true
	}
	if c, ok := f.zone[zkey{nil, t}]; ok && c <= 0 {
		return true
	}
	return false
}

// leq reports whether a <= b + n is known.
func (f *Facts) leq(a, b *Term, n int64) bool {
	ba, na := a.split()
	bb, nb := b.split()
	// ba + na <= bb + nb + n  <=>  ba - bb <= nb - na + n
	c := nb - na + n
	if ba == bb {
		return 0 <= c
	}
	if d, ok := f.diff(ba, bb); ok && d <= c {
		return true
	}
	// constant sets
	if bb == nil {
		if cs, ok := f.cs[ba]; ok && !cs.neg && len(cs.set) > 0 {
			for _, v := range cs.set {
				if iv, ok := v.IntVal(); !ok || iv > c {
					return false
				}
			}
			return true
		}
	}
	if ba == nil {
		if cs, ok := f.cs[bb]; ok && !cs.neg && len(cs.set) > 0 {
			for _, v := range cs.set {
				if iv, ok := v.IntVal(); !ok || -iv > c {
					return false
				}
			}
			return true
		}
	}
	return false
}

// LeqK reports whether a <= b + n is known.
func (f *Facts) LeqK(a, b *Term, n int64) bool { return f.leq(a, b, n) }

func (f *Facts) addLeq(a, b *Term, n int64) bool {
	ba, na := a.split()
	bb, nb := b.split()
	c := nb - na + n
	if ba == bb {
		return 0 <= c
	}
	if d, ok := f.diff(bb, ba); ok && d+c < 0 {
		return false // contradiction
	}
	if d, ok := f.diff(ba, bb); ok && d <= c {
		return true
	}
	f.zone[zkey{ba, bb}] = c
	// len(x) <= 0
	if bb == nil && c <= 0 && ba.Op == OLen {
		if !f.lenZero(ba.Args[0]) {
			return false
		}
	}
	if ba == nil && c <= -1 && bb.Op == OLen {
		if !f.lenPos(bb.Args[0]) {
			return false
		}
	}
	// tighten with excluded constants
	if bb == nil {
		f.tighten(ba)
	}
	if ba == nil {
		f.tighten(bb)
	}
	return true
}

// tighten uses != facts at the bounds of an int.
func (f *Facts) tighten(t *Term) {
	cs, ok := f.cs[t]
	if !ok || !cs.neg {
		return
	}
	for {
		changed := false
		for _, v := range cs.set {
			iv, ok := v.IntVal()
			if !ok {
				continue
			}
			if d, ok := f.diff(t, nil); ok && d == iv {
				f.zone[zkey{t, nil}] = iv - 1
				changed = true
			}
			if d, ok := f.diff(nil, t); ok && -d == iv {
				f.zone[zkey{nil, t}] = -(iv + 1)
				changed = true
			}
		}
		if !changed {
			return
		}
	}
}

func (f *Facts) lenZero(x *Term) bool {
	if x.Typ != nil && isString(x.Typ) {
		return f.restrict(f.cs, x, Empty, true)
	}
	return true
}

func (f *Facts) lenPos(x *Term) bool {
	if x.Typ != nil && isString(x.Typ) {
		return f.restrict(f.cs, x, Empty, false)
	}
	return f.restrict(f.cs, x, Nil, false)
}

// restrict asserts x == c or x != c in a set domain.
func (f *Facts) restrict(m map[*Term]*cset, x, c *Term, eq bool) bool {
	k := ckey(c)
	old := m[x]
	if eq {
		if old != nil {
			_, in := old.set[k]
			if old.neg == in {
				return false
			}
		}
		m[x] = &cset{set: map[string]*Term{k: c}}
		return true
	}
	if old == nil {
		m[x] = &cset{neg: true, set: map[string]*Term{k: c}}
		return true
	}
	n := &cset{neg: old.neg, set: map[string]*Term{}}
	for kk, v := range old.set {
		n.set[kk] = v
	}
	if old.neg {
		n.set[k] = c
	} else {
		delete(n.set, k)
		if len(n.set) == 0 {
			return false
		}
	}
	m[x] = n
	return true
}

func ckey(c *Term) string {
	switch c.Op {
	case ONil:
		return "nil"
	case OConst:
		return c.Aux
	}
	return "#" + strconv.Itoa(c.ID)
}

// TypeConst is the pseudo constant for a dynamic type.
func TypeConst(t types.Type) *Term { return mk(OSym, "type:"+typeKey(t), 0, nil, t) }

func setEval(m map[*Term]*cset, x, c *Term) (bool, bool) {
	cs := m[x]
	if cs == nil {
		return false, false
	}
	_, in := cs.set[ckey(c)]
	if cs.neg {
		if in {
			return false, true
		}
		return false, false
	}
	if !in {
		return false, true
	}
	if len(cs.set) == 1 {
		return true, true
	}
	return false, false
}

// Eval evaluates a condition, ok is false if it's not known.
func (f *Facts) Eval(c *Term) (val, ok bool) {
	if b, ok := c.BoolVal(); ok {
		return b, true
	}
	if c.Op == ONot {
		v, ok := f.Eval(c.Args[0])
		return !v, ok
	}
	if v, ok := f.lits[c]; ok {
		return v, true
	}
	switch c.Op {
	case OEq:
		a, b := c.Args[0], c.Args[1]
		if b.Op == OConst || b.Op == ONil {
			if v, ok := setEval(f.cs, a, b); ok {
				return v, true
			}
			if s, ok := b.StrVal(); ok && s == "" {
				if f.StrEmpty(a) {
					return true, true
				}
				if f.StrNonEmpty(a) {
					return false, true
				}
			}
			if b.Op == ONil {
				if f.NonNil(a) {
					return false, true
				}
			}
		} else {
			// both sets
			ca, cb := f.cs[a], f.cs[b]
			if ca != nil && cb != nil && !ca.neg && !cb.neg {
				common := false
				for k := range ca.set {
					if _, ok := cb.set[k]; ok {
						common = true
					}
				}
				if !common {
					return false, true
				}
				if len(ca.set) == 1 && len(cb.set) == 1 {
					return true, true
				}
			}
			if f.NonNil(a) && f.IsNil(b) || f.NonNil(b) && f.IsNil(a) {
				return false, true
			}
			if f.IsNil(a) && f.IsNil(b) {
				return true, true
			}
		}
		if isInt(a.Typ) || isInt(b.Typ) {
			if f.leq(a, b, 0) && f.leq(b, a, 0) {
				return true, true
			}
			if f.leq(a, b, -1) || f.leq(b, a, -1) {
				return false, true
			}
		}
	case OLt:
		a, b := c.Args[0], c.Args[1]
		if f.leq(a, b, -1) {
			return true, true
		}
		if f.leq(b, a, 0) {
			return false, true
		}
	case OApp:
		if errTest(c) && f.IsNil(c.Args[0]) {
			return false, true
		}
	case OAssertOk:
		// Ref is the type
		return f.evalIs(c.Args[0], c.Ref.(types.Type))
	}
	if isBool(c.Typ) {
		return setEvalBool(f, c)
	}
	return false, false
}

func setEvalBool(f *Facts, c *Term) (bool, bool) {
	if v, ok := f.lits[c]; ok {
		return v, true
	}
	return false, false
}

func (f *Facts) evalIs(x *Term, t types.Type) (bool, bool) {
	if f.IsNil(x) {
		return false, true
	}
	cs := f.ty[x]
	if it, isI := t.Underlying().(*types.Interface); isI {
		if cs != nil && !cs.neg {
			yes, no := 0, 0
			for _, tc := range cs.set {
				if types.Implements(tc.Ref.(types.Type), it) {
					yes++
				} else {
					no++
				}
			}
			if no == 0 {
				return true, true
			}
			if yes == 0 {
				return false, true
			}
		}
		return false, false
	}
	return setEval(f.ty, x, TypeConst(t))
}

// StrEmpty reports whether the string is known to be empty.
func (f *Facts) StrEmpty(t *Term) bool {
	if s, ok := t.StrVal(); ok {
		return s == ""
	}
	if v, ok := setEval(f.cs, t, Empty); ok && v {
		return true
	}
	if t.Op == OConcat {
		for _, a := range t.Args {
			if !f.StrEmpty(a) {
				return false
			}
		}
		return true
	}
	if t.Op == OApp && (t.Aux == "strings.TrimSpace" || strings.HasPrefix(t.Aux, "strings.Trim") || strings.HasPrefix(t.Aux, "strings.To") || t.Aux == "strings.ReplaceAll") {
		if f.StrEmpty(t.Args[0]) {
			return true
		}
	}
	if t.Op == OApp && t.Aux == "strings.Join" {
		seq := t.Args[0]
		if seq.Op == ONil || seq.Op == OSeq && len(seq.Args) == 0 {
			return true
		}
		if f.leq(Len(seq), Int(0), 0) {
			return true
		}
		if its := Items(seq); len(its) == 1 && its[0].Op != OSpread {
			return f.StrEmpty(its[0])
		}
	}
	if l := Len(t); l.Op == OLen {
		return f.leq(l, Int(0), 0)
	}
	return false
}

// StrNonEmpty reports whether the string is known not to be empty.
func (f *Facts) StrNonEmpty(t *Term) bool {
	if s, ok := t.StrVal(); ok {
		return s != ""
	}
	if v, ok := setEval(f.cs, t, Empty); ok && !v {
		return true
	}
	if t.Op == OConcat {
		for _, a := range t.Args {
			if f.StrNonEmpty(a) {
				return true
			}
		}
	}
	if t.Op == OApp && (t.Aux == "strings.TrimSpace") {
		if v, ok := setEval(f.cs, t, Empty); ok && !v {
			return true
		}
	}
	// TrimSpace(t) != ""
	if u := App("strings.TrimSpace", types.Typ[types.String], t); t.Op != OApp || t.Aux != "strings.TrimSpace" {
		if v, ok := setEval(f.cs, u, Empty); ok && !v {
			return true
		}
	}
	l := Len(t)
	return f.leq(Int(1), l, 0)
}

// ElemNonNil reports whether the elements of maps of the type are never nil.
var ElemNonNil func(t types.Type) bool

// BoxedNonNil reports whether a value of the type is never nil in an interface.
var BoxedNonNil func(t types.Type) bool

// AssumeLeq adds a <= b.
func (f *Facts) AssumeLeq(a, b *Term) bool { return f.addLeq(a, b, 0) }

// IsNil reports whether t is known to be nil.
func (f *Facts) IsNil(t *Term) bool {
	if t.Op == ONil {
		return true
	}
	v, ok := setEval(f.cs, t, Nil)
	return ok && v
}

// NonNil reports whether t is known not to be nil.
func (f *Facts) NonNil(t *Term) bool {
	if t.KnownNonNil() {
		return true
	}
	if v, ok := setEval(f.cs, t, Nil); ok && !v {
		return true
	}
	if cs := f.ty[t]; cs != nil && !cs.neg {
		return true
	}
	switch t.Op {
	case OApp:
		if t.Aux == "reflect.TypeOf" {
			if ks := f.KindSet(KindTerm(t)); !ks[reflect.Invalid] || f.NonNil(t.Args[0]) {
				return true
			}
		}
	case OLookup:
		if ElemNonNil != nil && t.Typ != nil && ElemNonNil(t.Typ) {
			if v, ok := f.lits[mk(OLookupOk, "", 0, types.Typ[types.Bool], nil, t.Args...)]; ok && v {
				return true
			}
		}
	case OSlice:
		if v, ok := f.Eval(Eq(t.Args[0], Nil)); ok && !v {
			return true
		}
	case OCapped:
		return f.NonNil(t.Args[0])
	case OAssert:
		if BoxedNonNil != nil && BoxedNonNil(t.Ref.(types.Type)) {
			if v, ok := f.Eval(mk(OAssertOk, t.Aux, 0, types.Typ[types.Bool], t.Ref, t.Args[0])); ok && v {
				return true
			}
		}
		// the value of a successful assertion to an interface type
		if v, ok := f.lits[mk(OAssertOk, t.Aux, 0, types.Typ[types.Bool], t.Ref, t.Args[0])]; ok && v {
			if _, isI := t.Ref.(types.Type).Underlying().(*types.Interface); isI {
				return true
			}
		}
	}
	if t.Typ != nil {
		switch t.Typ.Underlying().(type) {
		case *types.Slice:
			return f.leq(Int(1), Len(t), 0)
		}
	}
	return false
}

// Assume adds the condition, it reports whether it's feasible.
func (f *Facts) Assume(c *Term, val bool) bool {
	if b, ok := c.BoolVal(); ok {
		return b == val
	}
	if c.Op == ONot {
		return f.Assume(c.Args[0], !val)
	}
	if v, ok := f.Eval(c); ok {
		if v != val {
			return false
		}
		f.lits[c] = val
		return true
	}
	switch c.Op {
	case OEq:
		a, b := c.Args[0], c.Args[1]
		if b.Op == OConst && !isFloatC(b) || b.Op == ONil {
			if !f.restrict(f.cs, a, b, val) {
				return false
			}
			if s, ok := b.StrVal(); ok {
				if s == "" {
					if val {
						if a.Op == OConcat {
							for _, p := range a.Args {
								if !f.Assume(Eq(p, Empty), true) {
									return false
								}
							}
						}
						if l := Len(a); !f.addLeq(l, Int(0), 0) {
							return false
						}
					} else {
						if l := Len(a); l.Op == OLen && !f.addLeq(Int(1), l, 0) {
							return false
						}
					}
				} else if val {
					l := Len(a)
					if !f.addLeq(l, Int(int64(len(s))), 0) || !f.addLeq(Int(int64(len(s))), l, 0) {
						return false
					}
				}
			}
			if b.Op == ONil && val {
				if a.Typ != nil && a.Typ.Underlying() == anyType {
					f.lits[App("hashOr", types.Typ[types.Bool], a)] = true
				}
				if a.Typ != nil {
					switch a.Typ.Underlying().(type) {
					case *types.Slice, *types.Map:
						if !f.addLeq(Len(a), Int(0), 0) {
							return false
						}
					}
				}
			}
		} else {
			f.lits[c] = val
			if val {
				// propagate what is known
				if cs, ok := f.cs[b]; ok && f.cs[a] == nil {
					f.cs[a] = cs
				} else if cs, ok := f.cs[a]; ok && f.cs[b] == nil {
					f.cs[b] = cs
				}
			}
		}
		if isInt(a.Typ) || isInt(b.Typ) {
			if val {
				if !f.addLeq(a, b, 0) || !f.addLeq(b, a, 0) {
					return false
				}
			} else {
				// a != b at a bound
				if f.leq(a, b, 0) {
					return f.addLeq(a, b, -1)
				}
				if f.leq(b, a, 0) {
					return f.addLeq(b, a, -1)
				}
			}
		}
		return true
	case OLt:
		a, b := c.Args[0], c.Args[1]
		if a.V != nil && a.V.Kind() != constant.Int || b.V != nil && b.V.Kind() != constant.Int || !isInt(a.Typ) && !isInt(b.Typ) {
			f.lits[c] = val
			return true
		}
		if val {
			return f.addLeq(a, b, -1)
		}
		return f.addLeq(b, a, 0)
	case OAssertOk:
		x, t := c.Args[0], c.Ref.(types.Type)
		if it, isI := t.Underlying().(*types.Interface); isI {
			f.lits[c] = val
			if cs := f.ty[x]; cs != nil && !cs.neg {
				n := &cset{set: map[string]*Term{}}
				for k, tc := range cs.set {
					if types.Implements(tc.Ref.(types.Type), it) == val {
						n.set[k] = tc
					}
				}
				if len(n.set) == 0 {
					return false
				}
				f.ty[x] = n
			}
			if val {
				return f.restrict(f.cs, x, Nil, false)
			}
			// assertions to interfaces without methods fail for nil only
			if it.NumMethods() == 0 {
				return f.restrict(f.cs, x, Nil, true)
			}
			return true
		}
		if val {
			if !f.restrict(f.cs, x, Nil, false) {
				return false
			}
		}
		return f.restrict(f.ty, x, TypeConst(t), val)
	case OLookupOk:
		f.lits[c] = val
		if !val {
			v := mk(OLookup, "", 0, nil, nil, c.Args...)
			if v.Typ != nil {
				switch v.Typ.Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature:
					f.restrict(f.cs, v, Nil, true)
				}
				if isBool(v.Typ) {
					f.lits[v] = false
				}
			}
		}
		return true
	case OLookup:
		// a true bool element exists
		f.lits[c] = val
		return true
	case OApp:
		if errTest(c) && val && !f.restrict(f.cs, c.Args[0], Nil, false) {
			return false
		}
		if val && strings.HasPrefix(c.Aux, "pure:") && len(c.Args) == 1 {
			// a predicate on the type of a value
			if a := c.Args[0]; a.Op == OApp && a.Aux == "reflect.TypeOf" {
				f.lits[App("hashOr", types.Typ[types.Bool], a.Args[0])] = true
			}
		}
		if val && c.Aux == "reflect.Value.Comparable" && c.Args[0].Op == OApp && c.Args[0].Aux == "reflect.ValueOf" {
			f.lits[App("hashOr", types.Typ[types.Bool], c.Args[0].Args[0])] = true
		}
	}
	f.lits[c] = val
	return true
}

var anyType = types.Universe.Lookup("any").Type().Underlying()

// errTest reports whether c tests an error, no test succeeds for nil.
func errTest(c *Term) bool {
	return len(c.Args) > 0 && (c.Aux == "errors.Is" && c.Args[len(c.Args)-1] != Nil || strings.HasPrefix(c.Aux, "errors.As:"))
}

func isFloatC(t *Term) bool { return t.V != nil && t.V.Kind() == constant.Float }

// CSet returns the set of constants for a term.
func (f *Facts) CSet(t *Term) (neg bool, set map[string]*Term, ok bool) {
	c := f.cs[t]
	if c == nil {
		return false, nil, false
	}
	return c.neg, c.set, true
}

// TypeSet returns the set of dynamic types.
func (f *Facts) TypeSet(t *Term) (neg bool, set []types.Type, ok bool) {
	c := f.ty[t]
	if c == nil {
		return false, nil, false
	}
	for _, v := range c.set {
		set = append(set, v.Ref.(types.Type))
	}
	return c.neg, set, true
}

// Lits iterates over the literals.
func (f *Facts) Lits() map[*Term]bool { return f.lits }

// String renders the facts.
func (f *Facts) String() string {
	var ss []string
	for k, v := range f.lits {
		if v {
			ss = append(ss, k.String())
		} else {
			ss = append(ss, "!("+k.String()+")")
		}
	}
	for k, v := range f.zone {
		x, y := "0", "0"
		if k.x != nil {
			x = k.x.String()
		}
		if k.y != nil {
			y = k.y.String()
		}
		ss = append(ss, x+" - "+y+" <= "+strconv.FormatInt(v, 10))
	}
	for k, v := range f.cs {
		op := " in {"
		if v.neg {
			op = " notin {"
		}
		ss = append(ss, k.String()+op+v.key()+"}")
	}
	for k, v := range f.ty {
		op := " type in {"
		if v.neg {
			op = " type notin {"
		}
		ss = append(ss, k.String()+op+short(v.key())+"}")
	}
	sort.Strings(ss)
	return strings.Join(ss, "\n      ")
}

// BlankTerms lists the texts that are known to be empty, or white space only.
func (f *Facts) BlankTerms() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		for t.Op == OApp && t.Aux == "strings.TrimSpace" {
			t = t.Args[0]
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for k, c := range f.cs {
		if k.Typ != nil && isString(k.Typ) && !c.neg && f.StrEmpty(k) {
			add(k)
		}
	}
	for k := range f.zone {
		for _, l := range []*Term{k.x, k.y} {
			if l != nil && l.Op == OLen && l.Args[0].Typ != nil && isString(l.Args[0].Typ) && f.StrEmpty(l.Args[0]) {
				add(l.Args[0])
			}
		}
	}
	sortTerms(out)
	return out
}

// EachNil lists the terms known to be nil or not nil.
func (f *Facts) EachNil(fn func(t *Term, isNil bool)) {
	for k, c := range f.cs {
		if !c.neg && len(c.set) == 1 {
			for _, v := range c.set {
				if v.Op == ONil {
					fn(k, true)
				}
			}
			continue
		}
		if c.neg {
			for _, v := range c.set {
				if v.Op == ONil {
					fn(k, false)
				}
			}
		}
	}
}

// EachTerm visits the terms that something is known about.
func (f *Facts) EachTerm(visit func(t *Term)) {
	for k := range f.zone {
		if k.x != nil {
			visit(k.x)
		}
		if k.y != nil {
			visit(k.y)
		}
	}
	for k := range f.cs {
		visit(k)
	}
	for k := range f.ty {
		visit(k)
	}
	for k := range f.lits {
		visit(k)
	}
}

// Terms are the terms something is known about.
func (f *Facts) Terms() map[*Term]bool {
	r := map[*Term]bool{}
	for k := range f.lits {
		r[k] = true
	}
	for k := range f.zone {
		r[k.x], r[k.y] = true, true
	}
	for k := range f.cs {
		r[k] = true
	}
	for k := range f.ty {
		r[k] = true
	}
	delete(r, nil)
	return r
}
