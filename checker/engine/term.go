// Package engine is a path-partitioned abstract interpreter for Go SSA over a
// domain of value provenance terms, with facts (literals, difference bounds,
// constant sets), a store of abstract locations, effect histories and loop
// summaries computed as fixpoints.
package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Op is the operator of a term.
type Op uint8

// operators
const (
	OConst Op = iota
	ONil
	OZero // zero value of an opaque composite type
	OSym  // opaque value: param, result of an event, ...
	OLam  // value changed by a loop
	OFunc
	OClosure
	OObj // address of an object allocated during the analysis
	OGlobal
	OFieldAddr
	OIndexAddr
	OLoad // content of unknown memory
	OField
	OStruct
	OTuple
	OIface
	OConcat // string concatenation
	OBin
	OUn
	OLen
	OCap
	OSlice
	OMake // fresh slice: Args[0] = len, Args[1] = cap; Aux = site
	OSeq  // sequence value: items
	OSpread
	OApp // pure function application
	OEq
	OLt
	ONot
	OLin // Args[0] + N
	OLookup
	OLookupOk
	OAssert
	OAssertOk
	OConv
	OMapElem // location: element of a map
	OMapVer  // location: version of a map / slice contents
	OCell    // location: hidden content of an object (strings.Builder ...)
	OCapped  // slice value whose capacity is its length
)

// Term is a hash-consed term, equal terms are identical pointers.
type Term struct {
	ID   int
	Op   Op
	Aux  string
	N    int64
	Args []*Term
	Typ  types.Type
	V    constant.Value
	Ref  any
	// Objs are the ids of the objects the term mentions
	objs map[*Term]bool
}

var (
	interned = map[string]*Term{}
	termList []*Term
)

func mk(op Op, aux string, n int64, typ types.Type, ref any, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(op) + 1)
	sb.WriteString(aux)
	sb.WriteByte(0)
	sb.WriteString(strconv.FormatInt(n, 10))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := interned[k]; ok {
		return t
	}
	t := &Term{ID: len(termList) + 1, Op: op, Aux: aux, N: n, Args: append([]*Term(nil), args...), Typ: typ, Ref: ref}
	for _, a := range args {
		for o := range a.objs {
			if t.objs == nil {
				t.objs = map[*Term]bool{}
			}
			t.objs[o] = true
		}
	}
	if op == OObj || op == OMake {
		if t.objs == nil {
			t.objs = map[*Term]bool{}
		}
		t.objs[t] = true
	}
	interned[k] = t
	termList = append(termList, t)
	return t
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

// ---- constructors

// Const makes a constant.
func Const(v constant.Value, typ types.Type) *Term {
	k := "c:"
	switch v.Kind() {
	case constant.String:
		k = "s:" + constant.StringVal(v)
	case constant.Bool:
		k = fmt.Sprintf("b:%v", constant.BoolVal(v))
	case constant.Int:
		k = "i:" + v.ExactString()
	default:
		k = "f:" + v.ExactString()
	}
	t := mk(OConst, k, 0, typ, nil)
	t.V = v
	return t
}

// Str makes a string constant.
func Str(s string) *Term { return Const(constant.MakeString(s), types.Typ[types.String]) }

// Int makes an int constant.
func Int(n int64) *Term { return Const(constant.MakeInt64(n), types.Typ[types.Int]) }

// Bool makes a bool constant.
func Bool(b bool) *Term { return Const(constant.MakeBool(b), types.Typ[types.Bool]) }

// True and False
var (
	True  = Bool(true)
	False = Bool(false)
	Nil   = mk(ONil, "", 0, nil, nil)
	Empty = Str("")
)

// Sym makes an opaque symbol.
func Sym(name string, typ types.Type) *Term { return mk(OSym, name, 0, typ, nil) }

// App makes the application of a pure function.
func App(name string, typ types.Type, args ...*Term) *Term {
	return mk(OApp, name, 0, typ, nil, args...)
}

// IsConst reports whether t is a constant.
func (t *Term) IsConst() bool { return t.Op == OConst }

// IntVal returns the value of an int constant.
func (t *Term) IntVal() (int64, bool) {
	if t.Op != OConst || t.V.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.V)
}

// StrVal returns the value of a string constant.
func (t *Term) StrVal() (string, bool) {
	if t.Op != OConst || t.V.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.V), true
}

// BoolVal returns the value of a bool constant.
func (t *Term) BoolVal() (bool, bool) {
	if t.Op != OConst || t.V.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.V), true
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// Zero returns the zero value of the type.
func (x *Engine) Zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Const(constant.MakeString(""), typ)
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsInteger != 0:
			return Const(constant.MakeInt64(0), typ)
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return Const(constant.ToFloat(constant.MakeFloat64(0)), typ)
		}
		return Nil
	case *types.Struct:
		if !x.opaqueStruct(typ) {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = x.Zero(u.Field(i).Type())
			}
			return mk(OStruct, typeKey(typ), 0, typ, nil, args...)
		}
		return mk(OZero, typeKey(typ), 0, typ, nil)
	case *types.Array:
		return mk(OZero, typeKey(typ), 0, typ, nil)
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = x.Zero(u.At(i).Type())
		}
		return mk(OTuple, "", 0, typ, nil, args...)
	}
	if _, ok := typ.(*types.TypeParam); ok {
		return mk(OZero, typeKey(typ), 0, typ, nil)
	}
	return Nil
}

// Concat concatenates strings.
func Concat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == OConcat {
			for _, a := range p.Args {
				add(a)
			}
			return
		}
		if s, ok := p.StrVal(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if l, ok := out[n-1].StrVal(); ok {
					out[n-1] = Str(l + s)
					return
				}
			}
			out = append(out, Str(s))
			return
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return Empty
	case 1:
		return out[0]
	}
	return mk(OConcat, "", 0, types.Typ[types.String], nil, out...)
}

// Lin returns t + n.
func Lin(t *Term, n int64) *Term {
	if v, ok := t.IntVal(); ok {
		return Const(constant.MakeInt64(v+n), t.Typ)
	}
	if t.Op == OLin {
		return Lin(t.Args[0], t.N+n)
	}
	if n == 0 {
		return t
	}
	return mk(OLin, "", n, t.Typ, nil, t)
}

// split returns base and offset, base is nil for constants.
func (t *Term) split() (*Term, int64) {
	if v, ok := t.IntVal(); ok {
		return nil, v
	}
	if t.Op == OLin {
		return t.Args[0], t.N
	}
	return t, 0
}

// Add adds two ints.
func Add(a, b *Term) *Term {
	ba, na := a.split()
	bb, nb := b.split()
	switch {
	case ba == nil && bb == nil:
		return Const(constant.MakeInt64(na+nb), a.Typ)
	case ba == nil:
		return Lin(bb, na+nb)
	case bb == nil:
		return Lin(ba, na+nb)
	}
	// cancel x + (y - x)
	if bb.Op == OBin && bb.Aux == "-" && bb.Args[1] == ba {
		return Lin(bb.Args[0], na+nb)
	}
	if ba.Op == OBin && ba.Aux == "-" && ba.Args[1] == bb {
		return Lin(ba.Args[0], na+nb)
	}
	if ba.ID > bb.ID {
		ba, bb = bb, ba
	}
	return Lin(mk(OBin, "+", 0, a.Typ, nil, ba, bb), na+nb)
}

// Sub subtracts two ints.
func Sub(a, b *Term) *Term {
	ba, na := a.split()
	bb, nb := b.split()
	switch {
	case bb == nil && ba == nil:
		return Const(constant.MakeInt64(na-nb), a.Typ)
	case bb == nil:
		return Lin(ba, na-nb)
	case ba == bb:
		return Const(constant.MakeInt64(na-nb), a.Typ)
	case ba == nil:
		return Lin(mk(OBin, "neg", 0, a.Typ, nil, bb), na-nb)
	}
	if ba.Op == OBin && ba.Aux == "+" {
		if ba.Args[0] == bb {
			return Lin(ba.Args[1], na-nb)
		}
		if ba.Args[1] == bb {
			return Lin(ba.Args[0], na-nb)
		}
	}
	return Lin(mk(OBin, "-", 0, a.Typ, nil, ba, bb), na-nb)
}

// Not negates a bool.
func Not(t *Term) *Term {
	if b, ok := t.BoolVal(); ok {
		return Bool(!b)
	}
	if t.Op == ONot {
		return t.Args[0]
	}
	return mk(ONot, "", 0, types.Typ[types.Bool], nil, t)
}

// KnownNonNil reports whether t can't be nil by construction.
func (t *Term) KnownNonNil() bool {
	switch t.Op {
	case OIface, OObj, OFunc, OClosure, OGlobal, OFieldAddr, OIndexAddr, OMake, OStruct:
		return true
	case OSeq:
		return t.Aux != "" && t.Aux != "copy" || t.hasElem()
	case OCapped:
		return t.Args[0].KnownNonNil()
	case OField:
		// the type of a reflect.StructField
		return t.Aux == "2" && t.Args[0].Op == OApp && t.Args[0].Aux == "reflect.Field"
	case OApp:
		switch t.Aux {
		case "fmt.Errorf", "errors.New", "reflect.TypeOf!", "strings.NewReplacer", "reflect.VType", "reflect.In", "reflect.Out", "reflect.Elem", "reflect.Key":
			return true
		}
	case OConst:
		return true
	}
	return false
}

func (t *Term) hasElem() bool {
	for _, a := range t.Args {
		if a.Op != OSpread {
			return true
		}
	}
	return false
}

// Eq compares two values.
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == OConst && b.Op == OConst {
		if a.V.Kind() == b.V.Kind() {
			return Bool(constant.Compare(a.V, token.EQL, b.V))
		}
	}
	if a.Op == ONil && b.KnownNonNil() || b.Op == ONil && a.KnownNonNil() {
		return False
	}
	if a.Op == OCapped {
		return Eq(a.Args[0], b)
	}
	if b.Op == OCapped {
		return Eq(a, b.Args[0])
	}
	if a.Op == OIface && b.Op == OIface {
		if a.Aux != b.Aux {
			return False
		}
		return Eq(a.Args[0], b.Args[0])
	}
	if a.Op == OObj && b.Op == OObj {
		return False
	}
	if a.Op == OStruct && b.Op == OStruct && len(a.Args) == len(b.Args) {
		// unequal if any field is known to be unequal; equal fields are dropped
		var rest [][2]*Term
		for i := range a.Args {
			e := Eq(a.Args[i], b.Args[i])
			if e == False {
				return False
			}
			if e != True {
				rest = append(rest, [2]*Term{a.Args[i], b.Args[i]})
			}
		}
		if len(rest) == 0 {
			return True
		}
		if len(rest) == 1 {
			return Eq(rest[0][0], rest[0][1])
		}
	}
	if s, ok := b.StrVal(); ok && s == "" && a.Op == OConcat && concatNonEmpty(a) {
		return False
	}
	if s, ok := a.StrVal(); ok && s == "" && b.Op == OConcat && concatNonEmpty(b) {
		return False
	}
	// ints: x + n == m
	ba, na := a.split()
	bb, nb := b.split()
	if a.Op == OLin || b.Op == OLin {
		if ba != nil && ba == bb {
			return Bool(na == nb)
		}
		if ba == nil {
			return Eq(bb, Const(constant.MakeInt64(na-nb), bb.Typ))
		}
		if bb == nil {
			return Eq(ba, Const(constant.MakeInt64(nb-na), ba.Typ))
		}
	}
	// constants last
	if a.Op == OConst || a.Op == ONil {
		a, b = b, a
	}
	if b.Op != OConst && b.Op != ONil && a.ID > b.ID {
		a, b = b, a
	}
	return mk(OEq, "", 0, types.Typ[types.Bool], nil, a, b)
}

func concatNonEmpty(t *Term) bool {
	for _, a := range t.Args {
		if s, ok := a.StrVal(); ok && s != "" {
			return true
		}
	}
	return false
}

// Lt is a < b.
func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.Op == OConst && b.Op == OConst {
		return Bool(constant.Compare(a.V, token.LSS, b.V))
	}
	ba, na := a.split()
	bb, nb := b.split()
	if ba != nil && ba == bb && (a.Op == OLin || b.Op == OLin) {
		return Bool(na < nb)
	}
	return mk(OLt, "", 0, types.Typ[types.Bool], nil, a, b)
}

// Tuple makes a tuple.
func Tuple(args ...*Term) *Term { return mk(OTuple, "", 0, nil, nil, args...) }

// Iface makes an interface value.
func Iface(dyn types.Type, v *Term) *Term {
	return mk(OIface, typeKey(dyn), 0, dyn, dyn, v)
}

// Items returns the items of a sequence value, ok is false if t isn't one.
func Items(t *Term) []*Term {
	switch t.Op {
	case OSeq:
		return t.Args
	case ONil:
		return nil
	case OCapped:
		return Items(t.Args[0])
	}
	return []*Term{mk(OSpread, "", 0, t.Typ, nil, t)}
}

// Seq makes a sequence value. site is not empty if it's known to be not nil.
func Seq(site string, typ types.Type, items ...*Term) *Term {
	var out []*Term
	for _, it := range items {
		if it.Op == OSpread {
			in := it.Args[0]
			if in.Op == OCapped {
				in = in.Args[0]
			}
			switch in.Op {
			case ONil:
				continue
			case OSeq:
				out = append(out, in.Args...)
				continue
			case OMake:
				if n, ok := in.Args[0].IntVal(); ok && n == 0 {
					continue
				}
			}
			it = mk(OSpread, "", 0, in.Typ, nil, in)
		}
		out = append(out, it)
	}
	t := mk(OSeq, site, 0, typ, nil, out...)
	return t
}

// Len returns the length of a string, slice or map value.
func Len(t *Term) *Term {
	switch t.Op {
	case OConst:
		if s, ok := t.StrVal(); ok {
			return Int(int64(len(s)))
		}
	case ONil:
		return Int(0)
	case OMake:
		return t.Args[0]
	case OCapped:
		return Len(t.Args[0])
	case OSeq:
		sum := Int(0)
		for _, it := range t.Args {
			if it.Op == OSpread {
				sum = Add(sum, Len(it.Args[0]))
			} else {
				sum = Lin(sum, 1)
			}
		}
		return sum
	case OConcat:
		sum := Int(0)
		for _, it := range t.Args {
			sum = Add(sum, Len(it))
		}
		return sum
	case OSlice: // x lo hi max
		lo, hi := t.Args[1], t.Args[2]
		return Sub(hi, lo)
	case OConv:
		if t.Aux == "bytes" {
			return Len(t.Args[0])
		}
	}
	return mk(OLen, "", 0, types.Typ[types.Int], nil, t)
}

// Cap returns the capacity.
func Cap(t *Term) *Term {
	switch t.Op {
	case ONil:
		return Int(0)
	case OMake:
		return t.Args[1]
	case OCapped:
		return Len(t.Args[0])
	}
	return mk(OCap, "", 0, types.Typ[types.Int], nil, t)
}

// FieldOf projects a field of a struct value.
func FieldOf(v *Term, i int, typ types.Type) *Term {
	if v.Op == OStruct {
		return v.Args[i]
	}
	return mk(OField, strconv.Itoa(i), int64(i), typ, nil, v)
}

// Mentions reports whether t contains u.
func (t *Term) Mentions(u *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == u {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Walk calls f for all subterms, until it returns false for a branch.
func (t *Term) Walk(f func(t *Term) bool) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

// ObjsOf returns the objects mentioned by t.
func (t *Term) ObjsOf() map[*Term]bool { return t.objs }

// String renders the term for reports.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	as := func(i int) string { return t.Args[i].str(d + 1) }
	list := func() string {
		var ss []string
		for i := range t.Args {
			ss = append(ss, as(i))
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case OConst:
		return t.V.ExactString()
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + short(t.Aux) + ")"
	case OSym:
		return short(t.Aux)
	case OLam:
		return "λ" + short(t.Aux)
	case OFunc:
		return short(t.Aux)
	case OClosure:
		return "closure:" + short(t.Aux)
	case OObj:
		return "new#" + short(t.Aux)
	case OGlobal:
		return "&" + short(t.Aux)
	case OFieldAddr:
		return as(0) + "->" + fieldName(t.Aux)
	case OIndexAddr:
		return "&" + as(0) + "[" + as(1) + "]"
	case OLoad:
		if t.Args[0].Op == OFieldAddr {
			return t.Args[0].str(d + 1)
		}
		return "*" + as(0)
	case OField:
		return as(0) + "." + t.Aux
	case OStruct:
		return "{" + list() + "}"
	case OTuple:
		return "(" + list() + ")"
	case OIface:
		return "iface(" + as(0) + ")"
	case OConcat:
		var ss []string
		for i := range t.Args {
			ss = append(ss, as(i))
		}
		return strings.Join(ss, " ++ ")
	case OBin:
		if len(t.Args) == 2 {
			return "(" + as(0) + t.Aux + as(1) + ")"
		}
		return t.Aux + "(" + list() + ")"
	case OUn:
		return t.Aux + as(0)
	case OLen:
		return "len(" + as(0) + ")"
	case OCap:
		return "cap(" + as(0) + ")"
	case OSlice:
		return as(0) + "[" + as(1) + ":" + as(2) + "]"
	case OMake:
		return "make#" + short(t.Aux) + "(" + as(0) + ")"
	case OSeq:
		return "[" + list() + "]"
	case OSpread:
		return as(0) + "..."
	case OApp:
		return short(t.Aux) + "(" + list() + ")"
	case OEq:
		return as(0) + "==" + as(1)
	case OLt:
		return as(0) + "<" + as(1)
	case ONot:
		return "!(" + as(0) + ")"
	case OLin:
		return fmt.Sprintf("%s%+d", as(0), t.N)
	case OLookup:
		return as(0) + "[" + as(1) + "]"
	case OLookupOk:
		return "has(" + as(0) + "[" + as(1) + "])"
	case OAssert:
		return as(0) + ".(" + short(t.Aux) + ")"
	case OAssertOk:
		return "is(" + as(0) + "," + short(t.Aux) + ")"
	case OConv:
		return short(t.Aux) + "(" + as(0) + ")"
	case OCapped:
		return as(0) + "[::len]"
	}
	return fmt.Sprintf("op%d[%s](%s)", t.Op, short(t.Aux), list())
}

func fieldName(aux string) string {
	if i := strings.LastIndexByte(aux, '.'); i >= 0 {
		return aux[i+1:]
	}
	return aux
}

func short(s string) string {
	s = strings.ReplaceAll(s, "github.com/qjebbs/go-sqlf/v2/", "")
	s = strings.ReplaceAll(s, "github.com/qjebbs/go-sqlf/v2", "sqlf")
	return s
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
}

// Base is the term without a constant summand.
func Base(t *Term) *Term { b, _ := t.split(); return b }

// HasKey is the term for the key of a lookup being in the map.
func HasKey(lk *Term) *Term {
	return mk(OLookupOk, "", 0, types.Typ[types.Bool], nil, lk.Args...)
}

// NewList: the list is nil, empty without an array others have, or made by
// appending to such a list.
func NewList(t *Term) bool {
	switch t.Op {
	case ONil, OMake:
		return true
	case OSeq:
		return len(t.Args) == 0 || t.Args[0].Op != OSpread || t.Aux == "copy" || t.Aux == "nncopy"
	}
	return false
}

// AssertOk is the term for the value having the type.
func AssertOk(v *Term, t types.Type) *Term {
	return mk(OAssertOk, typeKey(t), 0, types.Typ[types.Bool], t, v)
}

// Assert is the term for the value as one of the type.
func Assert(v *Term, t types.Type) *Term {
	return mk(OAssert, typeKey(t), 0, t, t, v)
}

// TypeKey identifies a type.
func TypeKey(t types.Type) string { return typeKey(t) }

// AssertTo is the value of t as a T, which it's known to be.
func AssertTo(t *Term, T types.Type) *Term {
	return mk(OAssert, typeKey(T), 0, T, T, t)
}
