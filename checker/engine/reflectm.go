package engine

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kinds of basic types
var basicKinds = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32,
	types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32,
	types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32, types.Float64: reflect.Float64,
	types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

// KindOf is the reflect kind of a type.
func KindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicKinds[u.Kind()]
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

// KindSet returns the kinds the Kind term may have; all is true if unknown.
func (fs *Facts) KindSet(k *Term) map[reflect.Kind]bool {
	r := map[reflect.Kind]bool{}
	if n, ok := k.IntVal(); ok {
		r[reflect.Kind(n)] = true
		return r
	}
	// dynamic type known to be in a set
	if k.Op == OApp && k.Aux == "reflect.Kind" {
		a := k.Args[0]
		if a.Op == OApp && a.Aux == "reflect.TypeOf" {
			if fs.IsNil(a.Args[0]) {
				r[reflect.Invalid] = true
				return r
			}
			if neg, ts, ok := fs.TypeSet(a.Args[0]); ok && !neg {
				for _, t := range ts {
					r[KindOf(t)] = true
				}
				return fs.kindFilter(k, r)
			}
		}
	}
	for i := reflect.Invalid; i <= reflect.UnsafePointer; i++ {
		r[i] = true
	}
	return fs.kindFilter(k, r)
}

func (fs *Facts) kindFilter(k *Term, r map[reflect.Kind]bool) map[reflect.Kind]bool {
	for i := range r {
		if n := Int(int64(i)); fs.leq(k, n, -1) || fs.leq(n, k, -1) {
			delete(r, i)
		}
	}
	neg, set, ok := fs.CSet(k)
	if !ok {
		return r
	}
	in := map[reflect.Kind]bool{}
	for _, v := range set {
		if n, ok := v.IntVal(); ok {
			in[reflect.Kind(n)] = true
		}
	}
	out := map[reflect.Kind]bool{}
	for kk := range r {
		if in[kk] != neg {
			out[kk] = true
		}
	}
	return out
}

func subset(a map[reflect.Kind]bool, ks ...reflect.Kind) bool {
	for k := range a {
		ok := false
		for _, kk := range ks {
			if k == kk {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// NumberKinds are the number kinds.
var NumberKinds = []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64}

// TypeTerm is the reflect.Type of a static type.
func TypeTerm(t types.Type) *Term {
	return mk(OSym, "rtype:"+typeKey(t), 0, nil, t)
}

func typeOfTerm(i *Term) *Term {
	if i.Op == OIface {
		return TypeTerm(i.Ref.(types.Type))
	}
	return App("reflect.TypeOf", nil, i)
}

// KindTerm is the kind of a reflect type term.
func KindTerm(t *Term) *Term {
	if t.Op == OSym && strings.HasPrefix(t.Aux, "rtype:") {
		return Int(int64(KindOf(t.Ref.(types.Type))))
	}
	return App("reflect.Kind", types.Typ[types.Uint], t)
}

// vType is the type of a reflect.Value term.
func vType(v *Term) *Term {
	if v.Op == OApp {
		switch v.Aux {
		case "reflect.ValueOf":
			return typeOfTerm(v.Args[0])
		case "reflect.Convert":
			return v.Args[1]
		case "reflect.Zero":
			return v.Args[0]
		}
	}
	return App("reflect.VType", nil, v)
}

func (f *fctx) reflectType(es *estate, m string, recv *Term, args []*Term, site string, pos token.Pos, sig *types.Signature, c *ssa.CallCommon) *Term {
	x := f.x
	var in ssa.Instruction
	for _, b := range f.fn.Blocks {
		for _, i := range b.Instrs {
			if ci, isC := i.(ssa.CallInstruction); isC && ci.Common() == c {
				in = i
			}
		}
	}
	kinds := es.Facts.KindSet(KindTerm(recv))
	ob := func(kind string, ok bool) { x.oblige(f, es, in, pos, kind, ok) }
	rt := resType(sig)
	switch m {
	case "Kind":
		return KindTerm(recv)
	case "NumIn", "NumOut", "IsVariadic":
		ob("reflect.Type."+m+" of non-func", subset(kinds, reflect.Func))
		t := App("reflect."+m, rt, recv)
		return t
	case "In", "Out":
		ob("reflect.Type."+m+" of non-func", subset(kinds, reflect.Func))
		n := App("reflect.Num"+m, types.Typ[types.Int], recv)
		ob("reflect.Type."+m+" index out of range", es.Facts.leq(Int(0), args[0], 0) && es.Facts.leq(args[0], n, -1))
	case "Elem":
		if recv.Op == OSym && strings.HasPrefix(recv.Aux, "rtype:") {
			switch u := recv.Ref.(types.Type).Underlying().(type) {
			case *types.Pointer:
				return TypeTerm(u.Elem())
			case *types.Slice:
				return TypeTerm(u.Elem())
			}
		}
		ob("reflect.Type.Elem of wrong kind", subset(kinds, reflect.Array, reflect.Chan, reflect.Map, reflect.Pointer, reflect.Slice) || x.variadicIn(es, recv))
	case "NumField":
		ob("reflect.Type.NumField of non-struct", subset(kinds, reflect.Struct))
	case "Field":
		ob("reflect.Type.Field of non-struct", subset(kinds, reflect.Struct))
		n := App("reflect.NumField", types.Typ[types.Int], recv)
		ob("reflect.Type.Field index out of range", es.Facts.leq(Int(0), args[0], 0) && es.Facts.leq(args[0], n, -1))
	case "Bits":
		ob("reflect.Type.Bits of wrong kind", subset(kinds, append([]reflect.Kind{reflect.Complex64, reflect.Complex128}, NumberKinds...)...))
	case "Len":
		ob("reflect.Type.Len of non-array", subset(kinds, reflect.Array))
	case "Key":
		ob("reflect.Type.Key of non-map", subset(kinds, reflect.Map))
	}
	return App("reflect."+m, rt, append([]*Term{recv}, args...)...)
}

// variadicIn reports whether t is the type of the last parameter of a variadic function.
func (x *Engine) variadicIn(es *estate, t *Term) bool {
	if x.VariadicElem != nil && x.VariadicElem(es.State, t) {
		return true
	}
	if t.Op == OApp && t.Aux == "reflect.In" {
		fn := t.Args[0]
		v, ok := es.Facts.Eval(App("reflect.IsVariadic", types.Typ[types.Bool], fn))
		if ok && v {
			n := App("reflect.NumIn", types.Typ[types.Int], fn)
			return es.Facts.leq(t.Args[1], n, -1) && es.Facts.leq(n, t.Args[1], 1)
		}
	}
	return false
}

func (f *fctx) reflect(es *estate, name string, args []*Term, site string, pos token.Pos, sig *types.Signature, ob func(string, bool)) ([]callResult, bool) {
	x := f.x
	one := func(t *Term) ([]callResult, bool) { return f.one(es, t), true }
	m := name[strings.LastIndexByte(name, '.')+1:]
	rt := resType(sig)
	if strings.HasPrefix(name, "reflect.") {
		switch m {
		case "TypeOf":
			return one(typeOfTerm(args[0]))
		case "ValueOf":
			return one(App("reflect.ValueOf", rt, args[0]))
		case "Zero":
			return one(App("reflect.Zero", rt, args[0]))
		case "Indirect":
			k := Eq(KindTerm(vType(args[0])), Int(int64(reflect.Pointer)))
			var rs []callResult
			if p := es.clone(); p.Facts.Assume(k, true) {
				rs = append(rs, callResult{p, App("(reflect.Value).Elem", rt, args[0])})
			}
			if es.Facts.Assume(k, false) {
				rs = append(rs, callResult{es, args[0]})
			}
			return rs, true
		}
		return nil, false
	}
	v := args[0]
	kinds := es.Facts.KindSet(KindTerm(vType(v)))
	invalid := v.Op == OZero
	if v.Op == OApp && v.Aux == "reflect.ValueOf" {
		// nil has no type
		if es.Facts.IsNil(v.Args[0]) {
			invalid = true
		}
	}
	if _, ok := kinds[reflect.Invalid]; ok && x.validValue(es, v) {
		delete(kinds, reflect.Invalid)
	}
	switch m {
	case "IsValid":
		if invalid {
			return one(False)
		}
		if x.validValue(es, v) {
			return one(True)
		}
		return one(Not(Eq(KindTerm(vType(v)), Int(0))))
	case "Kind":
		if invalid {
			return one(Int(0))
		}
		return one(KindTerm(vType(v)))
	case "Type":
		ob("reflect.Value.Type of invalid value", !kinds[reflect.Invalid] && !invalid)
		return one(vType(v))
	case "Interface":
		ob("reflect.Value.Interface of invalid or unexported value", !kinds[reflect.Invalid] && !invalid)
		if v.Op == OApp && v.Aux == "reflect.ValueOf" {
			return one(v.Args[0])
		}
		return one(App("reflect.Interface", rt, v))
	case "IsNil":
		ob("reflect.Value.IsNil of wrong kind", subset(kinds, reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer))
	case "Len":
		ob("reflect.Value.Len of wrong kind", subset(kinds, reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String))
		return one(App("reflect.Len", rt, v))
	case "Index":
		ob("reflect.Value.Index of wrong kind", subset(kinds, reflect.Array, reflect.Slice, reflect.String))
		n := App("reflect.Len", types.Typ[types.Int], v)
		ob("reflect.Value.Index out of range", es.Facts.leq(Int(0), args[1], 0) && es.Facts.leq(args[1], n, -1))
	case "Elem":
		ob("reflect.Value.Elem of wrong kind", subset(kinds, reflect.Interface, reflect.Pointer))
	case "Bool":
		ob("reflect.Value.Bool of wrong kind", subset(kinds, reflect.Bool))
	case "Int":
		ob("reflect.Value.Int of wrong kind", subset(kinds, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64))
	case "Uint":
		ob("reflect.Value.Uint of wrong kind", subset(kinds, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr))
	case "Float":
		ob("reflect.Value.Float of wrong kind", subset(kinds, reflect.Float32, reflect.Float64))
	case "Convert":
		to := es.Facts.KindSet(KindTerm(args[1]))
		nk := append([]reflect.Kind{}, NumberKinds...)
		ok := subset(kinds, nk...) && subset(to, nk...) || subset(kinds, reflect.Bool) && subset(to, reflect.Bool) || subset(kinds, reflect.String) && subset(to, reflect.String)
		if args[1] == vType(v) {
			ok = true
		}
		// back to the type it comes from
		if w := v; w.Op == OApp && w.Aux == "reflect.Convert" && args[1] == vType(w.Args[0]) {
			ok = true
		}
		ob("reflect.Value.Convert to incompatible type", ok && !invalid)
		return one(App("reflect.Convert", rt, v, args[1]))
	case "Call":
		ev := &Event{Kind: EvCustom, Name: "reflect.Value.Call", Recv: v, Args: args[1:]}
		return f.event(es, ev, sig, site, pos, f.curOut), true
	case "NumField", "Field":
		ob("reflect.Value."+m+" of non-struct", subset(kinds, reflect.Struct))
	case "MapKeys", "MapIndex", "MapRange":
		ob("reflect.Value."+m+" of non-map", subset(kinds, reflect.Map))
	}
	return nil, false
}

// validValue reports whether a reflect.Value is known to be valid.
func (x *Engine) validValue(es *estate, v *Term) bool {
	if v.Op == OZero {
		return false
	}
	if v.Op == OApp {
		switch v.Aux {
		case "reflect.ValueOf":
			a := v.Args[0]
			return a.Op == OIface || es.Facts.NonNil(a)
		case "reflect.Convert", "reflect.Zero", "reflect.Index":
			return true
		}
	}
	return false
}
