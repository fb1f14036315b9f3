package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/engine"
)

// safety decides whether the functions of a package may panic: every construct
// that panics unless a condition holds has to be known to be safe by the facts
// of all partitions that get there. What is known about values that a function
// finds in memory are invariants: candidates, each of which is assumed until a
// function breaks it, then everything is done again without it.
type safety struct {
	c      *C
	pkgs   []*ssa.Package     // the ones with the entries
	fields map[string]bool    // "pkg.S.f": never nil
	elems  map[string]bool    // element types of lists and maps: never nil
	params map[string]bool    // "func#i": never nil
	enums  map[string]int64   // "pkg.S.f": between 0 and this
	heirs  map[string]bool    // "pkg.S.f": not nil where the link to the parent is nil
	pairs  map[[2]string]bool // where the map has an element, the list has one
	rels   map[rel]bool       // relations of the fields of a struct
	boxed  map[string]bool    // pointer types that are never nil in an interface
	rtypes bool               // element i of a list of types in a struct is In(i) of the function
	flags  map[string]bool    // "pkg.S.f": bools that the relations depend on
	lost   bool
	busy   bool
	vars   map[string]bool // "pkg.S.f": whether the function is variadic
	runs   []*Run
	done   map[*ssa.Function]bool
	asVal  map[*ssa.Function]bool
	pure   map[*ssa.Function]bool // called, but not inlined
}

// rel is a relation of fields (by index) of a struct:
//
//	len   len(a) == b
//	le    a <= b
//	some  if v then b >= 1
//	less  if v then a == b-1
//	same  if not v then a == b
type rel struct {
	kind    string
	n       *types.Named
	a, b, v int
}

func (s *safety) relations(n *types.Named) {
	st := n.Underlying().(*types.Struct)
	var ints, bools, lists []int
	for i := 0; i < st.NumFields(); i++ {
		switch t := st.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if t.Kind() == types.Int {
				ints = append(ints, i)
			} else if t.Kind() == types.Bool {
				bools = append(bools, i)
			}
		case *types.Slice:
			lists = append(lists, i)
		}
	}
	if len(ints) == 0 || n.Obj().Exported() {
		return
	}
	for _, b := range ints {
		for _, a := range lists {
			s.rels[rel{"len", n, a, b, 0}] = true
		}
		for _, v := range bools {
			s.rels[rel{"some", n, 0, b, v}] = true
			for _, a := range ints {
				if a != b {
					s.rels[rel{"less", n, a, b, v}] = true
					s.rels[rel{"same", n, a, b, v}] = true
				}
			}
		}
		for _, a := range ints {
			if a != b {
				s.rels[rel{"le", n, a, b, 0}] = true
			}
		}
	}
}

// assumeRels: what is known about an object by the relations of its type.
func (s *safety) assumeRels(x *engine.Engine, st *State, addr *T) {
	if s.busy {
		return
	}
	s.busy = true
	defer func() { s.busy = false }()
	n := s.owner(addr)
	if n == nil {
		return
	}
	str := n.Underlying().(*types.Struct)
	load := func(i int) *T { return x.Load(st, x.FieldAddr(addr.Args[0], n, i), str.Field(i).Type()) }
	for r := range s.rels {
		if r.n != n {
			continue
		}
		v, known := false, false
		if r.kind != "len" && r.kind != "le" {
			v, known = st.Facts.Eval(load(r.v))
		}
		switch {
		case r.kind == "len":
			l, b := engine.Len(load(r.a)), load(r.b)
			st.Facts.AssumeLeq(l, b)
			st.Facts.AssumeLeq(b, l)
		case r.kind == "le":
			st.Facts.AssumeLeq(load(r.a), load(r.b))
		case r.kind == "some" && known && v:
			st.Facts.AssumeLeq(engine.Int(1), load(r.b))
		case r.kind == "less" && known && v:
			st.Facts.AssumeLeq(load(r.a), engine.Lin(load(r.b), -1))
			st.Facts.AssumeLeq(engine.Lin(load(r.b), -1), load(r.a))
		case r.kind == "same" && known && !v:
			st.Facts.AssumeLeq(load(r.a), load(r.b))
			st.Facts.AssumeLeq(load(r.b), load(r.a))
		}
	}
}

// leaveRels: the relations of an object that has been made, or changed.
func (s *safety) leaveRels(r *Run, st *State, o *T, n *types.Named) {
	str := n.Underlying().(*types.Struct)
	load := func(i int) *T { return r.X.Load(st, r.X.FieldAddr(o, n, i), str.Field(i).Type()) }
	for k := range s.rels {
		if k.n != n {
			continue
		}
		f := st.Facts
		if k.kind != "len" && k.kind != "le" {
			v := load(k.v)
			f = f.Clone()
			if !f.Assume(v, k.kind != "same") {
				continue
			}
			if v.Op == engine.OApp && v.Aux == "reflect.IsVariadic" && k.kind != "same" {
				if !f.AssumeLeq(engine.Int(1), engine.App("reflect.NumIn", types.Typ[types.Int], v.Args[0])) {
					continue // a variadic function has a param
				}
			}
		}
		ok := true
		switch k.kind {
		case "len":
			l, b := engine.Len(load(k.a)), load(k.b)
			ok = f.LeqK(l, b, 0) && f.LeqK(b, l, 0)
		case "le":
			ok = f.LeqK(load(k.a), load(k.b), 0)
		case "some":
			ok = f.LeqK(engine.Int(1), load(k.b), 0)
		case "less":
			ok = f.LeqK(load(k.a), load(k.b), -1) && f.LeqK(load(k.b), load(k.a), 1)
		case "same":
			ok = f.LeqK(load(k.a), load(k.b), 0) && f.LeqK(load(k.b), load(k.a), 0)
		}
		if !ok {
			s.lose("relation", func() { delete(s.rels, k) }, "%s %s.%d %d %d by %s", k.kind, n, k.a, k.b, k.v, r.Fn)
		}
	}
}

// variadicElem: t is the type of the last param of a function that is variadic.
func (s *safety) variadicElem(x *engine.Engine, st *State, t *T) bool {
	if !s.rtypes || s.busy {
		return false
	}
	list, idx := elemRef(t)
	if list == nil {
		return false
	}
	check := func(o *T, n *types.Named) bool {
		str := n.Underlying().(*types.Struct)
		load := func(i int) *T { return x.Load(st, x.FieldAddr(o, n, i), str.Field(i).Type()) }
		found := false
		for i := 0; i < str.NumFields(); i++ {
			if _, ok := str.Field(i).Type().Underlying().(*types.Slice); ok && load(i) == list {
				found = true
			}
		}
		if !found {
			return false
		}
		for i := 0; i < str.NumFields(); i++ {
			if !types.Identical(str.Field(i).Type(), types.Typ[types.Bool]) || !s.vars[fieldKey(n, str.Field(i).Name())] {
				continue
			}
			if v, ok := st.Facts.Eval(load(i)); ok && v && st.Facts.LeqK(engine.Len(list), idx, 1) {
				return true
			}
		}
		return false
	}
	if list.Op == engine.OLoad && list.Args[0].Op == engine.OFieldAddr {
		if n := s.owner(list.Args[0]); n != nil {
			return check(list.Args[0].Args[0], n)
		}
		return false
	}
	for o := range st.Fresh {
		if n := objStruct(o); n != nil && check(o, n) {
			return true
		}
	}
	return false
}

// objStruct is the named struct type of an object.
func objStruct(o *T) *types.Named {
	if o.Op != engine.OObj || o.Typ == nil {
		return nil
	}
	pt, ok := o.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		return true
	}
	return false
}

// fieldKey is the name of a field in its address.
func fieldKey(n *types.Named, f string) string {
	return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + f
}

func (s *safety) structs(p *ssa.Package) []*types.Named {
	var out []*types.Named
	sc := p.Pkg.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok || n.TypeParams().Len() > 0 {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); ok {
			out = append(out, n)
		}
	}
	return out
}

// enumMax is the largest constant of a named integer type.
func (s *safety) enumMax(t types.Type) (int64, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return 0, false
	}
	if b, ok := n.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	max, found := int64(0), false
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if k, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(k.Type(), n) {
			if v, ok := engine.Const(k.Val(), k.Type()).IntVal(); ok {
				found = true
				if v > max {
					max = v
				}
			}
		}
	}
	return max, found
}

func (c *C) newSafety(pkgs ...*ssa.Package) *safety {
	s := &safety{c: c, pkgs: pkgs, fields: map[string]bool{}, elems: map[string]bool{}, params: map[string]bool{}, enums: map[string]int64{},
		heirs: map[string]bool{}, pairs: map[[2]string]bool{}, asVal: map[*ssa.Function]bool{}, pure: map[*ssa.Function]bool{},
		rels: map[rel]bool{}, boxed: map[string]bool{}, rtypes: true, vars: map[string]bool{}}
	for _, p := range []*ssa.Package{c.P.Root, c.P.Synt, c.P.Sqlb, c.P.Util} {
		for _, n := range s.structs(p) {
			st := n.Underlying().(*types.Struct)
			s.relations(n)
			self := false
			for i := 0; i < st.NumFields(); i++ {
				if pt, ok := st.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), n) {
					self = true
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				k := fieldKey(n, f.Name())
				if f.Exported() && n.Obj().Exported() && n.Obj().Name() != "FragmentContext" {
					continue // callers may change it
				}
				if nilable(f.Type()) {
					if f.Embedded() && f.Exported() {
						continue
					}
					if isRepoIface(f.Type()) != "" && !self {
						continue // what callers pass
					}
					s.fields[k] = true
					if self {
						s.heirs[k] = true
					}
				}
				if types.Identical(f.Type(), types.Typ[types.Bool]) {
					s.vars[k] = true
				}
				if m, ok := s.enumMax(f.Type()); ok {
					s.enums[k] = m
				}
				if _, ok := f.Type().Underlying().(*types.Map); ok {
					for j := 0; j < st.NumFields(); j++ {
						if _, ok := st.Field(j).Type().Underlying().(*types.Slice); ok {
							s.pairs[[2]string{k, fieldKey(n, st.Field(j).Name())}] = true
						}
					}
				}
			}
		}
	}
	// lists and maps that callers can't make
	public := map[string]bool{}
	note := func(t types.Type) {
		switch t := t.(type) {
		case *types.Slice:
			public[engine.TypeKey(t.Elem())] = true
		case *types.Map:
			public[engine.TypeKey(t.Elem())] = true
		}
	}
	for _, p := range []*ssa.Package{c.P.Root, c.P.Sqlb, c.P.Util} {
		for _, n := range s.structs(p) {
			st := n.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Exported() && n.Obj().Exported() {
					note(st.Field(i).Type())
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		if o := fn.Object(); o != nil && o.Exported() {
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				note(fn.Signature.Params().At(i).Type())
			}
		}
	}
	elem := func(t types.Type) {
		k := engine.TypeKey(t)
		if nilable(t) && !public[k] {
			if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
				return
			}
			s.elems[k] = true
		}
	}
	for _, p := range []*ssa.Package{c.P.Root, c.P.Synt, c.P.Sqlb, c.P.Util} {
		for _, n := range s.structs(p) {
			st := n.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				switch t := st.Field(i).Type().Underlying().(type) {
				case *types.Slice:
					elem(t.Elem())
				case *types.Map:
					elem(t.Elem())
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		for i, p := range fn.Params {
			if nilable(p.Type()) && fn.Synthetic == "" {
				if fn.Signature.Recv() != nil && i == 0 && (fn.Name() == "BuildFragment" || fn.Name() == "BuildQuery") && exportedRecv(fn) {
					continue
				}
				if fn.Object() != nil && fn.Object().Exported() && exportedRecv(fn) && !(i == 0 && fn.Signature.Recv() != nil) && !engine.IsContextPtr(p.Type()) {
					continue // callers pass anything
				}
				if i > 0 && s.implements(fn) && !engine.IsContextPtr(p.Type()) {
					continue
				}
				s.params[paramKey(fn, i)] = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if _, ok := mi.X.Type().(*types.Pointer); ok {
						k := engine.TypeKey(mi.X.Type())
						if old, seen := s.boxed[k]; !seen || old {
							_, s.boxed[k] = mi.X.(*ssa.Alloc)
						}
					}
				}
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						s.asVal[f] = true
					}
				}
			}
		}
	}
	return s
}

// exportedRecv: the function has no receiver, or one of an exported type.
func exportedRecv(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return true
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Exported()
}

func paramKey(fn *ssa.Function, i int) string { return fmt.Sprintf("%s#%d", fn, i) }

// isRepoIface is the name of an exported interface of the repository.
func isRepoIface(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !n.Obj().Exported() || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "go-sqlf") {
		return ""
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		return ""
	}
	return n.Obj().Name()
}

func (s *safety) lose(kind string, drop func(), format string, args ...any) {
	drop()
	s.lost = true
	if os.Getenv("SAFE_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "lost: %s: %s\n", kind, fmt.Sprintf(format, args...))
	}
}

// assume is what is known about a value that has been found in memory.
func (s *safety) assume(x *engine.Engine, st *State, t *T) {
	if t.Typ == nil {
		return
	}
	nonNil := func() { st.Facts.Assume(engine.Eq(t, engine.Nil), false) }
	switch t.Op {
	case engine.OLoad:
		a := t.Args[0]
		switch a.Op {
		case engine.OFieldAddr:
			if s.fields[a.Aux] && nilable(t.Typ) {
				nonNil()
			}
			if m, ok := s.enums[a.Aux]; ok {
				st.Facts.AssumeLeq(t, engine.Int(m))
				st.Facts.AssumeLeq(engine.Int(0), t)
			}
			if s.heirs[a.Aux] && !s.fields[a.Aux] {
				if p := s.parent(x, st, a); p != nil && st.Facts.IsNil(p) {
					nonNil()
				}
			}
			if len(s.rels) > 0 {
				s.assumeRels(x, st, a)
			}
			for k := range s.pairs {
				if k[1] == a.Aux && s.hasElem(st, a.Args[0], k[0]) {
					st.Facts.AssumeLeq(engine.Int(1), engine.Len(t))
				}
			}
		case engine.OIndexAddr:
			if s.elems[engine.TypeKey(t.Typ)] {
				nonNil()
			}
		}
	case engine.OApp:
		if strings.HasPrefix(t.Aux, "next.val:") && s.elems[engine.TypeKey(t.Typ)] {
			nonNil()
		}
	}
}

// hasElem: a lookup in the map a field of the object holds is known to have found something.
func (s *safety) hasElem(st *State, obj *T, field string) bool {
	for l, v := range st.Facts.Lits() {
		if v && l.Op == engine.OLookupOk {
			if m := l.Args[0]; m.Op == engine.OLoad && m.Args[0].Op == engine.OFieldAddr && m.Args[0].Aux == field && m.Args[0].Args[0] == obj {
				return true
			}
		}
	}
	return false
}

// parent is the field of the same object that refers to an object of its type.
func (s *safety) parent(x *engine.Engine, st *State, addr *T) *T {
	n := s.owner(addr)
	if n == nil {
		return nil
	}
	str := n.Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		if pt, ok := str.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), n) {
			return x.Load(st, x.FieldAddr(addr.Args[0], n, i), str.Field(i).Type())
		}
	}
	return nil
}

// owner is the struct type of a field address.
func (s *safety) owner(addr *T) *types.Named {
	for _, p := range []*ssa.Package{s.c.P.Root, s.c.P.Synt, s.c.P.Sqlb, s.c.P.Util} {
		for _, n := range s.structs(p) {
			if i := int(addr.N); i < n.Underlying().(*types.Struct).NumFields() && fieldKey(n, n.Underlying().(*types.Struct).Field(i).Name()) == addr.Aux {
				return n
			}
		}
	}
	return nil
}

func (s *safety) stored(st *State, addr, val *T, fn *ssa.Function) {
	if addr.Op == engine.OFieldAddr {
		k := addr.Aux
		if s.fields[k] && val.Typ != nil && !st.Facts.NonNil(val) {
			s.lose("field", func() { delete(s.fields, k) }, "%s by %s: %s", k, fn, val)
		}
		if m, ok := s.enums[k]; ok && !(st.Facts.LeqK(val, engine.Int(m), 0) && st.Facts.LeqK(engine.Int(0), val, 0)) {
			s.lose("enum", func() { delete(s.enums, k) }, "%s by %s: %s", k, fn, val)
		}
	}
	if addr.Op == engine.OFieldAddr && s.vars[addr.Aux] && !(val.Op == engine.OApp && val.Aux == "reflect.IsVariadic") {
		delete(s.vars, addr.Aux)
		s.lost = true
	}
	if pt, ok := addr.Typ.(*types.Pointer); ok && addr.Op == engine.OIndexAddr && s.rtypes && engine.TypeKey(pt.Elem()) == "reflect.Type" {
		if !(val.Op == engine.OApp && (val.Aux == "reflect.In" || val.Aux == "reflect.Out") && val.Args[1] == addr.Args[1]) {
			s.lose("types", func() { s.rtypes = false }, "by %s: %s", fn, val)
		}
	}
	if addr.Op == engine.OIndexAddr && addr.Typ != nil {
		if pt, ok := addr.Typ.(*types.Pointer); ok {
			s.elem(st, pt.Elem(), val, fn)
		}
	}
}

func (s *safety) elem(st *State, t types.Type, val *T, fn *ssa.Function) {
	k := engine.TypeKey(t)
	if s.elems[k] && !st.Facts.NonNil(val) {
		s.lose("element", func() { delete(s.elems, k) }, "%s by %s: %s", k, fn, val)
	}
}

// leave is what must hold for the objects that a function has made.
// An object that is older than the loop (start) is yet to be finished after it.
func (s *safety) leave(r *Run, st, start *State) {
	for o := range st.Fresh {
		n := objStruct(o)
		if n == nil || start != nil && start.Fresh[o] {
			continue
		}
		str := n.Underlying().(*types.Struct)
		s.leaveRels(r, st, o, n)
		for i := 0; i < str.NumFields(); i++ {
			k := fieldKey(n, str.Field(i).Name())
			a := r.X.FieldAddr(o, n, i)
			if s.fields[k] {
				if v := r.X.Load(st, a, str.Field(i).Type()); !st.Facts.NonNil(v) {
					s.lose("field", func() { delete(s.fields, k) }, "%s made by %s: %s", k, r.Fn, v)
				}
			}
			if s.heirs[k] {
				v := r.X.Load(st, a, str.Field(i).Type())
				if p := s.parent(r.X, st, a); p != nil && !st.Facts.NonNil(p) && !st.Facts.NonNil(v) {
					s.lose("heir", func() { delete(s.heirs, k) }, "%s made by %s: %s", k, r.Fn, v)
				}
			}
		}
	}
}

// leavePairs: lists that must have an element since the map has one.
func (s *safety) leavePairs(r *Run, st *State) {
	if len(r.Args) == 0 || r.Args[0].Typ == nil {
		return
	}
	pt, ok := r.Args[0].Typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return
	}
	str, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	idx := map[string]int{}
	for i := 0; i < str.NumFields(); i++ {
		idx[fieldKey(n, str.Field(i).Name())] = i
	}
	for k := range s.pairs {
		i, ok1 := idx[k[0]]
		j, ok2 := idx[k[1]]
		if !ok1 || !ok2 {
			continue
		}
		load := func(st *State, i int) *T {
			return r.X.Load(st, r.X.FieldAddr(r.Args[0], n, i), str.Field(i).Type())
		}
		m, l := load(st, i), load(st, j)
		m0, l0 := load(r.Base, i), load(r.Base, j)
		if m == m0 && r.X.MapVer(st, m) == r.X.MapVer(r.Base, m0) && l == l0 {
			continue
		}
		if m.Op == engine.OObj && m.Typ != nil && r.X.LenOf(st, m) == engine.Int(0) {
			continue
		}
		if !st.Facts.LeqK(engine.Int(1), engine.Len(l), 0) {
			s.lose("pair", func() { delete(s.pairs, k) }, "%v by %s: %s", k, r.Fn, l)
		}
	}
}

// calls: what the callee assumes about its params.
func (s *safety) calls(r *Run) {
	eachEvent(r, func(st *State, ev *Event, _ string, o *engine.Outcome, b *engine.Back) {
		if ev.Fn == nil || ev.Kind == engine.EvErr {
			return
		}
		as := ev.Args
		if ev.Recv != nil && ev.Fn.Signature.Recv() != nil && len(as) == len(ev.Fn.Params)-1 {
			as = append([]*T{ev.Recv}, as...)
		}
		for i := range ev.Fn.Params {
			k := paramKey(ev.Fn, i)
			if !s.params[k] {
				continue
			}
			if ev.Fn.Signature.Recv() != nil && i == 0 && ev.Fn.Object() != nil && ev.Fn.Object().Exported() && exportedRecv(ev.Fn) {
				continue
			}
			if engine.IsContextPtr(ev.Fn.Params[i].Type()) {
				continue // a context is never nil
			}
			if i >= len(as) || !st.Facts.NonNil(as[i]) {
				s.lose("param", func() { delete(s.params, k) }, "%s by %s", k, r.Fn)
			}
		}
	})
}

func (s *safety) analyse(fn *ssa.Function) *Run {
	s.done[fn] = true
	c := s.c
	delete(c.runs, fn.String()+"|safe")
	r := c.AnalyseWith(fn, "safe", nil, func(r *Run, st *State) {
		x := r.X
		x.KeepLit = func(t *T) bool {
			return t.Op == engine.OLoad && t.Args[0].Op == engine.OFieldAddr && s.flags[t.Args[0].Aux]
		}
		x.OnPure = func(st *State, callee *ssa.Function, args []*T) {
			s.pure[callee] = true
			for i := range callee.Params {
				if k := paramKey(callee, i); s.params[k] && (i >= len(args) || !st.Facts.NonNil(args[i])) {
					s.lose("param", func() { delete(s.params, k) }, "%s by %s: %v", k, fn, args)
				}
			}
		}
		x.VariadicElem = func(st *State, t *T) bool { return s.variadicElem(x, st, t) }
		x.OnLoad = func(st *State, t *T) { s.assume(x, st, t) }
		x.OnStore = func(st *State, addr, val *T, fn *ssa.Function, pos token.Pos) { s.stored(st, addr, val, fn) }
		x.OnElem = func(st *State, t types.Type, val *T, fn *ssa.Function, pos token.Pos) {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				s.elem(st, u.Elem(), val, fn)
			case *types.Map:
				s.elem(st, u.Elem(), val, fn)
			case *types.Pointer:
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					s.elem(st, a.Elem(), val, fn)
				}
			}
		}
		for i, a := range r.Args {
			if s.params[paramKey(fn, i)] {
				st.Facts.Assume(engine.Eq(a, engine.Nil), false)
			}
		}
	})
	s.runs = append(s.runs, r)
	for _, o := range r.Outs {
		if !o.Panic {
			s.leave(r, o.St, nil)
			s.leavePairs(r, o.St)
		}
	}
	for _, k := range sortedSums(r.X.Sums) {
		for _, b := range r.X.Sums[k].Backs {
			s.leave(r, b.St, r.X.Sums[k].Start)
		}
	}
	s.calls(r)
	return r
}

// entries are the functions that are called from elsewhere, or not as a part of another one.
func (s *safety) entries() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range s.c.P.Funcs {
		if fn.Synthetic != "" || fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Name() == "init" {
			continue
		}
		if o := fn.Object(); o != nil && o.Exported() && exportedRecv(fn) || engine.IsBuild(fn) || s.asVal[fn] || s.implements(fn) {
			out = append(out, fn)
		}
	}
	return out
}

// implements reports whether the method may be called by an interface of the repo.
func (s *safety) implements(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return false
	}
	for _, p := range []*ssa.Package{s.c.P.Root, s.c.P.Sqlb} {
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			i, ok := t.Type().Underlying().(*types.Interface)
			if !ok || !types.Implements(recv.Type(), i) {
				continue
			}
			for k := 0; k < i.NumMethods(); k++ {
				if i.Method(k).Name() == fn.Name() {
					return true
				}
			}
		}
	}
	return false
}

// predicates are the predicates on types that decide what's hashed.
func (s *safety) predicates() {
	for fn := range s.pure {
		sig := fn.Signature
		if sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Params().At(0).Type().String() != "reflect.Type" {
			continue
		}
		s.c.Count("predicates on types", 1)
		s.c.predicate(fn, true)
	}
}

func (s *safety) in(fn *ssa.Function) bool {
	for _, p := range s.pkgs {
		if pkgOf(fn) == p {
			return true
		}
	}
	return false
}

func (s *safety) run() {
	synt := s.c.P.Synt.Pkg
	engine.BoxedNonNil = func(t types.Type) bool {
		pt, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := types.Unalias(pt.Elem()).(*types.Named)
		return ok && n.Obj().Pkg() == synt && s.boxed[engine.TypeKey(t)]
	}
	engine.ElemNonNil = func(t types.Type) bool { return s.elems[engine.TypeKey(t)] }
	defer func() { engine.ElemNonNil, engine.BoxedNonNil = nil, nil }()
	for round := 0; ; round++ {
		s.lost, s.runs, s.done = false, nil, map[*ssa.Function]bool{}
		todo := s.entries()
		s.flags = map[string]bool{}
		for r := range s.rels {
			if r.kind != "len" && r.kind != "le" {
				s.flags[fieldKey(r.n, r.n.Underlying().(*types.Struct).Field(r.v).Name())] = true
			}
		}
		for len(todo) > 0 {
			fn := todo[0]
			todo = todo[1:]
			if s.done[fn] || pkgOf(fn) == s.c.P.Synt || pkgOf(fn) == s.c.P.Util {
				continue
			}
			r := s.analyse(fn)
			// recursive functions, on their own
			eachEvent(r, func(_ *State, ev *Event, _ string, _ *engine.Outcome, _ *engine.Back) {
				if ev.Fn != nil && ev.Kind != engine.EvErr && !s.done[ev.Fn] && s.c.P.InRepo(ev.Fn) && ev.Fn.Parent() == nil && len(ev.Fn.Blocks) > 0 {
					todo = append(todo, ev.Fn)
				}
			})
			for f := range s.pure {
				if !s.done[f] && s.c.P.InRepo(f) && f.Parent() == nil && len(f.Blocks) > 0 {
					todo = append(todo, f)
				}
			}
		}
		if !s.lost {
			s.c.Count("rounds", round+1)
			return
		}
		if round > 12 {
			s.c.Fail("analysis", "invariants", "", "no fixpoint of the invariants is reached")
			return
		}
	}
}

// report fails for each construct that isn't known to be safe.
func (s *safety) report() {
	c := s.c
	for _, r := range s.runs {
		if !s.in(r.Fn) {
			continue
		}
		c.Count("entries", 1)
		for _, k := range sortedObs(r.X.Obligations) {
			o := r.X.Obligations[k]
			c.Count("constructs that may panic", 1)
			if o.Guard {
				continue
			}
			if why := s.exempt(r, o); why != "" {
				c.Count("not decided: "+why, 1)
				continue
			}
			if os.Getenv("SAFE_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SAMPLE", o.Kind, o.Sample)
			}
			c.Fail("panic", c.name(o.Fn), c.P.Pos(o.Pos), "may panic: %s", o.Kind)
		}
	}
}

// argStore reports whether the function is a method of a type that stores the args.
func (s *safety) argStore(fn *ssa.Function) bool {
	for _, g := range s.c.argStores() {
		if r := fn.Signature.Recv(); r != nil && types.Identical(r.Type(), g.Signature.Recv().Type()) {
			return true
		}
	}
	return false
}

// exempt is why a construct is beyond the rule.
func (s *safety) exempt(r *Run, o *engine.Obligation) string {
	if ci, ok := o.Instr.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && o.Kind == "nil interface method call" && isRepoIface(ci.Common().Value.Type()) != "" {
		return "nil interfaces that callers pass as builders"
	}
	if o.Kind == "explicit panic" && o.Fn.Name() == "NewContext" {
		return "the builtin functions are registered"
	}
	if o.Kind == "slice bounds out of range" {
		if s.argStore(o.Fn) && o.Fn.Name() != "CommitArg" {
			return "a rollback goes to a checkpoint of the same path (C02)"
		}
		for _, out := range r.Outs {
			for _, ev := range out.St.Trace.Events() {
				if ev.Kind == engine.EvTrunc {
					return "a rollback goes to a checkpoint of the same path (C02)"
				}
			}
		}
	}
	return ""
}

func init() {
	const how = "each index, slice, nil dereference, nil map update, type assertion, hash, division and reflect call in the functions that can be called, with everything inlined that isn't analysed on its own, is known to be safe by the facts of every partition that gets there; what is known about fields, elements and params is an invariant that every function keeps (found by starting with all candidates and dropping the ones that are broken, until none is): "
	checks["C25"] = &Check{Rule: how + "entries are the methods and functions of package sqlb", Run: func(c *C) {
		s := c.newSafety(c.P.Sqlb)
		s.run()
		s.report()
		c.Need("entries", 15)
		c.Need("constructs that may panic", 150)
	}}
	checks["C11"] = &Check{Rule: how + "entries are the functions of package sqlf; and no template makes syntax.Parse panic (interpreted on all templates at once)", Run: func(c *C) {
		s := c.newSafety(c.P.Root)
		s.run()
		s.report()
		s.predicates()
		c.Need("entries", 15)
		c.Need("constructs that may panic", 150)
		c.grammar("C11")
	}}
}

func sortedObs(m map[string]*engine.Obligation) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
