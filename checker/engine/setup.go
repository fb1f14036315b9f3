package engine

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// HasContext reports whether the function has a *Context (or captures one).
func HasContext(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if IsContextPtr(p.Type()) {
			return true
		}
	}
	for _, p := range fn.FreeVars {
		if IsContextPtr(p.Type()) {
			return true
		}
		if pp, ok := p.Type().Underlying().(*types.Pointer); ok && IsContextPtr(pp.Elem()) {
			return true
		}
	}
	return false
}

// ReturnsText reports whether the results are (string, error).
func ReturnsText(sig *types.Signature) bool {
	r := sig.Results()
	return r.Len() == 2 && types.Identical(r.At(0).Type(), types.Typ[types.String]) && typeKey(r.At(1).Type()) == "error"
}

// IsBuild reports whether the function builds text within a context.
func IsBuild(fn *ssa.Function) bool {
	return ReturnsText(fn.Signature) && HasContext(fn) && !sharesVar(fn)
}

// sharesVar: the function is given the address of a variable of its caller, it
// is a part of it.
func sharesVar(fn *ssa.Function) bool {
	if fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	for i, p := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
				return true
			}
		}
	}
	return false
}

// DefaultCut is the default policy: functions that build text within a context
// are contracts (they are analysed on their own), unless they are passed closures.
func (p *Program) DefaultCut() func(x *Engine, fn *ssa.Function, args []*Term) EventKind {
	root := p.Root.Pkg
	return func(x *Engine, fn *ssa.Function, args []*Term) EventKind {
		if !p.InRepo(fn) {
			return ""
		}
		recvName := ""
		if r := fn.Signature.Recv(); r != nil {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok {
				recvName = n.Obj().Name()
			}
		}
		pkg := fn.Pkg
		if pkg == nil && fn.Origin() != nil {
			pkg = fn.Origin().Pkg
		}
		if pkg == p.Root && recvName == "Context" {
			switch fn.Name() {
			case "CommitArg":
				return EvCommit
			case "Args":
				return EvArgs
			}
		}
		if pkg == p.Root && recvName == "" && fn.Name() == "NewContext" {
			return EvNewCtx
		}
		if pkg == p.Synt && recvName == "" && fn.Name() == "Parse" {
			return EvCall
		}
		if pkg == p.Util && recvName == "" && (fn.Name() == "Interpolate" || fn.Name() == "ArgsFlatted") && x.Entry != fn {
			return EvCall
		}
		_ = root
		if p.TypePredicate(fn) {
			return EvPure
		}
		if IsBuild(fn) && fn.Parent() == nil && x.Entry != nil {
			for _, a := range args {
				if hasClosure(a) {
					return ""
				}
			}
			return EvBuild
		}
		if fn.Name() == "BuildQuery" && fn.Signature.Recv() != nil {
			return EvCall
		}
		return ""
	}
}

// TypePredicate reports whether fn is a recursive predicate on types.
func (p *Program) TypePredicate(fn *ssa.Function) bool {
	sig := fn.Signature
	if fn.Parent() != nil || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 ||
		typeKey(sig.Params().At(0).Type()) != "reflect.Type" || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

func hasClosure(t *Term) bool {
	r := false
	t.Walk(func(u *Term) bool {
		if u.Op == OClosure {
			r = true
		}
		switch u.Op {
		case OIface, OSeq, OStruct, OTuple, OConv, OSpread:
			return !r
		}
		return false
	})
	return r
}

// Implementations lists the methods of repository types that implement a method
// of an interface of the repository.
func (p *Program) Implementations(name string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() != nil && fn.Name() == name {
			out = append(out, fn)
		}
	}
	return out
}

// initGlobals runs the package initialisers.
func (x *Engine) InitGlobals(p *Program) *State {
	st := NewState()
	for _, pk := range []*ssa.Package{p.Synt, p.Root, p.Util, p.Sqlb} {
		init := pk.Func("init")
		if init == nil {
			continue
		}
		outs, err := x.Run(init, st, nil)
		if err != nil || len(outs) == 0 {
			x.Problems[fmt.Sprintf("initialisation of %s: %v", pk.Pkg.Path(), err)] = true
			continue
		}
		// the outcome that initialised
		best := outs[0]
		for _, o := range outs {
			if len(o.St.Heap) > len(best.St.Heap) {
				best = o
			}
		}
		st = best.St
	}
	for _, fn := range p.Funcs {
		if fn.Name() == "init" && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if in.Addr == g {
							x.written[g.String()] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
					default:
						x.written[g.String()] = true
					}
				}
			}
		}
	}
	for k, v := range st.Heap {
		if k.Op == OGlobal {
			x.globalInit[k] = v
			if x.written[k.Aux] {
				delete(st.Heap, k)
			}
		}
	}
	out := NewState()
	for k, v := range st.Heap {
		out.Heap[k] = v
	}
	for k := range st.Fresh {
		out.Fresh[k] = true
		out.Escaped[k] = true
	}
	x.Obligations = map[string]*Obligation{}
	x.Effects = nil
	return out
}

// Session prepares engines that share the facts about the program.
type Session struct {
	P       *Program
	Mutable map[string]bool
	Trunc   map[string]bool // regions changed by dropping args
}

// NewEngine makes an engine with the default policy.
func (s *Session) NewEngine() (*Engine, *State) {
	x := New(s.P.SSA, s.P.Repo)
	x.Cut = s.P.DefaultCut()
	st := x.InitGlobals(s.P)
	for r := range s.Mutable {
		x.Mutable[r] = true
	}
	x.Trunc = s.Trunc
	return x, st
}

// Start makes the start state of an entry.
func (x *Engine) Start(base *State, fn *ssa.Function) (*State, []*Term) {
	st := base.Clone()
	args := x.Params(fn)
	return st, args
}

// BindsOf makes symbols for the free variables of a closure.
func (x *Engine) BindsOf(fn *ssa.Function) []*Term {
	var bs []*Term
	for _, v := range fn.FreeVars {
		bs = append(bs, Sym("free:"+v.Name(), v.Type()))
	}
	return bs
}

// NewSession computes the regions that building changes.
func NewSession(p *Program) *Session {
	s := &Session{P: p, Mutable: map[string]bool{}}
	// first every field that is stored anywhere
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						st := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if n, ok := types.Unalias(st).(*types.Named); ok && n.Obj().Pkg() != nil && p.Repo[n.Obj().Pkg()] {
							s.Mutable[n.Obj().Pkg().Path()+"."+n.Obj().Name()+"."+n.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
						}
					}
				case *ssa.MapUpdate:
					s.Mutable["map:"+typeKey(in.Map.Type().Underlying())] = true
				}
			}
		}
	}
	all := s.Mutable
	var entries []*ssa.Function
	for _, fn := range p.Funcs {
		if p.CalledByBuilding(fn) {
			entries = append(entries, fn)
		}
	}
	x, base := s.NewEngine()
	for _, fn := range entries {
		st, args := x.Start(base, fn)
		if _, err := x.Run(fn, st, args); err != nil {
			// can't tell: keep everything
			s.Mutable = all
			return s
		}
	}
	s.Mutable = x.changed()
	x, base = s.NewEngine()
	for _, fn := range entries {
		if !x.drops(fn) {
			continue
		}
		st, args := x.Start(base, fn)
		if _, err := x.Run(fn, st, args); err != nil {
			return s
		}
	}
	s.Trunc = x.changed()
	return s
}

// drops reports whether the function implements dropping args.
func (x *Engine) drops(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil || fn.Signature.Results().Len() != 0 {
		return false
	}
	for _, t := range x.stores() {
		it := t.Underlying().(*types.Interface)
		if !types.Implements(recv.Type(), it) {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == fn.Name() {
				return true
			}
		}
	}
	return false
}

// stores lists the interfaces args are committed to.
func (x *Engine) stores() (out []types.Type) {
	for pkg := range x.Repo {
		for _, n := range pkg.Scope().Names() {
			if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok && x.isStore(tn.Type()) {
				out = append(out, tn.Type())
			}
		}
	}
	return out
}

// changed lists the regions that were changed.
func (x *Engine) changed() map[string]bool {
	mut := map[string]bool{}
	for _, e := range x.Effects {
		if e.Fresh || e.Kind == "append" {
			continue
		}
		switch e.Kind {
		case "mapupdate", "delete":
			mut["map:"+mapKeyOf(e.Addr)] = true
		default:
			mut[x.region(e.Addr)] = true
		}
	}
	return mut
}

// CalledByBuilding reports whether unknown builders may call the function.
func (p *Program) CalledByBuilding(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	if IsBuild(fn) || fn.Name() == "BuildQuery" && fn.Signature.Recv() != nil {
		return true
	}
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if IsContextPtr(t) {
			return true
		}
		// implements a method of an interface of the root package
		scope := p.Root.Pkg.Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok || !types.Implements(t, it) {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == fn.Name() {
					return true
				}
			}
		}
	}
	if HasContext(fn) && fn.Object() != nil && fn.Object().Exported() {
		return true
	}
	return false
}

// SortedKeys of a set.
func SortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Short shortens names of the repository.
func Short(s string) string { return short(strings.ReplaceAll(s, "\n", " ")) }
