package engine

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *fctx) one(es *estate, v *Term) []callResult { return []callResult{{es, v}} }

// doCall runs a call instruction.
func (f *fctx) doCall(es *estate, in ssa.Value, c *ssa.CallCommon, site string, pos token.Pos, out func(o *Outcome)) []callResult {
	x := f.x
	prev := f.curOut
	f.curOut = out
	defer func() { f.curOut = prev }()
	var args []*Term
	for _, a := range c.Args {
		args = append(args, f.val(es, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return f.builtin(es, in, b.Name(), c, args, site, pos)
	}
	if c.IsInvoke() {
		recv := f.val(es, c.Value)
		if instr, ok := in.(ssa.Instruction); ok {
			x.oblige(f, es, instr, pos, "nil interface method call", es.Facts.NonNil(recv))
		}
		es.Facts.restrictNonNil(recv)
		// known dynamic type
		if recv.Op == OIface {
			dyn := recv.Ref.(types.Type)
			if fn := x.methodOf(dyn, c.Method); fn != nil {
				return f.callFn(es, in, fn, append([]*Term{recv.Args[0]}, args...), nil, c, site, pos, out)
			}
		}
		return f.invoke(es, c, recv, args, site, pos, out)
	}
	fv := f.val(es, c.Value)
	switch fv.Op {
	case OFunc:
		return f.callFn(es, in, fv.Ref.(*ssa.Function), args, nil, c, site, pos, out)
	case OClosure:
		return f.callFn(es, in, fv.Ref.(*ssa.Function), args, fv.Args, c, site, pos, out)
	}
	if instr, ok := in.(ssa.Instruction); ok {
		x.oblige(f, es, instr, pos, "call of nil function", es.Facts.NonNil(fv))
	}
	es.Facts.restrictNonNil(fv)
	return f.event(es, &Event{Kind: EvValue, Name: "func value", Recv: fv, Args: args}, c.Signature(), site, pos, out)
}

// methodOf finds the repo method for a dynamic type.
func (x *Engine) methodOf(dyn types.Type, m *types.Func) *ssa.Function {
	ms := x.Prog.MethodSets.MethodSet(dyn)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	obj, ok := sel.Obj().(*types.Func)
	if !ok || obj.Pkg() == nil || !x.Repo[obj.Pkg()] {
		return nil
	}
	if _, isI := sel.Recv().Underlying().(*types.Interface); isI {
		return nil
	}
	return x.Prog.MethodValue(sel)
}

func (f *fctx) callFn(es *estate, in ssa.Value, fn *ssa.Function, args, bind []*Term, c *ssa.CallCommon, site string, pos token.Pos, out func(o *Outcome)) []callResult {
	x := f.x
	kind := x.Cut(x, fn, args)
	if kind == EvPure {
		if x.OnPure != nil {
			x.OnPure(es.State, fn, args)
		}
		return f.one(es, x.appResults("pure:"+fn.String(), fn.Signature, args))
	}
	if kind != "" {
		ev := &Event{Kind: kind, Name: fn.String(), Fn: fn, Args: args}
		if fn.Signature.Recv() != nil && len(args) > 0 {
			ev.Recv = args[0]
			ev.Args = args[1:]
		}
		return f.event(es, ev, fn.Signature, site, pos, out)
	}
	if fn.Blocks == nil || !x.isRepo(fn) {
		name := fn.String()
		if o := fn.Origin(); o != nil {
			name = o.String()
		}
		return f.external(es, c, name, args, site, pos)
	}
	if x.onStack(fn) {
		ev := &Event{Kind: EvCall, Name: "rec:" + fn.String(), Fn: fn, Args: args}
		return f.event(es, ev, fn.Signature, site, pos, out)
	}
	x.setRoots(f, es)
	rec := hasRecover(fn)
	if rec {
		x.recoverUp++
	}
	outs := x.call(es.State, fn, args, bind, site)
	if rec {
		x.recoverUp--
	}
	var res []callResult
	for _, o := range outs {
		e := &estate{State: o.St, env: es.env, defers: es.defers}
		if len(outs) > 1 {
			e.env = cloneEnv(es.env)
			e.defers = append([]deferred(nil), es.defers...)
		}
		if o.Panic {
			f.unwind(e, o.Pv, o.RetPos, out)
			continue
		}
		var v *Term
		switch len(o.Vals) {
		case 0:
			v = Tuple()
		case 1:
			v = o.Vals[0]
		default:
			v = Tuple(o.Vals...)
		}
		if n := len(o.Vals); n > 0 && o.Vals[n-1] != nil {
			if rs := fn.Signature.Results(); typeKey(rs.At(n-1).Type()) == "error" && e.Facts.NonNil(o.Vals[n-1]) {
				ev := &Event{Kind: EvErr, Name: fn.String(), Fn: fn, Site: site, Res: []*Term{o.Vals[n-1]}, Pos: pos, In: f.fn, Ctx: x.ctxInEffect()}
				for _, a := range args {
					if a.Typ != nil && IsContextPtr(a.Typ) {
						ev.Ctx = a
					}
				}
				e.Trace = e.Trace.Add(ev)
			}
		}
		res = append(res, callResult{e, v})
	}
	return res
}

func (x *Engine) isRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return x.Repo[fn.Pkg.Pkg]
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return x.Repo[o.Pkg.Pkg]
	}
	if fn.Parent() != nil {
		return x.isRepo(fn.Parent())
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return x.Repo[obj.Pkg()]
	}
	// wrappers
	return fn.Synthetic != "" && fn.Blocks != nil
}

var recCache = map[*ssa.Function]bool{}

// hasRecover reports whether the function defers a call of recover.
func hasRecover(fn *ssa.Function) bool {
	if v, ok := recCache[fn]; ok {
		return v
	}
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			var df *ssa.Function
			switch v := d.Call.Value.(type) {
			case *ssa.Function:
				df = v
			case *ssa.MakeClosure:
				df = v.Fn.(*ssa.Function)
			}
			if df == nil {
				continue
			}
			for _, b := range df.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							r = true
						}
					}
				}
			}
		}
	}
	recCache[fn] = r
	return r
}

// IsContextPtr reports whether the type is *sqlf.Context.
func IsContextPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "go-sqlf/v2")
}

// ctxInEffect is the context of the innermost call that has one.
func (x *Engine) ctxInEffect() *Term {
	for i := len(x.stack) - 1; i >= 0; i-- {
		fr := x.stack[i]
		for j, p := range fr.Fn.Params {
			if IsContextPtr(p.Type()) {
				return fr.Args[j]
			}
		}
	}
	return nil
}

// event records an effect and makes symbols for its results.
func (f *fctx) event(es *estate, ev *Event, sig *types.Signature, site string, pos token.Pos, out func(o *Outcome)) []callResult {
	x := f.x
	ev.Site, ev.Pos, ev.In = site, pos, f.fn
	ev.Stack = append([]Frame(nil), x.stack...)
	for i := range ev.Stack {
		ev.Stack[i].root = nil
	}
	switch ev.Kind {
	case EvCommit, EvArgs, EvTrunc:
		ev.Ctx = ev.Recv
	default:
		for _, a := range ev.Args {
			if a.Typ != nil && IsContextPtr(a.Typ) {
				ev.Ctx = a
			}
		}
		if ev.Ctx == nil {
			ev.Ctx = x.ctxInEffect()
		}
	}
	key := string(ev.Kind) + ":" + short(ev.Name) + "@" + site
	for _, a := range append([]*Term{ev.Recv}, ev.Args...) {
		if a != nil {
			key += "," + strconv.Itoa(a.ID)
		}
	}
	if ev.Kind == EvArgs {
		key += "@" + strconv.Itoa(es.Trace.id)
	}
	rs := sig.Results()
	var vals []*Term
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, Sym(key+"."+strconv.Itoa(i), rs.At(i).Type()))
	}
	for _, a := range append([]*Term{ev.Recv}, ev.Args...) {
		if a != nil {
			x.Escape(es.State, a)
		}
	}
	ev.Res = vals
	ev = internEvent(ev)
	for _, s := range vals {
		s.Ref = ev
	}
	wrap := func(vals []*Term) *Term {
		switch len(vals) {
		case 0:
			return Tuple()
		case 1:
			return vals[0]
		}
		return Tuple(vals...)
	}
	if x.OnEvent != nil {
		x.OnEvent(es.State, ev)
	}
	if ev.Kind == EvCustom || (ev.Kind == EvValue || ev.Kind == EvInvoke || ev.Kind == EvBuild) && (x.recoverUp > 0 || x.Panics) {
		// it may panic
		if out != nil {
			p := es.clone()
			pe := *ev
			pe.Panic = true
			pe.Res = nil
			p.Trace = p.Trace.Add(&pe)
			x.Havoc(p.State, x.Mutable, site)
			x.havocCaptured(p.State, ev, site)
			pv := Sym("panic@"+site, nil)
			p.Facts.restrictNonNil(pv)
			f.unwind(p, pv, pos, out)
		}
	}
	es.Trace = es.Trace.Add(ev)
	switch {
	case ev.Kind == EvTrunc && x.Trunc != nil:
		x.Havoc(es.State, x.Trunc, site)
	case ev.Kind != EvArgs:
		x.Havoc(es.State, x.Mutable, site)
	}
	x.havocCaptured(es.State, ev, site)
	x.callWrites(es.State, ev, key)
	switch {
	case strings.HasSuffix(ev.Name, "/syntax.Parse") && len(vals) == 2:
		bad := es.clone()
		es.Facts.restrictNonNil(vals[0])
		es.Facts.Assume(Eq(vals[1], Nil), true)
		bad.Facts.restrictNonNil(vals[1])
		return []callResult{{es, Tuple(vals[0], Nil)}, {bad, Tuple(x.Zero(rs.At(0).Type()), vals[1])}}
	case ev.Kind == EvNewCtx:
		es.Facts.restrictNonNil(vals[0])
	}
	return []callResult{{es, wrap(vals)}}
}

// invoke is a method call on an unknown implementation.
func (f *fctx) invoke(es *estate, c *ssa.CallCommon, recv *Term, args []*Term, site string, pos token.Pos, out func(o *Outcome)) []callResult {
	x := f.x
	m := c.Method
	it := c.Value.Type()
	iname := typeKey(it)
	sig := m.Type().(*types.Signature)
	if iname == "reflect.Type" {
		return f.one(es, f.reflectType(es, m.Name(), recv, args, site, pos, sig, c))
	}
	if iname == "error" || m.Name() == "Error" && sig.Params().Len() == 0 {
		return f.one(es, App("error.Error", types.Typ[types.String], recv))
	}
	ev := &Event{Kind: EvInvoke, Name: iname + "." + m.Name(), Recv: recv, Args: args}
	switch {
	case m.Name() == "BuildFragment" && sig.Results().Len() == 2:
		ev.Kind = EvBuild
	case m.Name() == "BuildQuery":
		ev.Kind = EvCall
	case m.Name() == "CommitArg":
		ev.Kind = EvCommit
	case x.isStore(it) && m.Name() == "Args":
		ev.Kind = EvArgs
	case x.isStore(it) && sig.Results().Len() == 0:
		ev.Kind = EvTrunc
	default:
		if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/syntax") {
			// accessors of nodes
			return f.one(es, App("invoke:"+m.Name(), resType(sig), recv))
		}
	}
	return f.event(es, ev, sig, site, pos, out)
}

// isStore reports whether the interface is the one args are committed to.
func (x *Engine) isStore(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "CommitArg" {
			return true
		}
	}
	return false
}

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (f *fctx) builtin(es *estate, in ssa.Value, name string, c *ssa.CallCommon, args []*Term, site string, pos token.Pos) []callResult {
	x := f.x
	switch name {
	case "len":
		a := args[0]
		if a.Op == OObj {
			// map
			if x.mapVer(es.State, a) == Nil && es.Fresh[a] {
				return f.one(es, Int(0))
			}
			return f.one(es, mk(OLen, "", 0, types.Typ[types.Int], nil, App("map", nil, a, x.mapVer(es.State, a))))
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return f.one(es, mk(OLen, "", 0, types.Typ[types.Int], nil, App("map", nil, a, x.mapVer(es.State, a))))
		}
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if arr, ok := p.Elem().Underlying().(*types.Array); ok {
				return f.one(es, Int(arr.Len()))
			}
		}
		return f.one(es, Len(a))
	case "cap":
		return f.one(es, Cap(args[0]))
	case "append":
		base, more := args[0], args[1]
		if x.OnElem != nil {
			for _, it := range Items(more) {
				if it.Op != OSpread {
					x.OnElem(es.State, c.Args[0].Type(), it, f.fn, pos)
				}
			}
		}
		f.effect(es, "append", base, more, pos)
		nn := ""
		if base.KnownNonNil() || es.Facts.NonNil(base) {
			nn = "nn"
		}
		if NewList(base) {
			nn += "copy"
		}
		var extra []*Term
		if isString(c.Args[1].Type()) {
			extra = []*Term{mk(OSpread, "", 0, more.Typ, nil, more)}
		} else {
			extra = x.Items(es.State, more)
		}
		s := Seq(nn, in.Type(), append(append([]*Term{}, x.Items(es.State, base)...), extra...)...)
		if len(s.Args) == 1 && s.Args[0].Op == OSpread && len(extra) == 0 {
			s = s.Args[0].Args[0]
		}
		return f.one(es, s)
	case "copy":
		f.effect(es, "store", args[0], args[1], pos)
		d := args[0]
		for d.Op == OCapped {
			d = d.Args[0]
		}
		for k := range es.Heap {
			if k.Op == OIndexAddr && k.Args[0] == d {
				delete(es.Heap, k)
			}
		}
		if d.Op == OMake && Len(d) == Len(args[1]) {
			es.Heap[mk(OCell, "copyof", 0, nil, nil, d)] = args[1]
		}
		es.Ver["elems#"+strconv.Itoa(d.ID)] = Sym("v"+site, nil)
		n := App("copy", types.Typ[types.Int], args...)
		return f.one(es, n)
	case "delete":
		f.effect(es, "delete", args[0], args[1], pos)
		x.mapDelete(es.State, args[0], args[1], site)
		return f.one(es, Tuple())
	case "recover":
		rec := mk(OCell, "panic", 0, nil, nil, Sym("recover", nil))
		v, ok := es.Heap[rec]
		if !ok {
			return f.one(es, Nil)
		}
		es.Heap[rec] = Nil
		return f.one(es, v)
	case "print", "println":
		return f.one(es, Tuple())
	case "ssa:wrapnilchk":
		return f.one(es, args[0])
	case "min", "max":
		return f.one(es, App(name, in.Type(), args...))
	case "clear":
		f.effect(es, "delete", args[0], args[0], pos)
		x.mapDelete(es.State, args[0], Sym("all"+site, nil), site)
		return f.one(es, Tuple())
	}
	x.problem("unsupported builtin %s in %s", name, f.fn)
	return f.one(es, Sym("builtin"+site, in.Type()))
}

// items are the items of a slice, looking through copies.
func (x *Engine) Items(s *State, t *Term) []*Term {
	if src, ok := s.Heap[mk(OCell, "copyof", 0, nil, nil, t)]; ok {
		return x.Items(s, src)
	}
	if t.Op == OMake {
		if n, ok := t.Args[0].IntVal(); ok && n <= 16 {
			var its []*Term
			var et types.Type
			if sl, ok := t.Typ.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
			for i := int64(0); i < n; i++ {
				its = append(its, x.Load(s, mk(OIndexAddr, "", 0, types.NewPointer(et), nil, t, Int(i)), et))
			}
			return its
		}
	}
	return Items(t)
}

// Sprintf expands a constant format.
func Sprintf(format string, args []*Term) *Term {
	var parts []*Term
	n := 0
	for i := 0; i < len(format); i++ {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			parts = append(parts, Str(format[i:]))
			break
		}
		parts = append(parts, Str(format[i:i+j]))
		i += j + 1
		k := i
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			parts = append(parts, Str("%!(NOVERB)"))
			break
		}
		verb := format[i : k+1]
		i = k
		if verb == "%" {
			parts = append(parts, Str("%"))
			continue
		}
		if n >= len(args) {
			parts = append(parts, Str("%!"+verb+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		parts = append(parts, fmtArg(verb, a))
	}
	return Concat(parts...)
}

func fmtArg(verb string, a *Term) *Term {
	if a.Op == OIface {
		dyn := a.Ref.(types.Type)
		v := a.Args[0]
		if isString(dyn) && (verb == "s" || verb == "v") && !hasFmtMethod(dyn) {
			return v
		}
		if isInt(dyn) && (verb == "d" || verb == "v") && !hasFmtMethod(dyn) {
			if n, ok := v.IntVal(); ok {
				return Str(strconv.FormatInt(n, 10))
			}
			return App("fmt:%d", types.Typ[types.String], v)
		}
	}
	return App("fmt:%"+verb, types.Typ[types.String], a)
}

func hasFmtMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			return true
		}
	}
	return false
}

func (f *fctx) content(es *estate, b *Term) (loc, val *Term) {
	loc = mk(OCell, "content", 0, nil, nil, b)
	return loc, f.x.Load(es.State, loc, types.Typ[types.String])
}

func (f *fctx) writeTo(es *estate, b *Term, s *Term, pos token.Pos) {
	loc, old := f.content(es, b)
	f.effect(es, "store", loc, s, pos)
	es.Heap[loc] = Concat(old, s)
}

// writer returns the builder or buffer behind an io.Writer.
func writer(w *Term) *Term {
	if w.Op == OIface {
		switch typeKey(w.Ref.(types.Type)) {
		case "*strings.Builder", "*bytes.Buffer":
			return w.Args[0]
		}
	}
	return nil
}

var str = types.Typ[types.String]

// pure packages: functions without effects, whose results depend on the args only.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true, "fmt": true, "reflect": true, "time": true, "bytes": true, "math": true, "path": true, "cmp": true}

// external models functions without body.
func (f *fctx) external(es *estate, c *ssa.CallCommon, name string, args []*Term, site string, pos token.Pos) []callResult {
	x := f.x
	sig := c.Signature()
	var in ssa.Instruction
	ob := func(kind string, ok bool) {
		if in == nil {
			for _, b := range f.fn.Blocks {
				for _, i := range b.Instrs {
					if ci, isC := i.(ssa.CallInstruction); isC && ci.Common() == c {
						in = i
					}
				}
			}
		}
		if in != nil {
			x.oblige(f, es, in, pos, kind, ok)
		}
	}
	switch name {
	case "fmt.Sprintf":
		if s, ok := args[0].StrVal(); ok {
			if its := x.Items(es.State, args[1]); allElems(its) {
				return f.one(es, Sprintf(s, its))
			}
		}
	case "fmt.Sprint":
		if its := x.Items(es.State, args[0]); allElems(its) && len(its) == 1 {
			return f.one(es, fmtArg("v", its[0]))
		}
	case "fmt.Errorf":
		its := x.Items(es.State, args[1])
		return f.one(es, App("fmt.Errorf", sig.Results().At(0).Type(), append([]*Term{args[0]}, its...)...))
	case "fmt.Fprintf", "fmt.Fprint", "io.WriteString":
		if b := writer(args[0]); b != nil {
			var s *Term
			switch name {
			case "io.WriteString":
				s = args[1]
			case "fmt.Fprintf":
				if fs, ok := args[1].StrVal(); ok {
					if its := x.Items(es.State, args[2]); allElems(its) {
						s = Sprintf(fs, its)
					}
				}
			case "fmt.Fprint":
				if its := x.Items(es.State, args[1]); allElems(its) && len(its) == 1 {
					s = fmtArg("v", its[0])
				}
			}
			if s == nil {
				s = App(name, str, args[1:]...)
			}
			f.writeTo(es, b, s, pos)
			return f.one(es, Tuple(App("n", types.Typ[types.Int], s), Nil))
		}
	case "strings.Join":
		its := x.Items(es.State, args[0])
		if allElems(its) {
			var ps []*Term
			for i, it := range its {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, it)
			}
			return f.one(es, Concat(ps...))
		}
		return f.one(es, App("strings.Join", str, Seq("", sliceOf(str), its...), args[1]))
	case "strings.TrimSpace":
		if s, ok := args[0].StrVal(); ok {
			return f.one(es, Str(strings.TrimSpace(s)))
		}
		if args[0].Op == OApp && args[0].Aux == "strings.TrimSpace" {
			return f.one(es, args[0])
		}
	case "strings.Repeat":
		ob("strings.Repeat with negative count", es.Facts.leq(Int(0), args[1], 0))
	case "strconv.Itoa":
		return f.one(es, fmtArg("d", Iface(types.Typ[types.Int], args[0])))
	case "strconv.FormatInt", "strconv.FormatUint":
		if n, ok := args[1].IntVal(); ok && n == 10 {
			return f.one(es, fmtArg("d", Iface(types.Typ[types.Int64], args[0])))
		}
	case "strconv.AppendInt", "strconv.AppendUint", "strconv.AppendFloat", "strconv.AppendBool":
		var t *Term
		if n, ok := args[len(args)-1].IntVal(); ok && n == 10 && (name == "strconv.AppendInt" || name == "strconv.AppendUint") {
			t = fmtArg("d", Iface(types.Typ[types.Int64], args[1]))
		} else {
			t = App("strconv.Format"+strings.TrimPrefix(name, "strconv.Append"), str, args[1:]...)
		}
		if n, ok := Len(args[0]).IntVal(); ok && n == 0 || args[0].Op == ONil {
			return f.one(es, t)
		}
		return f.one(es, Seq("", sig.Results().At(0).Type(), append(append([]*Term{}, x.Items(es.State, args[0])...), mk(OSpread, "", 0, str, nil, t))...))
	case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndexByte", "strings.LastIndexAny", "strings.LastIndexFunc",
		"bytes.IndexByte", "bytes.IndexRune", "bytes.IndexAny", "bytes.IndexFunc", "bytes.LastIndexByte", "bytes.LastIndexAny", "bytes.LastIndexFunc",
		"strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		t := App(name, types.Typ[types.Int], args...)
		es.Facts.addLeq(Int(-1), t, 0)
		max := int64(-1)
		if strings.HasSuffix(name, "Index") && !es.Facts.lenPos(args[1]) {
			max = 0
		}
		es.Facts.addLeq(t, Len(args[0]), max)
		return f.one(es, t)
	case "errors.Is":
		if es.Facts.IsNil(args[0]) {
			return f.one(es, es.Facts.boolOf(Eq(args[1], Nil)))
		}
		if args[0] == args[1] {
			return f.one(es, True)
		}
	case "errors.As":
		t := args[1]
		if t.Op == OIface {
			dyn := t.Ref.(types.Type)
			if p, ok := dyn.Underlying().(*types.Pointer); ok {
				x.Store(es.State, t.Args[0], App("as:"+typeKey(p.Elem()), p.Elem(), args[0]), p.Elem(), site)
				if es.Facts.IsNil(args[0]) {
					return f.one(es, False)
				}
				return f.one(es, App("errors.As:"+typeKey(p.Elem()), types.Typ[types.Bool], args[0]))
			}
		}
	case "errors.New":
		return f.one(es, App("errors.New", sig.Results().At(0).Type(), args[0], Sym(siteTag(f, site), nil)))
	case "bytes.NewBuffer", "bytes.NewBufferString":
		o := mk(OObj, site+":buf", 0, sig.Results().At(0).Type(), nil)
		delete(es.Escaped, o)
		es.Fresh[o] = true
		c := args[0]
		if c.Op == ONil {
			c = Empty
		}
		es.Heap[mk(OCell, "content", 0, nil, nil, o)] = c
		return f.one(es, o)
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		f.writeTo(es, args[0], args[1], pos)
		return f.one(es, Tuple(Len(args[1]), Nil))
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		s := App("string(rune)", str, args[1])
		if n, ok := args[1].IntVal(); ok {
			s = Str(string(rune(n)))
		}
		f.writeTo(es, args[0], s, pos)
		if strings.HasSuffix(name, "Byte") {
			return f.one(es, Nil)
		}
		return f.one(es, Tuple(App("n", types.Typ[types.Int], s), Nil))
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		_, v := f.content(es, args[0])
		return f.one(es, v)
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		_, v := f.content(es, args[0])
		return f.one(es, Len(v))
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		loc, _ := f.content(es, args[0])
		f.effect(es, "store", loc, Empty, pos)
		es.Heap[loc] = Empty
		return f.one(es, Tuple())
	case "(*bytes.Buffer).Truncate":
		loc, v := f.content(es, args[0])
		f.effect(es, "store", loc, Empty, pos)
		es.Heap[loc] = mk(OSlice, "", 0, str, nil, v, Int(0), args[1])
		return f.one(es, Tuple())
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		ob("Grow with negative count", es.Facts.leq(Int(0), args[1], 0))
		return f.one(es, Tuple())
	case "slices.Concat":
		if args[0].Op == OSeq {
			var its []*Term
			for _, l := range args[0].Args {
				if l.Op == OSpread {
					its = nil
					break
				}
				its = append(its, x.Items(es.State, l)...)
			}
			if its != nil {
				return f.one(es, Seq("copy", sig.Results().At(0).Type(), its...))
			}
		}
	case "slices.Clone":
		return f.one(es, Seq("copy", sig.Results().At(0).Type(), x.Items(es.State, args[0])...))
	}
	if strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "reflect.") {
		if v, ok := f.reflect(es, name, args, site, pos, sig, ob); ok {
			return v
		}
	}
	pkg := pkgOf(name)
	if pkg == "log" || pkg == "os" && strings.HasSuffix(name, "Exit") {
		return f.one(es, x.symResults(sig, "log@"+site))
	}
	if purePkgs[pkg] && !mutator(name) {
		return f.one(es, x.appResults(name, sig, args))
	}
	if pkg == "slices" || pkg == "maps" {
		if !mutator(name) {
			return f.one(es, x.appResults(name, sig, args))
		}
	}
	// effects on what it's given
	for i, a := range args {
		if i < len(c.Args) {
			switch c.Args[i].Type().Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				if pkg == "sort" || pkg == "slices" || pkg == "maps" || mutator(name) {
					f.effect(es, "store", a, a, pos)
					es.Ver["elems#"+strconv.Itoa(a.ID)] = Sym("v"+site, nil)
					for k := range es.Heap {
						if k.Op == OIndexAddr && baseObj(k) == baseObj(a) {
							delete(es.Heap, k)
						}
					}
				}
			}
		}
	}
	ev := &Event{Kind: EvCall, Name: name, Args: args}
	if sig.Recv() != nil && len(args) > 0 {
		ev.Recv, ev.Args = args[0], args[1:]
	}
	rs := f.event(es, ev, sig, site, pos, nil)
	for _, r := range rs {
		for _, a := range args {
			x.forget(r.es.State, a, ev, site)
		}
	}
	return rs
}

// forget forgets the variables a function is given pointers to, directly or in a list.
func (x *Engine) forget(s *State, a *Term, ev *Event, site string) {
	for a.Op == OIface || a.Op == OConv {
		a = a.Args[0]
	}
	if a.Op == OSeq {
		for _, it := range x.Items(s, a) {
			if it.Op != OSpread {
				x.forget(s, it, ev, site)
			}
		}
		return
	}
	if a.Op != OObj || a.Typ == nil {
		return
	}
	t := a.Typ
	if textBuffer(t) {
		v := Sym("w:"+site, nil)
		v.Ref = ev
		loc := mk(OCell, "content", 0, nil, nil, a)
		s.Heap[loc] = mk(OLoad, "", 0, str, nil, loc, v)
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return
	}
	v := Sym("w:"+site, nil)
	v.Ref = ev
	s.Heap[a] = mk(OLoad, "", 0, t, nil, a, v)
}

func (fs *Facts) boolOf(t *Term) *Term {
	if v, ok := fs.Eval(t); ok {
		return Bool(v)
	}
	return t
}

func siteTag(f *fctx, site string) string {
	if i := strings.LastIndexByte(site, '/'); i >= 0 {
		return f.fn.String() + site[i:]
	}
	return site
}

func sliceOf(t types.Type) types.Type { return types.NewSlice(t) }

func allElems(its []*Term) bool {
	for _, it := range its {
		if it.Op == OSpread {
			return false
		}
	}
	return true
}

func mutator(name string) bool {
	n := name[strings.LastIndexByte(name, '.')+1:]
	if strings.HasPrefix(name, "(reflect.Value).Set") {
		return true
	}
	switch name {
	case "reflect.Copy", "reflect.Append", "reflect.AppendSlice", "reflect.Swapper":
		return true
	}
	if strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "maps.") {
		switch n {
		case "Contains", "ContainsFunc", "Equal", "Index", "IndexFunc", "Max", "Min", "Keys", "Values", "Collect", "Sorted", "Clip", "All":
			return false
		}
		return true
	}
	return false
}

func pkgOf(name string) string {
	n := strings.TrimLeft(name, "(*")
	i := strings.LastIndexByte(n, '/')
	j := strings.IndexByte(n[i+1:], '.')
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

func (x *Engine) appResults(name string, sig *types.Signature, args []*Term) *Term {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return Tuple()
	case 1:
		return App(name, rs.At(0).Type(), args...)
	}
	var vals []*Term
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, App(name+"."+strconv.Itoa(i), rs.At(i).Type(), args...))
	}
	return Tuple(vals...)
}

func (x *Engine) symResults(sig *types.Signature, key string) *Term {
	rs := sig.Results()
	var vals []*Term
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, Sym(key+"."+strconv.Itoa(i), rs.At(i).Type()))
	}
	if len(vals) == 1 {
		return vals[0]
	}
	return Tuple(vals...)
}

// callWrites forgets the maps and variables a function of the repository, which
// isn't a part of the analysis, is given to write to.
func (x *Engine) callWrites(s *State, ev *Event, key string) {
	if ev.Kind != EvCall || ev.Fn == nil || !x.isRepo(ev.Fn) {
		return
	}
	args := ev.Args
	if ev.Recv != nil {
		args = append([]*Term{ev.Recv}, args...)
	}
	if len(args) != len(ev.Fn.Params) {
		return
	}
	for i, a := range args {
		v := Sym("w:"+key+"."+strconv.Itoa(i), nil)
		v.Ref = ev
		switch t := ev.Fn.Params[i].Type().Underlying().(type) {
		case *types.Map:
			b := baseObj(a)
			fresh := b.Op == OObj && s.Fresh[b]
			for k := range s.Heap {
				if k.Op != OMapElem && k.Op != OMapVer {
					continue
				}
				o := baseObj(k.Args[0])
				if k.Args[0] == a || !fresh && mapKeyOf(k.Args[0]) == mapKeyOf(a) && !(o.Op == OObj && s.Fresh[o] && !s.Escaped[o]) {
					delete(s.Heap, k)
				}
			}
			s.Heap[mk(OMapVer, "", 0, nil, nil, a)] = v
			if !fresh {
				s.Ver["map:"+mapKeyOf(a)] = v
			}
		case *types.Pointer:
			if textBuffer(t) {
				loc := mk(OCell, "content", 0, nil, nil, a)
				w := mk(OLoad, "", 0, str, nil, loc, v)
				if x.onlyAppends(ev.Fn) {
					s.Heap[loc] = Concat(x.Load(s, loc, str), w)
				} else {
					s.Heap[loc] = w
				}
				continue
			}
			if _, ok := t.Elem().Underlying().(*types.Struct); ok {
				continue
			}
			w := mk(OLoad, "", 0, t.Elem(), nil, a, v)
			b := baseObj(a)
			if b.Op != OObj {
				x.Store(s, a, w, t.Elem(), key)
			} else {
				s.Heap[a] = w
			}
		}
	}
}

// textBuffer reports whether the pointer is to a builder or buffer of text.
func textBuffer(t types.Type) bool {
	switch typeKey(t) {
	case "*strings.Builder", "*bytes.Buffer":
		return true
	}
	return false
}

// onlyAppends reports whether a function, and what it calls, changes buffers
// by appending to them only.
func (x *Engine) onlyAppends(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function) bool
	visit = func(fn *ssa.Function) bool {
		if seen[fn] {
			return true
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && textBuffer(st.Addr.Type()) {
					if _, ok := st.Addr.(*ssa.Alloc); !ok {
						return false
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil {
					continue
				}
				if x.isRepo(f) {
					if !visit(f) {
						return false
					}
					continue
				}
				if r := f.Signature.Recv(); r != nil && textBuffer(r.Type()) {
					switch n := f.Name(); {
					case strings.HasPrefix(n, "Write"), n == "String", n == "Bytes", n == "Len", n == "Cap", n == "Grow", n == "Available", n == "AvailableBuffer":
					default:
						return false
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			if !visit(a) {
				return false
			}
		}
		return true
	}
	return visit(fn)
}

// havocCaptured forgets the variables captured by closures that are passed to an event.
func (x *Engine) havocCaptured(s *State, ev *Event, site string) {
	for _, a := range append([]*Term{ev.Recv}, ev.Args...) {
		if a == nil {
			continue
		}
		a.Walk(func(t *Term) bool {
			if t.Op != OClosure {
				return true
			}
			fn := t.Ref.(*ssa.Function)
			for i, b := range t.Args {
				if i >= len(fn.FreeVars) || b.Op != OObj {
					continue
				}
				if !storesTo(fn, fn.FreeVars[i]) {
					continue
				}
				for k, v := range s.Heap {
					if k == b || baseObj(k) == b {
						s.Heap[k] = mk(OLoad, "", 0, v.Typ, nil, k, Sym("cap@"+site, nil))
					}
				}
			}
			return true
		})
	}
}

// storesTo reports whether the function may write the captured variable.
func storesTo(fn *ssa.Function, fv *ssa.FreeVar) bool {
	for _, in := range *fv.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == fv {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			in2 := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b == fv && storesTo(in2, in2.FreeVars[i]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// Content is the text in a builder or buffer.
func (x *Engine) Content(s *State, b *Term) *Term {
	return x.Load(s, mk(OCell, "content", 0, nil, nil, b), str)
}
