package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is a construct that panics unless a condition holds.
type Obligation struct {
	Fn     *ssa.Function
	Pos    token.Pos
	Instr  ssa.Instruction
	Kind   string
	Visits int
	Failed int
	Guard  bool // all failing visits happen under a deferred recover
	Sample string
	Entry  string
}

// Effect is a write.
type Effect struct {
	Kind  string // store, append, mapupdate, delete
	Addr  *Term  // location, slice or map
	Val   *Term
	Fn    *ssa.Function
	Pos   token.Pos
	Entry *ssa.Function
	Fresh bool // the base object is allocated during the analysis
	Base  *Term
	Facts *Facts
}

// CutFunc decides which calls are contracts.
type CutFunc = func(x *Engine, fn *ssa.Function, args []*Term) EventKind

// Engine analyses functions.
type Engine struct {
	SplitLoops bool // the same, within loops
	inLoop     int
	Split      bool // keep states that differ in facts only apart, if they're few
	Prog       *ssa.Program
	Fset       *token.FileSet
	Repo       map[*types.Package]bool
	Cut        CutFunc
	Mutable    map[string]bool // regions changed by contract calls
	Trunc      map[string]bool // regions changed by dropping args

	Obligations map[string]*Obligation
	Effects     []*Effect
	Problems    map[string]bool
	OnLoad      func(s *State, t *Term)
	OnEscape    func(s *State, o *Term)
	OnStore     func(s *State, addr, val *Term, fn *ssa.Function, pos token.Pos)
	OnPure      func(s *State, fn *ssa.Function, args []*Term) // calls that aren't inlined, of functions of their args
	KeepLit     func(t *Term) bool                             // states that differ in it aren't joined
	OnElem      func(s *State, typ types.Type, val *Term, fn *ssa.Function, pos token.Pos)
	OnEvent     func(s *State, e *Event)
	NoInline    map[*ssa.Function]bool
	Inlined     map[*ssa.Function]bool

	globalInit   map[*Term]*Term
	written      map[string]bool // globals written outside of init
	readSets     []map[string]bool
	stack        []Frame
	loops        map[*ssa.Function]*loopInfo
	Entry        *ssa.Function
	Steps        int
	MaxSteps     int
	Sums         map[string]*LoopSum
	Panics       bool // calls of unknown functions may panic, even if nothing recovers
	recoverUp    int  // number of active frames with deferred calls
	VariadicElem func(s *State, t *Term) bool
	quiet        int // >0 during provisional loop runs: obligations are not recorded
}

// New makes an engine.
func New(prog *ssa.Program, repo map[*types.Package]bool) *Engine {
	return &Engine{Prog: prog, Fset: prog.Fset, Repo: repo, Obligations: map[string]*Obligation{}, Problems: map[string]bool{},
		globalInit: map[*Term]*Term{}, written: map[string]bool{}, loops: map[*ssa.Function]*loopInfo{}, MaxSteps: 30_000_000,
		Mutable: map[string]bool{}, Sums: map[string]*LoopSum{}, NoInline: map[*ssa.Function]bool{}, Inlined: map[*ssa.Function]bool{}}
}

type tooBig struct{ msg string }

func (x *Engine) problem(format string, args ...any) {
	if x.quiet > 0 {
		return
	}
	x.Problems[fmt.Sprintf(format, args...)] = true
}

func (x *Engine) opaqueStruct(typ types.Type) bool {
	n, ok := types.Unalias(typ).(*types.Named)
	if !ok {
		_, isS := typ.Underlying().(*types.Struct)
		return !isS
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	return !x.Repo[n.Obj().Pkg()]
}

func (x *Engine) immutableGlobal(addr *Term) bool {
	return addr.Op == OGlobal && !x.written[addr.Aux]
}

type deferred struct {
	fn   *Term
	name string
	args []*Term
	call *ssa.Defer
}

type estate struct {
	*State
	env    map[ssa.Value]*Term
	defers []deferred
}

func (e *estate) clone() *estate {
	n := &estate{State: e.State.Clone(), env: make(map[ssa.Value]*Term, len(e.env)+4), defers: append([]deferred(nil), e.defers...)}
	for k, v := range e.env {
		n.env[k] = v
	}
	return n
}

type edge struct {
	from, to *ssa.BasicBlock
	es       *estate
}

type fctx struct {
	x      *Engine
	fn     *ssa.Function
	site   string
	li     *loopInfo
	args   []*Term
	bind   []*Term
	depth  int
	curOut func(o *Outcome)
}

// Run analyses a function as entry.
func (x *Engine) Run(fn *ssa.Function, st *State, args []*Term) (outs []*Outcome, err error) {
	return x.RunBound(fn, st, args, nil)
}

// RunBound analyses a function, or a closure with its bindings, as entry.
func (x *Engine) RunBound(fn *ssa.Function, st *State, args, bind []*Term) (outs []*Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if tb, ok := r.(tooBig); ok {
				err = fmt.Errorf("%s", tb.msg)
				return
			}
			panic(r)
		}
	}()
	x.Entry = fn
	x.Steps = 0
	x.stack = nil
	x.recoverUp = 0
	outs = x.call(st, fn, args, bind, "")
	return outs, nil
}

// Params makes symbols for the parameters.
func (x *Engine) Params(fn *ssa.Function) []*Term {
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, Sym("param:"+p.Name(), p.Type()))
	}
	return args
}

func (x *Engine) onStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

func (x *Engine) call(st *State, fn *ssa.Function, args, bind []*Term, site string) []*Outcome {
	if len(x.stack) > 60 {
		panic(tooBig{"call depth exceeded in " + fn.String()})
	}
	x.Inlined[fn] = true
	f := &fctx{x: x, fn: fn, site: site, li: x.loopInfoOf(fn), args: args, bind: bind}
	x.stack = append(x.stack, Frame{Fn: fn, Args: args, Bind: bind, Site: site})
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	es := &estate{State: st, env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		es.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			es.env[p] = bind[i]
		}
	}
	exits, backs, outs := f.region(nil, fn.Blocks[0], []*estate{es})
	if len(exits) > 0 || len(backs) > 0 {
		panic("internal: exits of a function body")
	}
	return x.mergeOutcomes(outs)
}

// mergeOutcomes joins outcomes that differ in facts only.
func (x *Engine) mergeOutcomes(outs []*Outcome) []*Outcome {
	if len(outs) < 2 {
		return outs
	}
	idx := map[string]int{}
	var res []*Outcome
	for _, o := range outs {
		var sb strings.Builder
		if o.Panic {
			sb.WriteString("P" + strconv.Itoa(o.Pv.ID))
		}
		roots := x.callerRoots()
		for _, v := range o.Vals {
			sb.WriteString("," + strconv.Itoa(v.ID))
			for ob := range v.objs {
				roots[ob] = true
			}
		}
		o.St.gc(roots)
		o.St.key(&sb)
		k := sb.String()
		k += x.kept(o.St.Facts, len(outs))
		if x.split(len(outs)) {
			k += "|" + o.St.Facts.Key()
		}
		if i, ok := idx[k]; ok {
			res[i].St.Facts = res[i].St.Facts.Join(o.St.Facts)
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

// callerRoots are the objects used by the callers of the current function.
func (x *Engine) callerRoots() map[*Term]bool {
	r := map[*Term]bool{}
	for i := range x.stack {
		for o := range x.stack[i].root {
			r[o] = true
		}
		for _, a := range x.stack[i].Args {
			for o := range a.objs {
				r[o] = true
			}
		}
		for _, a := range x.stack[i].Bind {
			for o := range a.objs {
				r[o] = true
			}
		}
	}
	return r
}

func (f *fctx) pos(p token.Pos) string { return fmtPos(f.x.Fset, p) }

func (f *fctx) siteOf(b *ssa.BasicBlock, i int) string {
	return f.site + "/" + f.fn.Name() + "#" + strconv.Itoa(b.Index) + "." + strconv.Itoa(i)
}

// region runs the blocks of a loop (or the whole function), starting with start.
func (f *fctx) region(l *loop, start *ssa.BasicBlock, states []*estate) (exits []edge, backs []*estate, outs []*Outcome) {
	buckets := map[int][]*estate{}
	buckets[f.li.rpo[start]] = states
	first := true
	for len(buckets) > 0 {
		min := -1
		for k := range buckets {
			if min < 0 || k < min {
				min = k
			}
		}
		b := f.li.order[min]
		sts := f.dedupe(b, buckets[min])
		delete(buckets, min)
		goTo := func(from, to *ssa.BasicBlock, es *estate) {
			if l != nil && to == l.header {
				backs = append(backs, es)
				return
			}
			if l != nil && !l.blocks[to] {
				exits = append(exits, edge{from, to, es})
				return
			}
			buckets[f.li.rpo[to]] = append(buckets[f.li.rpo[to]], es)
		}
		inner := f.li.headers[b]
		if inner != nil && !(l != nil && l.header == b && first) {
			for _, es := range sts {
				ex, o := f.loop(inner, es)
				outs = append(outs, o...)
				for _, e := range ex {
					goTo(e.from, e.to, e.es)
				}
			}
		} else {
			for _, es := range sts {
				f.block(b, 0, es, goTo, func(o *Outcome) { outs = append(outs, o) })
			}
		}
		first = false
	}
	return
}

const splitLimit = 64

// split: so many states that differ in facts only are kept apart.
func (x *Engine) split(n int) bool {
	return n <= splitLimit && (x.Split || x.SplitLoops && x.inLoop > 0)
}

// kept tells the states apart by the literals that joins must not lose.
func (x *Engine) kept(fs *Facts, n int) string {
	if x.KeepLit == nil || n > splitLimit {
		return ""
	}
	var ks []string
	for t, v := range fs.lits {
		if x.KeepLit(t) {
			ks = append(ks, strconv.Itoa(t.ID)+strconv.FormatBool(v))
		}
	}
	sort.Strings(ks)
	return "|" + strings.Join(ks, ",")
}

// dedupe joins the states that differ in facts only.
func (f *fctx) dedupe(b *ssa.BasicBlock, states []*estate) []*estate {
	if len(states) < 2 {
		return states
	}
	caller := f.x.callerRoots()
	idx := map[string]int{}
	var res []*estate
	for _, es := range states {
		k := f.key(es, caller)
		k += f.x.kept(es.Facts, len(states))
		if f.x.split(len(states)) {
			k += "|" + es.Facts.Key()
		}
		if i, ok := idx[k]; ok {
			res[i].Facts = res[i].Facts.Join(es.Facts)
			continue
		}
		idx[k] = len(res)
		res = append(res, es)
	}
	return res
}

func (f *fctx) roots(es *estate, caller map[*Term]bool) map[*Term]bool {
	roots := map[*Term]bool{}
	for o := range caller {
		roots[o] = true
	}
	for _, v := range es.env {
		for o := range v.objs {
			roots[o] = true
		}
	}
	for _, d := range es.defers {
		if d.fn != nil {
			for o := range d.fn.objs {
				roots[o] = true
			}
		}
		for _, a := range d.args {
			for o := range a.objs {
				roots[o] = true
			}
		}
	}
	return roots
}

func (f *fctx) key(es *estate, caller map[*Term]bool) string {
	es.gc(f.roots(es, caller))
	ks := make([]string, 0, len(es.env))
	for k, v := range es.env {
		ks = append(ks, k.Name()+"="+strconv.Itoa(v.ID))
		if v.Op != OConst && isBool(k.Type()) {
			// keep what the facts know along with a condition that is tested later
			if b, ok := es.Facts.Eval(v); ok {
				ks = append(ks, k.Name()+"=="+strconv.FormatBool(b))
			}
		}
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString(strings.Join(ks, ";"))
	for _, d := range es.defers {
		sb.WriteString("|d" + strconv.Itoa(d.call.Block().Index))
		if d.fn != nil {
			sb.WriteString("." + strconv.Itoa(d.fn.ID))
		}
	}
	sb.WriteByte('#')
	es.State.key(&sb)
	return sb.String()
}

// enter moves a state along an edge: assigns phis and forgets dead values.
func (f *fctx) enter(from, to *ssa.BasicBlock, es *estate) {
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range to.Preds {
			if pr == from {
				phis = append(phis, p)
				vals = append(vals, f.val(es, p.Edges[i]))
				break
			}
		}
	}
	for i, p := range phis {
		es.env[p] = vals[i]
	}
	live := f.li.live[to]
	for k := range es.env {
		if !live[k] {
			delete(es.env, k)
		}
	}
}

func (f *fctx) val(es *estate, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return f.x.constTerm(v)
	case *ssa.Function:
		return mk(OFunc, v.String(), 0, v.Type(), v)
	case *ssa.Global:
		return f.x.GlobalAddr(v)
	case *ssa.Builtin:
		return Sym("builtin:"+v.Name(), v.Type())
	}
	t, ok := es.env[v]
	if !ok {
		f.x.problem("undefined value %s in %s", v.Name(), f.fn)
		return Sym("undef:"+f.site+v.Name(), v.Type())
	}
	return t
}

// GlobalAddr is the address of a global.
func (x *Engine) GlobalAddr(g *ssa.Global) *Term {
	return mk(OGlobal, g.String(), 0, g.Type(), g)
}

func (x *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return x.Zero(c.Type())
	}
	v := c.Value
	if b, ok := c.Type().Underlying().(*types.Basic); ok {
		if b.Info()&types.IsFloat != 0 {
			v = constant.ToFloat(v)
		}
		if b.Info()&types.IsInteger != 0 {
			v = constant.ToInt(v)
		}
	}
	return Const(v, c.Type())
}

func (x *Engine) oblige(f *fctx, es *estate, in ssa.Instruction, pos token.Pos, kind string, ok bool) {
	if x.quiet > 0 {
		return
	}
	if !pos.IsValid() {
		pos = f.nearPos(in)
	}
	k := fmt.Sprintf("%s|%s|%d|%d", f.fn.String(), kind, in.Block().Index, pos)
	o := x.Obligations[k]
	if o == nil {
		o = &Obligation{Fn: f.fn, Pos: pos, Instr: in, Kind: kind, Guard: true}
		x.Obligations[k] = o
	}
	o.Visits++
	if !ok {
		if o.Failed == 0 || x.recoverUp == 0 && o.Guard {
			o.Sample = es.Facts.String()
			o.Entry = x.Entry.String()
		}
		o.Failed++
		if x.recoverUp == 0 {
			o.Guard = false
		}
	}
}

func (f *fctx) nearPos(in ssa.Instruction) token.Pos {
	b := in.Block()
	at := -1
	for i, o := range b.Instrs {
		if o == in {
			at = i
		}
	}
	for i := at; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	for i := at; i < len(b.Instrs) && i >= 0; i++ {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return f.fn.Pos()
}

// block runs the instructions from i.
func (f *fctx) block(b *ssa.BasicBlock, i int, es *estate, goTo func(from, to *ssa.BasicBlock, es *estate), out func(o *Outcome)) {
	x := f.x
	for ; i < len(b.Instrs); i++ {
		x.Steps++
		if x.Steps > x.MaxSteps {
			panic(tooBig{"step limit exceeded in " + x.Entry.String()})
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := f.val(es, in.Cond)
			jump := func(to *ssa.BasicBlock, e *estate) {
				f.enter(b, to, e)
				goTo(b, to, e)
			}
			if v, ok := es.Facts.Eval(c); ok {
				if v {
					jump(b.Succs[0], es)
				} else {
					jump(b.Succs[1], es)
				}
				return
			}
			e2 := es.clone()
			if es.Facts.Assume(c, true) {
				jump(b.Succs[0], es)
			}
			if e2.Facts.Assume(c, false) {
				jump(b.Succs[1], e2)
			}
			return
		case *ssa.Jump:
			f.enter(b, b.Succs[0], es)
			goTo(b, b.Succs[0], es)
			return
		case *ssa.Return:
			vals := make([]*Term, len(in.Results))
			for j, r := range in.Results {
				vals[j] = f.val(es, r)
			}
			out(&Outcome{St: es.State, Vals: vals, RetPos: in.Pos()})
			return
		case *ssa.Panic:
			v := f.val(es, in.X)
			x.oblige(f, es, in, in.Pos(), "explicit panic", false)
			f.unwind(es, v, in.Pos(), out)
			return
		case *ssa.RunDefers:
			next := i + 1
			f.runDefers(es, nil, func(e *estate, rec bool) {
				f.block(b, next, e, goTo, out)
			}, out)
			return
		case *ssa.Call:
			next := i + 1
			site := f.siteOf(b, i)
			results := f.doCall(es, in, &in.Call, site, in.Pos(), out)
			if len(results) == 1 {
				if results[0].es != nil {
					es = results[0].es
					es.env[in] = results[0].val
					continue
				}
			}
			for _, r := range results {
				r.es.env[in] = r.val
				f.block(b, next, r.es, goTo, out)
			}
			return
		default:
			f.instr(es, b, i, in)
		}
	}
}

type callResult struct {
	es  *estate
	val *Term
}

// unwind handles a panic in the function: deferred functions run and may recover.
func (f *fctx) unwind(es *estate, pv *Term, pos token.Pos, out func(o *Outcome)) {
	if len(es.defers) == 0 {
		out(&Outcome{St: es.State, Panic: true, Pv: pv, RetPos: pos})
		return
	}
	f.runDefers(es, pv, func(e *estate, recovered bool) {
		if !recovered {
			out(&Outcome{St: e.State, Panic: true, Pv: pv, RetPos: pos})
			return
		}
		if f.fn.Recover == nil {
			vals := []*Term{}
			sig := f.fn.Signature.Results()
			for i := 0; i < sig.Len(); i++ {
				vals = append(vals, f.x.Zero(sig.At(i).Type()))
			}
			out(&Outcome{St: e.State, Vals: vals, RetPos: pos})
			return
		}
		f.block(f.fn.Recover, 0, e, func(from, to *ssa.BasicBlock, es *estate) {
			f.x.problem("jump in recover block of %s", f.fn)
		}, out)
	}, out)
}

// runDefers runs the deferred calls, pv is the panic value or nil.
func (f *fctx) runDefers(es *estate, pv *Term, cont func(e *estate, recovered bool), out func(o *Outcome)) {
	x := f.x
	var step func(es *estate, pv *Term)
	step = func(es *estate, pv *Term) {
		n := len(es.defers)
		if n == 0 {
			cont(es, pv == nil)
			return
		}
		d := es.defers[n-1]
		es.defers = es.defers[:n-1]
		site := f.site + "/defer" + strconv.Itoa(d.call.Block().Index)
		if d.fn != nil && (d.fn.Op == OClosure || d.fn.Op == OFunc) {
			fn := d.fn.Ref.(*ssa.Function)
			if fn.Blocks != nil && x.isRepo(fn) {
				// recover() returns pv in the deferred function itself
				rec := mk(OCell, "panic", 0, nil, nil, Sym("recover", nil))
				if pv != nil {
					es.Heap[rec] = pv
				} else {
					es.Heap[rec] = Nil
				}
				x.setRoots(f, es)
				outs := x.call(es.State, fn, d.args, d.fn.Args, site)
				for _, o := range outs {
					e := &estate{State: o.St, env: cloneEnv(es.env), defers: append([]deferred(nil), es.defers...)}
					if o.Panic {
						step(e, o.Pv)
						continue
					}
					now := pv
					if pv != nil && e.Heap[rec] == Nil {
						now = nil
					}
					delete(e.Heap, rec)
					if pv != nil && now == nil {
						// recovered: remaining defers run normally, then returns
						recs := e
						f.runDefers(recs, nil, func(e2 *estate, _ bool) { cont(e2, true) }, out)
						continue
					}
					step(e, now)
				}
				return
			}
		}
		// external deferred call: an event
		rs := f.external(es, &d.call.Call, d.name, d.args, site, d.call.Pos())
		for _, r := range rs {
			step(r.es, pv)
		}
	}
	step(es, pv)
}

func cloneEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *Engine) setRoots(f *fctx, es *estate) {
	r := f.roots(es, nil)
	x.stack[len(x.stack)-1].root = r
}

func (f *fctx) alloc(site string, typ types.Type) *Term {
	return mk(OObj, site, 0, typ, nil)
}

func (f *fctx) instr(es *estate, b *ssa.BasicBlock, idx int, in ssa.Instruction) {
	x := f.x
	set := func(v ssa.Value, t *Term) { es.env[v] = t }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := f.alloc(f.siteOf(b, idx)+":"+in.Comment, in.Type())
		for k := range es.Heap {
			if baseObj(k) == o {
				delete(es.Heap, k)
			}
		}
		delete(es.Escaped, o)
		delete(es.Ver, "elems#"+strconv.Itoa(o.ID))
		es.Fresh[o] = true
		set(in, o)
	case *ssa.FieldAddr:
		base := f.val(es, in.X)
		x.oblige(f, es, in, in.Pos(), "nil dereference", x.nonNilPtr(es, base))
		es.Facts.restrictNonNil(base)
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		set(in, x.FieldAddr(base, st, in.Field))
	case *ssa.Field:
		v := f.val(es, in.X)
		set(in, FieldOf(v, in.Field, in.Type()))
	case *ssa.IndexAddr:
		base := f.val(es, in.X)
		i := f.val(es, in.Index)
		f.checkIndex(es, in, in.X, base, i, in.Pos())
		set(in, mk(OIndexAddr, "", 0, in.Type(), nil, base, i))
	case *ssa.Index:
		base := f.val(es, in.X)
		i := f.val(es, in.Index)
		f.checkIndex(es, in, in.X, base, i, in.Pos())
		set(in, App("index", in.Type(), base, i))
	case *ssa.UnOp:
		v := f.val(es, in.X)
		switch in.Op {
		case token.MUL:
			if v.Op != OFieldAddr && v.Op != OIndexAddr && v.Op != OObj && v.Op != OGlobal {
				x.oblige(f, es, in, in.Pos(), "nil dereference", x.nonNilPtr(es, v))
			}
			t := x.Load(es.State, v, in.Type())
			set(in, t)
		case token.NOT:
			set(in, Not(v))
		case token.SUB:
			if n, ok := v.IntVal(); ok {
				set(in, Const(constant.MakeInt64(-n), in.Type()))
			} else {
				set(in, mk(OUn, "-", 0, in.Type(), nil, v))
			}
		case token.ARROW:
			x.problem("channel receive in %s", f.fn)
			set(in, Sym("recv"+f.siteOf(b, idx), in.Type()))
		default:
			set(in, mk(OUn, in.Op.String(), 0, in.Type(), nil, v))
		}
	case *ssa.Store:
		addr := f.val(es, in.Addr)
		if addr.Op != OFieldAddr && addr.Op != OIndexAddr && addr.Op != OObj && addr.Op != OGlobal {
			x.oblige(f, es, in, in.Pos(), "nil dereference", x.nonNilPtr(es, addr))
		}
		v := f.val(es, in.Val)
		f.effect(es, "store", addr, v, in.Pos())
		if x.OnStore != nil {
			x.OnStore(es.State, addr, v, f.fn, in.Pos())
		}
		x.Store(es.State, addr, v, in.Val.Type(), f.siteOf(b, idx))
		if addr.Op == OGlobal && f.fn.Name() != "init" && !strings.HasPrefix(f.fn.Name(), "init#") {
			x.written[addr.Aux] = true
		}
	case *ssa.BinOp:
		set(in, f.binop(es, in))
	case *ssa.MakeInterface:
		v := f.val(es, in.X)
		set(in, Iface(in.X.Type(), v))
	case *ssa.ChangeInterface:
		set(in, f.val(es, in.X))
	case *ssa.ChangeType:
		v := f.val(es, in.X)
		set(in, v)
	case *ssa.Convert:
		set(in, f.convert(f.val(es, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, mk(OConv, typeKey(in.Type()), 0, in.Type(), nil, f.val(es, in.X)))
	case *ssa.SliceToArrayPointer:
		set(in, mk(OConv, typeKey(in.Type()), 0, in.Type(), nil, f.val(es, in.X)))
	case *ssa.Extract:
		t := f.val(es, in.Tuple)
		if t.Op == OTuple {
			set(in, t.Args[in.Index])
		} else {
			set(in, mk(OField, strconv.Itoa(in.Index), int64(in.Index), in.Type(), nil, t))
		}
	case *ssa.TypeAssert:
		f.typeAssert(es, in)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bind []*Term
		for _, bv := range in.Bindings {
			bind = append(bind, f.val(es, bv))
		}
		set(in, mk(OClosure, fn.String(), 0, in.Type(), fn, bind...))
	case *ssa.MakeSlice:
		l, c := f.val(es, in.Len), f.val(es, in.Cap)
		x.oblige(f, es, in, in.Pos(), "makeslice: negative or too large len or cap", es.Facts.leq(Int(0), l, 0) && es.Facts.leq(l, c, 0))
		o := mk(OMake, f.siteOf(b, idx), 0, in.Type(), nil, l, c)
		for k := range es.Heap {
			if baseObj(k) == o {
				delete(es.Heap, k)
			}
		}
		delete(es.Escaped, o)
		delete(es.Ver, "elems#"+strconv.Itoa(o.ID))
		es.Fresh[o] = true
		set(in, o)
	case *ssa.MakeMap:
		o := mk(OObj, f.siteOf(b, idx)+":map", 0, in.Type(), nil)
		for k := range es.Heap {
			if baseObj(k) == o {
				delete(es.Heap, k)
			}
		}
		delete(es.Escaped, o)
		es.Fresh[o] = true
		set(in, o)
	case *ssa.MapUpdate:
		m, k, v := f.val(es, in.Map), f.val(es, in.Key), f.val(es, in.Value)
		x.oblige(f, es, in, in.Pos(), "assignment to nil map", es.Facts.NonNil(m))
		f.mapKey(es, in, k, in.Pos())
		f.effect(es, "mapupdate", m, v, in.Pos())
		if x.OnElem != nil {
			x.OnElem(es.State, in.Map.Type(), v, f.fn, in.Pos())
		}
		x.mapUpdate(es.State, m, k, v, f.siteOf(b, idx))
	case *ssa.Lookup:
		f.lookup(es, in)
	case *ssa.Slice:
		f.slice(es, b, idx, in)
	case *ssa.Range:
		v := f.val(es, in.X)
		set(in, mk(OApp, "range", 0, nil, in, v, x.mapVer(es.State, v)))
	case *ssa.Next:
		it := f.val(es, in.Iter)
		site := f.siteOf(b, idx)
		tup := in.Type().(*types.Tuple)
		ok := mk(OApp, "next.ok:"+site, 0, types.Typ[types.Bool], nil, it)
		k := mk(OApp, "next.key:"+site, 0, tup.At(1).Type(), nil, it)
		v := mk(OApp, "next.val:"+site, 0, tup.At(2).Type(), nil, it)
		if in.IsString {
			es.Facts.addLeq(Int(0), k, 0)
		}
		if x.OnLoad != nil {
			x.OnLoad(es.State, v)
		}
		set(in, Tuple(ok, k, v))
	case *ssa.Defer:
		d := deferred{call: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, f.val(es, a))
		}
		if in.Call.IsInvoke() {
			d.args = append([]*Term{f.val(es, in.Call.Value)}, d.args...)
			d.name = in.Call.Method.FullName()
		} else {
			d.fn = f.val(es, in.Call.Value)
			if d.fn.Op == OFunc {
				d.name = d.fn.Aux
			}
		}
		es.defers = append(es.defers, d)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		x.problem("unsupported %T in %s at %s", in, f.fn, f.pos(in.Pos()))
		if v, ok := in.(ssa.Value); ok {
			set(v, Sym("unsup"+f.siteOf(b, idx), v.Type()))
		}
	default:
		x.problem("unsupported %T in %s", in, f.fn)
		if v, ok := in.(ssa.Value); ok {
			set(v, Sym("unsup"+f.siteOf(b, idx), v.Type()))
		}
	}
}

func (fs *Facts) restrictNonNil(t *Term) {
	if !t.KnownNonNil() && t.Op != ONil {
		fs.restrict(fs.cs, t, Nil, false)
	}
}

func (x *Engine) nonNilPtr(es *estate, p *Term) bool {
	return es.Facts.NonNil(p)
}

func (f *fctx) effect(es *estate, kind string, addr, v *Term, pos token.Pos) {
	x := f.x
	if x.quiet > 0 {
		return
	}
	b := baseObj(addr)
	x.Effects = append(x.Effects, &Effect{Kind: kind, Addr: addr, Val: v, Fn: f.fn, Pos: pos, Entry: x.Entry, Base: b,
		Fresh: (b.Op == OObj || b.Op == OMake) && es.Fresh[b], Facts: es.Facts})
}

func (f *fctx) checkIndex(es *estate, in ssa.Instruction, xv ssa.Value, base, i *Term, pos token.Pos) {
	var n *Term
	t := xv.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	switch t := t.(type) {
	case *types.Array:
		n = Int(t.Len())
	default:
		n = Len(base)
	}
	ok := es.Facts.leq(Int(0), i, 0) && es.Facts.leq(i, n, -1)
	f.x.oblige(f, es, in, pos, "index out of range", ok)
	// afterwards it's in range
	es.Facts.addLeq(Int(0), i, 0)
	es.Facts.addLeq(i, n, -1)
}

func (f *fctx) mapKey(es *estate, in ssa.Instruction, k *Term, pos token.Pos) {
	// keys of interface types may be unhashable
	var kt types.Type
	switch in := in.(type) {
	case *ssa.MapUpdate:
		kt = in.Map.Type().Underlying().(*types.Map).Key()
	case *ssa.Lookup:
		m, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		kt = m.Key()
	default:
		return
	}
	if _, ok := kt.Underlying().(*types.Interface); ok {
		f.x.oblige(f, es, in, pos, "hash of unhashable type", f.x.hashable(es.Facts, k))
	}
}

// hashable reports whether the interface value is known to be hashable.
func (x *Engine) hashable(fs *Facts, k *Term) bool {
	if k.Op == OIface {
		return types.Comparable(k.Ref.(types.Type)) && !hasIface(k.Ref.(types.Type))
	}
	if fs.IsNil(k) {
		return true
	}
	// it's a key of a map already
	if k.Op == OApp && strings.HasPrefix(k.Aux, "next.key:") {
		return true
	}
	for l, v := range fs.lits {
		if v && l.Op == OApp && l.Aux == "hashOr" && l.Args[0] == k {
			return true
		}
	}
	return false
}

func hasIface(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasIface(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasIface(u.Elem())
	}
	return false
}

func (f *fctx) binop(es *estate, in *ssa.BinOp) *Term {
	a, b := f.val(es, in.X), f.val(es, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		// comparing interfaces may panic for uncomparable dynamic types
		if _, ok := in.X.Type().Underlying().(*types.Interface); ok && a.Op != ONil && b.Op != ONil {
			f.x.oblige(f, es, in, in.Pos(), "comparing uncomparable type", f.x.comparableIface(es.Facts, a, b))
		}
		e := Eq(a, b)
		if in.Op == token.NEQ {
			return Not(e)
		}
		return e
	case token.LSS:
		return Lt(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.LEQ:
		return Not(Lt(b, a))
	case token.GEQ:
		return Not(Lt(a, b))
	case token.ADD:
		if isString(in.Type()) {
			return Concat(a, b)
		}
		if isInt(in.Type()) {
			return Add(a, b)
		}
	case token.SUB:
		if isInt(in.Type()) {
			return Sub(a, b)
		}
	case token.QUO, token.REM:
		if isInt(in.Type()) {
			z, ok := es.Facts.Eval(Eq(b, Int(0)))
			f.x.oblige(f, es, in, in.Pos(), "division by zero", ok && !z)
		}
	case token.AND, token.OR:
		if ca, ok := a.IntVal(); ok {
			if cb, ok := b.IntVal(); ok {
				if in.Op == token.AND {
					return Const(constant.MakeInt64(ca&cb), in.Type())
				}
				return Const(constant.MakeInt64(ca|cb), in.Type())
			}
		}
	}
	return mk(OBin, in.Op.String(), 0, in.Type(), nil, a, b)
}

func (x *Engine) comparableIface(fs *Facts, a, b *Term) bool {
	ok := func(t *Term) bool {
		if t.Op == OIface {
			dt := t.Ref.(types.Type)
			return types.Comparable(dt) && !hasIface(dt)
		}
		if fs.IsNil(t) || x.hashable(fs, t) {
			return true
		}
		if neg, set, ok := fs.TypeSet(t); ok && !neg {
			for _, dt := range set {
				if !types.Comparable(dt) || hasIface(dt) {
					return false
				}
			}
			return true
		}
		// reflect.Type values are pointers, errors are usually pointers
		if t.Typ != nil {
			s := typeKey(t.Typ)
			if s == "reflect.Type" {
				return true
			}
		}
		if t.Op == OLoad && t.Args[0].Op == OGlobal {
			return true
		}
		return false
	}
	// it panics only if both have the same, uncomparable dynamic type
	return ok(a) || ok(b)
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func intBits(k types.BasicKind) (bits int, signed bool) {
	switch k {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 0, false
}

func (f *fctx) convert(v *Term, from, to types.Type) *Term {
	fk, tk := basicKind(from), basicKind(to)
	fb, fs := intBits(fk)
	tb, ts := intBits(tk)
	if fb > 0 && tb > 0 {
		if n, ok := v.IntVal(); ok {
			return Const(constant.MakeInt64(n), to)
		}
		if fs == ts && tb >= fb || !fs && ts && tb > fb {
			return v
		}
		return mk(OConv, typeKey(to), 0, to, nil, v)
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && basicKind(s.Elem()) == types.Uint8
	}
	if isString(from) && isString(to) {
		return v
	}
	if isString(from) && isBytes(to) || isBytes(from) && isString(to) {
		return v // contents
	}
	if v.Op == OConst && isString(to) && fb > 0 {
		if n, ok := v.IntVal(); ok {
			return Str(string(rune(n)))
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return mk(OConv, typeKey(to), 0, to, nil, v)
}

func (f *fctx) typeAssert(es *estate, in *ssa.TypeAssert) {
	x := f.x
	v := f.val(es, in.X)
	T := in.AssertedType
	_, toIface := T.Underlying().(*types.Interface)
	var val, ok *Term
	if v.Op == OIface {
		dyn := v.Ref.(types.Type)
		if toIface {
			ok = Bool(types.Implements(dyn, T.Underlying().(*types.Interface)))
			val = v
		} else {
			same := types.Identical(dyn, T)
			ok = Bool(same)
			val = v.Args[0]
			if !same {
				val = x.Zero(T)
			}
		}
	} else if v.Op == ONil {
		ok = False
		val = x.Zero(T)
	} else {
		ok = mk(OAssertOk, typeKey(T), 0, types.Typ[types.Bool], T, v)
		if toIface {
			val = v
			if it := T.Underlying().(*types.Interface); it.NumMethods() > 0 {
				val = mk(OAssert, typeKey(T), 0, T, T, v)
			}
		} else {
			val = mk(OAssert, typeKey(T), 0, T, T, v)
		}
		if bv, known := es.Facts.Eval(ok); known {
			ok = Bool(bv)
			if !bv {
				val = x.Zero(T)
			}
		}
	}
	if in.CommaOk {
		es.env[in] = Tuple(val, ok)
		return
	}
	b, known := es.Facts.Eval(ok)
	x.oblige(f, es, in, in.Pos(), "type assertion", known && b)
	es.Facts.Assume(ok, true)
	es.env[in] = val
}

// mapVer is the version of the contents of a map.
func (x *Engine) mapVer(s *State, m *Term) *Term {
	if v, ok := s.Heap[mk(OMapVer, "", 0, nil, nil, m)]; ok {
		return v
	}
	b := baseObj(m)
	if b.Op == OObj && s.Fresh[b] {
		return Nil
	}
	r := "map:" + mapKeyOf(m)
	x.noteRead(r)
	return x.ver(s, r)
}

func mapKeyOf(m *Term) string {
	if m.Typ == nil {
		return "?"
	}
	return typeKey(m.Typ.Underlying())
}

func (x *Engine) mapUpdate(s *State, m, k, v *Term, site string) {
	b := baseObj(m)
	fresh := b.Op == OObj
	for a := range s.Heap {
		if a.Op != OMapElem {
			continue
		}
		if a.Args[0] == m {
			if Eq(a.Args[1], k) != False {
				delete(s.Heap, a)
			}
		} else if !fresh {
			ab := baseObj(a.Args[0])
			if ab.Op != OObj {
				delete(s.Heap, a)
			}
		}
	}
	s.Heap[mk(OMapElem, mapKeyOf(m), 0, nil, nil, m, k)] = v
	ver := mk(OApp, "upd", 0, nil, nil, x.mapVer(s, m), k, v)
	s.Heap[mk(OMapVer, mapKeyOf(m), 0, nil, nil, m)] = ver
	s.Heap[mk(OMapVer, "", 0, nil, nil, m)] = ver
	if !fresh {
		s.Ver["map:"+mapKeyOf(m)] = Sym("v"+site, nil)
	}
	x.escapeStore(s, b, v)
	x.escapeStore(s, b, k)
}

func (x *Engine) mapDelete(s *State, m, k *Term, site string) {
	b := baseObj(m)
	for a := range s.Heap {
		if a.Op == OMapElem && a.Args[0] == m && Eq(a.Args[1], k) != False {
			delete(s.Heap, a)
		}
	}
	ver := mk(OApp, "del", 0, nil, nil, x.mapVer(s, m), k)
	s.Heap[mk(OMapVer, "", 0, nil, nil, m)] = ver
	if b.Op != OObj {
		s.Ver["map:"+mapKeyOf(m)] = Sym("v"+site, nil)
	}
}

func (f *fctx) lookup(es *estate, in *ssa.Lookup) {
	x := f.x
	m := f.val(es, in.X)
	k := f.val(es, in.Index)
	if isString(in.X.Type()) {
		f.checkIndex(es, in, in.X, m, k, in.Pos())
		es.env[in] = App("index", in.Type(), m, k)
		return
	}
	f.mapKey(es, in, k, in.Pos())
	et := in.X.Type().Underlying().(*types.Map).Elem()
	if v, ok := es.Heap[mk(OMapElem, mapKeyOf(m), 0, nil, nil, m, k)]; ok {
		if in.CommaOk {
			es.env[in] = Tuple(v, True)
		} else {
			es.env[in] = v
		}
		return
	}
	ver := x.mapVer(es.State, m)
	b := baseObj(m)
	if m.Op == ONil || b.Op == OObj && es.Fresh[b] && ver == Nil {
		if in.CommaOk {
			es.env[in] = Tuple(x.Zero(et), False)
		} else {
			es.env[in] = x.Zero(et)
		}
		return
	}
	// look through updates of other keys
	for ver.Op == OApp && (ver.Aux == "upd" || ver.Aux == "del") && Eq(ver.Args[1], k) == False {
		ver = ver.Args[0]
	}
	val := mk(OLookup, "", 0, et, nil, m, k, ver)
	ok := mk(OLookupOk, "", 0, types.Typ[types.Bool], nil, m, k, ver)
	if x.OnLoad != nil {
		x.OnLoad(es.State, val)
	}
	if in.CommaOk {
		es.env[in] = Tuple(val, ok)
	} else {
		es.env[in] = val
	}
}

func (f *fctx) slice(es *estate, b *ssa.BasicBlock, idx int, in *ssa.Slice) {
	x := f.x
	base := f.val(es, in.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return f.val(es, v)
	}
	lo, hi, max := get(in.Low), get(in.High), get(in.Max)
	t := in.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		arr := p.Elem().Underlying().(*types.Array)
		if lo == nil && hi == nil && base.Op == OObj {
			items := make([]*Term, arr.Len())
			for i := range items {
				items[i] = x.Load(es.State, mk(OIndexAddr, "", 0, types.NewPointer(arr.Elem()), nil, base, Int(int64(i))), arr.Elem())
				if x.OnElem != nil {
					x.OnElem(es.State, in.Type(), items[i], f.fn, in.Pos())
				}
			}
			es.env[in] = Seq(base.Aux, in.Type(), items...)
			return
		}
		n := Int(arr.Len())
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = n
		}
		x.oblige(f, es, in, in.Pos(), "slice bounds out of range", es.Facts.leq(Int(0), lo, 0) && es.Facts.leq(lo, hi, 0) && es.Facts.leq(hi, n, 0))
		es.env[in] = mk(OSlice, "", 0, in.Type(), nil, base, lo, hi)
		return
	}
	n := Len(base)
	capT := n
	if !isString(in.X.Type()) {
		capT = Cap(base)
	}
	if lo == nil {
		lo = Int(0)
	}
	full := hi == nil
	if hi == nil {
		hi = n
	}
	okHi := es.Facts.leq(hi, n, 0) || (capT != n && es.Facts.leq(hi, capT, 0))
	ok := es.Facts.leq(Int(0), lo, 0) && es.Facts.leq(lo, hi, 0) && okHi
	if max != nil {
		ok = ok && es.Facts.leq(hi, max, 0) && (es.Facts.leq(max, capT, 0) || es.Facts.leq(max, n, 0))
	}
	x.oblige(f, es, in, in.Pos(), "slice bounds out of range", ok)
	es.Facts.addLeq(Int(0), lo, 0)
	es.Facts.addLeq(lo, hi, 0)
	if isString(in.X.Type()) {
		if full && lo == Int(0) {
			es.env[in] = base
			return
		}
		es.env[in] = mk(OSlice, "", 0, in.Type(), nil, base, lo, hi)
		return
	}
	var r *Term
	if lo == Int(0) && hi == n {
		r = base
	} else {
		r = mk(OSlice, "", 0, in.Type(), nil, base, lo, hi)
	}
	if max != nil && max == hi {
		r = mk(OCapped, "", 0, in.Type(), nil, r)
	}
	es.env[in] = r
}

// MapVer is the version of the contents of a map.
func (x *Engine) MapVer(s *State, m *Term) *Term { return x.mapVer(s, m) }

// MapEntries lists the entries of a map whose content is known.
func (x *Engine) MapEntries(s *State, m *Term) map[*Term]*Term {
	out := map[*Term]*Term{}
	v := x.mapVer(s, m)
	for v.Op == OApp && v.Aux == "upd" {
		if out[v.Args[1]] == nil {
			out[v.Args[1]] = v.Args[2]
		}
		v = v.Args[0]
	}
	return out
}

// MapGet is the element of a map, and whether it has one, as a lookup reads them.
func (x *Engine) MapGet(s *State, m, k *Term, et types.Type) *Term {
	if v, ok := s.Heap[mk(OMapElem, mapKeyOf(m), 0, nil, nil, m, k)]; ok {
		return v
	}
	ver := x.mapVer(s, m)
	for ver.Op == OApp && (ver.Aux == "upd" || ver.Aux == "del") && Eq(ver.Args[1], k) == False {
		ver = ver.Args[0]
	}
	if ver.Op == OApp && ver.Aux == "upd" && ver.Args[1] == k {
		return ver.Args[2]
	}
	return mk(OLookup, "", 0, et, nil, m, k, ver)
}

// IndexAddr is the address of an element of a slice.
func (x *Engine) IndexAddr(s, i *Term, et types.Type) *Term {
	return mk(OIndexAddr, "", 0, types.NewPointer(et), nil, s, i)
}

// LenOf is the number of entries of a map.
func (x *Engine) LenOf(s *State, m *Term) *Term {
	v := x.mapVer(s, m)
	if m.Op == OObj && v == Nil && s.Fresh[m] {
		return Int(0)
	}
	return mk(OLen, "", 0, types.Typ[types.Int], nil, App("map", nil, m, v))
}

// Recv is the receiver of the method that is analysed.
func (x *Engine) Recv() *Term {
	if len(x.stack) == 0 || len(x.stack[0].Args) == 0 {
		return nil
	}
	return x.stack[0].Args[0]
}
