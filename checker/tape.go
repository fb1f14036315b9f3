package main

import (
	"crypto/md5"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// The tape machine is an abstract interpreter for the parser. Its domain keeps
// of the template what the parser may still look at: a tape of characters, of
// which each is known to be in a set of atoms, and gaps, that stand for one or
// more characters. Offsets, substrings, runes and numbers are values relative to
// positions of the tape. A state meets a specification automaton, that is
// stepped for each character, and is joined with what has been seen before at
// loop heads, after unreferenced positions, dead values and objects are dropped.
// As what remains is finite, all templates are covered.

// atoms is a set of characters: 128 of ASCII and representatives of others.
type atoms [3]uint64

// runes other than ASCII are told apart by class only, and from those that are
// constants in the code.
var otherRunes = []rune{utf8.RuneError, 0xA0, 0x85, 0xE9, 0xC9, 0x663, 0x2014, 0x17F, 0x212A, 0x4E2D, 0x1F600}

type alphabet struct {
	other []rune
}

func (a *alphabet) size() int { return 128 + len(a.other) }
func (a *alphabet) rune(i int) rune {
	if i < 128 {
		return rune(i)
	}
	return a.other[i-128]
}

func (s atoms) has(i int) bool { return s[i/64]&(1<<(i%64)) != 0 }
func (s *atoms) add(i int)     { s[i/64] |= 1 << (i % 64) }
func (s atoms) and(t atoms) atoms {
	return atoms{s[0] & t[0], s[1] & t[1], s[2] & t[2]}
}
func (s atoms) minus(t atoms) atoms {
	return atoms{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2]}
}
func (s atoms) empty() bool { return s == atoms{} }
func (s atoms) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2])
}
func (s atoms) ascii() bool { return s[2] == 0 }

type vkind uint8

const (
	vAny   vkind = iota // unknown
	vInt                // constant integer n; rel: relative to the number of bindvars
	vOff                // byte offset of position p, plus n
	vDiff               // offset of q less offset of p, plus n
	vChar               // character at p
	vFun                // a function of a character: fn, xs
	vWidth              // bytes of the character at p
	vStr                // constant string
	vSub                // input from p to q; q<0: to the end
	vUnq                // input from p to q with doubled quotes made single
	vNum                // number that the input from p to q is
	vText               // unknown string
	vBool               // n
	vNil
	vErr  // error, not nil
	vAddr // address in object n, path xs
	vRef  // address of a value that's not changed
	vList // list; n: whether a prefix has been dropped
	vTuple
	vFunc   // function with captured values
	vIface  // interface
	vStruct // struct or array
	vMap    // object n
	vBuiltin
)

type val struct {
	k    vkind
	rel  bool
	n    int64
	s    string
	p, q int
	fn   *ssa.Function
	t    types.Type
	f    func(rs []rune) (any, bool) // vFun
	xs   []*val
}

type node struct {
	kind uint8 // 0 character, 1 gap, 2 end
	set  atoms // what's known
	cls  atoms // what the grammar made of it
	hold bool  // it's a delimiter of a literal
}

type fact struct {
	p, q int
	s    string // "=text" or "float", "int"
}

type object struct {
	t types.Type
	v *val
	m []mapEntry
}

type mapEntry struct{ k, v *val }

type tframe struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	idx   int
	env   map[ssa.Value]*val
	call  *ssa.Call
}

type tstate struct {
	frames []*tframe
	heap   map[int]*object
	next   int
	tape   []node
	facts  map[fact]bool
	spec   *grammar
	glob   map[*ssa.Global]int
	choice *bool
	trail  string
	last   [16]byte // the merged state it comes from
	read   bool     // a character was read since
}

func (s *tstate) clone() *tstate {
	c := *s
	c.frames = nil
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		c.frames = append(c.frames, &g)
	}
	c.heap = make(map[int]*object, len(s.heap))
	for k, o := range s.heap {
		c.heap[k] = o
	}
	c.tape = append([]node(nil), s.tape...)
	c.facts = make(map[fact]bool, len(s.facts))
	for k, v := range s.facts {
		c.facts[k] = v
	}
	c.spec = s.spec.clone()
	return &c
}

// a fork of the state: an instruction can't be decided without it.
type fork struct {
	alts []func(s *tstate)
}

// stuck: the machine can't follow the code.
type stuck struct{ why string }

// crash: the code may panic.
type crash struct{ why string }

type finding struct {
	cats []string
	pos  token.Pos
	fn   *ssa.Function
	msg  string
}

type machine struct {
	c        *C
	alpha    *alphabet
	all      atoms
	classes  map[[2]byte][]atoms
	seen     map[[16]byte]bool
	work     []*tstate
	found    []finding
	states   int
	steps    int
	elems    map[string]int
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	heads    map[*ssa.BasicBlock]bool
	inited   map[*ssa.Function]bool
	pkg      *ssa.Package
	template *val
	funcs    map[*ssa.Function]bool
	limit    int
	offField map[string]bool
	foundAt  int                     // states when the first violation was found
	edges    map[[16]byte][][16]byte // between merged states, when nothing was read
	where    map[[16]byte]*tstate    // for reports
}

func newMachine(c *C) *machine {
	m := &machine{c: c, seen: map[[16]byte]bool{}, elems: map[string]int{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, heads: map[*ssa.BasicBlock]bool{}, inited: map[*ssa.Function]bool{}, pkg: c.P.Synt, funcs: map[*ssa.Function]bool{}, limit: 2500000}
	other := append([]rune(nil), otherRunes...)
	has := map[rune]bool{}
	for _, r := range other {
		has[r] = true
	}
	for _, fn := range c.P.Funcs {
		if fn.Pkg != m.pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
						continue
					}
					if n, ok := constant.Int64Val(k.Value); ok && n >= 128 && n <= unicode.MaxRune && !has[rune(n)] && len(other) < 60 {
						has[rune(n)] = true
						other = append(other, rune(n))
					}
				}
			}
		}
	}
	m.alpha = &alphabet{other: other}
	for i := 0; i < m.alpha.size(); i++ {
		m.all.add(i)
	}
	m.classes = map[[2]byte][]atoms{}
	return m
}

// setOf is the set of characters a predicate holds for.
func (m *machine) setOf(is func(r rune) bool) (s atoms) {
	for i := 0; i < m.alpha.size(); i++ {
		if is(m.alpha.rune(i)) {
			s.add(i)
		}
	}
	return s
}

func mkInt(n int64) *val { return &val{k: vInt, n: n} }
func mkBool(b bool) *val {
	if b {
		return &val{k: vBool, n: 1}
	}
	return &val{k: vBool}
}
func mkStr(s string) *val { return &val{k: vStr, s: s} }

var anyVal = &val{k: vAny}
var textVal = &val{k: vText}
var nilVal = &val{k: vNil}
var errVal = &val{k: vErr}

// run explores the parser, from all templates.
func (m *machine) run(fn *ssa.Function) {
	s := &tstate{heap: map[int]*object{}, facts: map[fact]bool{}, spec: newGrammar(), glob: map[*ssa.Global]int{}}
	// the variables of the package
	if init := m.pkg.Func("init"); init != nil {
		m.enter(s, init, nil, nil)
	}
	first := true
	m.work = []*tstate{s}
	for len(m.work) > 0 {
		s := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		if len(s.frames) == 0 && first {
			first = false
			m.enter(s, fn, []*val{{k: vSub, p: 0, q: -1}}, nil)
		}
		m.explore(s)
		if len(m.found) > 40 || m.states > m.limit || len(m.found) > 0 && m.states > m.foundAt+60000 {
			break
		}
	}
	if m.states > m.limit && len(m.found) == 0 {
		m.report(&tstate{}, []string{"*"}, "the states of the parser are too many to be explored")
	}
}

func (m *machine) report(s *tstate, cats []string, msg string) {
	f := finding{cats: cats, msg: msg}
	if n := len(s.frames); n > 0 {
		fr := s.frames[n-1]
		f.fn = fr.fn
		if fr.idx < len(fr.block.Instrs) {
			f.pos = fr.block.Instrs[fr.idx].Pos()
			for i := fr.idx; !f.pos.IsValid() && i >= 0; i-- {
				f.pos = fr.block.Instrs[i].Pos()
			}
		}
		if !f.pos.IsValid() {
			f.pos = fr.fn.Pos()
		}
	}
	if s.trail != "" {
		f.msg += ", as in " + strconv.Quote(s.trail)
	}
	for _, g := range m.found {
		if g.pos == f.pos && g.fn == f.fn && strings.Join(g.cats, ",") == strings.Join(f.cats, ",") {
			return
		}
	}
	m.found = append(m.found, f)
	if len(m.found) == 1 {
		m.foundAt = m.states
	}
}

// explore runs a state until it ends or has been seen.
func (m *machine) explore(s *tstate) {
	for {
		if len(s.frames) == 0 {
			return
		}
		m.steps++
		next, alts := m.step(s)
		if alts != nil {
			m.states += len(alts)
			m.work = append(m.work, alts...)
			return
		}
		if next == nil {
			return
		}
		if m.steps > 200_000_000 {
			m.states = m.limit + 1
			return
		}
	}
}

// step executes an instruction. It returns nil at the end of the path, or
// alternatives in place of the state.
func (m *machine) step(s *tstate) (next *tstate, alts []*tstate) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case fork:
			next = nil
			for _, a := range e.alts {
				c := s.clone()
				a(c)
				alts = append(alts, c)
			}
			if alts == nil {
				alts = []*tstate{}
			}
		case stuck:
			m.report(s, []string{"*"}, "it can't be followed: "+e.why)
			next, alts = nil, nil
		case crash:
			m.report(s, []string{"C11", "C12"}, "it may panic: "+e.why)
			next, alts = nil, nil
		default:
			panic(e)
		}
	}()
	// the specification reads what's on the tape
	for s.spec.pos < len(s.tape) {
		s.spec.step(m, s)
	}
	fr := s.frames[len(s.frames)-1]
	in := fr.block.Instrs[fr.idx]
	if fr.idx == firstInstr(fr.block) && m.isHead(fr.block) {
		if done := m.canon(s); done {
			return nil, nil
		}
		fr = s.frames[len(s.frames)-1]
	}
	m.funcs[fr.fn] = true
	return m.exec(s, fr, in), nil
}

func firstInstr(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

func (m *machine) isHead(b *ssa.BasicBlock) bool {
	h, ok := m.heads[b]
	if !ok {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				h = true
			}
		}
		m.heads[b] = h
	}
	return h
}

func (m *machine) enter(s *tstate, fn *ssa.Function, args []*val, call *ssa.Call) {
	if fn.Blocks == nil {
		panic(stuck{"call of " + fn.String()})
	}
	if len(s.frames) > 60 {
		panic(stuck{"recursion of " + fn.String()})
	}
	fr := &tframe{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*val{}, call: call}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = args[len(fn.Params)+i]
	}
	s.frames = append(s.frames, fr)
}

// get is the value of an operand.
func (m *machine) get(s *tstate, fr *tframe, v ssa.Value) *val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return &val{k: vFunc, fn: v}
	case *ssa.Builtin:
		return &val{k: vBuiltin, s: v.Name()}
	case *ssa.Global:
		id, ok := s.glob[v]
		if !ok {
			t := v.Type().(*types.Pointer).Elem()
			id = m.alloc(s, t, m.zero(t))
			s.glob[v] = id
		}
		return &val{k: vAddr, n: int64(id)}
	}
	x := fr.env[v]
	if x == nil {
		panic(stuck{"value " + v.Name() + " isn't known"})
	}
	return x
}

func constVal(c *ssa.Const) *val {
	if c.Value == nil {
		switch u := c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return zeroOf(u)
		}
		return nilVal
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := constant.Int64Val(c.Value); ok {
				return mkInt(n)
			}
		}
	}
	return anyVal
}

func (m *machine) zero(t types.Type) *val { return zeroOf(t) }

func zeroOf(t types.Type) *val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		}
		return anyVal
	case *types.Struct:
		v := &val{k: vStruct}
		for i := 0; i < u.NumFields(); i++ {
			v.xs = append(v.xs, zeroOf(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &val{k: vStruct}
		for i := int64(0); i < u.Len(); i++ {
			v.xs = append(v.xs, zeroOf(u.Elem()))
		}
		return v
	}
	return nilVal
}

func (m *machine) alloc(s *tstate, t types.Type, v *val) int {
	s.next++
	s.heap[s.next] = &object{t: t, v: v}
	return s.next
}

func (m *machine) load(s *tstate, a *val) *val {
	switch a.k {
	case vRef:
		return a.xs[0]
	case vNil:
		panic(crash{"nil dereference"})
	case vAddr:
	default:
		panic(stuck{"load from an unknown address"})
	}
	v := s.heap[int(a.n)].v
	for _, i := range a.xs {
		if v.k != vStruct || int(i.n) >= len(v.xs) {
			panic(stuck{"load from an unknown value"})
		}
		v = v.xs[i.n]
	}
	return v
}

func (m *machine) store(s *tstate, a, v *val) {
	if a.k == vNil {
		panic(crash{"nil dereference"})
	}
	if a.k != vAddr {
		panic(stuck{"store to an unknown address"})
	}
	o := *s.heap[int(a.n)]
	var set func(old *val, path []*val) *val
	set = func(old *val, path []*val) *val {
		if len(path) == 0 {
			return v
		}
		if old.k != vStruct {
			panic(stuck{"store to an unknown value"})
		}
		n := *old
		n.xs = append([]*val(nil), old.xs...)
		n.xs[path[0].n] = set(old.xs[path[0].n], path[1:])
		return &n
	}
	o.v = set(o.v, a.xs)
	s.heap[int(a.n)] = &o
}

func sub(a *val, i int64) *val {
	switch a.k {
	case vAddr:
		return &val{k: vAddr, n: a.n, xs: append(append([]*val(nil), a.xs...), mkInt(i))}
	case vRef:
		if a.xs[0].k == vStruct {
			return &val{k: vRef, xs: []*val{a.xs[0].xs[i]}}
		}
	case vNil:
		panic(crash{"nil dereference"})
	}
	panic(stuck{"field of an unknown value"})
}

// exec executes an instruction.
func (m *machine) exec(s *tstate, fr *tframe, in ssa.Instruction) *tstate {
	set := func(v ssa.Value, x *val) *tstate {
		if s.frames[len(s.frames)-1] == fr {
			fr.env[v] = x
			fr.idx++
		}
		return s
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		fr.idx++
		return s
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		return set(in, &val{k: vAddr, n: int64(m.alloc(s, t, m.zero(t)))})
	case *ssa.Store:
		v := m.get(s, fr, in.Val)
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok && v.k == vInt && !v.rel && v.n > 0 && m.offsets()[fieldOf(fa)] {
			if p, n := m.normal(s, 0, v.n); n == 0 {
				v = m.off(s, p, 0)
			}
		}
		m.store(s, m.get(s, fr, in.Addr), v)
		fr.idx++
		return s
	case *ssa.FieldAddr:
		return set(in, sub(m.get(s, fr, in.X), int64(in.Field)))
	case *ssa.Field:
		x := m.get(s, fr, in.X)
		if x.k != vStruct {
			panic(stuck{"field of an unknown value"})
		}
		return set(in, x.xs[in.Field])
	case *ssa.IndexAddr:
		x, i := m.get(s, fr, in.X), m.get(s, fr, in.Index)
		if i.k != vInt || i.rel {
			panic(stuck{"unknown index"})
		}
		if x.k == vList || x.k == vNil {
			if i.n < 0 || int(i.n) >= len(x.xs) || x.n != 0 {
				if x.n != 0 {
					panic(stuck{"index of a list of unknown length"})
				}
				panic(crash{"index out of range"})
			}
			return set(in, &val{k: vRef, xs: []*val{x.xs[i.n]}})
		}
		return set(in, sub(x, i.n))
	case *ssa.Index:
		x := m.get(s, fr, in.X)
		i := m.get(s, fr, in.Index)
		if x.k == vStruct && i.k == vInt {
			return set(in, x.xs[i.n])
		}
		return set(in, m.byteAt(s, x, i))
	case *ssa.UnOp:
		x := m.get(s, fr, in.X)
		switch in.Op {
		case token.MUL:
			return set(in, m.load(s, x))
		case token.NOT:
			if x.k == vBool {
				return set(in, mkBool(x.n == 0))
			}
		case token.SUB:
			if x.k == vInt && !x.rel {
				return set(in, mkInt(-x.n))
			}
		}
		return set(in, anyOf(in.Type()))
	case *ssa.BinOp:
		return set(in, m.binop(s, fr, in.Op, m.get(s, fr, in.X), m.get(s, fr, in.Y), in.X.Type(), in.Type()))
	case *ssa.Phi:
		panic(stuck{"phi"})
	case *ssa.Jump:
		m.jump(s, fr, fr.block.Succs[0])
		return s
	case *ssa.If:
		c := m.get(s, fr, in.Cond)
		if c.k != vBool {
			m.decide(s, &c)
		}
		if c.n != 0 {
			m.jump(s, fr, fr.block.Succs[0])
		} else {
			m.jump(s, fr, fr.block.Succs[1])
		}
		return s
	case *ssa.Return:
		var r *val
		switch len(in.Results) {
		case 0:
			r = &val{k: vTuple}
		case 1:
			r = m.get(s, fr, in.Results[0])
		default:
			r = &val{k: vTuple}
			for _, x := range in.Results {
				r.xs = append(r.xs, m.get(s, fr, x))
			}
		}
		if len(s.frames) == 1 {
			if fr.fn.Name() == "init" {
				s.frames = nil
				s.tape = nil
				m.work = append(m.work, s)
				return nil
			}
			m.finish(s, r)
			return nil
		}
		s.frames = s.frames[:len(s.frames)-1]
		up := s.frames[len(s.frames)-1]
		if fr.call != nil {
			up.env[fr.call] = r
		}
		up.idx++
		return s
	case *ssa.Call:
		return m.call(s, fr, in, set)
	case *ssa.Extract:
		t := m.get(s, fr, in.Tuple)
		if t.k != vTuple {
			panic(stuck{"unknown tuple"})
		}
		return set(in, t.xs[in.Index])
	case *ssa.MakeInterface:
		x := m.get(s, fr, in.X)
		return set(in, &val{k: vIface, t: in.X.Type(), xs: []*val{x}})
	case *ssa.ChangeInterface:
		return set(in, m.get(s, fr, in.X))
	case *ssa.ChangeType:
		return set(in, m.get(s, fr, in.X))
	case *ssa.Convert:
		return set(in, m.convert(s, m.get(s, fr, in.X), in.X.Type(), in.Type()))
	case *ssa.TypeAssert:
		x := m.get(s, fr, in.X)
		ok := false
		r := zeroOf(in.AssertedType)
		switch x.k {
		case vIface:
			if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				if ok = types.Implements(x.t, it); ok {
					r = x
				}
			} else if ok = types.Identical(x.t, in.AssertedType); ok {
				r = x.xs[0]
			}
		case vNil:
		default:
			panic(stuck{"unknown dynamic type"})
		}
		if in.CommaOk {
			return set(in, &val{k: vTuple, xs: []*val{r, mkBool(ok)}})
		}
		if !ok {
			panic(crash{"type assertion"})
		}
		return set(in, r)
	case *ssa.MakeClosure:
		v := &val{k: vFunc, fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			v.xs = append(v.xs, m.get(s, fr, b))
		}
		return set(in, v)
	case *ssa.MakeSlice:
		n := m.get(s, fr, in.Len)
		if n.k != vInt || n.rel || n.n < 0 || n.n > 16 {
			panic(stuck{"list of unknown length"})
		}
		v := &val{k: vList, t: in.Type().Underlying().(*types.Slice).Elem()}
		for i := int64(0); i < n.n; i++ {
			v.xs = append(v.xs, zeroOf(v.t))
		}
		return set(in, v)
	case *ssa.MakeMap:
		id := m.alloc(s, in.Type(), nilVal)
		return set(in, &val{k: vMap, n: int64(id)})
	case *ssa.MapUpdate:
		x := m.get(s, fr, in.Map)
		if x.k != vMap {
			panic(crash{"write to a nil map"})
		}
		o := *s.heap[int(x.n)]
		o.m = append(append([]mapEntry(nil), o.m...), mapEntry{m.get(s, fr, in.Key), m.get(s, fr, in.Value)})
		s.heap[int(x.n)] = &o
		fr.idx++
		return s
	case *ssa.Lookup:
		x, i := m.get(s, fr, in.X), m.get(s, fr, in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			return set(in, m.byteAt(s, x, i))
		}
		r, ok := zeroOf(in.X.Type().Underlying().(*types.Map).Elem()), false
		if x.k == vMap {
			es := s.heap[int(x.n)].m
			for j := len(es) - 1; j >= 0 && !ok; j-- {
				if m.equal(s, es[j].k, i) {
					r, ok = es[j].v, true
				}
			}
		}
		if in.CommaOk {
			r = &val{k: vTuple, xs: []*val{r, mkBool(ok)}}
		}
		return set(in, r)
	case *ssa.Slice:
		return set(in, m.slice(s, fr, in))
	case *ssa.Panic:
		panic(crash{"explicit panic"})
	}
	panic(stuck{fmt.Sprintf("%T", in)})
}

func anyOf(t types.Type) *val {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return textVal
	}
	return anyVal
}

func (m *machine) jump(s *tstate, fr *tframe, to *ssa.BasicBlock) {
	from := fr.block
	at := -1
	for i, p := range to.Preds {
		if p == from {
			at = i
		}
	}
	vals := map[ssa.Value]*val{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := phi.Edges[at].(*ssa.Const); !ok && fr.env[phi.Edges[at]] == nil {
			if _, isVal := phi.Edges[at].(*ssa.Function); !isVal {
				vals[phi] = anyVal
				continue
			}
		}
		vals[phi] = m.get(s, fr, phi.Edges[at])
	}
	for k, v := range vals {
		fr.env[k] = v
	}
	fr.prev, fr.block, fr.idx = from, to, firstInstr(to)
}

// decide takes an unknown condition as either.
func (m *machine) decide(s *tstate, c **val) {
	if s.choice != nil {
		*c = mkBool(*s.choice)
		s.choice = nil
		return
	}
	y, n := true, false
	panic(fork{[]func(s *tstate){func(s *tstate) { s.choice = &y }, func(s *tstate) { s.choice = &n }}})
}

// at is the node at a position, which is read if it hasn't been.
func (m *machine) at(s *tstate, p int) node {
	if p < len(s.tape) {
		if s.tape[p].kind == 1 {
			panic(stuck{"it looks at a character far from where it has been"})
		}
		return s.tape[p]
	}
	if p > len(s.tape) {
		panic(stuck{"it looks beyond what has been read"})
	}
	// the next character
	f := fork{alts: []func(s *tstate){func(s *tstate) { s.tape, s.read = append(s.tape, node{kind: 2}), true }}}
	for _, c := range m.partition(s.spec) {
		f.alts = append(f.alts, func(s *tstate) {
			s.tape, s.read = append(s.tape, node{set: c, cls: c}), true
			s.trail = trail(s.trail, m.sample(c))
		})
	}
	panic(f)
}

func trail(t string, r rune) string {
	t += string(r)
	if rs := []rune(t); len(rs) > 24 {
		t = "…" + string(rs[len(rs)-22:])
	}
	return t
}

func (m *machine) sample(s atoms) rune {
	for _, r := range "a1 =é" {
		for i := 0; i < m.alpha.size(); i++ {
			if s.has(i) && m.alpha.rune(i) == r {
				return r
			}
		}
	}
	for i := 0; i < m.alpha.size(); i++ {
		if s.has(i) {
			return m.alpha.rune(i)
		}
	}
	return '?'
}

// end reports whether the position is known to be the end of the template.
func (m *machine) isEnd(s *tstate, p int) bool { return m.at(s, p).kind == 2 }

// normal moves an offset over characters of known width.
func (m *machine) normal(s *tstate, p int, n int64) (int, int64) {
	for n > 0 && p < len(s.tape) && s.tape[p].kind == 0 && s.tape[p].set.ascii() {
		p++
		n--
	}
	for n < 0 && p > 0 && s.tape[p-1].kind == 0 && s.tape[p-1].set.ascii() {
		p--
		n++
	}
	return p, n
}

func (m *machine) off(s *tstate, p int, n int64) *val {
	p, n = m.normal(s, p, n)
	return &val{k: vOff, p: p, n: n}
}

func fieldOf(fa *ssa.FieldAddr) string {
	return engine.TypeKey(fa.X.Type()) + "." + strconv.Itoa(fa.Field)
}

// offsets are the fields that are used as an index into a string.
func (m *machine) offsets() map[string]bool {
	if m.offField != nil {
		return m.offField
	}
	m.offField = map[string]bool{}
	var mark func(v ssa.Value, depth int)
	mark = func(v ssa.Value, depth int) {
		switch v := v.(type) {
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
				m.offField[fieldOf(fa)] = true
			}
		case *ssa.BinOp:
			if depth < 3 {
				mark(v.X, depth+1)
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				if depth < 3 {
					mark(e, depth+1)
				}
			}
		}
	}
	for _, fn := range m.c.P.Funcs {
		if fn.Pkg != m.pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Slice:
					if isStringType(in.X.Type()) {
						mark(in.Low, 0)
						mark(in.High, 0)
					}
				case *ssa.Lookup:
					if isStringType(in.X.Type()) {
						mark(in.Index, 0)
					}
				case *ssa.Index:
					if isStringType(in.X.Type()) {
						mark(in.Index, 0)
					}
				}
			}
		}
	}
	return m.offField
}

// position is the position an offset stands for.
func (m *machine) position(s *tstate, v *val) (int, bool) {
	switch v.k {
	case vOff:
		p, n := m.normal(s, v.p, v.n)
		return p, n == 0
	case vInt:
		// from the start of the template
		if v.n == 0 && !v.rel {
			return 0, true
		}
	}
	return 0, false
}

// length is the length of the input from p to q.
func (m *machine) length(s *tstate, p, q int) *val {
	if q < 0 {
		return &val{k: vDiff, p: p, q: -1}
	}
	n := int64(0)
	for i := p; i < q; i++ {
		if s.tape[i].kind != 0 || !s.tape[i].set.ascii() {
			return &val{k: vDiff, p: p, q: q}
		}
		n++
	}
	return mkInt(n)
}

// bounds are the least and most bytes from p to q.
func bounds(s *tstate, p, q int) (lo, hi int64) {
	for i := p; i < q; i++ {
		switch {
		case s.tape[i].kind == 1:
			lo++
			hi = 1 << 40
		case s.tape[i].set.ascii():
			lo++
			hi++
		default:
			lo++
			hi += 4
		}
	}
	return lo, hi
}

func (m *machine) byteAt(s *tstate, x, i *val) *val {
	if x.k == vStr && i.k == vInt && !i.rel {
		if i.n < 0 || int(i.n) >= len(x.s) {
			panic(crash{"index out of range"})
		}
		return mkInt(int64(x.s[i.n]))
	}
	if x.k != vSub {
		panic(stuck{"a byte of an unknown text"})
	}
	p, ok := m.from(s, x, i)
	if !ok {
		panic(stuck{"a byte of unknown index"})
	}
	if x.q >= 0 && p >= x.q || x.q < 0 && m.isEnd(s, p) {
		panic(crash{"index out of range"})
	}
	n := m.at(s, p)
	if n.set.ascii() {
		return &val{k: vChar, p: p}
	}
	// the first byte of a character
	return &val{k: vFun, s: "byte", xs: []*val{{k: vChar, p: p}}, f: func(rs []rune) (any, bool) {
		return rune(string(rs[0])[0]), true
	}}
}

// from is the position an index into a text stands for.
func (m *machine) from(s *tstate, x, i *val) (int, bool) {
	switch i.k {
	case vInt:
		if i.rel {
			return 0, false
		}
		p, n := m.normal(s, x.p, i.n)
		return p, n == 0
	case vOff:
		if x.p == 0 {
			return m.position(s, i)
		}
	case vDiff:
		if i.p == x.p && i.q >= 0 {
			p, n := m.normal(s, i.q, i.n)
			return p, n == 0
		}
	}
	return 0, false
}

// split takes the character at p as one of two sets.
func (m *machine) split(p int, a, b atoms) {
	f := fork{}
	for _, set := range []atoms{a, b} {
		if !set.empty() {
			f.alts = append(f.alts, func(s *tstate) { s.tape[p].set = set })
		}
	}
	panic(f)
}

func (m *machine) slice(s *tstate, fr *tframe, in *ssa.Slice) *val {
	x := m.get(s, fr, in.X)
	lo, hi := mkInt(0), (*val)(nil)
	if in.Low != nil {
		lo = m.get(s, fr, in.Low)
	}
	if in.High != nil {
		hi = m.get(s, fr, in.High)
	}
	switch x.k {
	case vAddr:
		// of an array
		v := m.load(s, x)
		if v.k != vStruct || in.Low != nil || hi != nil && (hi.k != vInt || int(hi.n) > len(v.xs)) {
			panic(stuck{"slice of an array"})
		}
		xs := v.xs
		if hi != nil {
			xs = xs[:hi.n]
		}
		return &val{k: vList, t: in.Type().Underlying().(*types.Slice).Elem(), xs: append([]*val(nil), xs...)}
	case vList, vNil:
		if lo.k != vInt || hi != nil && hi.k != vInt {
			panic(stuck{"slice of unknown bounds"})
		}
		n := int64(len(x.xs))
		h := n
		if hi != nil {
			h = hi.n
		}
		if x.n != 0 && (lo.n != 0 || h < n) {
			panic(stuck{"slice of a list of unknown length"})
		}
		if lo.n < 0 || lo.n > h || h > n {
			panic(crash{"slice bounds out of range"})
		}
		return &val{k: vList, t: x.t, n: x.n, xs: append([]*val(nil), x.xs[lo.n:h]...)}
	case vStr:
		if lo.k == vInt && (hi == nil || hi.k == vInt) {
			h := int64(len(x.s))
			if hi != nil {
				h = hi.n
			}
			if lo.n < 0 || lo.n > h || h > int64(len(x.s)) {
				panic(crash{"slice bounds out of range"})
			}
			return mkStr(x.s[lo.n:h])
		}
		return textVal
	case vText:
		return textVal
	case vSub:
		p, ok := m.from(s, x, lo)
		q := x.q
		if hi != nil {
			var k bool
			q, k = m.from(s, x, hi)
			ok = ok && k
		}
		if !ok {
			panic(crash{"slice bounds may be out of range, or within a character"})
		}
		if q >= 0 && p > q || x.q >= 0 && q > x.q || p < x.p {
			panic(crash{"slice bounds out of range"})
		}
		if q < 0 && p > len(s.tape) {
			panic(crash{"slice bounds out of range"})
		}
		return &val{k: vSub, p: p, q: q}
	}
	panic(stuck{"slice of an unknown value"})
}

func (m *machine) convert(s *tstate, x *val, from, to types.Type) *val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if x.k == vChar {
				if n := m.at(s, x.p); n.kind == 0 && n.set.ascii() {
					return &val{k: vSub, p: x.p, q: x.p + 1}
				}
			}
			return textVal
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if tb.Kind() == types.Uint8 || tb.Kind() == types.Int8 || tb.Kind() == types.Int16 || tb.Kind() == types.Uint16 {
				if x.k != vInt && x.k != vAny {
					return anyVal
				}
			}
			return x
		case x.k == vNum:
			return x
		case tb.Info()&types.IsFloat != 0:
			return anyVal
		}
	}
	if x.k == vNum {
		return x
	}
	if ok2 && tb.Info()&types.IsString != 0 && x.k != vSub && x.k != vStr && x.k != vUnq {
		return textVal
	}
	return x
}

func (m *machine) binop(s *tstate, fr *tframe, op token.Token, x, y *val, ot, rt types.Type) *val {
	switch op {
	case token.EQL:
		return mkBool(m.equal(s, x, y))
	case token.NEQ:
		return mkBool(!m.equal(s, x, y))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return mkBool(m.less(s, op, x, y))
	}
	if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && op == token.ADD {
		switch {
		case x.k == vStr && y.k == vStr:
			return mkStr(x.s + y.s)
		case x.k == vStr && x.s == "":
			return y
		case y.k == vStr && y.s == "":
			return x
		case x.k == vSub && y.k == vSub && x.q == y.p:
			return &val{k: vSub, p: x.p, q: y.q}
		}
		return textVal
	}
	if b, ok := rt.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint || b.Info()&types.IsFloat != 0) {
		return anyVal
	}
	if isChar(x) || isChar(y) {
		if (isChar(x) || x.k == vInt) && (isChar(y) || y.k == vInt) {
			return &val{k: vFun, s: op.String(), xs: []*val{x, y}, f: func(rs []rune) (any, bool) {
				a, b := rs[0], rs[1]
				switch op {
				case token.ADD:
					return a + b, true
				case token.SUB:
					return a - b, true
				case token.OR:
					return a | b, true
				case token.AND:
					return a & b, true
				case token.AND_NOT:
					return a &^ b, true
				case token.XOR:
					return a ^ b, true
				}
				return nil, false
			}}
		}
		return anyVal
	}
	if b, ok := rt.Underlying().(*types.Basic); ok && b.Kind() == types.Int32 && x.k == vInt && y.k == vInt && !x.rel && !y.rel {
		a, b := int32(x.n), int32(y.n)
		switch op {
		case token.OR:
			return mkInt(int64(a | b))
		case token.AND:
			return mkInt(int64(a & b))
		case token.AND_NOT:
			return mkInt(int64(a &^ b))
		case token.XOR:
			return mkInt(int64(a ^ b))
		}
	}
	switch op {
	case token.ADD:
		if y.k == vOff || y.k == vInt && x.k != vInt && x.k == vWidth {
			x, y = y, x
		}
		switch {
		case x.k == vInt && y.k == vInt && !(x.rel && y.rel):
			return &val{k: vInt, n: x.n + y.n, rel: x.rel || y.rel}
		case x.k == vOff && y.k == vInt && !y.rel:
			return m.off(s, x.p, x.n+y.n)
		case x.k == vInt && x.n == 0 && y.k == vWidth:
			if y.p == 0 {
				return m.off(s, 1, 0)
			}
			return y
		case x.k == vOff && y.k == vWidth:
			if p, ok := m.position(s, x); ok && p == y.p {
				return m.off(s, p+1, 0)
			}
		case x.k == vDiff && y.k == vInt && !y.rel:
			return &val{k: vDiff, p: x.p, q: x.q, n: x.n + y.n}
		case x.k == vOff && y.k == vDiff && x.p == y.p && y.q >= 0:
			return m.off(s, y.q, x.n+y.n)
		}
	case token.SUB:
		switch {
		case x.k == vInt && y.k == vInt && (!y.rel || x.rel):
			return &val{k: vInt, n: x.n - y.n, rel: x.rel && !y.rel}
		case x.k == vOff && y.k == vInt && !y.rel:
			return m.off(s, x.p, x.n-y.n)
		case x.k == vDiff && y.k == vInt && !y.rel:
			return &val{k: vDiff, p: x.p, q: x.q, n: x.n - y.n}
		case x.k == vOff && y.k == vOff && x.p >= y.p:
			d := m.length(s, y.p, x.p)
			if d.k == vInt {
				return mkInt(d.n + x.n - y.n)
			}
			d.n = x.n - y.n
			return d
		}
	case token.MUL:
		if x.k == vInt && y.k == vInt && !x.rel && !y.rel {
			return mkInt(x.n * y.n)
		}
	}
	return anyVal
}

func isChar(x *val) bool { return x.k == vChar || x.k == vFun }

// chars lists the characters a value depends on.
func chars(x *val, out map[int]bool) {
	if x.k == vChar {
		out[x.p] = true
	}
	for _, a := range x.xs {
		chars(a, out)
	}
}

func (m *machine) evalChar(x *val, at map[int]rune) (rune, bool) {
	switch x.k {
	case vChar:
		return at[x.p], true
	case vInt:
		return rune(x.n), !x.rel
	case vFun:
		var rs []rune
		for _, a := range x.xs {
			r, ok := m.evalChar(a, at)
			if !ok {
				return 0, false
			}
			rs = append(rs, r)
		}
		v, ok := x.f(rs)
		if !ok {
			return 0, false
		}
		r, ok := v.(rune)
		return r, ok
	}
	return 0, false
}

// holds decides a predicate about values that depend on characters.
func (m *machine) holds(s *tstate, xs []*val, is func(rs []rune) bool) bool {
	on := map[int]bool{}
	for _, x := range xs {
		chars(x, on)
	}
	var ps []int
	for p := range on {
		if m.at(s, p).kind != 0 {
			panic(stuck{"a character beyond the end"})
		}
		ps = append(ps, p)
	}
	sort.Ints(ps)
	eval := func(at map[int]rune) bool {
		var rs []rune
		for _, x := range xs {
			r, ok := m.evalChar(x, at)
			if !ok {
				panic(stuck{"unknown function of a character"})
			}
			rs = append(rs, r)
		}
		return is(rs)
	}
	switch len(ps) {
	case 0:
		return eval(nil)
	case 1:
		yes, no := m.divide(s, ps[0], func(r rune) bool { return eval(map[int]rune{ps[0]: r}) })
		if yes.empty() {
			return false
		}
		if no.empty() {
			return true
		}
		m.split(ps[0], yes, no)
	case 2:
		// all but one character are known to be a certain one
		for _, p := range ps {
			set := s.tape[p].set
			if set.count() == 1 {
				continue
			}
			var first atoms
			for i := 0; i < m.alpha.size(); i++ {
				if set.has(i) {
					first.add(i)
					break
				}
			}
			q := ps[0] + ps[1] - p
			if s.tape[q].set.count() == 1 {
				r := m.sample(s.tape[q].set)
				yes, no := m.divide(s, p, func(c rune) bool { return eval(map[int]rune{p: c, q: r}) })
				if yes.empty() {
					return false
				}
				if no.empty() {
					return true
				}
				m.split(p, yes, no)
			}
			m.split(p, first, set.minus(first))
		}
		at := map[int]rune{}
		for _, p := range ps {
			at[p] = m.sample(s.tape[p].set)
		}
		return eval(at)
	}
	panic(stuck{"a predicate of many characters"})
}

func (m *machine) divide(s *tstate, p int, is func(r rune) bool) (yes, no atoms) {
	set := s.tape[p].set
	for i := 0; i < m.alpha.size(); i++ {
		if !set.has(i) {
			continue
		}
		if is(m.alpha.rune(i)) {
			yes.add(i)
		} else {
			no.add(i)
		}
	}
	return yes, no
}

func (m *machine) equal(s *tstate, x, y *val) bool {
	if x.k == vNil || y.k == vNil {
		if x.k != vNil {
			x, y = y, x
		}
		switch y.k {
		case vNil:
			return true
		case vErr, vAddr, vRef, vFunc, vIface, vMap:
			return false
		case vList:
			if len(y.xs) > 0 || y.n != 0 || y.t != nil {
				return false
			}
			return true
		}
		panic(stuck{"comparison of an unknown value to nil"})
	}
	if (isChar(x) || x.k == vInt && !x.rel) && (isChar(y) || y.k == vInt && !y.rel) {
		return m.holds(s, []*val{x, y}, func(rs []rune) bool { return rs[0] == rs[1] })
	}
	switch {
	case x.k == vInt && y.k == vInt && x.rel == y.rel:
		return x.n == y.n
	case x.k == vBool && y.k == vBool:
		return x.n == y.n
	case x.k == vStr && y.k == vStr:
		return x.s == y.s
	case x.k == vStr && y.k == vSub:
		return m.isText(s, y, x.s)
	case x.k == vSub && y.k == vStr:
		return m.isText(s, x, y.s)
	case x.k == vAddr && y.k == vAddr:
		return key(x) == key(y)
	case x.k == vIface && y.k == vIface:
		if !types.Identical(x.t, y.t) {
			return false
		}
		return m.equal(s, x.xs[0], y.xs[0])
	case x.k == vStruct && y.k == vStruct && len(x.xs) == len(y.xs):
		for i := range x.xs {
			if !m.equal(s, x.xs[i], y.xs[i]) {
				return false
			}
		}
		return true
	}
	if d, ok := m.difference(s, x, y); ok {
		return d(0)
	}
	c := anyVal
	m.decide(s, &c)
	return c.n != 0
}

// difference decides the difference of offsets: the function reports whether
// it's the number; an error is that it's unknown.
func (m *machine) difference(s *tstate, x, y *val) (is func(n int64) bool, ok bool) {
	lo, hi, ok := m.diffBounds(s, x, y)
	if !ok {
		return nil, false
	}
	if lo == hi {
		return func(n int64) bool { return lo == n }, true
	}
	if lo > 0 || hi < 0 {
		return func(n int64) bool { return false }, true
	}
	return nil, false
}

// diffBounds are the least and the most of x less y.
func (m *machine) diffBounds(s *tstate, x, y *val) (lo, hi int64, ok bool) {
	const inf = int64(1) << 40
	pos := func(v *val) (int, int64, bool) {
		switch v.k {
		case vOff:
			p, n := m.normal(s, v.p, v.n)
			return p, n, true
		case vInt:
			if !v.rel {
				p, n := m.normal(s, 0, v.n)
				return p, n, true
			}
		}
		return 0, 0, false
	}
	isLen := func(v *val) bool { return v.k == vDiff && v.q < 0 && v.p == 0 }
	switch {
	case isLen(x) && isLen(y):
		return x.n - y.n, x.n - y.n, true
	case isLen(y):
		p, n, good := pos(x)
		if !good || n < 0 {
			return 0, 0, false
		}
		// is there a character at p?
		for n > 0 && p <= len(s.tape) {
			if m.isEnd(s, p) {
				return n - y.n, n - y.n, true
			}
			p, n = m.normal(s, p, n)
			if n > 0 && p < len(s.tape) && s.tape[p].kind == 0 {
				return 0, 0, false
			}
		}
		if m.isEnd(s, p) {
			return -y.n, -y.n, true
		}
		return -inf, -1 - y.n, true
	case isLen(x):
		lo, hi, ok = m.diffBounds(s, y, x)
		return -hi, -lo, ok
	case x.k == vDiff && x.q >= 0 && y.k == vInt && !y.rel:
		lo, hi := bounds(s, x.p, x.q)
		return lo + x.n - y.n, hi + x.n - y.n, true
	case y.k == vDiff && y.q >= 0 && x.k == vInt && !x.rel:
		lo, hi, ok = m.diffBounds(s, y, x)
		return -hi, -lo, ok
	case x.k == vInt && x.rel && y.k == vInt && !y.rel:
		return x.n - y.n, inf, true
	case y.k == vInt && y.rel && x.k == vInt && !x.rel:
		return -inf, x.n - y.n, true
	case x.k == vInt && y.k == vInt && x.rel == y.rel:
		return x.n - y.n, x.n - y.n, true
	case x.k == vWidth && y.k == vInt && !y.rel:
		if n := m.at(s, x.p); n.kind == 0 && n.set.ascii() {
			return 1 - y.n, 1 - y.n, true
		}
		return 1 - y.n, 4 - y.n, true
	}
	a, n, ok1 := pos(x)
	b, k, ok2 := pos(y)
	if !ok1 || !ok2 {
		return 0, 0, false
	}
	if a >= b {
		lo, hi = bounds(s, b, a)
		return lo + n - k, hi + n - k, true
	}
	lo, hi = bounds(s, a, b)
	return -hi + n - k, -lo + n - k, true
}

func (m *machine) less(s *tstate, op token.Token, x, y *val) bool {
	if (isChar(x) || x.k == vInt && !x.rel) && (isChar(y) || y.k == vInt && !y.rel) && (isChar(x) || isChar(y)) {
		return m.holds(s, []*val{x, y}, func(rs []rune) bool { return compare(op, int64(rs[0])-int64(rs[1])) })
	}
	if lo, hi, ok := m.diffBounds(s, x, y); ok && compare(op, lo) == compare(op, hi) && (lo == hi || op != token.EQL) {
		return compare(op, lo)
	}
	c := anyVal
	m.decide(s, &c)
	return c.n != 0
}

func compare(op token.Token, d int64) bool {
	switch op {
	case token.LSS:
		return d < 0
	case token.LEQ:
		return d <= 0
	case token.GTR:
		return d > 0
	}
	return d >= 0
}

// isText decides whether the input from p to q is a certain text.
func (m *machine) isText(s *tstate, x *val, text string) bool {
	if x.q < 0 {
		panic(stuck{"comparison of the rest of the template"})
	}
	lo, hi := bounds(s, x.p, x.q)
	if int64(len(text)) < lo || int64(len(text)) > hi {
		return false
	}
	if f, ok := s.facts[fact{x.p, x.q, "=" + text}]; ok {
		return f
	}
	exact := true
	rs := []rune(text)
	for i := x.p; i < x.q; i++ {
		if s.tape[i].kind != 0 {
			exact = false
			break
		}
		j := i - x.p
		if j >= len(rs) {
			return false
		}
		in := false
		for k := 0; k < m.alpha.size(); k++ {
			if s.tape[i].set.has(k) && m.alpha.rune(k) == rs[j] {
				in = true
			}
		}
		if !in {
			return false
		}
		if s.tape[i].set.count() > 1 {
			exact = false
		}
	}
	if exact {
		return len(rs) == x.q-x.p
	}
	for f, v := range s.facts {
		if f.p != x.p || f.q != x.q || !v {
			continue
		}
		if f.s[0] == '=' || f.s == "float" && !isFloat(text) || f.s == "int" && !isInt(text) {
			return false
		}
	}
	for f, v := range s.facts {
		if f.p == x.p && f.q == x.q && !v && (f.s == "float" && isFloat(text) || f.s == "int" && isInt(text)) {
			return false
		}
	}
	m.learn(fact{x.p, x.q, "=" + text})
	return false
}

func isFloat(s string) bool { _, err := strconv.ParseFloat(s, 64); return err == nil }
func isInt(s string) bool   { _, err := strconv.ParseUint(s, 10, 64); return err == nil }

// learn takes a fact as true and as false.
func (m *machine) learn(f fact) {
	panic(fork{[]func(s *tstate){
		func(s *tstate) { s.facts[f] = true },
		func(s *tstate) { s.facts[f] = false },
	}})
}

// number decides whether the input from p to q is a number.
func (m *machine) number(s *tstate, x *val, kind string) bool {
	if x.k == vStr {
		if kind == "float" {
			return isFloat(x.s)
		}
		return isInt(x.s)
	}
	if x.k != vSub || x.q < 0 {
		panic(stuck{"a number of an unknown text"})
	}
	if x.p == x.q {
		return false
	}
	fk := fact{x.p, x.q, kind}
	if v, ok := s.facts[fk]; ok {
		return v
	}
	for f, v := range s.facts {
		if f.p == x.p && f.q == x.q && v && f.s[0] == '=' {
			if kind == "float" {
				return isFloat(f.s[1:])
			}
			return isInt(f.s[1:])
		}
	}
	m.learn(fk)
	return false
}

// call executes a call.
func (m *machine) call(s *tstate, fr *tframe, in *ssa.Call, set func(v ssa.Value, x *val) *tstate) *tstate {
	c := in.Call
	var args []*val
	var fn *val
	if c.IsInvoke() {
		x := m.get(s, fr, c.Value)
		switch x.k {
		case vErr:
			return set(in, textVal)
		case vNil:
			panic(crash{"nil interface method call"})
		case vIface:
		default:
			panic(stuck{"call of a method of an unknown value"})
		}
		f := m.c.P.SSA.LookupMethod(x.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			panic(stuck{"call of an unknown method"})
		}
		fn = &val{k: vFunc, fn: f}
		args = append(args, x.xs[0])
	} else {
		fn = m.get(s, fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, m.get(s, fr, a))
	}
	switch fn.k {
	case vBuiltin:
		return set(in, m.builtin(s, fn.s, args, in))
	case vNil:
		panic(crash{"call of a nil function"})
	case vFunc:
	default:
		panic(stuck{"call of an unknown function"})
	}
	args = append(args, fn.xs...)
	if fn.fn.Pkg == m.pkg || fn.fn.Pkg == nil && m.c.P.InRepo(fn.fn) {
		m.enter(s, fn.fn, args, in)
		return s
	}
	return set(in, m.external(s, fn.fn, args))
}

func (m *machine) builtin(s *tstate, name string, args []*val, in *ssa.Call) *val {
	switch name {
	case "len":
		switch x := args[0]; x.k {
		case vList:
			if x.n != 0 {
				return &val{k: vAny}
			}
			return mkInt(int64(len(x.xs)))
		case vNil:
			return mkInt(0)
		case vStr:
			return mkInt(int64(len(x.s)))
		case vSub:
			return m.length(s, x.p, x.q)
		}
		return anyVal
	case "cap":
		return anyVal
	case "append":
		x := args[0]
		v := &val{k: vList, t: in.Type().Underlying().(*types.Slice).Elem()}
		if x.k == vList {
			v.n = x.n
			v.xs = append(v.xs, x.xs...)
		} else if x.k != vNil {
			panic(stuck{"append to an unknown list"})
		}
		switch y := args[1]; y.k {
		case vList:
			if y.n != 0 {
				if len(v.xs) > 0 || v.n != 0 {
					panic(stuck{"append of a list of unknown length"})
				}
				v.n = y.n
			}
			v.xs = append(v.xs, y.xs...)
		case vNil:
		default:
			panic(stuck{"append of an unknown list"})
		}
		if len(v.xs) > 12 {
			panic(stuck{"a list that grows without bound"})
		}
		return v
	case "ssa:wrapnilchk":
		if args[0].k == vNil {
			panic(crash{"nil dereference"})
		}
		return args[0]
	case "print", "println":
		return &val{k: vTuple}
	case "min", "max":
		less := m.less(s, token.LSS, args[0], args[1])
		if less == (name == "min") {
			return args[0]
		}
		return args[1]
	}
	panic(stuck{"builtin " + name})
}

var charFuncs = map[string]func(rs []rune) (any, bool){
	"unicode.ToLower": func(rs []rune) (any, bool) { return unicode.ToLower(rs[0]), true },
	"unicode.ToUpper": func(rs []rune) (any, bool) { return unicode.ToUpper(rs[0]), true },
}

var charPreds = map[string]func(r rune) bool{
	"unicode.IsSpace":        unicode.IsSpace,
	"unicode.IsLetter":       unicode.IsLetter,
	"unicode.IsDigit":        unicode.IsDigit,
	"unicode.IsNumber":       unicode.IsNumber,
	"unicode.IsUpper":        unicode.IsUpper,
	"unicode.IsLower":        unicode.IsLower,
	"unicode.IsPunct":        unicode.IsPunct,
	"unicode.IsControl":      unicode.IsControl,
	"unicode.IsPrint":        unicode.IsPrint,
	"unicode.IsGraphic":      unicode.IsGraphic,
	"unicode.IsSymbol":       unicode.IsSymbol,
	"unicode/utf8.ValidRune": utf8.ValidRune,
}

// external models functions of other packages.
func (m *machine) external(s *tstate, fn *ssa.Function, args []*val) *val {
	name := fn.String()
	pair := func(xs ...*val) *val { return &val{k: vTuple, xs: xs} }
	if is := charPreds[name]; is != nil {
		if isChar(args[0]) || args[0].k == vInt && !args[0].rel {
			return mkBool(m.holds(s, args[:1], func(rs []rune) bool { return is(rs[0]) }))
		}
		return anyVal
	}
	if f := charFuncs[name]; f != nil {
		if isChar(args[0]) || args[0].k == vInt {
			return &val{k: vFun, s: name, f: f, xs: args[:1]}
		}
		return anyVal
	}
	switch name {
	case "unicode/utf8.DecodeRuneInString":
		x := args[0]
		switch {
		case x.k == vStr:
			r, n := utf8.DecodeRuneInString(x.s)
			return pair(mkInt(int64(r)), mkInt(int64(n)))
		case x.k != vSub:
			panic(stuck{"decoding an unknown text"})
		}
		if x.q >= 0 && x.p >= x.q || m.isEnd(s, x.p) {
			return pair(mkInt(int64(utf8.RuneError)), mkInt(0))
		}
		return pair(&val{k: vChar, p: x.p}, &val{k: vWidth, p: x.p})
	case "unicode/utf8.RuneLen":
		if x := args[0]; x.k == vChar {
			if n := m.at(s, x.p); n.kind == 0 && n.set.ascii() {
				return mkInt(1)
			}
		}
		return anyVal
	case "strconv.ParseBool":
		if x := args[0]; x.k == vSub && x.q >= 0 {
			for _, t := range []string{"true", "false", "1", "0", "t", "f", "T", "F", "TRUE", "FALSE", "True", "False"} {
				if m.isText(s, x, t) {
					b, _ := strconv.ParseBool(t)
					return pair(mkBool(b), nilVal)
				}
			}
			return pair(mkBool(false), errVal)
		}
		panic(stuck{"call of " + name})
	case "strings.Contains":
		if x := args[0]; x.k == vSub && x.q >= 0 && args[1].k == vStr {
			k := fact{x.p, x.q, "has" + args[1].s}
			v, ok := s.facts[k]
			if !ok {
				m.learn(k)
			}
			return mkBool(v)
		}
		return anyVal
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte":
		if args[0].k == vStr && (isChar(args[1]) || args[1].k == vInt && !args[1].rel) {
			set := args[0].s
			if name == "strings.ContainsRune" {
				return mkBool(m.holds(s, args[1:2], func(rs []rune) bool { return strings.ContainsRune(set, rs[0]) }))
			}
			return &val{k: vFun, s: name + set, xs: args[1:2], f: func(rs []rune) (any, bool) { return rune(strings.IndexRune(set, rs[0])), true }}
		}
		panic(stuck{"call of " + name})
	case "strconv.ParseFloat", "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		kind := "int"
		if name == "strconv.ParseFloat" {
			kind = "float"
		}
		if name == "strconv.ParseUint" || name == "strconv.ParseInt" {
			if b := args[1]; b.k != vInt || b.n != 10 {
				return pair(anyVal, &val{k: vErr})
			}
			if b := args[2]; b.k != vInt || b.n != 64 && b.n != 0 {
				kind = "int" + strconv.FormatInt(b.n, 10)
			}
		}
		if x := args[0]; x.k == vSub || x.k == vStr {
			if m.number(s, x, kind) {
				return pair(&val{k: vNum, p: x.p, q: x.q, s: kind}, nilVal)
			}
			return pair(anyVal, errVal)
		}
		panic(stuck{"a number of an unknown text"})
	case "strings.ReplaceAll", "strings.Replace":
		if x := args[0]; x.k == vSub && x.q >= 0 && args[1].k == vStr && args[1].s == "''" && args[2].k == vStr && args[2].s == "'" {
			if name == "strings.ReplaceAll" || args[3].k == vInt && args[3].n < 0 {
				return &val{k: vUnq, p: x.p, q: x.q}
			}
		}
		return textVal
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.HasPrefix", "strings.HasSuffix":
		x := args[0]
		if x.k == vSub && x.q >= 0 && args[1].k == vStr && len(args[1].s) == 1 {
			has := false
			at := x.p
			if strings.HasSuffix(name, "Suffix") {
				at = x.q - 1
			}
			if x.q > x.p {
				if s.tape[at].kind != 0 {
					panic(stuck{"call of " + name})
				}
				has = m.holds(s, []*val{{k: vChar, p: at}}, func(rs []rune) bool { return string(rs[0]) == args[1].s })
			}
			if strings.HasPrefix(name, "strings.Has") {
				return mkBool(has)
			}
			if !has {
				return x
			}
			if at == x.p && strings.HasSuffix(name, "Prefix") {
				return &val{k: vSub, p: x.p + 1, q: x.q}
			}
			return &val{k: vSub, p: x.p, q: x.q - 1}
		}
		if strings.HasPrefix(name, "strings.Has") {
			return anyVal
		}
		return textVal
	case "errors.New", "fmt.Errorf":
		return errVal
	}
	if fn.Name() == "init" {
		return &val{k: vTuple}
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "fmt", "strings", "strconv", "errors", "unicode", "unicode/utf8":
			rs := fn.Signature.Results()
			var out []*val
			for i := 0; i < rs.Len(); i++ {
				out = append(out, anyOf(rs.At(i).Type()))
			}
			if len(out) == 1 {
				return out[0]
			}
			return &val{k: vTuple, xs: out}
		}
	}
	panic(stuck{"call of " + name})
}

// liveness of values.

func isTracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return false
	}
	return true
}

func (m *machine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := m.live[fn]; l != nil {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			in := m.liveFrom(b, 0, l)
			for v := range in {
				if !l[b][v] {
					l[b][v] = true
					changed = true
				}
			}
		}
	}
	m.live[fn] = l
	return l
}

// liveFrom are the values that are used from an instruction of a block on.
func (m *machine) liveFrom(b *ssa.BasicBlock, idx int, l map[*ssa.BasicBlock]map[ssa.Value]bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, succ := range b.Succs {
		for v := range l[succ] {
			out[v] = true
		}
		for _, in := range succ.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(out, phi)
		}
		for _, in := range succ.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range succ.Preds {
				if p == b && isTracked(phi.Edges[i]) {
					out[phi.Edges[i]] = true
				}
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= idx; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(out, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			// live on the edges
			if idx == 0 {
				out[in.(ssa.Value)] = true
			}
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && isTracked(*op) {
				out[*op] = true
			}
		}
	}
	return out
}

// canon drops what's dead, and gives the state a canonical form. It reports
// whether the state has been seen.
func (m *machine) canon(s *tstate) bool {
	for _, f := range s.frames {
		live := m.liveFrom(f.block, f.idx, m.liveIn(f.fn))
		for v := range f.env {
			if !live[v] {
				delete(f.env, v)
			}
		}
	}
	if !m.cancel(s) {
		return true
	}
	if len(s.tape) > 100 {
		panic(stuck{"it keeps too much of the template in mind"})
	}
	m.relate(s)
	// objects and positions in use
	used := map[int]bool{}
	marks := map[int]bool{}
	exact, short := map[int]bool{}, map[int]bool{}
	var order []int
	var visit func(v *val)
	visit = func(v *val) {
		switch v.k {
		case vOff, vChar, vWidth:
			marks[v.p] = true
			if v.k != vOff {
				exact[v.p] = true
			}
		case vSub, vUnq, vNum, vDiff:
			marks[v.p] = true
			if v.q >= 0 {
				marks[v.q] = true
			}
			if v.k == vSub && v.q == v.p+1 {
				short[v.p] = true
			}
		case vAddr, vMap:
			if id := int(v.n); !used[id] {
				used[id] = true
				order = append(order, id)
				visit(s.heap[id].v)
				for _, e := range s.heap[id].m {
					visit(e.k)
					visit(e.v)
				}
			}
		}
		for _, x := range v.xs {
			visit(x)
		}
	}
	var gs []*ssa.Global
	for g := range s.glob {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		visit(&val{k: vAddr, n: int64(s.glob[g])})
	}
	envs := make([][]ssa.Value, len(s.frames))
	for i, f := range s.frames {
		for v := range f.env {
			envs[i] = append(envs[i], v)
		}
		sort.Slice(envs[i], func(a, b int) bool { return less2(envs[i][a], envs[i][b]) })
		for _, v := range envs[i] {
			visit(f.env[v])
		}
	}
	s.spec.marks(func(p int) int { marks[p] = true; return p })
	marks[len(s.tape)] = true
	// a new tape: what's next to a position, and gaps
	keep := make([]bool, len(s.tape))
	// what's from the current character on may be read again
	cur := len(s.tape)
	for p := range exact {
		if cur == len(s.tape) || p > cur {
			cur = p
		}
	}
	loose := s.spec.state == gErr || s.spec.state == gFree
	for p := range s.tape {
		if n := &s.tape[p]; loose && (marks[p] || marks[p+1]) && n.kind == 0 && n.set.count() == 1 && n.set.has('\'') {
			keep[p] = true
			n.cls = n.set
			continue
		}
		keep[p] = p >= cur || exact[p] || short[p] || s.tape[p].hold && (marks[p] || marks[p+1]) || s.tape[p].kind == 2
	}
	at := make([]int, len(s.tape)+1)
	var tape []node
	for i, n := range s.tape {
		at[i] = len(tape)
		if keep[i] {
			if !exact[i] {
				n.set = n.cls
			}
			tape = append(tape, n)
		} else if len(tape) > 0 && tape[len(tape)-1].kind == 1 && i > 0 && !keep[i-1] && !marks[i] {
			at[i] = len(tape)
		} else {
			tape = append(tape, node{kind: 1})
		}
	}
	at[len(s.tape)] = len(tape)
	pos := func(p int) int {
		if p < 0 {
			return p
		}
		return at[p]
	}
	name := map[int]int{}
	for i, id := range order {
		name[id] = i + 1
	}
	var remap func(v *val) *val
	remap = func(v *val) *val {
		switch v.k {
		case vInt, vStr, vText, vAny, vBool, vNil, vErr, vBuiltin:
			return v
		}
		n := *v
		switch v.k {
		case vOff, vChar, vWidth:
			n.p = pos(v.p)
		case vSub, vUnq, vNum, vDiff:
			n.p, n.q = pos(v.p), pos(v.q)
		case vAddr, vMap:
			n.n = int64(name[int(v.n)])
		}
		if len(v.xs) > 0 {
			n.xs = make([]*val, len(v.xs))
			for i, x := range v.xs {
				n.xs[i] = remap(x)
			}
		}
		return &n
	}
	heap := map[int]*object{}
	for i, id := range order {
		o := *s.heap[id]
		o.v = remap(o.v)
		o.m = nil
		for _, e := range s.heap[id].m {
			o.m = append(o.m, mapEntry{remap(e.k), remap(e.v)})
		}
		heap[i+1] = &o
	}
	glob := map[*ssa.Global]int{}
	for g, id := range s.glob {
		glob[g] = name[id]
	}
	for _, f := range s.frames {
		for v, x := range f.env {
			f.env[v] = remap(x)
		}
	}
	facts := map[fact]bool{}
	for f, v := range s.facts {
		if marks[f.p] && marks[f.q] {
			facts[fact{pos(f.p), pos(f.q), f.s}] = v
		}
	}
	s.spec.marks(pos)
	s.heap, s.next, s.tape, s.facts, s.glob = heap, len(order), tape, facts, glob
	// the key
	var b strings.Builder
	for i, f := range s.frames {
		fmt.Fprintf(&b, "|%s.%d.%d:", f.fn.String(), f.block.Index, f.idx)
		for _, v := range envs[i] {
			b.WriteString(v.Name())
			b.WriteByte('=')
			writeKey(&b, f.env[v])
			b.WriteByte(';')
		}
	}
	for i := 1; i <= len(order); i++ {
		b.WriteString("|")
		writeKey(&b, heap[i].v)
		for _, e := range heap[i].m {
			writeKey(&b, e.k)
			writeKey(&b, e.v)
		}
	}
	for _, n := range tape {
		fmt.Fprintf(&b, "|%d%x%v", n.kind, n.set, n.hold)
	}
	var fs []string
	for f, v := range facts {
		fs = append(fs, fmt.Sprint(f.p, f.q, f.s, v))
	}
	sort.Strings(fs)
	b.WriteString(strings.Join(fs, ","))
	s.spec.key(&b)
	k := md5.Sum([]byte(b.String()))
	if m.edges != nil {
		if !s.read {
			m.edges[s.last] = append(m.edges[s.last], k)
		}
		if m.where[k] == nil {
			n := len(s.frames) - 1
			m.where[k] = &tstate{frames: []*tframe{{fn: s.frames[n].fn, block: s.frames[n].block, idx: s.frames[n].idx}}, trail: s.trail}
		}
	}
	s.last, s.read = k, false
	if m.seen[k] {
		return true
	}
	m.seen[k] = true
	if debugTape {
		dbg(m, b.String(), s.trail)
	}
	m.states++
	return false
}

func less2(a, b ssa.Value) bool { return a.Name() < b.Name() }

func key(v *val) string {
	var b strings.Builder
	writeKey(&b, v)
	return b.String()
}

func writeKey(b *strings.Builder, v *val) {
	b.WriteByte('A' + byte(v.k))
	if v.rel {
		b.WriteByte('r')
	}
	if v.n != 0 {
		b.WriteString(strconv.FormatInt(v.n, 10))
	}
	if v.s != "" {
		b.WriteString(v.s)
	}
	switch v.k {
	case vOff, vChar, vWidth, vSub, vUnq, vNum, vDiff:
		b.WriteString(strconv.Itoa(v.p))
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(v.q))
	}
	if v.fn != nil {
		b.WriteString(v.fn.String())
	}
	if v.k == vIface {
		b.WriteString(engine.TypeKey(v.t))
	}
	if len(v.xs) > 0 {
		b.WriteByte('[')
		for _, x := range v.xs {
			writeKey(b, x)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	}
}

// relate makes the number of bindvars, and what's near to it, symbolic.
func (m *machine) relate(s *tstate) {
	n := int64(s.spec.count)
	rel := s.spec.rel || n >= 3
	d := n - 3
	conv := func(v *val) *val {
		switch {
		case v.rel && (v.n-n < -2 || v.n-n > 2):
			return anyVal
		case v.rel:
			return &val{k: vInt, rel: true, n: v.n - d}
		case rel && !s.spec.rel && v.n >= n-2 && v.n <= n+2 && v.n > 1:
			return &val{k: vInt, rel: true, n: v.n - d}
		case v.n > 24 || v.n < -24:
			return anyVal
		}
		return v
	}
	var walk func(v *val, t types.Type) *val
	walk = func(v *val, t types.Type) *val {
		if t == nil {
			return v
		}
		switch v.k {
		case vInt:
			switch {
			case types.Identical(t, types.Typ[types.Int]):
				return conv(v)
			case types.Identical(t, types.Typ[types.Uint]):
				// numbers of lines and columns
				return anyVal
			}
		case vStruct:
			c := *v
			c.xs = make([]*val, len(v.xs))
			for i, x := range v.xs {
				switch u := t.Underlying().(type) {
				case *types.Struct:
					c.xs[i] = walk(x, u.Field(i).Type())
				case *types.Array:
					c.xs[i] = walk(x, u.Elem())
				}
			}
			return &c
		}
		return v
	}
	for id, o := range s.heap {
		c := *o
		c.v = walk(o.v, o.t)
		s.heap[id] = &c
	}
	for _, f := range s.frames {
		for v, x := range f.env {
			f.env[v] = walk(x, v.Type())
		}
	}
	if rel {
		s.spec.relate(d)
	}
}

// stalls finds cycles of merged states in which nothing of the template is read.
func (m *machine) stalls() (at []*tstate) {
	colour := map[[16]byte]int{}
	type item struct {
		k [16]byte
		i int
	}
	for k0 := range m.edges {
		if colour[k0] != 0 {
			continue
		}
		stack := []item{{k0, 0}}
		colour[k0] = 1
		for len(stack) > 0 {
			top := &stack[len(stack)-1]
			if top.i == len(m.edges[top.k]) {
				colour[top.k] = 2
				stack = stack[:len(stack)-1]
				continue
			}
			next := m.edges[top.k][top.i]
			top.i++
			switch colour[next] {
			case 0:
				colour[next] = 1
				stack = append(stack, item{next, 0})
			case 1:
				if s := m.where[next]; s != nil {
					at = append(at, s)
				}
			}
		}
	}
	sort.Slice(at, func(i, j int) bool {
		return len(at[i].trail) < len(at[j].trail) || len(at[i].trail) == len(at[j].trail) && at[i].trail < at[j].trail
	})
	return at
}
