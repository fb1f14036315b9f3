package engine

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo     map[*ssa.BasicBlock]int
	order   []*ssa.BasicBlock
	headers map[*ssa.BasicBlock]*loop
	live    map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (x *Engine) loopInfoOf(fn *ssa.Function) *loopInfo {
	if li, ok := x.loops[fn]; ok {
		return li
	}
	li := &loopInfo{rpo: map[*ssa.BasicBlock]int{}, headers: map[*ssa.BasicBlock]*loop{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo[post[i]] = len(li.order)
		li.order = append(li.order, post[i])
	}
	for _, b := range li.order {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				if li.rpo[h] <= li.rpo[b] {
					x.Problems["irreducible control flow in "+fn.String()] = true
				}
				continue
			}
			l := li.headers[h]
			if l == nil {
				l = &loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				li.headers[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[n] {
					continue
				}
				l.blocks[n] = true
				work = append(work, n.Preds...)
			}
		}
	}
	// liveness
	recv := map[ssa.Value]bool{}
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					recv[*op] = true
				}
			}
		}
	}
	for _, b := range li.order {
		li.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(li.order) - 1; i >= 0; i-- {
			b := li.order[i]
			l := map[ssa.Value]bool{}
			for v := range recv {
				l[v] = true
			}
			for _, s := range b.Succs {
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[p] = true
					for j, pr := range s.Preds {
						if pr == b {
							l[p.Edges[j]] = true
						}
					}
				}
				for v := range li.live[s] {
					if !phis[v] {
						l[v] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(l, v)
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						l[*op] = true
					}
				}
			}
			for v := range recv {
				l[v] = true
			}
			if len(l) != len(li.live[b]) {
				li.live[b] = l
				changed = true
			}
		}
	}
	x.loops[fn] = li
	return li
}

// loop analyses a loop entered with the state.
func (f *fctx) loop(l *loop, es *estate) (exits []edge, outs []*Outcome) {
	if ex, o, ok := f.unroll(l, es); ok {
		return ex, o
	}
	return f.summarise(l, es)
}

// headerDecision runs the header only: it reports whether the loop is known to
// be continued or left.
func (f *fctx) headerDecision(l *loop, es *estate) (stay, leave bool) {
	h := l.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return true, true
	}
	for _, in := range h.Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.RunDefers:
			if c, ok := in.(*ssa.Call); ok {
				if _, ok := c.Call.Value.(*ssa.Builtin); ok {
					continue
				}
			}
			return true, true
		}
	}
	inside := false
	for _, s := range h.Succs {
		if !l.blocks[s] {
			inside = true
		}
	}
	if !inside {
		return true, true
	}
	f.x.quiet++
	defer func() { f.x.quiet-- }()
	f.block(h, 0, es.clone(), func(from, to *ssa.BasicBlock, e *estate) {
		if l.blocks[to] {
			stay = true
		} else {
			leave = true
		}
	}, func(o *Outcome) {})
	return
}

const maxUnroll = 10

// unroll executes loops with a known number of iterations.
func (f *fctx) unroll(l *loop, es *estate) (exits []edge, outs []*Outcome, ok bool) {
	stay, leave := f.headerDecision(l, es)
	if stay && leave {
		return nil, nil, false
	}
	states := []*estate{es.clone()}
	site := f.site
	defer func() { f.site = site }()
	for r := 0; r <= maxUnroll; r++ {
		for _, s := range states {
			stay, leave := f.headerDecision(l, s)
			if stay && leave {
				return nil, nil, false
			}
		}
		f.site = site + "@" + strconv.Itoa(r)
		ex, backs, o := f.region(l, l.header, states)
		exits = append(exits, ex...)
		outs = append(outs, o...)
		if len(backs) == 0 {
			return exits, outs, true
		}
		f.site = site
		states = f.dedupe(l.header, backs)
		if len(states) > 64 {
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// cand is a candidate of a loop invariant: P, or a <= b + n.
type cand struct {
	p    *Term
	a, b *Term
	n    int64
	wid  int
}

func (c *cand) assume(fs *Facts) {
	if c.p != nil {
		fs.Assume(c.p, true)
		return
	}
	fs.addLeq(c.a, c.b, c.n)
}

// Subst replaces terms.
func (x *Engine) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			switch t.Op {
			case OConcat:
				r = Concat(args...)
			case OLin:
				r = Lin(args[0], t.N)
			case OBin:
				switch {
				case t.Aux == "+" && isInt(t.Typ):
					r = Add(args[0], args[1])
				case t.Aux == "-" && isInt(t.Typ):
					r = Sub(args[0], args[1])
				default:
					r = mk(t.Op, t.Aux, t.N, t.Typ, t.Ref, args...)
				}
			case OLen:
				r = Len(args[0])
			case OCap:
				r = Cap(args[0])
			case OEq:
				r = Eq(args[0], args[1])
			case OLt:
				r = Lt(args[0], args[1])
			case ONot:
				r = Not(args[0])
			case OSeq:
				r = Seq(t.Aux, t.Typ, args...)
			case OField:
				r = FieldOf(args[0], int(t.N), t.Typ)
			default:
				r = mk(t.Op, t.Aux, t.N, t.Typ, t.Ref, args...)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// forget drops the facts that mention any of the terms.
func (f *Facts) forget(ts map[*Term]bool) {
	m := func(t *Term) bool {
		if t == nil {
			return false
		}
		hit := false
		t.Walk(func(u *Term) bool {
			if ts[u] {
				hit = true
			}
			return !hit
		})
		return hit
	}
	for k := range f.lits {
		if m(k) {
			delete(f.lits, k)
		}
	}
	for k := range f.zone {
		if m(k.x) || m(k.y) {
			delete(f.zone, k)
		}
	}
	for k := range f.cs {
		if m(k) {
			delete(f.cs, k)
		}
	}
	for k := range f.ty {
		if m(k) {
			delete(f.ty, k)
		}
	}
}

func locType(k *Term) types.Type {
	switch k.Op {
	case OCell:
		return types.Typ[types.String]
	case OMapVer, OMapElem:
		return nil
	}
	if k.Typ != nil {
		if p, ok := k.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func (x *Engine) read(s *State, k *Term) *Term {
	if v, ok := s.Heap[k]; ok {
		return v
	}
	switch k.Op {
	case OMapVer:
		return x.mapVer(s, k.Args[0])
	case OCell:
		if k.Aux != "content" {
			return Nil
		}
	}
	if t := locType(k); t != nil {
		return x.Load(s, k, t)
	}
	return Nil
}

type lamSet struct {
	phis  map[*ssa.Phi]*Lam
	locs  map[*Term]*Lam
	vers  map[string]*Lam
	drops map[*Term]bool
	esc   map[*Term]bool
}

func (f *fctx) summarise(l *loop, es *estate) (exits []edge, outs []*Outcome) {
	x := f.x
	start := es
	fullKey := f.key(start.clone(), x.callerRoots()) + "#" + start.Facts.Key()
	key := f.site + "/" + f.fn.Name() + "#" + strconv.Itoa(l.header.Index) + "*" + strconv.Itoa(x.keyID(fullKey))
	lamBase := f.site + "/" + f.fn.Name() + "#" + strconv.Itoa(l.header.Index)

	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	ls := &lamSet{phis: map[*ssa.Phi]*Lam{}, locs: map[*Term]*Lam{}, vers: map[string]*Lam{}, drops: map[*Term]bool{}, esc: map[*Term]bool{}}
	startObjs := map[*Term]bool{}
	for o := range start.Fresh {
		startObjs[o] = true
	}
	pure := true

	var (
		cands   []*cand
		haveC   bool
		sum     *LoopSum
		outEx   []edge
		backs   []*estate
		outO    []*Outcome
		reads   map[string]bool
		prevLam string
	)
	nameLam := func(tag string, init *Term, typ types.Type, inits []*Term) *Term {
		if pure {
			return mk(OLam, f.fn.String()+"#"+strconv.Itoa(l.header.Index)+"."+tag, 0, typ, nil, inits...)
		}
		return mk(OLam, lamBase+"."+tag, 0, typ, nil, init)
	}
	upd := func(b *estate, lm *Lam) *Term {
		switch {
		case lm.Phi != nil:
			return b.env[lm.Phi]
		case lm.Loc != nil:
			return x.read(b.State, lm.Loc)
		}
		return x.ver(b.State, lm.Ver)
	}
	run := func(quiet bool) {
		// name the λs
		var pl []*ssa.Phi
		for _, p := range phis {
			if ls.phis[p] != nil {
				pl = append(pl, p)
			}
		}
		var inits []*Term
		for _, p := range phis {
			inits = append(inits, start.env[p])
		}
		for _, p := range f.fn.Params {
			if t, ok := start.env[p]; ok {
				inits = append(inits, t)
			}
		}
		var rs []string
		for r := range reads {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		for _, r := range rs {
			inits = append(inits, x.ver(start.State, r))
		}
		sum = &LoopSum{Key: key, Fn: f.fn, Header: l.header, Site: f.site, Pos: l.header.Instrs[0].Pos(), Entry: start.State, byTerm: map[*Term]*Lam{}}
		s := start.clone()
		lams := map[*Term]bool{}
		addLam := func(lm *Lam) {
			lm.Term.Ref = lm
			lm.Sum = sum
			sum.Lams = append(sum.Lams, lm)
			sum.byTerm[lm.Term] = lm
			lams[lm.Term] = true
		}
		for _, p := range pl {
			lm := ls.phis[p]
			lm.Term = nameLam(p.Name(), lm.Init, p.Type(), inits)
			addLam(lm)
		}
		var lk []*Term
		for k := range ls.locs {
			lk = append(lk, k)
		}
		sortTerms(lk)
		for _, k := range lk {
			lm := ls.locs[k]
			lm.Term = nameLam("m"+strconv.Itoa(k.ID), lm.Init, locType(k), inits)
			addLam(lm)
		}
		var vk []string
		for k := range ls.vers {
			vk = append(vk, k)
		}
		sort.Strings(vk)
		for _, k := range vk {
			lm := ls.vers[k]
			lm.Term = nameLam("v"+k, lm.Init, nil, inits)
			addLam(lm)
		}
		// the λs of this loop may be known from an earlier execution
		s.Facts.forget(lams)
		for _, lm := range sum.Lams {
			x.Escape(s.State, lm.Init)
			switch {
			case lm.Phi != nil:
				s.env[lm.Phi] = lm.Term
			case lm.Loc != nil:
				s.Heap[lm.Loc] = lm.Term
			default:
				s.Ver[lm.Ver] = lm.Term
			}
		}
		for k := range ls.drops {
			delete(s.Heap, k)
		}
		for o := range ls.esc {
			s.Escaped[o] = true
		}
		if !haveC && len(sum.Lams) > 0 {
			cands = f.candidates(start, sum)
			haveC = true
		}
		for _, c := range cands {
			c.assume(s.Facts)
		}
		sum.Start = s.State.Clone()
		sum.Facts = s.Facts.Clone()
		if !pure {
			s.Trace = s.Trace.Add(&Event{Kind: EvLoop, Name: f.fn.String(), Site: lamBase, Loop: sum, Pos: sum.Pos, In: f.fn, Ctx: x.ctxInEffect()})
		}
		sum.Base = s.Trace
		if quiet {
			x.quiet++
		}
		rset := map[string]bool{}
		x.readSets = append(x.readSets, rset)
		x.inLoop++
		outEx, backs, outO = f.region(l, l.header, []*estate{s})
		x.inLoop--
		x.readSets = x.readSets[:len(x.readSets)-1]
		if quiet {
			x.quiet--
		}
		reads = rset
	}
	// a first round without λs, then until nothing changes any more
	for round := 0; ; round++ {
		if round > 40 {
			x.Problems["no fixpoint for a loop in "+f.fn.String()] = true
			break
		}
		run(true)
		if len(backs) == 0 && len(sum.Lams) == 0 {
			break
		}
		changed := false
		add := func() { changed = true }
		for _, b := range backs {
			for _, p := range phis {
				if ls.phis[p] != nil {
					continue
				}
				if b.env[p] != start.env[p] {
					// it may be dead
					if b.env[p] == nil {
						continue
					}
					ls.phis[p] = &Lam{Phi: p, Init: start.env[p]}
					add()
				}
			}
			keys := map[*Term]bool{}
			for k := range b.Heap {
				keys[k] = true
			}
			for k := range sum.Start.Heap {
				keys[k] = true
			}
			for k := range keys {
				if ls.locs[k] != nil || ls.drops[k] {
					continue
				}
				if k.Op == OCell && k.Aux == "panic" {
					continue
				}
				base := baseObj(k)
				if (base.Op == OObj || base.Op == OMake) && !startObjs[base] {
					continue
				}
				vb, inB := b.Heap[k]
				vs, inS := sum.Start.Heap[k]
				if inB && inS && vb == vs {
					continue
				}
				if k.Op == OMapElem || k.Op == OIndexAddr {
					if inB && !inS && x.read(sum.Start, k) == vb && k.Op == OIndexAddr {
						continue
					}
					ls.drops[k] = true
					if k.Op == OIndexAddr {
						vk := "elems#" + strconv.Itoa(k.Args[0].ID)
						if ls.vers[vk] == nil {
							ls.vers[vk] = &Lam{Ver: vk, Init: x.ver(start.State, vk)}
						}
					}
					add()
					pure = false
					continue
				}
				if x.read(b.State, k) == x.read(sum.Start, k) {
					continue
				}
				ls.locs[k] = &Lam{Loc: k, Init: x.read(start.State, k)}
				pure = false
				add()
			}
			vkeys := map[string]bool{}
			for k := range b.Ver {
				vkeys[k] = true
			}
			for k := range sum.Start.Ver {
				vkeys[k] = true
			}
			for k := range vkeys {
				if ls.vers[k] != nil || x.ver(b.State, k) == x.ver(sum.Start, k) {
					continue
				}
				if strings.HasPrefix(k, "elems#") {
					// contents of something allocated by the loop
					own := true
					for o := range startObjs {
						if k == "elems#"+strconv.Itoa(o.ID) {
							own = false
						}
					}
					if own && start.Ver[k] == nil {
						isObj := false
						id, _ := strconv.Atoi(k[len("elems#"):])
						if id > 0 && id <= len(termList) {
							if o := baseObj(termList[id-1]); o.Op == OObj || o.Op == OMake {
								isObj = true
							}
						}
						if isObj {
							continue
						}
					}
				}
				ls.vers[k] = &Lam{Ver: k, Init: x.ver(start.State, k)}
				pure = false
				add()
			}
			for o := range b.Escaped {
				if startObjs[o] && !ls.esc[o] && !sum.Start.Escaped[o] {
					ls.esc[o] = true
					add()
				}
			}
			if b.Trace != sum.Base {
				if pure {
					pure = false
					add()
				}
			}
			if len(b.defers) != len(start.defers) {
				x.problem("defer in a loop in %s", f.fn)
			}
		}
		for _, e := range outEx {
			if e.es.Trace != sum.Base && pure && e.from == l.header {
				pure = false
				add()
			}
		}
		if changed {
			haveC = false
			continue
		}
		// pure loops are named after what they read
		lk := ""
		for _, lm := range sum.Lams {
			lk += "," + strconv.Itoa(lm.Term.ID)
		}
		if lk != prevLam {
			prevLam = lk
			if pure && round < 8 {
				haveC = false
				continue
			}
		}
		// check the candidates
		var keep []*cand
		dropped := false
		for _, c := range cands {
			ok := true
			for _, b := range backs {
				m := map[*Term]*Term{}
				for _, lm := range sum.Lams {
					if u := upd(b, lm); u != nil {
						m[lm.Term] = u
					}
				}
				if c.p != nil {
					p := x.Subst(c.p, m)
					v, known := b.Facts.Eval(p)
					if !known || !v {
						ok = false
						break
					}
					continue
				}
				a, bb := x.Subst(c.a, m), x.Subst(c.b, m)
				if !b.Facts.leq(a, bb, c.n) {
					// widen once
					ba, na := a.split()
					b2, nb := bb.split()
					if d, known := b.Facts.diff(ba, b2); known && c.wid < 2 {
						c.n = d + na - nb
						c.wid++
						dropped = true
						continue
					}
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, c)
			} else {
				dropped = true
			}
		}
		cands = keep
		if !dropped {
			break
		}
	}
	if x.quiet == 0 {
		run(false)
	}
	for _, b := range backs {
		bk := &Back{St: b.State, Upd: map[*Term]*Term{}, Evs: b.Trace.Since(sum.Base), Base: sum.Base}
		for _, lm := range sum.Lams {
			if u := upd(b, lm); u != nil {
				bk.Upd[lm.Term] = u
			}
		}
		sum.Backs = append(sum.Backs, bk)
	}
	for _, e := range outEx {
		if e.from != l.header {
			sum.Breaks++
		}
	}
	x.Sums[key] = sum
	return outEx, outO
}

var keyIDs = map[string]int{}

func (x *Engine) keyID(k string) int {
	if n, ok := keyIDs[k]; ok {
		return n
	}
	keyIDs[k] = len(keyIDs) + 1
	return len(keyIDs)
}

// candidates guesses invariants from the values at the loop entry.
func (f *fctx) candidates(start *estate, sum *LoopSum) []*cand {
	x := f.x
	var out []*cand
	type meas struct{ t, init *Term }
	var ms []meas
	for _, lm := range sum.Lams {
		t := lm.Term
		if t.Typ == nil || lm.Init == nil {
			continue
		}
		switch u := t.Typ.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsInteger != 0:
				ms = append(ms, meas{t, lm.Init})
			case u.Info()&types.IsString != 0:
				ms = append(ms, meas{Len(t), Len(lm.Init)})
			}
			if lm.Init.Op == OConst && u.Info()&types.IsInteger == 0 {
				out = append(out, &cand{p: Eq(t, lm.Init)})
			}
			if u.Info()&types.IsString != 0 && start.Facts.StrNonEmpty(lm.Init) {
				out = append(out, &cand{p: Not(Eq(t, Empty))})
			}
		case *types.Slice:
			ms = append(ms, meas{Len(t), Len(lm.Init)})
			if start.Facts.NonNil(lm.Init) {
				out = append(out, &cand{p: Not(Eq(t, Nil))})
			}
			if lm.Init.Op == ONil {
				out = append(out, &cand{p: Eq(t, Nil)})
			}
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
			if start.Facts.NonNil(lm.Init) {
				out = append(out, &cand{p: Not(Eq(t, Nil))})
			}
			if lm.Init.Op == ONil {
				out = append(out, &cand{p: Eq(t, Nil)})
			}
		}
	}
	if len(ms) == 0 {
		return out
	}
	zero := meas{Int(0), Int(0)}
	var ys []meas
	ys = append(ys, zero)
	seen := map[*Term]bool{}
	addY := func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		b, _ := t.split()
		if b == nil || seen[b] {
			return
		}
		seen[b] = true
		for _, lm := range sum.Lams {
			if b.Mentions(lm.Term) {
				return
			}
		}
		ys = append(ys, meas{b, b})
	}
	// what the loop compares with
	for blk := range f.li.headers[sum.Header].blocks {
		for _, in := range blk.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || !isInt(bo.X.Type()) {
				continue
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if t, ok := start.env[v]; ok {
					addY(t)
				}
				if c, ok := v.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if t, ok := start.env[c.Call.Args[0]]; ok {
							addY(Len(t))
						}
						if ld, ok := c.Call.Args[0].(*ssa.UnOp); ok {
							if t := f.peek(start, ld); t != nil {
								addY(Len(t))
							}
						}
					}
				}
			}
		}
	}
	// and what is indexed
	for blk := range f.li.headers[sum.Header].blocks {
		for _, in := range blk.Instrs {
			var base ssa.Value
			switch in := in.(type) {
			case *ssa.IndexAddr:
				base = in.X
			case *ssa.Index:
				base = in.X
			case *ssa.Lookup:
				base = in.X
			case *ssa.Slice:
				base = in.X
			}
			if base == nil {
				continue
			}
			if t, ok := start.env[base]; ok && t.Op != OObj {
				addY(Len(t))
			}
			if ld, ok := base.(*ssa.UnOp); ok {
				if t := f.peek(start, ld); t != nil {
					addY(Len(t))
				}
			}
		}
	}
	add := func(a, b meas) {
		ba, na := a.init.split()
		bb, nb := b.init.split()
		if d, ok := start.Facts.diff(ba, bb); ok {
			out = append(out, &cand{a: a.t, b: b.t, n: d + na - nb})
		}
	}
	for i, m := range ms {
		for _, y := range ys {
			add(m, y)
			add(y, m)
		}
		for j, n := range ms {
			if i != j {
				add(m, n)
			}
		}
	}
	_ = x
	return out
}

// peek evaluates simple loads in the state.
func (f *fctx) peek(es *estate, ld *ssa.UnOp) *Term {
	var addr func(v ssa.Value) *Term
	addr = func(v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.Global:
			return f.x.GlobalAddr(v)
		case *ssa.FieldAddr:
			b := addr(v.X)
			if b == nil {
				return nil
			}
			return f.x.FieldAddr(b, v.X.Type().Underlying().(*types.Pointer).Elem(), v.Field)
		case *ssa.UnOp:
			a := addr(v.X)
			if a == nil {
				return nil
			}
			return f.x.read(es.State, a)
		}
		return es.env[v]
	}
	a := addr(ld.X)
	if a == nil || locType(a) == nil {
		return nil
	}
	return f.x.read(es.State, a)
}
