package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

func init() {
	checks["C13"] = &Check{
		Rule: "each successful partition of (*Fragment).BuildFragment returns '' with all that was built known to be blank, or prefix ++ ' ' ++ TrimSpace(text) ++ ' ' ++ suffix, with TrimSpace(text) known not to be empty, and prefix and suffix (with their spaces) left out exactly if known to be empty; they are what the fragment holds; setters store their arg in the field",
		Run:  checkC13,
	}
}

// fragType is the type Fragment.
func (c *C) fragType() *types.Named {
	return c.namedType(c.P.Root, "Fragment")
}

func (c *C) namedType(p *ssa.Package, name string) *types.Named {
	tn, _ := p.Pkg.Scope().Lookup(name).(*types.TypeName)
	if tn == nil {
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

func fieldIndex(n *types.Named, name string) int {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// loadField loads a field of the struct a pointer refers to.
func (c *C) loadField(r *Run, st *State, ptr *T, n *types.Named, name string) *T {
	i := fieldIndex(n, name)
	if i < 0 {
		return nil
	}
	return r.X.Load(st, r.X.FieldAddr(ptr, n, i), n.Underlying().(*types.Struct).Field(i).Type())
}

// nonNilRecv starts with a receiver that isn't nil.
func nonNilRecv(r *Run, st *State) { st.Facts.Assume(engine.Eq(r.Args[0], engine.Nil), false) }

func checkC13(c *C) {
	ft := c.fragType()
	if ft == nil {
		c.Fail("anchor", "Fragment", "", "not found")
		return
	}
	fn := c.methodOf(types.NewPointer(ft), "BuildFragment")
	if fn == nil {
		c.Fail("anchor", "(*Fragment).BuildFragment", "", "not found")
		return
	}
	r := c.AnalyseWith(fn, "", c.inlineParts, nonNilRecv)
	f := r.Args[0]
	prefix := c.loadField(r, r.Base, f, ft, "Prefix")
	suffix := c.loadField(r, r.Base, f, ft, "Suffix")
	if prefix == nil || suffix == nil {
		c.Fail("anchor", "Fragment", "", "has no Prefix or Suffix")
		return
	}
	m := &textMatcher{c: c, r: r, own: ownCtx, memo: map[*engine.Lam]string{}, busy: map[*T]bool{}}
	for _, o := range r.Outs {
		if o.Panic || o.St.Facts.NonNil(o.Vals[1]) {
			continue
		}
		pos := c.P.Pos(o.RetPos)
		text := o.Vals[0]
		c.Count("successful partitions", 1)
		if o.St.Facts.StrEmpty(text) {
			if _, p := m.outcome(o, engine.Str("")); p != "" {
				c.Fail("affixes", c.name(fn), pos, "returns '' although the text may not be blank: %s", p)
			}
			c.Count("empty partitions", 1)
			continue
		}
		parts := []*T{text}
		if text.Op == engine.OConcat {
			parts = text.Args
		}
		at := -1
		for i, p := range parts {
			if p.Op == engine.OApp && p.Aux == "strings.TrimSpace" && m.mentionsText(p) {
				if at >= 0 {
					at = -2
					break
				}
				at = i
			}
		}
		if at < 0 {
			c.Fail("affixes", c.name(fn), pos, "the result %s has no text without surrounding white space", clip(text.String()))
			continue
		}
		if !o.St.Facts.StrNonEmpty(parts[at]) {
			c.Fail("affixes", c.name(fn), pos, "adds prefix and suffix to a text that may be empty")
		}
		c.affix(r, o, fn, "prefix", prefix, parts[:at], true)
		c.affix(r, o, fn, "suffix", suffix, parts[at+1:], false)
	}
	c.Need("successful partitions", 3)
	c.Need("empty partitions", 1)
	c.Need("affixes", 4)
	for _, name := range []string{"Prefix", "Suffix"} {
		set := c.methodOf(types.NewPointer(ft), "With"+name)
		if set == nil {
			c.Fail("anchor", "With"+name, "", "not found")
			continue
		}
		r := c.AnalyseWith(set, "", nil, nonNilRecv)
		for _, o := range r.Outs {
			if o.Panic {
				continue
			}
			if got := c.loadField(r, o.St, r.Args[0], ft, name); got != r.Args[1] {
				c.Fail("setter", c.name(set), c.P.Pos(o.RetPos), "the %s becomes %s", name, clip(got.String()))
			}
			other := "Suffix"
			if name == other {
				other = "Prefix"
			}
			if c.loadField(r, o.St, r.Args[0], ft, other) != c.loadField(r, r.Base, r.Args[0], ft, other) || o.Vals[0] != r.Args[0] {
				c.Fail("setter", c.name(set), c.P.Pos(o.RetPos), "changes more than the %s, or doesn't return the fragment", name)
			}
			c.Count("setters", 1)
		}
	}
	c.Need("setters", 2)
}

func (c *C) affix(r *Run, o *engine.Outcome, fn *ssa.Function, what string, want *T, parts []*T, before bool) {
	pos := c.P.Pos(o.RetPos)
	f := o.St.Facts
	if len(parts) == 0 {
		if !f.StrEmpty(want) {
			c.Fail("affixes", c.name(fn), pos, "the %s is left out although it may not be empty", what)
		}
		c.Count("affixes", 1)
		return
	}
	got := engine.Concat(parts...)
	exp := engine.Concat(engine.Str(" "), want)
	if before {
		exp = engine.Concat(want, engine.Str(" "))
	}
	if v, ok := want.StrVal(); ok && v == "" {
		exp = engine.Str("")
	}
	switch {
	case got != exp:
		c.Fail("affixes", c.name(fn), pos, "%s where the %s and a space belong", clip(got.String()), what)
	case !f.StrNonEmpty(want):
		c.Fail("affixes", c.name(fn), pos, "adds a space for a %s that may be empty", what)
	}
	c.Count("affixes", 1)
}
