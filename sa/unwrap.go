package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C30"] = checkUnwrap
}

// checkUnwrap: linear congruences modulo the size of the sequence space.
func checkUnwrap(c *Ctx) {
	c.explain = "congruence and linear-inequality reasoning over every path of Unwrap: the result minus the received number is a sum of quantities that are multiples of the size of the sequence space, found inductively (fields that start at zero and are only ever assigned such sums); the result and those fields stay non-negative"
	c.assume = append(c.assume, "received numbers lie in the sequence space; unwrapped numbers don't overflow 63 bits; Unwrap's own lock is the only way to its fields (C23)")
	if c.initH == nil {
		c.initH = buildInitHeap(c.p)
	}
	n := 0
	sp := c.p.pkgOf("internal/webrtc/utils")
	if !c.need(sp != nil, "utils", "no package internal/webrtc/utils") {
		return
	}
	for _, mem := range sp.Members {
		tn, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		f := c.p.method(t, "Unwrap")
		if f == nil || f.Blocks == nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 ||
			!isInteger(f.Signature.Params().At(0).Type()) || !isInteger(f.Signature.Results().At(0).Type()) {
			continue
		}
		n++
		c.unwrapper(t, f)
	}
	c.need(n > 0, "unwrapper", "no type of internal/webrtc/utils has a method Unwrap")
}

func (c *Ctx) unwrapper(t *types.Named, fn *ssa.Function) {
	st, ok := t.Underlying().(*types.Struct)
	if !c.need(ok, t.Obj().Name(), "%s is not a structure", t) {
		return
	}
	// fields that are only set while the value is made
	set := map[int]bool{}
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != t {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); !fresh {
					set[fa.Field] = true
				}
			}
		}
	}
	inline := func(fn *ssa.Function) bool {
		for f := fn; f != nil; f = f.Parent() {
			if f.Pkg != nil && relPkg(c.p, f.Pkg.Pkg) == "internal/webrtc/utils" {
				return true
			}
		}
		return false
	}
	// candidates: fields that are zero at first
	mult := map[int]bool{}
	size := map[int]bool{}
	for i := 0; i < st.NumFields(); i++ {
		if !isInteger(st.Field(i).Type()) {
			continue
		}
		if set[i] {
			mult[i] = true
		} else {
			size[i] = true
		}
	}
	made := 0
	{
		h := &Hooks{NoRoots: true, Inline: inline}
		h.Exit = func(e *Engine, s *State, kind string, res *Term) {
			if kind != "return" || res == nil || res.k != KObj || namedOf(res.typ) != t {
				return
			}
			made++
			for i := range mult {
				if v := s.load(fieldAddr(res, st, i), st.Field(i).Type()); s.decideEq(v, zeroOf(st.Field(i).Type())) != 1 {
					delete(mult, i)
				}
			}
			// the size of the space is a power of two of the number of bits
			for i := range size {
				v := stripConv(s.load(fieldAddr(res, st, i), st.Field(i).Type()))
				if v.isOp("<<") {
					if k, ok := v.args[0].int64(); ok && k == 1 {
						c.sample("%s is the size of the sequence space: %s", st.Field(i).Name(), v)
						continue
					}
				}
				if k, ok := v.int64(); ok && k > 0 && k&(k-1) == 0 {
					continue
				}
				delete(size, i)
			}
		}
		e := NewEngine(c.p, h)
		e.initHeap = c.initH
		for _, f := range c.p.Funcs {
			if f.Signature.Recv() == nil && f.Parent() == nil && f.Blocks != nil && f.Pkg == fn.Pkg &&
				f.Signature.Results().Len() > 0 && namedOf(f.Signature.Results().At(0).Type()) == t {
				e.Explore([]*Root{e.NewRoot(f.Name(), f, nil, nil)})
			}
		}
	}
	if !c.need(made > 0, "constructor", "nothing makes a %s", t.Obj().Name()) {
		return
	}
	get := func(s *State, i int) *Term {
		return s.load(fieldAddr(s.g("recv"), st, i), st.Field(i).Type())
	}
	inv := func(s *State) {
		for i := range mult {
			s.assume(mkLt(get(s, i), mkConst(constInt(0), st.Field(i).Type())), false)
		}
		for i := range size {
			v := get(s, i)
			s.assume(mkLt(mkConst(constInt(0), st.Field(i).Type()), v), true)
			s.setG("M"+itoa(i), v)
		}
		for i := range mult {
			s.setG("W"+itoa(i), get(s, i))
		}
	}
	// is l a sum of multiples of the size?
	var multiple func(s *State, l lin, d int) bool
	multiple = func(s *State, l lin, d int) bool {
		ok := l.k%65536 == 0
		for a := range l.c {
			hit := false
			for i := range mult {
				hit = hit || s.g("W"+itoa(i)) == a
			}
			for i := range size {
				hit = hit || s.g("M"+itoa(i)) == a
			}
			ok = ok && hit
		}
		if ok || d == 0 {
			return ok
		}
		for f, v := range s.facts {
			if v && f.isOp("eq") && f.args[0].typ != nil && isInteger(f.args[0].typ) {
				d1 := linOf(f.args[0]).add(linOf(f.args[1]), -1)
				if multiple(s, l.add(d1, 1), d-1) || multiple(s, l.add(d1, -1), d-1) {
					return true
				}
			}
		}
		return false
	}
	for again := true; again; {
		again = false
		type lost struct {
			i  int
			s  *State
			in ssa.Instruction
			v  *Term
			m  string
		}
		var neg []lost
		h := &Hooks{KeepArgs: true, NoRoots: true, Inline: inline, KeepFact: func(*Term) bool { return true }}
		mine := func(s *State, l *Term) bool {
			return l.find(func(u *Term) bool { return u == s.g("recv") }) != nil
		}
		ret := 0
		h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.mode == "call" && strings.HasPrefix(ci.name, "sync.") && strings.HasSuffix(ci.name, ".Lock") && mine(s, ci.arg(0)) {
				if _, ok := e.lockModel(s, ci); ok {
					inv(s)
					return []Outcome{{}}, true
				}
			}
			return nil, false
		}
		h.Store = func(e *Engine, s *State, a, v *Term, in ssa.Instruction) {
			for i := 0; i < st.NumFields(); i++ {
				if fieldAddr(s.g("recv"), st, i) != a {
					continue
				}
				if mult[i] && !multiple(s, linOf(v), 1) {
					delete(mult, i)
					again = true
				}
				if mult[i] && !s.proveGE(v, zeroOf(v.typ), 0) {
					neg = append(neg, lost{i, s.clone(), in, v, s.meth()})
				}
			}
		}
		var e *Engine
		h.Exit = func(e *Engine, s *State, kind string, res *Term) {
			if kind != "return" || again || s.meth() != "Unwrap" {
				return
			}
			ret++
			c.inc("ways out of Unwrap")
			n := s.g("n")
			d := linOf(res).add(linOf(n), -1)
			c.sample("Unwrap(%s) = %s", n, res)
			if !multiple(s, d, 2) {
				e.report(s, "congruent", t.Obj().Name(), nil, "Unwrap returns %s for %s: their difference is not known to be a multiple of the size of the sequence space", res, n)
			}
			if !s.proveGE(res, zeroOf(res.typ), 0) {
				e.report(s, "negative", t.Obj().Name(), nil, "Unwrap returns %s for %s, which may be negative", res, n)
			}
		}
		e = c.engine(h)
		var roots []*Root
		for i := 0; i < t.NumMethods(); i++ {
			f := c.p.SSA.FuncValue(t.Method(i))
			if f == nil || f.Blocks == nil || !t.Method(i).Exported() {
				continue
			}
			r := e.NewRoot(t.Obj().Name()+"."+f.Name(), f, nil, nil)
			r.data = map[string]any{"method": f.Name()}
			r.init.setG("recv", r.args[0])
			r.init.shared[r.args[0]] = true
			if f == fn {
				r.init.setG("n", r.args[1])
				if sz := size; len(sz) == 1 {
					for i := range sz {
						v := get(r.init, i)
						r.init.assume(mkLt(r.args[1], v), true)
					}
				}
			}
			inv(r.init)
			roots = append(roots, r)
		}
		saved := len(c.viol)
		c.explore(e, roots...)
		if again {
			c.viol = c.viol[:saved]
			c.vseen = map[string]bool{}
			for _, v := range c.viol {
				c.vseen[v.rule+"|"+v.key] = true
			}
			c.samples = nil
			continue
		}
		names := []string{}
		for i := 0; i < st.NumFields(); i++ {
			if mult[i] {
				names = append(names, st.Field(i).Name())
			}
		}
		c.sample("multiples of the size of the sequence space: %s", strings.Join(names, ", "))
		e.viol, e.vkeys = nil, map[string]bool{}
		for _, x := range neg {
			e.report(x.s, "negative base", st.Field(x.i).Name(), x.in, "%s becomes %s, which may be negative", st.Field(x.i).Name(), x.v)
		}
		for _, v := range e.viol {
			c.add(v)
		}
		c.need(ret > 0, "results", "Unwrap never returns")
	}
}
