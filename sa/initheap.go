package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initHeap evaluates the package initialisers abstractly and keeps the values
// of the package variables that nothing changes afterwards.
func buildInitHeap(p *Prog) map[*Term]*Term {
	out := map[*Term]*Term{}
	for _, sp := range p.SPkgs {
		init := sp.Func("init")
		if init == nil || init.Blocks == nil {
			continue
		}
		var best *State
		h := &Hooks{NoRoots: true}
		h.Inline = func(fn *ssa.Function) bool { return fn.Parent() != nil && fn.Pkg == sp }
		h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
			n := ci.name[strings.LastIndex(ci.name, ".")+1:]
			if n == "init" || strings.HasPrefix(n, "init#") {
				return []Outcome{{}}, true
			}
			if ci.mode == "probe" {
				return nil, false
			}
			if ci.callee.builtin == nil && (ci.callee.fn == nil || ci.callee.fn.Blocks == nil || ci.callee.fn.Parent() == nil) && ci.sig != nil && ci.sig.Results().Len() == 1 {
				t := ci.sig.Results().At(0).Type()
				switch t.Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Map:
					return []Outcome{{res: mkObj(ci.site, t)}}, true
				}
				return []Outcome{{res: e.pureResult(s, ci)}}, true
			}
			return nil, false
		}
		h.Exit = func(e *Engine, s *State, kind string, res *Term) {
			if kind == "return" && (best == nil || len(s.heap) > len(best.heap)) {
				best = s.clone()
			}
		}
		e := NewEngine(p, h)
		e.Explore([]*Root{e.NewRoot("init", init, nil, nil)})
		if best == nil {
			continue
		}
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.HasPrefix(g.Name(), "init$") || !p.immutableGlobal(g) {
				continue
			}
			gt := intern(KGlobal, "", g.Type(), g, 0, nil)
			found := false
			for a, v := range best.heap {
				if a == gt || isUnder(a, gt) {
					out[a] = v
					found = true
					// what it points to
					best.reach(v, func(o *Term) bool {
						for a2, v2 := range best.heap {
							if rootOf(a2) == o || (a2.isOp("mapcell") && rootOf(a2) == o) {
								out[a2] = v2
							}
						}
						return true
					})
				}
			}
			if !found {
				out[gt] = zeroOf(deref(g.Type()))
			}
		}
	}
	return out
}

// immutableGlobal: outside of initialisers, the variable and what it points to
// directly are only ever read.
func (p *Prog) immutableGlobal(g *ssa.Global) bool {
	for _, f := range p.Funcs {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Name() == "init" && top.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o != ssa.Value(g) {
						continue
					}
					v, isV := in.(ssa.Value)
					if u, ok := in.(*ssa.UnOp); ok && onlyRead(u, 0) {
						continue
					}
					if _, ok := in.(*ssa.FieldAddr); ok && isV && onlyReadAddr(v, 0) {
						continue
					}
					if _, ok := in.(*ssa.IndexAddr); ok && isV && onlyReadAddr(v, 0) {
						continue
					}
					return false
				}
			}
		}
	}
	return true
}

func onlyReadAddr(v ssa.Value, d int) bool {
	if d > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if !onlyRead(r, d+1) {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !onlyReadAddr(r.(ssa.Value), d+1) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// onlyRead: a value that is never written through.
func onlyRead(v ssa.Value, d int) bool {
	if d > 4 || v.Referrers() == nil {
		return d <= 4
	}
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
	default:
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			return false
		case *ssa.Store:
			return false
		case ssa.CallInstruction:
			if b, ok := r.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if n := typeName(v.Type()); n != "" && !strings.HasPrefix(n, p0(r)) {
				// a library object: its methods do their own thing
				if nn := namedOf(v.Type()); nn != nil {
					continue
				}
			}
			return false
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !onlyReadAddr(r.(ssa.Value), d+1) {
				return false
			}
		}
	}
	return true
}

func p0(c ssa.CallInstruction) string {
	if c.Parent() != nil && c.Parent().Pkg != nil {
		return c.Parent().Pkg.Pkg.Path() + "."
	}
	return "?"
}
