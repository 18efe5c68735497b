package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resolve finds what a call calls; more than one callee if a function value or
// the dynamic type of an interface is unknown.
func (e *Engine) resolve(s *State, f *Frame, cc *ssa.CallCommon) (callees []*Callee, args []*Term, recv *Term) {
	for _, a := range cc.Args {
		args = append(args, e.val(s, f, a))
	}
	if cc.IsInvoke() {
		r := e.val(s, f, cc.Value)
		return e.resolveMethod(s, r, cc.Method), args, r
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return []*Callee{{builtin: b, sig: cc.Signature()}}, args, nil
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		return []*Callee{{fn: fn, sig: fn.Signature}}, args, nil
	}
	v := e.val(s, f, cc.Value)
	c := e.calleeOf(v, cc.Signature())
	// a method value: the method
	if c.fn != nil && len(c.free) == 1 && strings.HasSuffix(c.fn.Name(), "$bound") {
		if o, ok := c.fn.Object().(*types.Func); ok {
			if g := e.p.SSA.FuncValue(o); g != nil {
				return []*Callee{{fn: g, sig: g.Signature}}, append([]*Term{c.free[0]}, args...), nil
			}
			if types.IsInterface(c.free[0].typ) {
				return e.resolveMethod(s, c.free[0], o), args, c.free[0]
			}
		}
	}
	return []*Callee{c}, args, nil
}

func (e *Engine) calleeOf(v *Term, sig *types.Signature) *Callee {
	switch {
	case v.k == KFunc:
		return &Callee{fn: v.ref.(*ssa.Function), clo: v, sig: sig}
	case v.isOp("closure"):
		return &Callee{fn: v.ref.(*ssa.Function), free: v.args, clo: v, sig: sig}
	}
	return &Callee{clo: v, sig: sig}
}

func (e *Engine) resolveMethod(s *State, r *Term, m *types.Func) []*Callee {
	if r.isOp("iface") {
		if fn := e.lookupMethod(r.ref.(types.Type), m); fn != nil {
			return []*Callee{{fn: fn, sig: m.Type().(*types.Signature)}}
		}
	}
	// known by an assertion?
	for f, v := range s.facts {
		if v && f.isOp("assertok") && f.args[0] == r {
			t := f.ref.(types.Type)
			if _, isI := t.Underlying().(*types.Interface); !isI {
				if fn := e.lookupMethod(t, m); fn != nil {
					return []*Callee{{fn: fn, sig: m.Type().(*types.Signature)}}
				}
			}
		}
	}
	return []*Callee{{obj: m, sig: m.Type().(*types.Signature)}}
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := e.p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.p.SSA.MethodValue(sel)
}

// impls are the methods of the repository's types that may implement an
// interface method.
func (e *Engine) impls(m *types.Func) []*ssa.Function {
	if r, ok := e.implCache[m]; ok {
		return r
	}
	var out []*ssa.Function
	recv := m.Type().(*types.Signature).Recv()
	if recv != nil {
		if it, ok := recv.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			var ns []*types.Named
			for _, n := range e.p.named {
				ns = append(ns, n)
			}
			sort.Slice(ns, func(i, j int) bool { return ns[i].String() < ns[j].String() })
			for _, n := range ns {
				if _, isI := n.Underlying().(*types.Interface); isI || n.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{n, types.NewPointer(n)} {
					if types.Implements(t, it) {
						if fn := e.lookupMethod(t, m); fn != nil {
							out = append(out, fn)
							break
						}
					}
				}
			}
		}
	}
	e.implCache[m] = out
	return out
}

// implsOf are the implementations of a method by types that fit an interface.
func (e *Engine) implsOf(m *types.Func, t types.Type) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return e.impls(m)
	}
	var out []*ssa.Function
	for _, fn := range e.impls(m) {
		if r := fn.Signature.Recv(); r == nil || types.Implements(r.Type(), it) {
			out = append(out, fn)
		}
	}
	return out
}

func (e *Engine) call(s *State, f *Frame, site ssa.CallInstruction, mode string) {
	cc := site.Common()
	e.callSites[site] = true
	callees, args, recv := e.resolve(s, f, cc)
	c := callees[0]
	if recv != nil {
		if c.fn != nil {
			rv := recv
			if recv.isOp("iface") {
				rv = recv.args[0]
			} else {
				rv = mkOpRef("assertval", c.fn.Signature.Recv().Type(), c.fn.Signature.Recv().Type(), 0, recv)
			}
			args = append([]*Term{rv}, args...)
		} else {
			args = append([]*Term{recv}, args...)
			if recv.isNil() {
				if e.h.Deref != nil {
					e.h.Deref(e, s, tNil, site)
				}
				e.runtimePanic(s, "nil pointer dereference", site)
				return
			}
			// an interface of the repository: any of its implementations
			if fns := e.implsOf(c.obj, cc.Value.Type()); len(fns) > 0 && mode == "call" && !e.handled(s, site, c, args, mode) && e.wantImpls(fns) {
				var alts []func(*State) bool
				for _, fn := range fns {
					fn := fn
					alts = append(alts, func(s *State) bool {
						rt := fn.Signature.Recv().Type()
						a2 := append([]*Term{mkOpRef("assertval", rt, rt, 0, recv)}, args[1:]...)
						ok := mkOpRef("assertok", types.Typ[types.Bool], rt, 0, recv)
						if !s.assume(ok, true) {
							return false
						}
						s.note("%s: %s is a %s", e.pos(site), recv, types.TypeString(rt, shortQual))
						e.dispatch(s, s.top(), site, &Callee{fn: fn, sig: fn.Signature}, a2, mode)
						return !s.dead
					})
				}
				e.fork(s, alts...)
				return
			}
		}
	}
	e.dispatch(s, f, site, c, args, mode)
}

func (e *Engine) wantImpls(fns []*ssa.Function) bool {
	if e.h.Inline == nil {
		return true
	}
	for _, f := range fns {
		if e.h.Inline(f) {
			return true
		}
	}
	return false
}

// handled asks the client whether it models this call, without doing it.
func (e *Engine) handled(s *State, site ssa.CallInstruction, c *Callee, args []*Term, mode string) bool {
	if e.h.Call == nil {
		return false
	}
	ci := &CallInfo{site: site, callee: c, name: c.name(), args: args, sig: c.sig, mode: "probe"}
	_, ok := e.h.Call(e, s, ci)
	return ok
}

func (e *Engine) dispatch(s *State, f *Frame, site ssa.CallInstruction, c *Callee, args []*Term, mode string) {
	switch mode {
	case "defer":
		f.defers = append(f.defers, &Deferred{site: site, call: c, args: args})
	case "go":
		e.spawn(s, c, args, "go", "", site)
	default:
		var res ssa.Value
		if v, ok := site.(ssa.Value); ok {
			res = v
		}
		e.invoke(s, site, c, args, res, false)
	}
}

func (e *Engine) inlines(s *State, fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	if e.h.Inline != nil && !e.h.Inline(fn) {
		return false
	}
	n := 0
	for _, g := range s.stack {
		if g.fn == fn {
			n++
		}
	}
	return n < 2 && len(s.stack) < 60
}

// invoke makes a call.
func (e *Engine) invoke(s *State, site ssa.CallInstruction, c *Callee, args []*Term, res ssa.Value, deferred bool) {
	var sig *types.Signature
	if c.fn != nil {
		sig = c.fn.Signature
	} else {
		sig = c.sig
	}
	ci := &CallInfo{site: site, callee: c, name: c.name(), args: args, sig: sig, mode: "call"}
	if c.fn == nil && c.builtin == nil && c.obj == nil && c.clo != nil && c.clo.isNil() {
		if e.h.Deref != nil {
			e.h.Deref(e, s, tNil, site)
		}
		e.runtimePanic(s, "call of nil function", site)
		return
	}
	if e.h.Call != nil {
		if outs, ok := e.h.Call(e, s, ci); ok {
			e.finish(s, ci, res, outs)
			return
		}
	}
	if s.dead {
		return
	}
	if c.builtin != nil {
		e.builtinCall(s, ci, res)
		return
	}
	if outs, ok := e.model(s, ci, res); ok {
		if outs != nil {
			e.finish(s, ci, res, outs)
		}
		return
	}
	if e.inlines(s, c.fn) {
		s.note("%s: call %s", e.pos(site), shortName(c.name()))
		fr := e.pushFrame(s, c, args, res)
		fr.deferred = deferred
		return
	}
	if c.fn == nil && c.obj == nil && c.clo != nil {
		// an unknown function value: any function of that type whose address is taken
		if fns := e.addressTaken(sig); len(fns) > 0 && len(fns) <= 6 {
			var alts []func(*State) bool
			for _, fn := range fns {
				fn := fn
				if !e.inlines(s, fn) {
					continue
				}
				alts = append(alts, func(s *State) bool {
					s.note("%s: call of %s, maybe %s", e.pos(site), c.clo, shortName(fn.String()))
					var free []*Term
					for _, fv := range fn.FreeVars {
						free = append(free, fresh("freevar:"+fv.Name(), fv.Type()))
					}
					fr := e.pushFrame(s, &Callee{fn: fn, free: free}, args, res)
					fr.deferred = deferred
					return true
				})
			}
			if len(alts) > 0 {
				e.fork(s, alts...)
				return
			}
		}
	}
	e.finish(s, ci, res, e.external(s, ci))
}

var addrTaken map[*types.Signature]int

// addressTaken are the closures and functions of a type that are used as values.
func (e *Engine) addressTaken(sig *types.Signature) []*ssa.Function {
	if sig == nil {
		return nil
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range e.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for i, o := range ops {
					var fn *ssa.Function
					switch v := (*o).(type) {
					case *ssa.Function:
						if c, ok := in.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() {
							continue
						}
						fn = v
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						fn = mc.Fn.(*ssa.Function)
					}
					if fn != nil && !seen[fn] && fn.Blocks != nil && identicalSig(fn.Signature, sig) {
						seen[fn] = true
						out = append(out, fn)
					}
				}
			}
		}
	}
	return out
}

func identicalSig(a, b *types.Signature) bool {
	return types.Identical(types.NewSignatureType(nil, nil, nil, a.Params(), a.Results(), a.Variadic()),
		types.NewSignatureType(nil, nil, nil, b.Params(), b.Results(), b.Variadic()))
}

// finish applies the outcomes of a call that is not followed.
func (e *Engine) finish(s *State, ci *CallInfo, res ssa.Value, outs []Outcome) {
	if len(outs) == 0 {
		s.dead = true
		return
	}
	apply := func(o Outcome) func(s *State) bool {
		return func(s *State) bool {
			if o.note != "" {
				s.note("%s: %s", e.pos(ci.site), o.note)
			}
			if o.eff != nil && !o.eff(s) {
				return false
			}
			if o.stop {
				return false
			}
			if o.panic != nil {
				e.startPanic(s, o.panic, ci.site)
				return true
			}
			r := o.res
			if r == nil {
				r = e.freshResult(ci)
			}
			if res != nil {
				s.top().regs[res] = r
			}
			if e.h.Result != nil {
				e.h.Result(e, s, ci, r)
			}
			return true
		}
	}
	if len(outs) == 1 {
		if !apply(outs[0])(s) {
			s.dead = true
		}
		return
	}
	var alts []func(*State) bool
	for _, o := range outs {
		alts = append(alts, apply(o))
	}
	e.fork(s, alts...)
}

// freshResult is an unknown result that remembers what produced it.
func (e *Engine) freshResult(ci *CallInfo) *Term {
	if ci.sig == nil {
		return tNil
	}
	rs := ci.sig.Results()
	switch rs.Len() {
	case 0:
		return tNil
	case 1:
		return fresh("call:"+ci.name, rs.At(0).Type(), ci.args...)
	}
	as := make([]*Term, rs.Len())
	for i := range as {
		as[i] = fresh("call:"+ci.name+"#"+itoa(i), rs.At(i).Type(), ci.args...)
	}
	return mkOp("tuple", rs, as...)
}

// spread replaces a variadic argument by its elements, if they are known.
func (s *State) spread(ci *CallInfo) []*Term {
	if ci.sig == nil || !ci.sig.Variadic() || len(ci.args) == 0 {
		return ci.args
	}
	last := ci.args[len(ci.args)-1]
	head := append([]*Term(nil), ci.args[:len(ci.args)-1]...)
	if last.isNil() {
		return head
	}
	n, ok := mkLen(last).int64()
	if !ok || n > 16 || last.typ == nil {
		return ci.args
	}
	sl, isSl := last.typ.Underlying().(*types.Slice)
	if !isSl {
		return ci.args
	}
	for i := int64(0); i < n; i++ {
		head = append(head, s.load(indexAddr(last, mkInt(i), sl.Elem()), sl.Elem()))
	}
	return head
}

// sprintfCat is a format that only concatenates strings.
func sprintfCat(args []*Term, t types.Type) *Term {
	if len(args) == 0 {
		return nil
	}
	f, ok := args[0].str()
	if !ok {
		return nil
	}
	parts := strings.Split(f, "%s")
	if len(parts)-1 != len(args)-1 {
		return nil
	}
	var r *Term
	add := func(x *Term) {
		if r == nil {
			r = x
		} else {
			r = binop(token.ADD, r, x, t, t)
		}
	}
	for i, p := range parts {
		if strings.Contains(p, "%") {
			return nil
		}
		if p != "" {
			add(mkStr(p))
		}
		if i < len(args)-1 {
			a := args[i+1]
			if !a.isOp("iface") || !isString(a.ref.(types.Type)) {
				return nil
			}
			if n := namedOf(a.ref.(types.Type)); n != nil {
				return nil
			}
			add(a.args[0])
		}
	}
	if r == nil {
		r = mkStr("")
	}
	return r
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func itoa(i int) string { return mkInt(int64(i)).String() }

// pureResult is the same for the same arguments.
func (e *Engine) pureResult(s *State, ci *CallInfo) *Term {
	rs := ci.sig.Results()
	args := s.spread(ci)
	if ci.name == "fmt.Sprintf" {
		if c := sprintfCat(args, rs.At(0).Type()); c != nil {
			return c
		}
	}
	mk := func(i int) *Term {
		return mkOpRef("call:"+ci.name, rs.At(i).Type(), nil, i, args...)
	}
	if rs.Len() == 1 {
		return mk(0)
	}
	as := make([]*Term, rs.Len())
	for i := range as {
		as[i] = mk(i)
	}
	return mkOp("tuple", rs, as...)
}

// external is a library call: its result is unknown, what its pointer
// arguments point to is changed, functions it is given become activities.
func (e *Engine) external(s *State, ci *CallInfo) []Outcome {
	name := ci.name
	if !isReadOnly(name) {
		for i, a := range ci.args {
			e.escape(s, ci, i, a, 0)
		}
	} else {
		for _, a := range ci.args {
			e.findFuncs(s, ci, a, 0)
		}
	}
	var r *Term
	if n := ci.sig; n != nil && n.Results().Len() == 1 && isErrorType(n.Results().At(0).Type()) && decodes(name) {
		return []Outcome{{res: tNil, note: shortName(name) + " succeeds"},
			{res: mkIface(errType, fresh("error:"+name, nil, ci.args...), n.Results().At(0).Type()), note: shortName(name) + " fails"}}
	}
	if isPure(name) && ci.sig != nil && ci.sig.Results().Len() > 0 {
		r = e.pureResult(s, ci)
	} else {
		r = e.freshResult(ci)
	}
	outs := []Outcome{{res: r}}
	if e.h.Panics != nil && e.h.Panics(e, s, ci) {
		outs = append(outs, Outcome{panic: fresh("panic:"+name, nil), note: shortName(name) + " panics"})
	}
	return outs
}

// escape: a value is handed to code that isn't analysed.
func (e *Engine) escape(s *State, ci *CallInfo, i int, a *Term, d int) {
	if d > 4 || a == nil {
		return
	}
	if a.isOp("iface") {
		a = a.args[0]
	}
	if a.k == KFunc || a.isOp("closure") {
		e.spawn(s, e.calleeOf(a, nil), nil, "callback", ci.name, ci.site)
		return
	}
	switch {
	case a.isOp("struct"):
		for _, x := range a.args {
			e.escape(s, ci, i, x, d+1)
		}
	case a.isOp("append"):
		for _, x := range a.args {
			e.escape(s, ci, i, x, d+1)
		}
	case a.k == KObj, a.k == KGlobal, a.isOp("field"), a.isOp("index"), a.isOp("slice"):
		e.findFuncs(s, ci, a, d)
		// may be written to, unless it is an object of the repository handed
		// over for its methods
		pt := a
		if a.isOp("slice") {
			pt = a.args[0]
		}
		if pt.typ == nil {
			return
		}
		el := deref(pt.typ)
		if a.k == KObj && a.n != 0 {
			if _, isMap := a.typ.Underlying().(*types.Map); isMap {
				if !isReadOnly(ci.name) {
					s.havoc(a)
				}
				return
			}
			if _, isChan := a.typ.Underlying().(*types.Chan); isChan {
				s.markShared(a)
				return
			}
		}
		if n := namedOf(el); n != nil && e.p.isRepoPkg(n.Obj().Pkg()) && !decodes(ci.name) {
			return
		}
		s.havoc(pt)
		if rootOf(pt).k == KGlobal && !isReadOnly(ci.name) {
			e.markMutable(class(pt))
		}
	}
}

// findFuncs starts the functions reachable from an argument as callbacks.
func (e *Engine) findFuncs(s *State, ci *CallInfo, a *Term, d int) {
	if a.k == KSym || d > 4 {
		return
	}
	if a.isOp("iface") {
		a = a.args[0]
	}
	if a.k == KFunc || a.isOp("closure") {
		e.spawn(s, e.calleeOf(a, nil), nil, "callback", ci.name, ci.site)
		return
	}
	if a.isOp("struct") || a.isOp("append") {
		for _, x := range a.args {
			e.findFuncs(s, ci, x, d+1)
		}
		return
	}
	if isAddrLike(a) || a.isOp("slice") {
		base := a
		if a.isOp("slice") {
			base = a.args[0]
		}
		if base.typ != nil {
			if n := namedOf(base.typ); n != nil && e.p.isRepoPkg(n.Obj().Pkg()) {
				return // its methods are called, not its fields
			}
		}
		var cs []*Term
		for c := range s.heap {
			if c == base || isUnder(c, base) {
				cs = append(cs, c)
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, c := range cs {
			v := s.heap[c]
			if v != a {
				e.findFuncs(s, ci, v, d+1)
			}
		}
	}
}

// spawn registers an activity that runs concurrently.
func (e *Engine) spawn(s *State, c *Callee, args []*Term, kind, lib string, site ssa.Instruction) {
	if c.fn == nil {
		if c.obj != nil {
			for _, fn := range e.impls(c.obj) {
				rt := fn.Signature.Recv().Type()
				a2 := append([]*Term{mkOpRef("assertval", rt, rt, 0, args[0])}, args[1:]...)
				e.spawn(s, &Callee{fn: fn, sig: fn.Signature}, a2, kind, lib, site)
			}
		}
		return
	}
	if c.fn.Blocks == nil {
		return
	}
	r := &Root{name: kind + " " + shortName(c.fn.String()), fn: c.fn, kind: kind, lib: lib, site: site, parent: s.root, nonNil: map[*Term]bool{}, data: map[string]any{}}
	if s.root != nil {
		for k := range s.root.nonNil {
			r.nonNil[k] = true
		}
	}
	if lib != "" {
		r.name += " given to " + shortName(lib)
	}
	// the activity shares what it was given
	for _, t := range append(append([]*Term(nil), c.free...), args...) {
		s.reach(t, func(o *Term) bool {
			s.shared[o] = true
			s.snap[o] = true
			return true
		})
	}
	r.free = append(append(r.free, c.free...), args...)
	if kind == "callback" {
		for _, p := range c.fn.Params {
			a := fresh("param:"+p.Name(), p.Type())
			r.nonNil[a] = true
			args = append(args, a)
		}
	}
	if e.h.Spawn != nil {
		e.h.Spawn(e, s, r)
	}
	if e.h.NoRoots || r.data["skip"] != nil {
		return
	}
	n := e.newState()
	n.root = r
	n.trace = s.trace
	for k, v := range s.heap {
		if !e.mutable[class(k)] {
			n.heap[k] = v
		} else {
			n.epochs[k] = 1 // not what it was initially
			freshCount++
			n.epochs[k] = freshCount
		}
	}
	for k, v := range s.epochs {
		if v > n.epochs[k] {
			n.epochs[k] = v
		}
	}
	// cells that were never written have their zero value only if their class never changes
	for o := range s.snap {
		e.forget(n, o)
	}
	for k, v := range s.facts {
		if !e.mentionsMutable(k) {
			n.facts[k] = v
		}
	}
	for o := range s.shared {
		n.shared[o] = true
	}
	for o := range s.snap {
		n.snap[o] = true
	}
	if g, ok := r.data["ghost"].(map[string]*Term); ok {
		for k, v := range g {
			n.ghost[k] = v
		}
	}
	n.note("%s: started by %s", e.p.pos(site.Pos()), nameOf(s.root))
	r.args = args
	if e.h.KeepArgs && kind == "callback" {
		for i, a := range args {
			n.ghost["arg"+strconv.Itoa(i)] = a
		}
	}
	e.pushFrame(n, c, args, nil)
	r.init = n
	key := n.clone().canonical() + kind + lib
	if e.rootKey[key] {
		return
	}
	e.rootKey[key] = true
	e.pending = append(e.pending, r)
}

// forget drops what a state knows of the changing parts of an object.
func (e *Engine) forget(n *State, o *Term) {
	if o.typ == nil {
		return
	}
	var rec func(base *Term, st *types.Struct, d int)
	rec = func(base *Term, st *types.Struct, d int) {
		for i := 0; i < st.NumFields(); i++ {
			fa := fieldAddr(base, st, i)
			if e.mutable[class(fa)] {
				delete(n.heap, fa)
				freshCount++
				n.epochs[fa] = freshCount
			} else if sub, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && d < 3 {
				rec(fa, sub, d+1)
			}
		}
	}
	if e.mutable[class(o)] {
		freshCount++
		n.epochs[o] = freshCount
	}
	if _, ok := o.typ.Underlying().(*types.Pointer); !ok {
		return
	}
	if st := structType(o.typ); st != nil {
		rec(o, st, 0)
	}
}

func nameOf(r *Root) string {
	if r == nil {
		return "?"
	}
	return r.name
}

// mentionsMutable: a fact about memory that may have changed since.
func (e *Engine) mentionsMutable(t *Term) bool {
	return t.find(func(u *Term) bool {
		return u.isOp("init") && e.mutable[class(u.args[0])]
	}) != nil
}

func (e *Engine) builtinCall(s *State, ci *CallInfo, res ssa.Value) {
	set := func(t *Term) {
		if res != nil {
			s.top().regs[res] = t
		}
	}
	rt := func() types.Type {
		if res != nil {
			return res.Type()
		}
		return types.Typ[types.Int]
	}
	switch ci.callee.builtin.Name() {
	case "len":
		x := ci.args[0]
		set(mkLen(x))
	case "cap":
		set(mkOp("cap", types.Typ[types.Int], ci.args[0]))
	case "append":
		b := ci.args[0]
		if len(ci.args) == 1 {
			set(b)
			return
		}
		x := ci.args[1]
		if x.isOp("slice") {
			if n, ok := mkLen(x).int64(); ok && n <= 16 {
				as := []*Term{b}
				st, _ := x.typ.Underlying().(*types.Slice)
				if st != nil {
					for i := int64(0); i < n; i++ {
						as = append(as, s.load(indexAddr(x, mkInt(i), st.Elem()), st.Elem()))
					}
					if b.isOp("append") && len(b.args)+len(as) < 24 {
						set(mkOp("append", rt(), append(append([]*Term(nil), b.args...), as[1:]...)...))
						return
					}
					if len(as) == 1 {
						set(b)
						return
					}
					set(mkOp("append", rt(), as...))
					return
				}
			}
		}
		if x.isOp("append") && (x.args[0].isNil() || isZeroLen(x.args[0])) {
			set(mkOp("append", rt(), append([]*Term{b}, x.args[1:]...)...))
			return
		}
		if x.isNil() {
			set(b)
			return
		}
		set(mkOp("appendv", rt(), b, x))
	case "copy":
		d := ci.args[0]
		if e.h.Copy != nil {
			e.h.Copy(e, s, d, ci.args[1])
		}
		if d.isOp("slice") {
			s.havoc(d.args[0])
		}
		set(fresh("copy", types.Typ[types.Int]))
	case "delete":
		m, k := ci.args[0], ci.args[1]
		if e.h.Map != nil {
			e.h.Map(e, s, "delete", m, k, nil, ci.site)
		}
		if m.isNil() {
			return
		}
		if s.isShared(m) && (m.k != KObj || s.snap[m]) {
			e.markMutable(class(m))
		}
		s.mapForget(m, k)
		if mt, ok := ci.site.Common().Args[0].Type().Underlying().(*types.Map); ok {
			s.heap[mapCell(m, k, mt)] = tAbsent
		}
	case "clear":
		if e.h.Clear != nil {
			e.h.Clear(e, s, ci.args[0], ci.site)
		}
		s.havoc(ci.args[0])
	case "close":
		if e.h.Chan != nil {
			e.h.Chan(e, s, "close", ci.args[0], nil, ci.site)
		}
	case "panic":
		e.startPanic(s, ci.args[0], ci.site)
	case "recover":
		n := len(s.stack)
		f := s.top()
		r := tNil
		if f.deferred && n >= 2 && s.stack[n-2].panicking && !s.stack[n-2].recovered {
			g := s.stack[n-2]
			g.recovered = true
			r = g.panicVal
			if r.k == KSym {
				r = mkIface(types.Typ[types.String], r, rt())
			}
		}
		set(r)
	case "min", "max":
		op := ci.callee.builtin.Name()
		x := ci.args[0]
		for _, y := range ci.args[1:] {
			x = mkOp(op, rt(), x, y)
		}
		set(x)
	case "print", "println":
	case "ssa:wrapnilchk":
		set(ci.args[0])
	default:
		set(fresh("builtin."+ci.callee.builtin.Name(), rt()))
	}
}

func isZeroLen(t *Term) bool {
	n, ok := mkLen(t).int64()
	return ok && n == 0
}

// ---- library knowledge ----

var readOnlyPrefixes = []string{
	"fmt.", "log.", "github.com/sirupsen/logrus.", "errors.", "strings.", "strconv.", "path.", "path/filepath.",
	"time.", "encoding/json.Marshal", "gopkg.in/yaml.v3.Marshal", "slices.Contains", "slices.Index", "context.", "bytes.", "os/signal.",
	"github.com/AlekSi/pointer.", "github.com/google/uuid.", "sync.", "sync/atomic.", "net/http.",
	"github.com/pion/webrtc/v3.TrackRemote.", "github.com/pion/webrtc/v3.PeerConnection.", "github.com/pkg/errors.",
}

func isReadOnly(name string) bool {
	for _, p := range readOnlyPrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// decodes: library calls that fill a structure they are given a pointer to.
func decodes(name string) bool {
	n := strings.ToLower(name[strings.LastIndex(name, ".")+1:])
	return strings.Contains(n, "unmarshal") || strings.Contains(n, "decode") || strings.Contains(n, "load") || strings.Contains(n, "scan") || strings.Contains(n, "parse")
}

var pureNames = map[string]bool{
	"os.IsNotExist": true, "os.IsExist": true, "errors.Is": true,
	"encoding/json.Marshal": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Errorf": false,
	"slices.Contains": true, "time.Duration.Milliseconds": true, "time.Duration.Seconds": true, "time.Duration.Nanoseconds": true,
	"time.Duration.Microseconds": true, "time.Duration.Truncate": true, "time.Duration.Round": true,
	"time.Time.IsZero": true, "time.Time.Sub": true, "time.Time.Add": true, "time.Time.UTC": true, "time.Time.Unix": true, "time.Time.UnixMilli": true,
	"io/fs.FileMode.IsRegular": true, "github.com/AlekSi/pointer.ToString": true, "error.Error": true, "errors.New": false,
	"strconv.ParseUint": true, "strconv.ParseInt": true, "strconv.Itoa": true, "strconv.Atoi": true, "strconv.FormatInt": true,
	"github.com/pion/webrtc/v3.ICEConnectionState.String": true,
	"math.Round": true, "math.Floor": true, "math.Trunc": true,
}

func isPure(name string) bool {
	if v, ok := pureNames[name]; ok {
		return v
	}
	for _, p := range []string{"path.", "path/filepath.Ext", "path/filepath.Join", "path/filepath.Clean", "path/filepath.Base", "path/filepath.Dir", "strings."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	for _, p := range []string{"github.com/pion/webrtc/v3.TrackRemote.", "github.com/livekit/server-sdk-go/v2.RemoteTrackPublication.",
		"github.com/livekit/server-sdk-go/v2.TrackPublication.", "github.com/livekit/server-sdk-go/v2.trackPublicationBase.", "github.com/livekit/server-sdk-go/v2.RemoteParticipant.", "github.com/livekit/server-sdk-go/v2.baseParticipant."} {
		if strings.HasPrefix(name, p) {
			switch name[strings.LastIndex(name, ".")+1:] {
			case "Kind", "SSRC", "ID", "SID", "Codec", "PayloadType", "RID", "Identity", "Source", "StreamID":
				return true
			}
		}
	}
	return false
}

var _ = types.Typ
