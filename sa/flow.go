package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where values come from (demand-driven, backwards, with call sites as
// contexts) and what is reachable when settings have given values.

type fctx struct {
	site ssa.CallInstruction // the call the function was entered by
	up   *fctx
}

type flow struct {
	p       *Prog
	sites   map[*ssa.Function][]ssa.CallInstruction // static calls, also go and defer
	refs    map[*ssa.Function][]ssa.Instruction     // other mentions: the function as a value
	closes  map[*ssa.Function][]*ssa.MakeClosure
	stores  map[*types.Var][]*ssa.Store // by field
	gstores map[*ssa.Global][]*ssa.Store
	ifaces  map[string][]ssa.CallInstruction // interface calls by method name
	setting map[*types.Var]string            // fields of the configuration: "section.name"
	cfgPkg  *types.Package
	fctxs   map[[2]any]*fctx
	lives   map[[2]any]map[*ssa.BasicBlock]bool
}

func newFlow(p *Prog) *flow {
	f := &flow{p: p, sites: map[*ssa.Function][]ssa.CallInstruction{}, refs: map[*ssa.Function][]ssa.Instruction{}, closes: map[*ssa.Function][]*ssa.MakeClosure{},
		stores: map[*types.Var][]*ssa.Store{}, gstores: map[*ssa.Global][]*ssa.Store{}, ifaces: map[string][]ssa.CallInstruction{}, setting: map[*types.Var]string{}, fctxs: map[[2]any]*fctx{}, lives: map[[2]any]map[*ssa.BasicBlock]bool{}}
	if pk := p.pkgOf("internal/config"); pk != nil {
		f.cfgPkg = pk.Pkg
	}
	f.settings()
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						f.ifaces[cc.Method.Name()] = append(f.ifaces[cc.Method.Name()], c)
					} else if g := cc.StaticCallee(); g != nil {
						f.sites[boundOf(p, g)] = append(f.sites[boundOf(p, g)], c)
						callee = cc.Value
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					f.closes[g] = append(f.closes[g], mc)
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == callee {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						g = boundOf(p, g)
						f.refs[g] = append(f.refs[g], in)
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					switch a := st.Addr.(type) {
					case *ssa.FieldAddr:
						v := fieldVar(a.X.Type(), a.Field)
						f.stores[v] = append(f.stores[v], st)
					case *ssa.Global:
						f.gstores[a] = append(f.gstores[a], st)
					}
				}
			}
		}
	}
	return f
}

func fieldVar(t types.Type, i int) *types.Var {
	return deref(t).Underlying().(*types.Struct).Field(i)
}

func normTag(s string) string {
	return strings.ToLower(strings.ReplaceAll(strings.ReplaceAll(s, "_", ""), "-", ""))
}

// settings names the fields of the configuration after their keys in the file.
func (f *flow) settings() {
	if f.cfgPkg == nil {
		return
	}
	key := func(st *types.Struct, i int) string {
		for _, t := range []string{"yaml", "mapstructure"} {
			if k := strings.Split(reflectTag(st.Tag(i), t), ",")[0]; k != "" {
				return normTag(k)
			}
		}
		return normTag(st.Field(i).Name())
	}
	var rec func(t types.Type, pre string)
	rec = func(t types.Type, pre string) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			k := pre + key(st, i)
			n := namedOf(st.Field(i).Type())
			if _, isSt := st.Field(i).Type().Underlying().(*types.Struct); isSt && n != nil && n.Obj().Pkg() == f.cfgPkg {
				rec(n, k+".")
				continue
			}
			f.setting[st.Field(i)] = k
		}
	}
	seen := map[*types.Named]bool{}
	if n := f.p.typ("internal/config", "Config"); n != nil {
		rec(n, "")
		seen[n] = true
	}
	// structs of their own: adapters
	for _, nm := range f.cfgPkg.Scope().Names() {
		tn, ok := f.cfgPkg.Scope().Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || seen[namedOf(tn.Type())] {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if _, done := f.setting[st.Field(i)]; !done {
				if n := namedOf(st.Field(i).Type()); n != nil && n.Obj().Pkg() == f.cfgPkg {
					if _, isSt := n.Underlying().(*types.Struct); isSt {
						continue
					}
				}
				f.setting[st.Field(i)] = normTag(nm) + "." + key(st, i)
			}
		}
	}
}

func (f *flow) enter(site ssa.CallInstruction, up *fctx) *fctx {
	k := [2]any{site, up}
	if c := f.fctxs[k]; c != nil {
		return c
	}
	c := &fctx{site, up}
	f.fctxs[k] = c
	return c
}

func (c *fctx) depth() int {
	n := 0
	for ; c != nil; c = c.up {
		n++
	}
	return n
}

// callersOf are the calls a function may be entered by, also through
// interfaces.
func (f *flow) callersOf(fn *ssa.Function) []ssa.CallInstruction {
	out := append([]ssa.CallInstruction(nil), f.sites[fn]...)
	if rc := fn.Signature.Recv(); rc != nil {
		for _, c := range f.ifaces[fn.Name()] {
			if it, ok := c.Common().Value.Type().Underlying().(*types.Interface); ok && types.Implements(rc.Type(), it) {
				out = append(out, c)
			}
		}
	}
	return out
}

// argOf is the value a call gives to parameter i of a function.
func argOf(c ssa.CallInstruction, i int) ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	}
	if i < len(cc.Args) {
		return cc.Args[i]
	}
	return nil
}

type visitKey struct {
	v ssa.Value
	c *fctx
}

// trace walks back from a value over everything it may come from. leaf is
// called for each value on the way and tells whether to go on behind it.
func (f *flow) trace(v ssa.Value, ctx *fctx, leaf func(v ssa.Value, ctx *fctx) bool) {
	seen := map[visitKey]bool{}
	f.walk(v, ctx, seen, leaf)
}

func (f *flow) walk(v ssa.Value, ctx *fctx, seen map[visitKey]bool, leaf func(ssa.Value, *fctx) bool) {
	if v == nil || seen[visitKey{v, ctx}] || len(seen) > 20000 {
		return
	}
	seen[visitKey{v, ctx}] = true
	if !leaf(v, ctx) {
		return
	}
	go_ := func(x ssa.Value) { f.walk(x, ctx, seen, leaf) }
	switch v := v.(type) {
	case *ssa.Phi:
		for i, x := range v.Edges {
			if f.edgeIn(v.Block().Preds[i], v.Block(), ctx) {
				go_(x)
			}
		}
	case *ssa.Convert:
		go_(v.X)
	case *ssa.MultiConvert:
		go_(v.X)
	case *ssa.ChangeType:
		go_(v.X)
	case *ssa.ChangeInterface:
		go_(v.X)
	case *ssa.MakeInterface:
		go_(v.X)
	case *ssa.TypeAssert:
		go_(v.X)
	case *ssa.SliceToArrayPointer:
		go_(v.X)
	case *ssa.Slice:
		go_(v.X)
		f.elements(v.X, ctx, seen, leaf)
	case *ssa.BinOp:
		go_(v.X)
		go_(v.Y)
	case *ssa.MakeSlice:
		go_(v.Len)
	case *ssa.Lookup:
		go_(v.X)
		f.elements(v.X, ctx, seen, leaf)
	case *ssa.Index:
		go_(v.X)
	case *ssa.Range:
		go_(v.X)
	case *ssa.Next:
		go_(v.Iter)
	case *ssa.MakeClosure:
		for _, x := range v.Bindings {
			go_(x)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if leaf(c, ctx) {
				f.results(c, v.Index, ctx, seen, leaf)
			}
			return
		}
		go_(v.Tuple)
	case *ssa.Call:
		f.results(v, -1, ctx, seen, leaf)
	case *ssa.Parameter:
		fn := v.Parent()
		i := paramIndex(fn, v)
		if ctx != nil {
			f.walk(argOf(ctx.site, i), ctx.up, seen, leaf)
			return
		}
		for _, c := range f.callersOf(fn) {
			f.walk(argOf(c, i), nil, seen, leaf)
		}
	case *ssa.FreeVar:
		fn := v.Parent()
		for i, fv := range fn.FreeVars {
			if fv == v {
				for _, mc := range f.closes[fn] {
					f.walk(mc.Bindings[i], nil, seen, leaf)
				}
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			go_(v.X)
			return
		}
		f.content(v.X, ctx, seen, leaf)
	case *ssa.Field:
		f.fieldOfValue(v.X, v.Field, ctx, seen, leaf)
	}
}

func paramIndex(fn *ssa.Function, p *ssa.Parameter) int {
	for i, q := range fn.Params {
		if q == p {
			return i
		}
	}
	return -1
}

// constIn is the constant a value is in a context, if it is one.
func (f *flow) constIn(v ssa.Value, ctx *fctx) constant.Value {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value
	case *ssa.Parameter:
		if ctx == nil {
			return nil
		}
		if a := argOf(ctx.site, paramIndex(v.Parent(), v)); a != nil {
			return f.constIn(a, ctx.up)
		}
	case *ssa.ChangeType:
		return f.constIn(v.X, ctx)
	case *ssa.UnOp:
		if v.Op == token.NOT {
			if x := f.constIn(v.X, ctx); x != nil {
				return constant.UnaryOp(token.NOT, x, 0)
			}
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			x, y := f.constIn(v.X, ctx), f.constIn(v.Y, ctx)
			if x != nil && y != nil && x.Kind() == y.Kind() {
				return constant.MakeBool(constant.Compare(x, v.Op, y))
			}
		}
	}
	return nil
}

// liveIn are the blocks of a function that can be reached when it's entered by
// a call.
func (f *flow) liveIn(fn *ssa.Function, ctx *fctx) map[*ssa.BasicBlock]bool {
	k := [2]any{fn, ctx}
	if m, ok := f.lives[k]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	f.lives[k] = m
	if fn.Recover != nil {
		m[fn.Recover] = true
	}
	var work []*ssa.BasicBlock
	add := func(b *ssa.BasicBlock) {
		if !m[b] {
			m[b] = true
			work = append(work, b)
		}
	}
	if len(fn.Blocks) > 0 {
		add(fn.Blocks[0])
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, t := range b.Succs {
			if f.edgeOpen(b, t, ctx) {
				add(t)
			}
		}
	}
	return m
}

func (f *flow) edgeOpen(p, b *ssa.BasicBlock, ctx *fctx) bool {
	if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		if k := f.constIn(i.Cond, ctx); k != nil && k.Kind() == constant.Bool {
			return constant.BoolVal(k) == (p.Succs[0] == b)
		}
	}
	return true
}

func (f *flow) edgeIn(p, b *ssa.BasicBlock, ctx *fctx) bool {
	if ctx != nil && ctx.site.Common().StaticCallee() != nil && boundOf(f.p, ctx.site.Common().StaticCallee()) != p.Parent() {
		return true // not this function's context
	}
	return f.liveIn(p.Parent(), ctx)[p] && f.edgeOpen(p, b, ctx)
}

// lineage walks back from a struct, or a pointer to one, to where it was made,
// also through copies of it.
func (f *flow) lineage(x ssa.Value, ctx *fctx, leaf func(ssa.Value, *fctx) bool) {
	seen := map[visitKey]bool{}
	var rec func(v ssa.Value, c *fctx)
	rec = func(v ssa.Value, c *fctx) {
		f.walk(v, c, seen, func(y ssa.Value, c *fctx) bool {
			if !leaf(y, c) {
				return false
			}
			if a, ok := y.(*ssa.Alloc); ok {
				f.storesTo(a, func(st *ssa.Store) {
					d := c
					if st.Parent() != a.Parent() {
						d = nil
					}
					rec(st.Val, d)
				})
				return false
			}
			return true
		})
	}
	rec(x, ctx)
}

// results walks into what a call returns.
func (f *flow) results(c *ssa.Call, idx int, ctx *fctx, seen map[visitKey]bool, leaf func(ssa.Value, *fctx) bool) {
	cc := c.Common()
	var fns []*ssa.Function
	if g := cc.StaticCallee(); g != nil {
		fns = append(fns, g)
	} else if cc.IsInvoke() {
		fns = f.p.implementers(cc)
	}
	body := false
	for _, g := range fns {
		if g.Blocks == nil {
			continue
		}
		body = true
		n := f.enter(c, ctx)
		if n.depth() > 6 || g.Synthetic != "" || cc.IsInvoke() {
			n = nil
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				r, ok := in.(*ssa.Return)
				if !ok || !f.liveIn(g, n)[b] {
					continue
				}
				for i, x := range r.Results {
					if idx < 0 || i == idx {
						f.walk(x, n, seen, leaf)
					}
				}
			}
		}
	}
	if body {
		return
	}
	// a library: its result is made from its arguments
	if cc.IsInvoke() {
		f.walk(cc.Value, ctx, seen, leaf)
	}
	for _, a := range cc.Args {
		f.walk(a, ctx, seen, leaf)
	}
}

// implementers are the repository's methods an interface call may reach.
func (p *Prog) implementers(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, n := range p.named {
		if types.IsInterface(n) {
			continue
		}
		if types.Implements(n, it) || types.Implements(types.NewPointer(n), it) {
			if m := p.method(n, cc.Method.Name()); m != nil {
				out = append(out, m)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// content walks into what an address holds.
func (f *flow) content(a ssa.Value, ctx *fctx, seen map[visitKey]bool, leaf func(ssa.Value, *fctx) bool) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		f.fieldAt(a.X, a.Field, ctx, seen, leaf)
	case *ssa.Alloc:
		f.allocContent(a, ctx, seen, leaf)
	case *ssa.Global:
		if !leaf(a, ctx) {
			return
		}
		for _, st := range f.gstores[a] {
			f.walk(st.Val, nil, seen, leaf)
		}
	case *ssa.IndexAddr:
		f.walk(a.X, ctx, seen, leaf)
		f.elements(a.X, ctx, seen, leaf)
	case *ssa.FreeVar, *ssa.Parameter, *ssa.Phi, *ssa.UnOp, *ssa.Call, *ssa.Extract:
		// a pointer: what it points to
		f.trace(a, ctx, func(v ssa.Value, c *fctx) bool {
			if seen[visitKey{v, c}] && v != a {
				return false
			}
			switch v := v.(type) {
			case *ssa.Alloc:
				f.allocContent(v, c, seen, leaf)
				return false
			case *ssa.FieldAddr:
				f.fieldAt(v.X, v.Field, c, seen, leaf)
				return false
			case *ssa.Global:
				f.content(v, c, seen, leaf)
				return false
			}
			return true
		})
	}
}

func (f *flow) allocContent(a *ssa.Alloc, ctx *fctx, seen map[visitKey]bool, leaf func(ssa.Value, *fctx) bool) {
	if seen[visitKey{a, ctx}] {
		return
	}
	seen[visitKey{a, ctx}] = true
	if !leaf(a, ctx) {
		return
	}
	f.storesTo(a, func(st *ssa.Store) {
		c := ctx
		if st.Parent() != a.Parent() {
			c = nil
		}
		f.walk(st.Val, c, seen, leaf)
	})
	// fields stored one by one
	f.directFieldStores(a, -1, func(st *ssa.Store) { f.walk(st.Val, ctx, seen, leaf) })
}

// storesTo are the stores to a local variable, also by its closures.
func (f *flow) storesTo(a ssa.Value, do func(*ssa.Store)) {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				do(r)
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a && i < len(fn.FreeVars) {
					f.storesTo(fn.FreeVars[i], do)
				}
			}
		}
	}
}

// directFieldStores are the stores to field i (or any) of a local variable.
func (f *flow) directFieldStores(a ssa.Value, i int, do func(*ssa.Store)) {
	for _, r := range *a.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.X != a || (i >= 0 && fa.Field != i) {
			continue
		}
		f.storesTo(fa, do)
		if i < 0 {
			f.directFieldStores(fa, -1, do)
		}
	}
}

// elements walks into what was stored in the elements of an array or slice,
// or in a map.
func (f *flow) elements(x ssa.Value, ctx *fctx, seen map[visitKey]bool, leaf func(ssa.Value, *fctx) bool) {
	if x.Referrers() == nil {
		return
	}
	for _, r := range *x.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if r.X == x {
				f.storesTo(r, func(st *ssa.Store) { f.walk(st.Val, ctx, seen, leaf) })
			}
		case *ssa.MapUpdate:
			if r.Map == x {
				f.walk(r.Value, ctx, seen, leaf)
			}
		case *ssa.Slice:
			if r.X == x {
				if !seen[visitKey{r, ctx}] {
					seen[visitKey{r, ctx}] = true
					f.elements(r, ctx, seen, leaf)
				}
			}
		}
	}
}

// fieldOfValue walks into a field of a struct value.
func (f *flow) fieldOfValue(x ssa.Value, i int, ctx *fctx, seen map[visitKey]bool, leaf func(ssa.Value, *fctx) bool) {
	f.field(x, x.Type(), i, ctx, seen, leaf)
}

func (f *flow) fieldAt(x ssa.Value, i int, ctx *fctx, seen map[visitKey]bool, leaf func(ssa.Value, *fctx) bool) {
	f.field(x, x.Type(), i, ctx, seen, leaf)
}

// field: the object is looked for; when it is known where it was made, only
// what is stored in it there, or through other pointers, counts.
func (f *flow) field(x ssa.Value, t types.Type, i int, ctx *fctx, seen map[visitKey]bool, leaf func(ssa.Value, *fctx) bool) {
	v := fieldVar(t, i)
	if _, ok := f.setting[v]; ok {
		// stops at settings: the caller sees them by settingOf
		if !leaf(&settingRead{v: v, base: x, ctx: ctx}, ctx) {
			return
		}
	}
	type site struct {
		a   *ssa.Alloc
		ctx *fctx
	}
	var made []site
	known := true
	f.lineage(x, ctx, func(y ssa.Value, c *fctx) bool {
		if !known {
			return false
		}
		switch y := y.(type) {
		case *ssa.Alloc:
			if types.Identical(deref(y.Type()), deref(t)) {
				made = append(made, site{y, c})
			}
		case *ssa.Parameter:
			if c == nil && len(f.callersOf(y.Parent())) == 0 {
				known = false
			}
		case *ssa.FreeVar:
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if _, ok := y.X.(*ssa.Alloc); !ok {
					if _, ok := y.X.(*ssa.FreeVar); !ok {
						known = false
						return false
					}
				}
			}
		case *ssa.Call:
			if g := y.Common().StaticCallee(); g == nil || g.Blocks == nil {
				known = false
			}
		case *ssa.Extract, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Convert:
		case *ssa.Const:
		default:
			known = false
		}
		return known
	})
	if known && len(made) > 0 {
		direct := map[*ssa.Store]bool{}
		for _, m := range made {
			f.directFieldStores(m.a, i, func(st *ssa.Store) {
				direct[st] = true
				f.walk(st.Val, m.ctx, seen, leaf)
			})
		}
		if len(direct) > 0 {
			for _, st := range f.stores[v] {
				if _, ok := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); !ok && !direct[st] {
					f.walk(st.Val, nil, seen, leaf)
				}
			}
			return
		}
	}
	for _, st := range f.stores[v] {
		f.walk(st.Val, nil, seen, leaf)
	}
}

// settingRead stands for the reading of a setting.
type settingRead struct {
	ssa.Value
	v    *types.Var
	base ssa.Value
	ctx  *fctx
}

func (r *settingRead) String() string { return r.v.Name() }

// origins of a value: settings, constants and calls of functions.
type origins struct {
	settings map[string]bool
	reads    []*settingRead
	consts   map[string]bool
	calls    map[string][]*ssa.Call
	types    map[string]bool // dynamic types
	globals  map[*ssa.Global]bool
	ctxOf    map[ssa.Value]*fctx
	arith    []*ssa.BinOp // that change a number
}

func (o *origins) list() string {
	var ss []string
	for s := range o.settings {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	if len(ss) == 0 {
		for s := range o.consts {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		if len(ss) == 0 {
			return "something else"
		}
		return "the constant " + strings.Join(ss, ", ")
	}
	return strings.Join(ss, ", ")
}

func (o *origins) only(names ...string) bool {
	if len(o.settings) != len(names) {
		return false
	}
	for _, n := range names {
		if !o.settings[n] {
			return false
		}
	}
	return true
}

func (f *flow) origins(v ssa.Value, ctx *fctx) *origins {
	o := &origins{map[string]bool{}, nil, map[string]bool{}, map[string][]*ssa.Call{}, map[string]bool{}, map[*ssa.Global]bool{}, map[ssa.Value]*fctx{}, nil}
	f.trace(v, ctx, func(v ssa.Value, c *fctx) bool {
		switch v := v.(type) {
		case *settingRead:
			o.settings[f.setting[v.v]] = true
			o.reads = append(o.reads, v)
			// what the program itself sets it to, apart from defaults
			for _, st := range f.stores[v.v] {
				if fn := st.Parent(); fn.Pkg == nil || fn.Pkg.Pkg != f.cfgPkg {
					o2 := f.origins(st.Val, nil)
					for k := range o2.settings {
						o.settings[k] = true
					}
					for k := range o2.consts {
						o.settings["the constant "+k] = true
					}
				}
			}
			return false
		case *ssa.Const:
			if v.Value != nil {
				o.consts[v.Value.ExactString()] = true
			} else {
				o.consts["nil"] = true
			}
		case *ssa.Call:
			n := calledName(v.Common())
			o.calls[n] = append(o.calls[n], v)
			o.ctxOf[v] = c
		case *ssa.Global:
			o.globals[v] = true
		case *ssa.BinOp:
			if f.p.isRepoPkg(pkgOf(v.Parent())) && changesNumber(v) {
				o.arith = append(o.arith, v)
			}
		case *ssa.MakeInterface:
			o.types[types.TypeString(v.X.Type(), nil)] = true
		}
		return true
	})
	return o
}

func pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return nil
	}
	return fn.Pkg.Pkg
}

// changesNumber: the result is another number than the operand that is
// not constant. Masks aren't looked at, nor is the unit of a duration.
func changesNumber(b *ssa.BinOp) bool {
	t, ok := b.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsNumeric == 0 {
		return false
	}
	units := []int64{1}
	if n := namedOf(b.Type()); n != nil && n.Obj().Name() == "Duration" {
		units = []int64{1, 1000, 1000000}
	}
	is := func(x ssa.Value, k int64) bool {
		c, ok := x.(*ssa.Const)
		return ok && c.Value != nil && constant.Compare(constant.ToInt(c.Value), token.EQL, constant.MakeInt64(k))
	}
	switch b.Op {
	case token.ADD:
		return !is(b.X, 0) && !is(b.Y, 0)
	case token.MUL:
		for _, u := range units {
			if is(b.X, u) || is(b.Y, u) {
				return false
			}
		}
		return true
	case token.SUB, token.SHL, token.SHR:
		return !is(b.Y, 0)
	case token.QUO:
		return !is(b.Y, 1)
	case token.REM:
		return true
	}
	return false
}

func calledName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}
	if g := cc.StaticCallee(); g != nil {
		return fullName(g)
	}
	return "?"
}

// contexts are the chains of calls a function is entered by, up to a depth.
func (f *flow) contexts(fn *ssa.Function, depth int) []*fctx {
	cs := f.callersOf(fn)
	if depth == 0 || len(cs) == 0 || len(f.refs[fn]) > 0 {
		return []*fctx{nil}
	}
	var out []*fctx
	for _, c := range cs {
		for _, u := range f.contexts(c.Parent(), depth-1) {
			out = append(out, f.enter(c, u))
		}
	}
	if len(out) > 64 {
		return []*fctx{nil}
	}
	return out
}

// ---- reachability with settings fixed ----

type special struct {
	f      *flow
	env    map[string]bool // settings that are known
	memo   map[ssa.Value]int
	busy   map[ssa.Value]bool
	blocks map[*ssa.Function]map[*ssa.BasicBlock]bool
	prog   map[*ssa.Function]map[*ssa.BasicBlock]bool // being worked out
	funcs  map[*ssa.Function]bool
}

// alwaysSet: a field is set wherever an object of its type is made.
func (f *flow) alwaysSet(t types.Type, i int) bool {
	n := namedOf(deref(t))
	if n == nil {
		return false
	}
	found, all := false, true
	for _, fn := range f.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || namedOf(deref(a.Type())) != n {
					continue
				}
				if _, isPtr := deref(a.Type()).(*types.Pointer); isPtr {
					continue
				}
				copied := false
				f.storesTo(a, func(st *ssa.Store) {
					if k, ok := st.Val.(*ssa.Const); !ok || k.Value != nil {
						copied = true
					}
				})
				if copied {
					continue
				}
				found = true
				set := false
				f.directFieldStores(a, i, func(st *ssa.Store) { set = set || st.Block() == a.Block() })
				all = all && set
			}
		}
	}
	return found && all
}

// live finds the blocks of a function that can be reached.
func (s *special) live(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if m, ok := s.blocks[fn]; ok {
		return m
	}
	if m, ok := s.prog[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	s.prog[fn] = m
	if len(fn.Blocks) > 0 {
		m[fn.Blocks[0]] = true
	}
	if fn.Recover != nil {
		m[fn.Recover] = true
	}
	// a branch may become undecided as more ways to it are found
	for more, stuck := true, false; more; {
		more = false
		open := false
		for _, b := range fn.Blocks {
			if !m[b] || len(b.Instrs) == 0 {
				continue
			}
			next := b.Succs
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				switch s.eval(i.Cond) {
				case 1:
					next = next[:1]
				case -1:
					next = next[1:]
				case 2:
					if !stuck {
						next = nil
						open = true
					}
				}
			}
			for _, t := range next {
				if !m[t] {
					m[t] = true
					more = true
				}
			}
		}
		if !more && open && !stuck {
			more, stuck = true, true
		}
	}
	delete(s.prog, fn)
	if len(s.prog) == 0 && len(s.busy) == 0 {
		s.blocks[fn] = m
	}
	return m
}

// eval: 1 true, -1 false, 0 unknown.
func (s *special) eval(v ssa.Value) int {
	if r, ok := s.memo[v]; ok {
		return r
	}
	if s.busy[v] {
		return 2 // nothing said yet
	}
	s.busy[v] = true
	r := s.evalRaw(v)
	delete(s.busy, v)
	if r == 2 {
		if len(s.busy) > 0 || len(s.prog) > 0 {
			return 2
		}
		r = 0
	}
	if len(s.busy) == 0 && len(s.prog) == 0 {
		s.memo[v] = r
	}
	return r
}

func join(a, b int) int {
	switch {
	case a == 2:
		return b
	case b == 2 || a == b:
		return a
	}
	return 0
}

func (s *special) evalRaw(v ssa.Value) int {
	f := s.f
	fixed := func(fv *types.Var) (int, bool) {
		if k, ok := f.setting[fv]; ok {
			if b, ok := s.env[k]; ok {
				if b {
					return 1, true
				}
				return -1, true
			}
			return 0, true
		}
		return 0, false
	}
	byField := func(x ssa.Value, t types.Type, i int) int {
		fv := fieldVar(t, i)
		if r, ok := fixed(fv); ok {
			return r
		}
		if len(f.stores[fv]) == 0 {
			return 0
		}
		r := 2
		for _, st := range f.stores[fv] {
			r = join(r, s.eval(st.Val))
		}
		if !f.alwaysSet(t, i) {
			r = join(r, -1)
		}
		return r
	}
	neg := func(r int) int {
		if r == 2 {
			return 2
		}
		return -r
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return 1
			}
			return -1
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.NOT:
			return neg(s.eval(v.X))
		case token.MUL:
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				return byField(a.X, a.X.Type(), a.Field)
			case *ssa.Alloc, *ssa.FreeVar:
				r := 2
				do := func(st *ssa.Store) { r = join(r, s.eval(st.Val)) }
				zero := func(al *ssa.Alloc) {
					set := false
					f.storesTo(al, func(st *ssa.Store) { set = set || st.Block() == al.Block() })
					if !set {
						r = join(r, -1)
					}
				}
				if al, ok := a.(*ssa.Alloc); ok {
					f.storesTo(al, do)
					zero(al)
				} else {
					fv := a.(*ssa.FreeVar)
					for i, x := range fv.Parent().FreeVars {
						if x == fv {
							for _, mc := range f.closes[fv.Parent()] {
								if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
									f.storesTo(al, do)
									zero(al)
								} else {
									return 0
								}
							}
						}
					}
				}
				return r
			case *ssa.Global:
				if len(f.gstores[a]) == 0 {
					return 0
				}
				r := 2
				for _, st := range f.gstores[a] {
					r = join(r, s.eval(st.Val))
				}
				// also its initial value
				return join(r, 0)
			}
		}
	case *ssa.Field:
		return byField(v.X, v.X.Type(), v.Field)
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				x, y := s.eval(v.X), s.eval(v.Y)
				if x == 2 || y == 2 {
					return 2
				}
				r := x * y
				if v.Op == token.NEQ {
					r = -r
				}
				return r
			}
		}
	case *ssa.Phi:
		lv := s.live(v.Parent())
		r := 2
		for i, x := range v.Edges {
			p := v.Block().Preds[i]
			if !s.edgeLive(p, v.Block(), lv) {
				continue
			}
			r = join(r, s.eval(x))
		}
		return r
	case *ssa.Parameter:
		cs := f.callersOf(v.Parent())
		if len(cs) == 0 || len(f.refs[v.Parent()]) > 0 {
			return 0
		}
		i := paramIndex(v.Parent(), v)
		r := 2
		for _, c := range cs {
			a := argOf(c, i)
			if a == nil {
				return 0
			}
			r = join(r, s.eval(a))
		}
		return r
	case *ssa.FreeVar:
		r := 2
		for i, x := range v.Parent().FreeVars {
			if x == v {
				for _, mc := range f.closes[v.Parent()] {
					r = join(r, s.eval(mc.Bindings[i]))
				}
			}
		}
		return r
	case *ssa.Call:
		g := v.Common().StaticCallee()
		if g == nil || g.Blocks == nil {
			return 0
		}
		r := 2
		lv := s.live(g)
		for b := range lv {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				r = join(r, s.eval(ret.Results[0]))
			}
		}
		return r
	}
	return 0
}

// edgeLive: control may go from one block to the next.
func (s *special) edgeLive(p, b *ssa.BasicBlock, lv map[*ssa.BasicBlock]bool) bool {
	if !lv[p] {
		return false
	}
	if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		switch s.eval(i.Cond) {
		case 1:
			return p.Succs[0] == b
		case -1:
			return p.Succs[1] == b
		case 2:
			return false
		}
	}
	return true
}

// reach finds everything that can be reached from where the program is entered
// when some settings are known.
func (f *flow) reach(env map[string]bool) *special {
	s := &special{f: f, env: env, memo: map[ssa.Value]int{}, busy: map[ssa.Value]bool{}, blocks: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, prog: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, funcs: map[*ssa.Function]bool{}}
	var work []*ssa.Function
	add := func(g *ssa.Function) {
		g = boundOf(f.p, g)
		if g == nil || g.Blocks == nil || s.funcs[g] {
			return
		}
		s.funcs[g] = true
		work = append(work, g)
	}
	for _, g := range f.p.entries() {
		add(g)
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		lv := s.live(fn)
		for _, b := range fn.Blocks {
			if !lv[b] {
				continue
			}
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range f.p.implementers(c.Common()) {
						add(g)
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if n := namedOf(mi.X.Type()); n != nil && f.p.isRepoPkg(n.Obj().Pkg()) {
						if it, ok := mi.Type().Underlying().(*types.Interface); ok {
							for i := 0; i < it.NumMethods(); i++ {
								add(f.p.method(n, it.Method(i).Name()))
							}
						}
					}
				}
				// a function value is of use where it's used, not where it's made
				if _, ok := in.(*ssa.MakeClosure); ok {
					for _, op := range in.Operands(nil)[1:] {
						s.mention(*op, add)
					}
					continue
				}
				if ph, ok := in.(*ssa.Phi); ok {
					for i, x := range ph.Edges {
						if s.edgeLive(b.Preds[i], b, lv) {
							s.mention(x, add)
						}
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					s.mention(*op, add)
				}
			}
		}
	}
	return s
}

func (s *special) mention(v ssa.Value, add func(*ssa.Function)) {
	switch x := v.(type) {
	case *ssa.Function:
		add(x)
	case *ssa.MakeClosure:
		add(x.Fn.(*ssa.Function))
	}
}

// has tells whether an instruction can be reached.
func (s *special) has(in ssa.Instruction) bool {
	fn := in.Parent()
	return s.funcs[fn] && s.live(fn)[in.Block()]
}
