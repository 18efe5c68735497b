package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which memory is accessed by which thread with which locks held. A function
// is summarised once, bottom-up: every access is described by the path from a
// parameter (or a global, or an object made in the function) to the memory, by
// the locks held, as paths too, and by the chain of goroutines and callbacks it
// is made in. A caller puts its own paths in place of the parameters'. Where
// the path starts at an object that was made there, the accesses to it are
// compared.

type rootKind byte

const (
	rParam  rootKind = 'p' // a parameter, or after those a free variable
	rAlloc  rootKind = 'a' // made by an instruction of the function
	rGlobal rootKind = 'g'
	rRet    rootKind = 'r' // made by the function and returned
	rFunc   rootKind = 'f' // a function, with what it was bound to
)

type lroot struct {
	k     rootKind
	i     int
	v     ssa.Value // alloc or global
	fn    *ssa.Function
	binds []*lpath
}

type lcomp struct {
	k byte       // '.' field, '[' element, '*' what a reference refers to
	v *types.Var // field
}

type lpath struct {
	root  *lroot
	comps []lcomp
	key   string
}

func byKey[V any](m map[*lpath]V) []*lpath {
	out := make([]*lpath, 0, len(m))
	for p := range m {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

const maxComps = 10

type lockMode byte // 'w' or 'r'

type held map[*lpath]lockMode

// lelem is one step into another thread.
type lelem struct {
	id     string
	site   ssa.Instruction
	multi  bool            // there may be several at a time
	before map[string]bool // threads that may have been started before, within this one
}

type lrec struct {
	kind    byte // 'r' 'w' access, 'c' call of a function value, 'l' acquire
	path    *lpath
	in      ssa.Instruction
	held    held            // locks held, relative to the function
	rel     map[*lpath]bool // locks of the caller that may be released before
	before  map[string]bool // threads that may have been started before, in this function
	chain   []*lelem
	own     ssa.Value // reached under the name of where this object is stored
	mode    lockMode
	fn      *ssa.Function   // where it is
	args    [][]*lpath      // of calls
	pos     ssa.Instruction // in the function at hand
	lost    bool            // a lock that's held could not be named
	started ssa.Instruction // the instruction of the function at hand that starts its thread
}

type lsum struct {
	fn      *ssa.Function
	recs    []*lrec
	results [][]*lpath
	stores  map[*lpath]map[*lpath]bool // what's stored where, in terms of what the caller knows
	acq     held                       // locks held at the end
	rel     map[*lpath]bool
	starts  map[string]bool
	signals []*lpath // what it says it's done with
	done    bool
}

type lockModel struct {
	p     *Prog
	fl    *flow
	paths map[string]*lpath
	roots map[string]*lroot
	sums  map[*ssa.Function]*lsum
	busy  map[*ssa.Function]bool
	again bool
	ids   map[any]int
	// results
	found map[*ssa.Function]*lfound
	count map[string]int
}

// lfound is what was found when a function was analysed.
type lfound struct {
	races   map[string]*lrace
	order   map[[2]string]*lorder
	trouble []*ltrouble
}

type lrace struct {
	key, what string
	a, b      *lrec
}

type lorder struct {
	a, b string
	rec  *lrec
}

type ltrouble struct {
	rule, key, msg string
}

func newLockModel(p *Prog) *lockModel {
	return &lockModel{p: p, fl: newFlow(p), paths: map[string]*lpath{}, roots: map[string]*lroot{}, sums: map[*ssa.Function]*lsum{}, busy: map[*ssa.Function]bool{}, ids: map[any]int{},
		found: map[*ssa.Function]*lfound{}, count: map[string]int{}}
}

func (m *lockModel) idOf(x any) int {
	if i, ok := m.ids[x]; ok {
		return i
	}
	m.ids[x] = len(m.ids) + 1
	return len(m.ids)
}

func (m *lockModel) root(r lroot) *lroot {
	k := fmt.Sprintf("%c%d", r.k, r.i)
	if r.v != nil {
		k += fmt.Sprintf("v%d", m.idOf(r.v))
	}
	if r.fn != nil {
		k += fmt.Sprintf("f%d", m.idOf(r.fn))
		for _, b := range r.binds {
			if b == nil {
				k += "(?)"
			} else {
				k += "(" + b.key + ")"
			}
		}
	}
	if o := m.roots[k]; o != nil {
		return o
	}
	n := r
	m.roots[k] = &n
	return &n
}

func (m *lockModel) path(r *lroot, cs []lcomp) *lpath {
	if len(cs) > maxComps {
		return nil
	}
	k := fmt.Sprintf("%d", m.idOf(r))
	for _, c := range cs {
		k += string(c.k)
		if c.v != nil {
			k += fmt.Sprintf("%d", m.idOf(c.v))
		}
	}
	if p := m.paths[k]; p != nil {
		return p
	}
	p := &lpath{r, append([]lcomp(nil), cs...), k}
	m.paths[k] = p
	return p
}

func (m *lockModel) ext(p *lpath, c ...lcomp) *lpath {
	if p == nil {
		return nil
	}
	return m.path(p.root, append(append([]lcomp(nil), p.comps...), c...))
}

func (p *lpath) hasPrefix(q *lpath) bool {
	if p == nil || q == nil || p.root != q.root || len(p.comps) < len(q.comps) {
		return false
	}
	for i, c := range q.comps {
		if p.comps[i] != c {
			return false
		}
	}
	return true
}

func (p *lpath) String() string {
	s := ""
	switch p.root.k {
	case rParam:
		s = fmt.Sprintf("P%d", p.root.i)
	case rRet:
		s = fmt.Sprintf("R%d", p.root.i)
	case rGlobal:
		s = p.root.v.Name()
	case rFunc:
		s = p.root.fn.Name()
	default:
		s = p.root.v.Name()
		if a, ok := p.root.v.(*ssa.Alloc); ok {
			s = a.Comment
		}
	}
	for _, c := range p.comps {
		switch c.k {
		case '.':
			s += "." + c.v.Name()
		case '[':
			s += "[]"
		default:
			s += "*"
		}
	}
	return s
}

// ---- paths of values ----

type lfunc struct {
	m      *lockModel
	fn     *ssa.Function
	cont   map[*lpath]map[*lpath]bool // contents: what was stored in references
	copies map[*lpath]map[*lpath]bool // structs copied from elsewhere
	memo   map[ssa.Value][]*lpath
	busy   map[ssa.Value]bool
	calls  map[ssa.CallInstruction]*lsum // resolved calls' effects
	grew   bool
	// lock states before each instruction
	must      map[ssa.Instruction]held
	may       map[ssa.Instruction]held
	rel       map[ssa.Instruction]map[*lpath]bool
	joins     map[string][]ssa.Instruction
	reachMemo map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func isRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func isStructLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func addPath(ps []*lpath, p *lpath) []*lpath {
	if p == nil || len(ps) > 12 {
		return ps
	}
	for _, q := range ps {
		if q == p {
			return ps
		}
	}
	return append(ps, p)
}

func addPaths(ps []*lpath, qs []*lpath) []*lpath {
	for _, q := range qs {
		ps = addPath(ps, q)
	}
	return ps
}

// norm replaces references to what was stored in this function by what they
// refer to.
func (f *lfunc) norm(ps []*lpath) []*lpath {
	var out []*lpath
	seen := map[*lpath]bool{}
	var rec func(p *lpath, d int)
	rec = func(p *lpath, d int) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		replaced := false
		if d < 12 {
			for i := 0; i <= len(p.comps); i++ {
				pre := f.m.path(p.root, p.comps[:i])
				rest := p.comps[i:]
				if len(rest) > 0 && rest[0].k == '*' {
					if vs := f.cont[pre]; len(vs) > 0 {
						for _, v := range byKey(vs) {
							if n := f.m.ext(v, rest[1:]...); n != nil && n != p {
								rec(n, d+1)
								if p.root.k == rAlloc {
									replaced = true
								}
							}
						}
					}
				}
				// a reference within a copied struct is that of the original
				if vs := f.copies[pre]; len(vs) > 0 && hasStar(rest) {
					for _, v := range byKey(vs) {
						if n := f.m.ext(v, rest...); n != nil && n != p {
							rec(n, d+1)
							if p.root.k == rAlloc {
								replaced = true
							}
						}
					}
				}
			}
		}
		if !replaced {
			out = addPath(out, p)
		}
	}
	for _, p := range ps {
		rec(p, 0)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

func hasStar(cs []lcomp) bool {
	for _, c := range cs {
		if c.k == '*' {
			return true
		}
	}
	return false
}

// of is the paths of what a reference refers to, or of where a struct's value
// was.
func (f *lfunc) of(v ssa.Value) []*lpath {
	if ps, ok := f.memo[v]; ok {
		return ps
	}
	if f.busy[v] {
		return nil
	}
	f.busy[v] = true
	ps := f.norm(f.raw(v))
	delete(f.busy, v)
	if len(f.busy) == 0 {
		f.memo[v] = ps
	}
	return ps
}

func (f *lfunc) extAll(ps []*lpath, c ...lcomp) []*lpath {
	var out []*lpath
	for _, p := range ps {
		out = addPath(out, f.m.ext(p, c...))
	}
	return out
}

func (f *lfunc) alloc(v ssa.Value, i int) *lpath {
	return f.m.path(f.m.root(lroot{k: rAlloc, v: v, i: i}), nil)
}

var (
	compStar = lcomp{k: '*'}
	compElem = lcomp{k: '['}
)

func (f *lfunc) funcRoots(fn *ssa.Function, binds []ssa.Value) []*lpath {
	// one for each combination of what it may be bound to
	combos := [][]*lpath{nil}
	for _, b := range binds {
		ps := f.of(b)
		if len(ps) == 0 {
			ps = []*lpath{nil}
		}
		var next [][]*lpath
		for _, c := range combos {
			for _, p := range ps {
				if len(next) < 4 {
					next = append(next, append(append([]*lpath(nil), c...), p))
				}
			}
		}
		combos = next
	}
	var out []*lpath
	for _, c := range combos {
		out = append(out, f.m.path(f.m.root(lroot{k: rFunc, fn: fn, binds: c}), nil))
	}
	return out
}

func (f *lfunc) raw(v ssa.Value) []*lpath {
	m := f.m
	one := func(p *lpath) []*lpath { return []*lpath{p} }
	switch v := v.(type) {
	case *ssa.Parameter:
		return one(m.path(m.root(lroot{k: rParam, i: paramIndex(f.fn, v)}), nil))
	case *ssa.FreeVar:
		for i, x := range f.fn.FreeVars {
			if x == v {
				return one(m.path(m.root(lroot{k: rParam, i: len(f.fn.Params) + i}), nil))
			}
		}
	case *ssa.Global:
		return one(m.path(m.root(lroot{k: rGlobal, v: v}), nil))
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return one(f.alloc(v, 0))
	case *ssa.Function:
		return f.funcRoots(v, nil)
	case *ssa.MakeClosure:
		return f.funcRoots(v.Fn.(*ssa.Function), v.Bindings)
	case *ssa.FieldAddr:
		return f.extAll(f.of(v.X), lcomp{'.', fieldVar(v.X.Type(), v.Field)})
	case *ssa.Field:
		ps := f.extAll(f.of(v.X), lcomp{'.', fieldVar(v.X.Type(), v.Field)})
		if isRef(v.Type()) {
			ps = f.extAll(ps, compStar)
		}
		return ps
	case *ssa.IndexAddr:
		return f.extAll(f.of(v.X), compElem)
	case *ssa.Index:
		ps := f.extAll(f.of(v.X), compElem)
		if isRef(v.Type()) {
			ps = f.extAll(ps, compStar)
		}
		return ps
	case *ssa.Lookup:
		if isRef(v.Type()) || v.CommaOk {
			return f.extAll(f.of(v.X), compElem, compStar)
		}
		return f.extAll(f.of(v.X), compElem)
	case *ssa.Range:
		return f.of(v.X)
	case *ssa.Next:
		return f.extAll(f.of(v.Iter), compElem, compStar)
	case *ssa.Slice:
		return f.of(v.X)
	case *ssa.SliceToArrayPointer:
		return f.of(v.X)
	case *ssa.ChangeType:
		return f.of(v.X)
	case *ssa.ChangeInterface:
		return f.of(v.X)
	case *ssa.MakeInterface:
		return f.of(v.X)
	case *ssa.TypeAssert:
		return f.of(v.X)
	case *ssa.Convert:
		if isRef(v.Type()) && isRef(v.X.Type()) {
			return f.of(v.X)
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if isRef(v.Type()) {
				return f.extAll(f.of(v.X), compStar)
			}
			if isStructLike(v.Type()) {
				return f.of(v.X)
			}
		case token.ARROW:
			return f.extAll(f.of(v.X), compElem, compStar)
		}
	case *ssa.Phi:
		var out []*lpath
		for _, e := range v.Edges {
			out = addPaths(out, f.of(e))
		}
		return out
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			return f.result(t, v.Index)
		case *ssa.TypeAssert, *ssa.Lookup:
			if v.Index == 0 {
				return f.of(t)
			}
		case *ssa.Next:
			if v.Index == 2 {
				return f.of(t)
			}
		case *ssa.UnOp:
			if v.Index == 0 {
				return f.of(t)
			}
		case *ssa.Select:
			n := 0
			for _, st := range t.States {
				if st.Dir == types.RecvOnly {
					if v.Index == 2+n {
						return f.extAll(f.of(st.Chan), compElem, compStar)
					}
					n++
				}
			}
		}
	case *ssa.Call:
		return f.result(v, 0)
	}
	return nil
}

// result is what a call returns.
func (f *lfunc) result(c *ssa.Call, i int) []*lpath {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			var out []*lpath
			out = addPaths(out, f.of(cc.Args[0]))
			return addPath(out, f.alloc(c, 0))
		}
		return nil
	}
	n := calledName(cc)
	switch base := libBase(n); {
	case strings.HasPrefix(n, "sync.Map.") && (base == "Load" || base == "LoadOrStore" || base == "LoadAndDelete" || base == "Swap"):
		if i == 0 {
			return f.extAll(f.of(cc.Args[0]), compElem, compStar)
		}
		return nil
	case strings.HasPrefix(n, "sync/atomic.") && (base == "Load" || base == "Swap"):
		return f.extAll(f.of(cc.Args[0]), compElem, compStar)
	}
	s := f.calls[c]
	if s == nil {
		if isRef(resultType(c, i)) {
			return []*lpath{f.alloc(c, i)}
		}
		return nil
	}
	if i < len(s.results) {
		return s.results[i]
	}
	return nil
}

func resultType(c *ssa.Call, i int) types.Type {
	if t, ok := c.Type().(*types.Tuple); ok {
		if i < t.Len() {
			return t.At(i).Type()
		}
		return types.Typ[types.Invalid]
	}
	return c.Type()
}

// libBase is the method's name, without type arguments.
func libBase(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// ---- one function ----

type lcallee struct {
	fn   *ssa.Function
	args [][]*lpath // parameters and free variables
	site ssa.Instruction
	elem *lelem // started as a thread of its own
	defr bool
}

// lockOp: "Lock", "Unlock", "RLock", ... on a mutex.
func lockOp(cc *ssa.CallCommon) (string, ssa.Value) {
	if cc.IsInvoke() {
		if types.TypeString(cc.Value.Type(), nil) == "sync.Locker" {
			return cc.Method.Name(), cc.Value
		}
		return "", nil
	}
	g := cc.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || len(cc.Args) == 0 {
		return "", nil
	}
	n := fullName(g)
	if strings.HasPrefix(n, "sync.Mutex.") || strings.HasPrefix(n, "sync.RWMutex.") {
		switch g.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
			return g.Name(), cc.Args[0]
		}
	}
	return "", nil
}

func isSyncType(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func (m *lockModel) sum(fn *ssa.Function) *lsum {
	if s := m.sums[fn]; s != nil && s.done {
		return s
	}
	if m.busy[fn] {
		m.again = true
		if s := m.sums[fn]; s != nil {
			return s
		}
		return &lsum{fn: fn, stores: map[*lpath]map[*lpath]bool{}}
	}
	m.busy[fn] = true
	outer := m.again
	for i := 0; i < 4; i++ {
		m.again = false
		s := m.analyse(fn)
		old := m.sums[fn]
		m.sums[fn] = s
		if !m.again || old != nil && len(old.recs) == len(s.recs) && len(old.stores) == len(s.stores) {
			break
		}
	}
	m.again = outer
	delete(m.busy, fn)
	m.sums[fn].done = true
	return m.sums[fn]
}

func (m *lockModel) analyse(fn *ssa.Function) *lsum {
	f := &lfunc{m: m, fn: fn, cont: map[*lpath]map[*lpath]bool{}, copies: map[*lpath]map[*lpath]bool{}, memo: map[ssa.Value][]*lpath{}, busy: map[ssa.Value]bool{}, calls: map[ssa.CallInstruction]*lsum{},
		must: map[ssa.Instruction]held{}, may: map[ssa.Instruction]held{}, rel: map[ssa.Instruction]map[*lpath]bool{}, reachMemo: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	m.found[fn] = &lfound{races: map[string]*lrace{}, order: map[[2]string]*lorder{}}
	for i := 0; i < 8; i++ {
		f.grew = false
		f.memo = map[ssa.Value][]*lpath{}
		f.contents()
		if !f.grew {
			break
		}
	}
	f.memo = map[ssa.Value][]*lpath{}
	f.locks()
	recs := f.records()
	s := f.export(recs)
	s.signals = f.signals()
	f.compare(recs)
	return s
}

func (f *lfunc) put(mp map[*lpath]map[*lpath]bool, as, vs []*lpath) {
	for _, a := range as {
		for _, v := range vs {
			if a == nil || v == nil || v.hasPrefix(f.m.ext(a, compStar)) {
				continue
			}
			if mp[a] == nil {
				mp[a] = map[*lpath]bool{}
			}
			if !mp[a][v] && len(mp[a]) < 12 {
				mp[a][v] = true
				f.grew = true
			}
		}
	}
}

func (f *lfunc) each(do func(in ssa.Instruction)) {
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

// contents notes what is stored where.
func (f *lfunc) contents() {
	f.each(func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if isRef(in.Val.Type()) {
				f.put(f.cont, f.of(in.Addr), f.of(in.Val))
			} else if isStructLike(in.Val.Type()) {
				f.put(f.copies, f.of(in.Addr), f.of(in.Val))
			}
		case *ssa.MapUpdate:
			if isRef(in.Value.Type()) {
				f.put(f.cont, f.extAll(f.of(in.Map), compElem), f.of(in.Value))
			}
		case *ssa.Send:
			if isRef(in.X.Type()) {
				f.put(f.cont, f.extAll(f.of(in.Chan), compElem), f.of(in.X))
			}
		case *ssa.Select:
			for _, st := range in.States {
				if st.Send != nil && isRef(st.Send.Type()) {
					f.put(f.cont, f.extAll(f.of(st.Chan), compElem), f.of(st.Send))
				}
			}
		case ssa.CallInstruction:
			cc := in.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if c, isCall := in.(*ssa.Call); isCall && b.Name() == "append" && len(cc.Args) == 2 {
					f.put(f.cont, []*lpath{f.m.ext(f.alloc(c, 0), compElem)}, f.extAll(f.of(cc.Args[1]), compElem, compStar))
				}
				return
			}
			n := calledName(cc)
			base := libBase(n)
			if len(cc.Args) > 1 && (strings.HasPrefix(n, "sync.Map.") || strings.HasPrefix(n, "sync/atomic.")) {
				switch base {
				case "Store", "LoadOrStore", "Swap", "CompareAndSwap":
					v := cc.Args[len(cc.Args)-1]
					if isRef(v.Type()) {
						f.put(f.cont, f.extAll(f.of(cc.Args[0]), compElem), f.of(v))
					}
				}
			}
			var cs []*lcallee
			cs = f.callees(in)
			if len(cs) == 0 {
				return
			}
			eff := &lsum{stores: map[*lpath]map[*lpath]bool{}}
			seen := map[string]bool{}
			var apply func(c *lcallee, d int)
			apply = func(c *lcallee, d int) {
				k := fmt.Sprint(f.m.idOf(c.fn), c.args)
				if d > 6 || seen[k] {
					return
				}
				seen[k] = true
				s := f.m.sum(c.fn)
				for _, loc := range byKey(s.stores) {
					vs := s.stores[loc]
					for _, v := range byKey(vs) {
						for _, a := range f.translate(loc, c, in) {
							f.put(f.cont, []*lpath{a}, f.translate(v, c, in))
						}
					}
				}
				if c.elem == nil && d == 0 && !c.defr {
					for i, rs := range s.results {
						for len(eff.results) <= i {
							eff.results = append(eff.results, nil)
						}
						for _, r := range rs {
							eff.results[i] = addPaths(eff.results[i], f.translate(r, c, in))
						}
					}
				}
				for _, r := range s.recs {
					if r.kind != 'c' {
						continue
					}
					for _, p := range f.translate(r.path, c, in) {
						if p.root.k == rFunc && len(p.comps) == 0 {
							apply(f.pending(p, r, c, in), d+1)
						}
					}
				}
			}
			for _, c := range cs {
				apply(c, 0)
			}
			if old := f.calls[in]; old != nil {
				for i := range old.results {
					for len(eff.results) <= i {
						eff.results = append(eff.results, nil)
					}
					eff.results[i] = addPaths(eff.results[i], old.results[i])
				}
			}
			if old := f.calls[in]; old == nil || !sameResults(old.results, eff.results) {
				f.grew = true
			}
			f.calls[in] = eff
		}
	})
}

func sameResults(a, b [][]*lpath) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
	}
	return true
}

// pending is a call of a function value, made by a callee, of what's known
// here.
func (f *lfunc) pending(p *lpath, r *lrec, c *lcallee, in ssa.Instruction) *lcallee {
	n := &lcallee{fn: p.root.fn, site: in, elem: c.elem}
	for i := range n.fn.Params {
		var as []*lpath
		if i < len(r.args) {
			for _, a := range r.args[i] {
				as = addPaths(as, f.translate(a, c, in))
			}
		}
		n.args = append(n.args, as)
	}
	for _, b := range p.root.binds {
		if b == nil {
			n.args = append(n.args, nil)
		} else {
			n.args = append(n.args, []*lpath{b})
		}
	}
	return n
}

// translate puts a caller's paths in place of a callee's.
func (f *lfunc) translate(p *lpath, c *lcallee, in ssa.Instruction) []*lpath {
	switch p.root.k {
	case rParam:
		if p.root.i >= len(c.args) {
			return nil
		}
		return f.norm(f.extAll(c.args[p.root.i], p.comps...))
	case rRet:
		v, ok := in.(ssa.Value)
		if !ok {
			return nil
		}
		return f.norm([]*lpath{f.m.ext(f.m.path(f.m.root(lroot{k: rAlloc, v: v, i: p.root.i}), nil), p.comps...)})
	case rGlobal:
		return f.norm([]*lpath{p})
	case rFunc:
		combos := [][]*lpath{nil}
		for _, b := range p.root.binds {
			ts := []*lpath{nil}
			if b != nil {
				if x := f.translate(b, c, in); len(x) > 0 {
					ts = x
				}
			}
			var next [][]*lpath
			for _, x := range combos {
				for _, t := range ts {
					if len(next) < 4 {
						next = append(next, append(append([]*lpath(nil), x...), t))
					}
				}
			}
			combos = next
		}
		var out []*lpath
		for _, x := range combos {
			out = addPath(out, f.m.path(f.m.root(lroot{k: rFunc, fn: p.root.fn, binds: x}), p.comps))
		}
		return out
	}
	return nil
}

func runsNow(n string) bool {
	for _, p := range []string{"sort.", "slices.", "strings.", "bytes.", "maps.", "path/filepath.", "io/fs.", "iter."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return n == "sync.Map.Range" || n == "sync.Once.Do"
}

// callees are what a call runs: at once, or as threads of their own.
func (f *lfunc) callees(in ssa.CallInstruction) []*lcallee {
	m := f.m
	cc := in.Common()
	_, isGo := in.(*ssa.Go)
	_, isDefer := in.(*ssa.Defer)
	var out []*lcallee
	var args [][]*lpath
	if cc.IsInvoke() {
		args = append(args, f.of(cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, f.of(a))
	}
	add := func(fn *ssa.Function, args [][]*lpath, binds []*lpath) {
		c := &lcallee{fn: fn, site: in, defr: isDefer}
		for i := range fn.Params {
			if i < len(args) {
				c.args = append(c.args, args[i])
			} else {
				c.args = append(c.args, nil)
			}
		}
		for i := range fn.FreeVars {
			if i < len(binds) && binds[i] != nil {
				c.args = append(c.args, []*lpath{binds[i]})
			} else {
				c.args = append(c.args, nil)
			}
		}
		if isGo {
			c.elem = &lelem{id: fmt.Sprintf("go%d", m.idOf(in)), site: in, multi: false}
		}
		out = append(out, c)
	}
	if lk, _ := lockOp(cc); lk != "" {
		return nil
	}
	body := false
	switch {
	case cc.IsInvoke():
		for _, g := range m.p.implementers(cc) {
			if g.Blocks != nil {
				body = true
				add(g, args, nil)
			}
		}
	case cc.StaticCallee() != nil:
		g := cc.StaticCallee()
		if g.Blocks != nil {
			body = true
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				for _, p := range f.funcRoots(g, mc.Bindings) {
					add(g, args, p.root.binds)
				}
			} else {
				add(g, args, nil)
			}
		}
	default:
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil
		}
		body = true
		for _, p := range f.of(cc.Value) {
			if p.root.k == rFunc && len(p.comps) == 0 && p.root.fn.Blocks != nil {
				add(p.root.fn, args, p.root.binds)
			}
		}
	}
	if body {
		return out
	}
	// a library: what it's given may be called
	n := calledName(cc)
	now := runsNow(n)
	as := cc.Args
	for ai, a := range as {
		if !isRef(a.Type()) {
			continue
		}
		ps := f.of(a)
		for _, p := range f.funcsIn(ps) {
			if p.root.k != rFunc || p.root.fn.Blocks == nil {
				continue
			}
			c := &lcallee{fn: p.root.fn, site: in, defr: isDefer}
			for range p.root.fn.Params {
				c.args = append(c.args, nil)
			}
			if n == "sync.Map.Range" && len(c.args) == 2 {
				c.args[1] = f.extAll(f.of(as[0]), compElem, compStar)
			}
			for _, b := range p.root.binds {
				if b == nil {
					c.args = append(c.args, nil)
				} else {
					c.args = append(c.args, []*lpath{b})
				}
			}
			if !now || isGo {
				c.elem = &lelem{id: fmt.Sprintf("cb%d.%d", m.idOf(in), m.idOf(p.root.fn)), site: in, multi: true}
			}
			out = append(out, c)
		}
		// methods of ours by an interface of theirs
		it, ok := a.Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() == 0 || now {
			continue
		}
		switch types.TypeString(a.Type(), nil) {
		case "error", "fmt.Stringer", "context.Context":
			continue
		}
		for _, nm := range m.p.sortedNamed() {
			if types.IsInterface(nm) || nm.TypeParams().Len() > 0 {
				continue
			}
			if !types.Implements(nm, it) && !types.Implements(types.NewPointer(nm), it) {
				continue
			}
			if t := madeOf(a); t != nil && namedOf(deref(t)) != nm {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				g := m.p.method(nm, it.Method(i).Name())
				if g == nil || g.Blocks == nil {
					continue
				}
				c := &lcallee{fn: g, site: in, elem: &lelem{id: fmt.Sprintf("if%d.%d", m.idOf(in), ai), site: in}}
				c.args = append(c.args, ps)
				for range g.Params[1:] {
					c.args = append(c.args, nil)
				}
				out = append(out, c)
			}
		}
	}
	return out
}

// madeOf is the type of what an interface holds, if it's plain.
func madeOf(v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return nil
		}
	}
}

func (p *Prog) sortedNamed() []*types.Named {
	var out []*types.Named
	for _, n := range p.named {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// funcsIn are the functions that can be got at from references.
func (f *lfunc) funcsIn(ps []*lpath) []*lpath {
	seen := map[*lpath]bool{}
	var out []*lpath
	var rec func(p *lpath, d int)
	rec = func(p *lpath, d int) {
		if p == nil || seen[p] || d > 6 {
			return
		}
		seen[p] = true
		if p.root.k == rFunc {
			out = append(out, p)
			return
		}
		if p.root.k != rAlloc {
			return // what the caller has isn't given away as a callback
		}
		for _, mp := range []map[*lpath]map[*lpath]bool{f.cont, f.copies} {
			for _, a := range byKey(mp) {
				vs := mp[a]
				if a.hasPrefix(p) {
					for _, v := range byKey(vs) {
						rec(v, d+1)
					}
				}
			}
		}
	}
	for _, p := range ps {
		rec(p, 0)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// ---- locks ----

type lstate struct {
	must, may held
	rel       map[*lpath]bool
}

func (s *lstate) clone() *lstate {
	n := &lstate{held{}, held{}, map[*lpath]bool{}}
	for k, v := range s.must {
		n.must[k] = v
	}
	for k, v := range s.may {
		n.may[k] = v
	}
	for k := range s.rel {
		n.rel[k] = true
	}
	return n
}

func (s *lstate) merge(t *lstate) bool {
	ch := false
	for k, v := range s.must {
		w, ok := t.must[k]
		if !ok {
			delete(s.must, k)
			ch = true
		} else if w != v && v == 'w' {
			s.must[k] = 'r'
			ch = true
		}
	}
	for k, v := range t.may {
		if _, ok := s.may[k]; !ok {
			s.may[k] = v
			ch = true
		}
	}
	for k := range t.rel {
		if !s.rel[k] {
			s.rel[k] = true
			ch = true
		}
	}
	return ch
}

func (s *lstate) lock(ps []*lpath, mode lockMode) {
	if len(ps) == 1 {
		s.must[ps[0]] = mode
		delete(s.rel, ps[0])
	}
	for _, p := range ps {
		s.may[p] = mode
	}
}

func (s *lstate) unlock(ps []*lpath) {
	for _, p := range ps {
		if _, ok := s.must[p]; !ok {
			s.rel[p] = true
		}
		delete(s.must, p)
		delete(s.may, p)
	}
}

func modeOf(op string) lockMode {
	if op == "RLock" || op == "TryRLock" {
		return 'r'
	}
	return 'w'
}

func (f *lfunc) step(s *lstate, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Call:
		f.stepCall(s, in, in.Common())
	case *ssa.RunDefers:
		for _, d := range f.deferred() {
			f.stepCall(s, d, d.Common())
		}
	}
}

// deferred calls in the order they run, if all are reached.
func (f *lfunc) deferred() []*ssa.Defer {
	var out []*ssa.Defer
	f.each(func(in ssa.Instruction) {
		if d, ok := in.(*ssa.Defer); ok {
			out = append(out, d)
		}
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() > out[j].Pos() })
	return out
}

func (f *lfunc) stepCall(s *lstate, in ssa.CallInstruction, cc *ssa.CallCommon) {
	if op, v := lockOp(cc); op != "" {
		switch op {
		case "Lock", "RLock":
			s.lock(f.of(v), modeOf(op))
		case "Unlock", "RUnlock":
			s.unlock(f.of(v))
		}
		return
	}
	cs := f.callees(in)
	var acq held
	first := true
	for _, c := range cs {
		if c.elem != nil {
			continue
		}
		cs := f.m.sum(c.fn)
		for _, p := range byKey(cs.rel) {
			s.unlock(f.translate(p, c, in))
		}
		a := held{}
		for _, p := range byKey(cs.acq) {
			md := cs.acq[p]
			if ts := f.translate(p, c, in); len(ts) == 1 {
				a[ts[0]] = md
			}
		}
		if first {
			acq = a
		} else {
			for _, p := range byKey(acq) {
				if _, ok := a[p]; !ok {
					delete(acq, p)
				}
			}
		}
		first = false
	}
	for _, p := range byKey(acq) {
		s.lock([]*lpath{p}, acq[p])
	}
}

func (f *lfunc) locks() {
	if len(f.fn.Blocks) == 0 {
		return
	}
	in := map[*ssa.BasicBlock]*lstate{f.fn.Blocks[0]: {held{}, held{}, map[*lpath]bool{}}}
	work := []*ssa.BasicBlock{f.fn.Blocks[0]}
	for n := 0; len(work) > 0 && n < 10000; n++ {
		b := work[0]
		work = work[1:]
		s := in[b].clone()
		for _, x := range b.Instrs {
			f.step(s, x)
		}
		for i, t := range b.Succs {
			e := s.clone()
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				c, want := br.Cond, i == 0
				if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
					c, want = u.X, !want
				}
				if call, ok := c.(*ssa.Call); ok && want {
					if op, v := lockOp(call.Common()); op == "TryLock" || op == "TryRLock" {
						e.lock(f.of(v), modeOf(op))
					}
				}
			}
			if in[t] == nil {
				in[t] = e
				work = append(work, t)
			} else if in[t].merge(e) {
				work = append(work, t)
			}
		}
	}
	for b, s := range in {
		s := s.clone()
		for _, x := range b.Instrs {
			t := s.clone()
			f.must[x], f.may[x], f.rel[x] = t.must, t.may, t.rel
			f.step(s, x)
		}
	}
}

// ---- accesses ----

func (f *lfunc) blockReach(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if r, ok := f.reachMemo[b]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if r[x] {
			continue
		}
		r[x] = true
		work = append(work, x.Succs...)
	}
	f.reachMemo[b] = r
	return r
}

func idx(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// precedes: one instruction may run before another, without passing a third.
func (f *lfunc) precedes(a, b, avoid ssa.Instruction) bool {
	if a == nil || b == nil {
		return true
	}
	if a.Block() == b.Block() && idx(a) < idx(b) {
		if avoid == nil || avoid.Block() != a.Block() || idx(avoid) <= idx(a) || idx(avoid) > idx(b) {
			return true
		}
	}
	if avoid == nil {
		return f.blockReach(a.Block())[b.Block()]
	}
	if avoid.Block() == a.Block() && idx(avoid) > idx(a) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if avoid.Block() == x {
			if x == b.Block() && idx(b) < idx(avoid) {
				return true
			}
			continue
		}
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

func (f *lfunc) inLoop(in ssa.Instruction) bool { return f.blockReach(in.Block())[in.Block()] }

// notSafe: library objects that must not be used by two threads at a time.
func notSafe(n *types.Named) bool {
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	switch {
	case strings.HasSuffix(p, "/samplebuilder"), strings.HasPrefix(p, "github.com/pion/rtp"), strings.HasSuffix(p, "/ivfwriter"):
		return true
	case p == "bytes" || p == "strings" || p == "bufio" || p == "math/rand" || p == "encoding/json" || p == "container/list" || p == "container/heap" || p == "container/ring":
		return true
	}
	return false
}

func (f *lfunc) records() []*lrec {
	var out []*lrec
	runDefers := ssa.Instruction(nil)
	f.each(func(in ssa.Instruction) {
		if _, ok := in.(*ssa.RunDefers); ok {
			runDefers = in
		}
	})
	add := func(kind byte, in ssa.Instruction, ps []*lpath, at ssa.Instruction) {
		for _, p := range ps {
			if p.root.k == rFunc {
				continue
			}
			if a, ok := p.root.v.(*ssa.Alloc); ok && p.root.k == rAlloc && !a.Heap {
				continue
			}
			if k, _ := classOf(f.m.p, p); k == "" {
				continue
			}
			out = append(out, &lrec{kind: kind, path: p, in: in, held: f.must[at], rel: f.rel[at], fn: f.fn, pos: at})
		}
	}
	f.each(func(in ssa.Instruction) {
		if f.must[in] == nil {
			return // not reached
		}
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL && !isSyncType(in.Type()) {
				add('r', in, f.of(in.X), in)
			}
		case *ssa.Store:
			if !isSyncType(in.Val.Type()) {
				add('w', in, f.of(in.Addr), in)
			}
		case *ssa.MapUpdate:
			add('w', in, f.extAll(f.of(in.Map), compElem), in)
		case *ssa.Lookup:
			if _, ok := in.X.Type().Underlying().(*types.Map); ok {
				add('r', in, f.extAll(f.of(in.X), compElem), in)
			}
		case *ssa.Range:
			if _, ok := in.X.Type().Underlying().(*types.Map); ok {
				add('r', in, f.extAll(f.of(in.X), compElem), in)
			}
		case *ssa.Next:
			if !in.IsString {
				add('r', in, f.extAll(f.of(in.Iter), compElem), in)
			}
		case *ssa.Call:
			f.callRecs(in, in, add, &out)
		case *ssa.Go:
			f.callRecs(in, in, add, &out)
		case *ssa.Defer:
			if runDefers != nil {
				f.callRecs(in, runDefers, add, &out)
			}
		}
	})
	return out
}

// heldAtDefer: deferred calls run after the unlocks that were deferred later.
func (f *lfunc) heldAtDefer(d *ssa.Defer, at ssa.Instruction) held {
	h := held{}
	for k, v := range f.must[at] {
		h[k] = v
	}
	for _, x := range f.deferred() {
		if x == d {
			break
		}
		if op, v := lockOp(x.Common()); op == "Unlock" || op == "RUnlock" {
			for _, p := range f.of(v) {
				delete(h, p)
			}
			continue
		}
		for _, c := range f.callees(x) {
			if c.elem == nil {
				for _, p := range byKey(f.m.sum(c.fn).rel) {
					for _, q := range f.translate(p, c, x) {
						delete(h, q)
					}
				}
			}
		}
	}
	return h
}

func (f *lfunc) callRecs(in ssa.CallInstruction, at ssa.Instruction, add func(byte, ssa.Instruction, []*lpath, ssa.Instruction), out *[]*lrec) {
	cc := in.Common()
	h := f.must[at]
	d, isDefer := in.(*ssa.Defer)
	if isDefer {
		h = f.heldAtDefer(d, at)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear":
			add('w', in, f.extAll(f.of(cc.Args[0]), compElem), at)
		case "copy":
			add('w', in, f.extAll(f.of(cc.Args[0]), compElem), at)
			add('r', in, f.extAll(f.of(cc.Args[1]), compElem), at)
		case "len":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				add('r', in, f.extAll(f.of(cc.Args[0]), compElem), at)
			}
		}
		return
	}
	if op, v := lockOp(cc); op != "" {
		if op == "Lock" || op == "RLock" {
			for _, p := range f.of(v) {
				*out = append(*out, &lrec{kind: 'l', path: p, in: in, held: h, rel: f.rel[at], mode: modeOf(op), fn: f.fn, pos: at})
				if _, may := f.may[at][p]; may {
					if _, must := h[p]; !must && !isDefer {
						f.problem("again", f.m.lockName(p)+" in "+shortName(f.fn.String()), "%s in %s: %s is taken although it may be held already, on a path that did not release it", f.m.p.pos(in.Pos()), shortName(f.fn.String()), f.m.lockName(p))
					}
				}
			}
		}
		return
	}
	cs := f.callees(in)
	// a function value that isn't known here
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		for _, p := range f.of(cc.Value) {
			if p.root.k == rFunc {
				continue
			}
			r := &lrec{kind: 'c', path: p, in: in, held: h, rel: f.rel[at], fn: f.fn, pos: at}
			for _, a := range cc.Args {
				r.args = append(r.args, f.of(a))
			}
			if _, ok := in.(*ssa.Go); ok {
				r.chain = []*lelem{{id: fmt.Sprintf("go%d", f.m.idOf(in)), site: in, multi: f.inLoop(in)}}
				r.held, r.rel, r.started = nil, nil, in
			}
			*out = append(*out, r)
		}
	}
	lib := true
	for _, c := range cs {
		if c.elem == nil {
			lib = false
		}
	}
	if g := cc.StaticCallee(); g != nil && g.Blocks != nil || cc.IsInvoke() && len(f.m.p.implementers(cc)) > 0 || !cc.IsInvoke() && cc.StaticCallee() == nil {
		lib = false
	}
	if lib {
		n := calledName(cc)
		for i, a := range cc.Args {
			switch t := a.Type().Underlying().(type) {
			case *types.Pointer:
				if isSyncType(t) {
					continue
				}
				if strings.HasPrefix(n, "sync/atomic.") {
					add('a', in, f.of(a), at)
					continue
				}
				switch x := a.(type) {
				case *ssa.FieldAddr, *ssa.Global, *ssa.IndexAddr, *ssa.Alloc:
					_ = x
					add('w', in, f.of(a), at)
				default:
					if i == 0 && notSafe(namedOf(t)) && cc.StaticCallee() != nil && cc.StaticCallee().Signature.Recv() != nil {
						add('w', in, f.extAll(f.of(a), compElem), at)
					}
				}
			case *types.Map:
				add('r', in, f.extAll(f.of(a), compElem), at)
			case *types.Slice:
				add('r', in, f.extAll(f.of(a), compElem), at)
			case *types.Signature:
				// a function the caller gave, given on
				for _, p := range f.of(a) {
					if p.root.k == rParam && !runsNow(n) {
						*out = append(*out, &lrec{kind: 'c', path: p, in: in, fn: f.fn, pos: at, started: in, chain: []*lelem{{id: fmt.Sprintf("cb%d", f.m.idOf(in)), site: in, multi: true}}})
					} else if p.root.k == rParam {
						*out = append(*out, &lrec{kind: 'c', path: p, in: in, fn: f.fn, pos: at, held: h, rel: f.rel[at]})
					}
				}
			}
		}
	}
	for _, c := range cs {
		f.applyRecs(c, in, at, h, out)
	}
}

// applyRecs adds what a callee does.
func (f *lfunc) applyRecs(c *lcallee, in ssa.CallInstruction, at ssa.Instruction, h held, out *[]*lrec) {
	seen := map[string]bool{}
	var apply func(c *lcallee, h held, rel map[*lpath]bool, before map[string]bool, chain []*lelem, own ssa.Value, d int)
	apply = func(c *lcallee, h held, rel map[*lpath]bool, before map[string]bool, chain []*lelem, own ssa.Value, d int) {
		k := fmt.Sprint(f.m.idOf(c.fn), c.args, len(chain))
		for _, e := range chain {
			k += e.id
		}
		if d > 6 || seen[k] {
			return
		}
		seen[k] = true
		s := f.m.sum(c.fn)
		for _, r := range s.recs {
			f.translateRec(r, c, in, func(n *lrec) {
				n.fn = r.fn
				n.pos = at
				if len(r.chain) == 0 {
					// still in the caller's thread: its locks are held, too
					nh := held{}
					for p, md := range n.held {
						nh[p] = md
					}
					for p, md := range h {
						if !n.rel[p] {
							if nh[p] != 'w' {
								nh[p] = md
							}
						}
					}
					n.held = nh
					nr := map[*lpath]bool{}
					for p := range rel {
						nr[p] = true
					}
					for p := range n.rel {
						nr[p] = true
					}
					n.rel = nr
				}
				if len(chain) > 0 {
					last := *chain[len(chain)-1]
					last.before = union(last.before, n.before)
					n.chain = append(append(append([]*lelem(nil), chain[:len(chain)-1]...), &last), n.chain...)
					n.before = nil
				} else {
					n.before = union(before, n.before)
				}
				n.started = nil
				if len(n.chain) > 0 {
					n.started = in
				}
				if own != nil && n.own == nil {
					n.own = own
				}
				if n.kind == 'c' && n.path.root.k == rFunc && len(n.path.comps) == 0 {
					if n.path.root.fn.Blocks == nil {
						return
					}
					pc := &lcallee{fn: n.path.root.fn, site: in}
					for i := range pc.fn.Params {
						var as []*lpath
						if i < len(n.args) {
							as = n.args[i]
						}
						pc.args = append(pc.args, as)
					}
					for _, b := range n.path.root.binds {
						if b == nil {
							pc.args = append(pc.args, nil)
						} else {
							pc.args = append(pc.args, []*lpath{b})
						}
					}
					apply(pc, n.held, n.rel, n.before, n.chain, n.own, d+1)
					return
				}
				*out = append(*out, n)
			})
		}
	}
	if c.elem != nil {
		e := *c.elem
		apply(c, nil, nil, nil, []*lelem{&e}, nil, 0)
		return
	}
	apply(c, h, f.rel[at], nil, nil, nil, 0)
}

func union(a, b map[string]bool) map[string]bool {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	n := map[string]bool{}
	for k := range a {
		n[k] = true
	}
	for k := range b {
		n[k] = true
	}
	return n
}

// translateRec gives a record of a callee in the caller's terms, one for each
// path.
func (f *lfunc) translateRec(r *lrec, c *lcallee, in ssa.Instruction, do func(*lrec)) {
	base := []*lpath{nil}
	if r.path.root.k == rParam {
		if r.path.root.i >= len(c.args) {
			return
		}
		base = c.args[r.path.root.i]
	}
	for _, b := range base {
		// the same choice for all that starts at the same parameter
		tr := func(p *lpath) []*lpath {
			if b != nil && p.root == r.path.root {
				return f.norm([]*lpath{f.m.ext(b, p.comps...)})
			}
			return f.translate(p, c, in)
		}
		ps := tr(r.path)
		for _, p := range ps {
			n := &lrec{kind: r.kind, path: p, in: r.in, before: r.before, chain: r.chain, own: r.own, mode: r.mode, lost: r.lost}
			if len(r.held) > 0 {
				n.held = held{}
				for _, l := range byKey(r.held) {
					md := r.held[l]
					ls := tr(l)
					if len(ls) == 0 {
						n.lost = true
					}
					if len(ls) == 1 {
						n.held[ls[0]] = md
						continue
					}
					for _, x := range ls {
						if x.root == p.root {
							n.held[x] = md
						}
					}
				}
			}
			if len(r.rel) > 0 {
				n.rel = map[*lpath]bool{}
				for _, l := range byKey(r.rel) {
					for _, x := range tr(l) {
						n.rel[x] = true
					}
				}
			}
			for _, as := range r.args {
				var ts []*lpath
				for _, a := range as {
					ts = addPaths(ts, tr(a))
				}
				n.args = append(n.args, ts)
			}
			do(n)
		}
	}
}

// ---- what a caller gets to know ----

func exportable(p *lpath) bool {
	switch p.root.k {
	case rParam, rGlobal, rRet:
		return true
	case rFunc:
		for _, b := range p.root.binds {
			if b != nil && !exportable(b) {
				return false
			}
		}
		return true
	}
	return false
}

func (f *lfunc) export(recs []*lrec) *lsum {
	m := f.m
	s := &lsum{fn: f.fn, stores: map[*lpath]map[*lpath]bool{}, acq: nil, rel: map[*lpath]bool{}, starts: map[string]bool{}}
	// names of what's made here
	names := map[*lroot][]*lpath{}
	var rets []*ssa.Return
	f.each(func(in ssa.Instruction) {
		if r, ok := in.(*ssa.Return); ok && f.must[in] != nil {
			rets = append(rets, r)
			for i, x := range r.Results {
				if !isRef(x.Type()) {
					continue
				}
				for _, p := range f.of(x) {
					if p.root.k == rAlloc && len(p.comps) == 0 {
						names[p.root] = addPath(names[p.root], m.path(m.root(lroot{k: rRet, i: i}), nil))
					}
				}
			}
		}
	})
	order := byKey(f.cont)
	sub := func(p *lpath) []*lpath {
		if exportable(p) {
			return []*lpath{p}
		}
		if p.root.k == rAlloc {
			var out []*lpath
			for _, n := range names[p.root] {
				out = addPath(out, m.ext(n, p.comps...))
			}
			return out
		}
		return nil
	}
	for i := 0; i < 4; i++ {
		for _, a := range order {
			for _, v := range byKey(f.cont[a]) {
				if v.root.k == rAlloc && len(v.comps) == 0 {
					for _, n := range sub(a) {
						if len(names[v.root]) < 3 {
							names[v.root] = addPath(names[v.root], m.ext(n, compStar))
						}
					}
				}
			}
		}
	}
	expFn := func(p *lpath) []*lpath {
		if p.root.k != rFunc {
			return sub(p)
		}
		combos := [][]*lpath{nil}
		for _, b := range p.root.binds {
			ts := []*lpath{nil}
			if b != nil {
				if x := sub(b); len(x) > 0 {
					ts = x[:1]
				}
			}
			var next [][]*lpath
			for _, x := range combos {
				for _, t := range ts {
					next = append(next, append(append([]*lpath(nil), x...), t))
				}
			}
			combos = next
		}
		var out []*lpath
		for _, x := range combos {
			out = addPath(out, m.path(m.root(lroot{k: rFunc, fn: p.root.fn, binds: x}), p.comps))
		}
		return out
	}
	for _, mp := range []map[*lpath]map[*lpath]bool{f.cont} {
		for _, a := range byKey(mp) {
			vs := mp[a]
			for _, n := range sub(a) {
				for _, v := range byKey(vs) {
					for _, w := range expFn(v) {
						if w == m.ext(n, compStar) {
							continue
						}
						if s.stores[n] == nil {
							s.stores[n] = map[*lpath]bool{}
						}
						s.stores[n][w] = true
					}
				}
			}
		}
	}
	// copies of structs within what's returned: their references
	for _, a := range byKey(f.copies) {
		vs := f.copies[a]
		for _, n := range sub(a) {
			for _, v := range byKey(vs) {
				for _, b := range byKey(f.cont) {
					ws := f.cont[b]
					if b.hasPrefix(v) {
						for _, w := range byKey(ws) {
							for _, x := range expFn(w) {
								if q := m.ext(n, b.comps[len(v.comps):]...); q != nil {
									if s.stores[q] == nil {
										s.stores[q] = map[*lpath]bool{}
									}
									s.stores[q][x] = true
								}
							}
						}
					}
				}
			}
		}
	}
	// results
	for _, r := range rets {
		for i, x := range r.Results {
			for len(s.results) <= i {
				s.results = append(s.results, nil)
			}
			if !isRef(x.Type()) && !isStructLike(x.Type()) {
				continue
			}
			for _, p := range f.of(x) {
				s.results[i] = addPaths(s.results[i], expFn(p))
			}
		}
	}
	// locks at the end
	for i, r := range rets {
		must := f.must[r]
		if i == 0 {
			s.acq = held{}
			for _, p := range byKey(must) {
				md := must[p]
				for _, n := range sub(p) {
					s.acq[n] = md
				}
			}
		} else {
			for p := range s.acq {
				ok := false
				for q := range must {
					for _, n := range sub(q) {
						ok = ok || n == p
					}
				}
				if !ok {
					delete(s.acq, p)
				}
			}
		}
		for _, p := range byKey(f.rel[r]) {
			for _, n := range sub(p) {
				s.rel[n] = true
			}
		}
		for _, p := range byKey(f.may[r]) {
			if _, ok := must[p]; !ok {
				f.problem("leak", m.lockName(p)+" in "+shortName(f.fn.String()), "%s: %s may still be held when %s returns, depending on how it got there", m.p.pos(f.fn.Pos()), m.lockName(p), shortName(f.fn.String()))
			}
		}
	}
	if len(rets) > 1 {
		for _, r := range rets {
			for _, p := range byKey(f.must[r]) {
				for _, q := range rets {
					if _, ok := f.must[q][p]; !ok {
						f.problem("leak", m.lockName(p)+" in "+shortName(f.fn.String()), "%s: %s is still held when %s returns here, but not when it returns elsewhere", m.p.pos(instrPos(r)), m.lockName(p), shortName(f.fn.String()))
					}
				}
			}
		}
	}
	// what it does, and after which threads were started
	var starts []startAt
	for _, r := range recs {
		if len(r.chain) > 0 {
			starts = append(starts, startAt{r.chain[0].id, r.started, r})
			s.starts[r.chain[0].id] = true
		}
	}
	starts = uniqStarts(starts)
	seen := map[string]*lrec{}
	for _, r := range recs {
		if r.kind == 'c' && !exportable(r.path) && r.path.root.k != rAlloc {
			continue
		}
		outs := sub(r.path)
		named := r.path.root.k == rAlloc
		for _, p := range outs {
			if named && p.root.k == rRet && len(r.chain) == 0 && r.kind != 'l' && r.kind != 'c' {
				continue // made before anyone else has it
			}
			n := *r
			n.path = p
			if named && p.root.k != rRet && n.own == nil {
				n.own = r.path.root.v
				if len(r.chain) == 0 && !f.published(r) {
					continue
				}
			}
			n.held = held{}
			for _, l := range byKey(r.held) {
				md := r.held[l]
				ls := sub(l)
				if named && l.root == r.path.root {
					// the same name as the object's
					ls = nil
					for _, nm := range names[l.root] {
						if p.hasPrefix(nm) {
							ls = addPath(ls, m.ext(nm, l.comps...))
						}
					}
				}
				if len(ls) == 0 && len(names[l.root]) > 0 {
					n.lost = true
				}
				for _, x := range ls {
					n.held[x] = md
				}
			}
			n.rel = map[*lpath]bool{}
			for _, l := range byKey(r.rel) {
				for _, x := range sub(l) {
					n.rel[x] = true
				}
			}
			n.args = nil
			for _, as := range r.args {
				var ts []*lpath
				for _, a := range as {
					ts = addPaths(ts, expFn(a))
				}
				n.args = append(n.args, ts)
			}
			if len(r.chain) == 0 {
				for _, st := range starts {
					if f.precedes(st.at, r.pos, nil) && !f.joined(st.rec, r.pos) {
						n.before = union(n.before, map[string]bool{st.id: true})
					}
				}
			} else if f.inLoop(r.started) && !r.chain[0].multi {
				e := *r.chain[0]
				e.multi = true
				n.chain = append([]*lelem{&e}, r.chain[1:]...)
			}
			n.pos, n.started = nil, nil
			k := n.sig()
			if o := seen[k]; o != nil {
				o.before = union(o.before, n.before)
				continue
			}
			c := n
			seen[k] = &c
			s.recs = append(s.recs, &c)
		}
	}
	m.count["accesses and lock operations summarised"] += len(s.recs)
	return s
}

type startAt struct {
	id  string
	at  ssa.Instruction
	rec *lrec
}

func uniqStarts(ss []startAt) []startAt {
	seen := map[startAt]bool{}
	var out []startAt
	for _, s := range ss {
		k := s
		k.rec = nil
		if len(s.rec.chain) > 1 {
			k.rec = s.rec
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

// published: an access to an object may be made after it was stored where
// others find it.
func (f *lfunc) published(r *lrec) bool {
	root := r.path.root
	ok := false
	f.each(func(in ssa.Instruction) {
		if ok {
			return
		}
		var vals []ssa.Value
		switch in := in.(type) {
		case *ssa.Store:
			vals = append(vals, in.Val)
		case *ssa.MapUpdate:
			vals = append(vals, in.Value)
		case *ssa.Send:
			vals = append(vals, in.X)
		case ssa.CallInstruction:
			vals = append(vals, in.Common().Args...)
			if !in.Common().IsInvoke() {
				vals = append(vals, in.Common().Value)
			}
		default:
			return
		}
		for _, v := range vals {
			if !isRef(v.Type()) {
				continue
			}
			for _, p := range f.of(v) {
				if p.leadsTo(root) && in != r.pos && f.precedes(in, r.pos, nil) {
					ok = true
				}
			}
		}
	})
	return ok
}

// leadsTo: a reference is into an object, or a function bound to it.
func (p *lpath) leadsTo(root *lroot) bool {
	if p == nil {
		return false
	}
	if p.root == root {
		return true
	}
	if p.root.k == rFunc {
		for _, b := range p.root.binds {
			if b.leadsTo(root) {
				return true
			}
		}
	}
	return false
}

func (r *lrec) sig() string {
	var b strings.Builder
	b.WriteByte(r.kind)
	b.WriteString(r.path.key)
	var ks []string
	for p, md := range r.held {
		ks = append(ks, p.key+string(md))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	ks = nil
	for p := range r.rel {
		ks = append(ks, p.key)
	}
	sort.Strings(ks)
	b.WriteString("|" + strings.Join(ks, ","))
	for _, e := range r.chain {
		b.WriteString("/" + e.id)
		if e.multi {
			b.WriteByte('*')
		}
		ks = nil
		for k := range e.before {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("(" + strings.Join(ks, ",") + ")")
	}
	if r.own != nil {
		fmt.Fprintf(&b, "o%p", r.own)
	}
	if r.lost {
		b.WriteByte('?')
	}
	if r.kind == 'c' {
		for _, as := range r.args {
			b.WriteByte(';')
			for _, a := range as {
				b.WriteString(a.key + ",")
			}
		}
	}
	if r.kind == 'l' {
		b.WriteByte(byte(r.mode))
		fmt.Fprintf(&b, "%p", r.in)
	}
	return b.String()
}

// ---- comparing ----

func (f *lfunc) problem(rule, key, format string, a ...any) {
	o := f.m.found[f.fn]
	o.trouble = append(o.trouble, &ltrouble{rule, key, fmt.Sprintf(format, a...)})
}

// all is what was found in any function.
func (m *lockModel) all() *lfound {
	o := &lfound{races: map[string]*lrace{}, order: map[[2]string]*lorder{}}
	seen := map[string]bool{}
	var fns []*ssa.Function
	for fn := range m.found {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		x := m.found[fn]
		for k, v := range x.races {
			if o.races[k] == nil {
				o.races[k] = v
			}
		}
		for k, v := range x.order {
			if o.order[k] == nil {
				o.order[k] = v
			}
		}
		for _, t := range x.trouble {
			if k := t.rule + "|" + t.key; !seen[k] {
				seen[k] = true
				o.trouble = append(o.trouble, t)
			}
		}
	}
	return o
}

// classOf names what a path leads to: a field of a type of the repository, or
// one of its variables.
func classOf(p *Prog, q *lpath) (string, types.Type) {
	for i := len(q.comps) - 1; i >= 0; i-- {
		c := q.comps[i]
		if c.k != '.' {
			continue
		}
		if !p.isRepoPkg(c.v.Pkg()) {
			return "", nil
		}
		s := c.v.Name()
		if t := p.ownerOf(c.v); t != "" {
			s = t + "." + s
		}
		for _, d := range q.comps[i+1:] {
			if d.k == '[' {
				s += "[]"
			} else {
				s += "*"
			}
		}
		return s, c.v.Type()
	}
	s := ""
	switch q.root.k {
	case rGlobal:
		g := q.root.v.(*ssa.Global)
		if g.Pkg == nil || !p.isRepoPkg(g.Pkg.Pkg) {
			return "", nil
		}
		s = g.Pkg.Pkg.Name() + "." + g.Name()
	case rAlloc:
		s = "variable of " + shortName(q.root.v.Parent().String())
		if a, ok := q.root.v.(*ssa.Alloc); ok && a.Comment != "" {
			s = a.Comment + " of " + shortName(a.Parent().String())
		}
	case rParam, rRet:
		s = "parameter" // filtered later, when it's known what it is
	default:
		return "", nil
	}
	for _, d := range q.comps {
		if d.k == '[' {
			s += "[]"
		} else {
			s += "*"
		}
	}
	return s, nil
}

func (p *Prog) ownerOf(v *types.Var) string {
	for _, n := range p.sortedNamed() {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == v {
					return n.Obj().Name()
				}
			}
		}
	}
	return ""
}

func (m *lockModel) lockName(p *lpath) string {
	s, _ := classOf(m.p, p)
	return strings.TrimSuffix(s, "*")
}

func starts(x *lrec) string {
	if len(x.chain) == 0 {
		return ""
	}
	return x.chain[0].id
}

// together: two accesses may be made at the same time. def makes the object
// they are made to.
func (f *lfunc) together(x, y *lrec, def ssa.Instruction) bool {
	if x.own != nil && x.own == y.own {
		return false // seen where it was made
	}
	cx, cy := x.chain, y.chain
	switch {
	case len(cx) == 0 && len(cy) == 0:
		return false
	case len(cx) == 0:
		if x.before[cy[0].id] {
			return true
		}
		if f.joined(y, x.pos) || x.path.root.k == rAlloc && !f.published(x) {
			return false
		}
		if x.path.root.k == rAlloc && !f.captured(y.started, x.path.root) && f.precedes(y.started, x.pos, nil) {
			return true // found where it was put
		}
		return f.precedes(y.started, x.pos, def) && !(y.started == x.pos && !f.precedes(x.pos, x.pos, def))
	case len(cy) == 0:
		return f.together(y, x, def)
	}
	if x.started != y.started && (f.joined(y, x.started) && !f.precedes(x.started, y.started, nil) || f.joined(x, y.started) && !f.precedes(y.started, x.started, nil)) {
		return false
	}
	if cx[0].id != cy[0].id || cx[0].multi || x.started != y.started {
		return true
	}
	if f.precedes(x.started, x.started, def) {
		return true
	}
	return concurrent(cx[0].before, cx[1:], cy[0].before, cy[1:])
}

// captured: what starts a thread gives it an object directly.
func (f *lfunc) captured(in ssa.Instruction, root *lroot) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return true
	}
	vals := append([]ssa.Value(nil), c.Common().Args...)
	if !c.Common().IsInvoke() {
		vals = append(vals, c.Common().Value)
	}
	for _, v := range vals {
		for _, p := range f.of(v) {
			if p.leadsTo(root) {
				return true
			}
		}
	}
	for _, c := range f.callees(c) {
		for _, as := range c.args {
			for _, p := range as {
				if p.leadsTo(root) {
					return true
				}
			}
		}
	}
	return false
}

// joined: the thread a record is of has ended before an instruction, because
// what it signals at its end is waited for in between.
func (f *lfunc) joined(y *lrec, at ssa.Instruction) bool {
	if len(y.chain) != 1 || y.started == nil {
		return false
	}
	if f.joins == nil {
		f.joins = map[string][]ssa.Instruction{}
		f.each(func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			for _, c := range f.callees(g) {
				if c.elem == nil {
					continue
				}
				for _, p := range f.m.sum(c.fn).signals {
					ps := f.translate(p, c, in)
					if len(ps) != 1 {
						continue
					}
					f.each(func(w ssa.Instruction) {
						var v ssa.Value
						switch w := w.(type) {
						case *ssa.UnOp:
							if w.Op == token.ARROW {
								v = w.X
							}
						case *ssa.Call:
							if calledName(w.Common()) == "sync.WaitGroup.Wait" {
								v = w.Common().Args[0]
							}
						}
						if v != nil {
							if vs := f.of(v); len(vs) == 1 && vs[0] == ps[0] {
								f.joins[c.elem.id] = append(f.joins[c.elem.id], w)
							}
						}
					})
				}
			}
		})
	}
	for _, w := range f.joins[y.chain[0].id] {
		if !f.precedes(y.started, at, w) {
			return true
		}
	}
	return false
}

// signals are the channels and wait groups a function says with that it's
// done, and does nothing after.
func (f *lfunc) signals() []*lpath {
	of := func(in ssa.Instruction) ssa.Value {
		switch in := in.(type) {
		case *ssa.Send:
			return in.Chan
		case ssa.CallInstruction:
			cc := in.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" {
				return cc.Args[0]
			}
			if calledName(cc) == "sync.WaitGroup.Done" {
				return cc.Args[0]
			}
		}
		return nil
	}
	var out []*lpath
	take := func(v ssa.Value) {
		if ps := f.of(v); len(ps) == 1 {
			out = append(out, ps[0])
		}
	}
	if len(f.fn.Blocks) == 0 {
		return nil
	}
	// the first deferred call, before anything can end it
	ds := f.deferred()
	if n := len(ds); n > 0 && ds[n-1].Block() == f.fn.Blocks[0] {
		if v := of(ds[n-1]); v != nil {
			take(v)
			return out
		}
	}
	if len(ds) > 0 {
		return nil
	}
	var last *lpath
	for _, b := range f.fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			continue
		}
		if len(b.Instrs) < 2 {
			return nil
		}
		v := of(b.Instrs[len(b.Instrs)-2])
		if v == nil {
			return nil
		}
		ps := f.of(v)
		if len(ps) != 1 || last != nil && last != ps[0] {
			return nil
		}
		last = ps[0]
	}
	if last != nil {
		out = append(out, last)
	}
	return out
}

func concurrent(bx map[string]bool, cx []*lelem, by map[string]bool, cy []*lelem) bool {
	switch {
	case len(cx) == 0 && len(cy) == 0:
		return false
	case len(cx) == 0:
		return bx[cy[0].id]
	case len(cy) == 0:
		return by[cx[0].id]
	}
	if cx[0].id != cy[0].id || cx[0].multi {
		return true
	}
	return concurrent(cx[0].before, cx[1:], cy[0].before, cy[1:])
}

func guarded(x, y *lrec) bool {
	for l, a := range x.held {
		b, ok := y.held[l]
		if !ok || a == 'r' && b == 'r' {
			continue
		}
		// of the same element
		last := -1
		for i, c := range l.comps {
			if c.k == '[' {
				last = i
			}
		}
		if last >= 0 {
			pre := &lpath{root: l.root, comps: l.comps[:last+1]}
			if !x.path.hasPrefix(pre) || !y.path.hasPrefix(pre) {
				continue
			}
		}
		return true
	}
	return false
}

func overlap(a, b *lpath) bool {
	if a == b {
		return true
	}
	if len(a.comps) > len(b.comps) {
		a, b = b, a
	}
	if len(a.comps) == len(b.comps) || !b.hasPrefix(a) {
		return false
	}
	for _, c := range b.comps[len(a.comps):] {
		if c.k != '.' {
			return false
		}
	}
	return true
}

func (f *lfunc) compare(recs []*lrec) {
	m := f.m
	entry := false
	for _, e := range m.p.entries() {
		entry = entry || e == f.fn
	}
	by := map[*lroot][]*lrec{}
	var roots []*lroot
	for _, r := range recs {
		switch {
		case r.kind == 'l':
			f.acquired(r)
		case r.kind == 'c':
			if entry {
				m.count["calls of function values that are not resolved"]++
			}
		case r.path.root.k == rAlloc, r.path.root.k == rGlobal && entry:
			if by[r.path.root] == nil {
				roots = append(roots, r.path.root)
			}
			by[r.path.root] = append(by[r.path.root], r)
		}
	}
	for _, root := range roots {
		rs := by[root]
		threads := false
		for _, r := range rs {
			threads = threads || len(r.chain) > 0
		}
		if !threads {
			continue
		}
		m.count["objects reached by several threads"]++
		var def ssa.Instruction
		if root.k == rAlloc {
			def, _ = root.v.(ssa.Instruction)
		}
		var ws []*lrec
		for _, r := range rs {
			if r.kind == 'w' || r.kind == 'a' {
				ws = append(ws, r)
			}
		}
		for _, w := range ws {
			for _, r := range rs {
				if w.lost || r.lost || w.kind == 'a' && r.kind == 'a' || !overlap(w.path, r.path) {
					continue
				}
				m.count["pairs of accesses to the same memory compared"]++
				if w == r && len(r.chain) == 0 {
					continue
				}
				if guarded(w, r) || !f.together(w, r, def) {
					continue
				}
				k, _ := classOf(m.p, w.path)
				if k == "" {
					continue
				}
				if len(r.path.comps) > len(w.path.comps) {
					k, _ = classOf(m.p, r.path)
				}
				if o := m.found[f.fn].races; o[k] == nil {
					o[k] = &lrace{k, w.path.String() + " " + r.path.String(), w, r}
				}
			}
		}
	}
}

// acquired notes in which order locks are taken.
func (f *lfunc) acquired(r *lrec) {
	m := f.m
	for _, h := range byKey(r.held) {
		md := r.held[h]
		if h == r.path {
			elem := false
			for _, c := range h.comps {
				elem = elem || c.k == '['
			}
			if !elem && !(md == 'r' && r.mode == 'r') {
				f.problem("again", m.lockName(h)+" in "+shortName(r.in.Parent().String()), "%s in %s: %s is taken by a goroutine that already holds it", m.p.pos(r.in.Pos()), shortName(r.in.Parent().String()), m.lockName(h))
			}
			continue
		}
		a, b := m.lockName(h), m.lockName(r.path)
		if a == "" || b == "" || strings.HasPrefix(a, "parameter") || strings.HasPrefix(b, "parameter") {
			continue
		}
		if o := m.found[f.fn].order; o[[2]string{a, b}] == nil {
			o[[2]string{a, b}] = &lorder{a, b, r}
		}
	}
}

func init() {
	checks["C23"] = checkRaces
	checks["C24"] = checkDeadlocks
}

func (m *lockModel) run() {
	for _, e := range m.p.entries() {
		m.sum(e)
	}
	// also what's not reached from there
	for _, fn := range m.p.Funcs {
		if fn.Blocks != nil {
			m.sum(fn)
		}
	}
}

func (m *lockModel) thread(r *lrec) string {
	if len(r.chain) == 0 {
		return "the goroutine that made it"
	}
	var ss []string
	for _, e := range r.chain {
		k := "goroutine"
		if strings.HasPrefix(e.id, "cb") {
			k = "callback"
		} else if strings.HasPrefix(e.id, "if") {
			k = "library thread"
		}
		ss = append(ss, k+" of "+m.p.pos(e.site.Pos()))
	}
	return strings.Join(ss, " > ")
}

func (m *lockModel) desc(r *lrec) string {
	verb := map[byte]string{'r': "read", 'w': "written", 'a': "changed atomically"}[r.kind]
	var ls []string
	for l := range r.held {
		ls = append(ls, m.lockName(l))
	}
	sort.Strings(ls)
	with := "without a lock"
	if len(ls) > 0 {
		with = "with " + strings.Join(ls, ", ")
	}
	return fmt.Sprintf("%s at %s in %s %s, in %s", verb, m.p.pos(instrPos(r.in)), shortName(r.in.Parent().String()), with, m.thread(r))
}

func checkRaces(c *Ctx) {
	m := newLockModel(c.p)
	m.run()
	for k, v := range m.count {
		c.count[k] += v
	}
	c.count["functions"] = len(m.sums)
	locks := map[string]bool{}
	for _, s := range m.sums {
		for _, r := range s.recs {
			if r.kind == 'l' {
				locks[m.lockName(r.path)] = true
			}
		}
	}
	c.explain = "every access to memory is followed, as a path from where the object was made, up to the function that made it, with the locks held and the goroutines and callbacks it happens in; accesses by different ones are compared there"
	c.assume = append(c.assume, "functions given to libraries are called back by other goroutines, except by sort, slices, strings, maps, filepath, sync.Map.Range and sync.Once",
		"library objects can be used by several goroutines, except for a list that can't (sample builders, buffers, packets)", "what a path through a container leads to is one object")
	c.need(len(m.p.entries()) > 0, "entries", "the program has no entry")
	c.need(m.count["objects reached by several threads"] > 0 && m.count["pairs of accesses to the same memory compared"] > 0, "threads", "nothing is reached by several threads")
	m.byContract(c)
	var ks []string
	found := m.all()
	for k := range found.races {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := found.races[k]
		if strings.HasPrefix(k, "parameter") {
			continue
		}
		c.fail("race", k, "%s is %s, and %s", k, m.desc(r.a), m.desc(r.b))
	}
}

// byContract compares what the exported methods of a type with a lock of its
// own do, if nothing calls them yet: whoever will may do so from any
// goroutine.
func (m *lockModel) byContract(c *Ctx) {
	for _, n := range m.p.sortedNamed() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || n.TypeParams().Len() > 0 {
			continue
		}
		own := map[*types.Var]bool{}
		for i := 0; i < st.NumFields(); i++ {
			if t := namedOf(deref(st.Field(i).Type())); t != nil && t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == "sync" && strings.HasSuffix(t.Obj().Name(), "Mutex") {
				own[st.Field(i)] = true
			}
		}
		if len(own) == 0 {
			continue
		}
		mine := func(r *lrec) bool {
			for l := range r.held {
				if l.root == r.path.root && len(l.comps) > 0 && own[l.comps[0].v] {
					return true
				}
			}
			return false
		}
		var recs []*lrec
		spare := map[*lrec]bool{}
		ms := types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			g := m.p.SSA.MethodValue(ms.At(i))
			if g == nil || !ms.At(i).Obj().Exported() || m.sums[g] == nil {
				continue
			}
			for _, r := range m.sums[g].recs {
				if strings.ContainsRune("rwa", rune(r.kind)) && len(r.chain) == 0 && !r.lost && r.path.root.k == rParam && r.path.root.i == 0 && len(r.path.comps) > 0 {
					recs = append(recs, r)
					if len(m.fl.callersOf(g)) == 0 && len(m.fl.refs[g]) == 0 {
						spare[r] = true
					}
				}
			}
		}
		n := 0
		for _, w := range recs {
			for _, r := range recs {
				if w.kind == 'r' || w.kind == 'a' && r.kind == 'a' || !overlap(w.path, r.path) || !mine(w) && !mine(r) || !spare[w] && !spare[r] {
					continue
				}
				n++
				if guarded(w, r) {
					continue
				}
				k, _ := classOf(m.p, w.path)
				c.fail("race", k, "%s is %s, and %s; the type's own lock is not held for both", k, m.desc(w), m.desc(r))
			}
		}
		c.count["pairs of accesses by methods of types with a lock compared"] += n
	}
}

func checkDeadlocks(c *Ctx) {
	m := newLockModel(c.p)
	m.run()
	c.explain = "every lock operation is followed, as a path from where the lock's object was made, through calls, callbacks and stored function values with the locks held at that time; the locks at each way out of a function are compared, and the order locks are taken in is a graph without cycles"
	found := m.all()
	n := 0
	for _, s := range m.sums {
		for _, r := range s.recs {
			if r.kind == 'l' {
				n++
			}
		}
	}
	c.count["functions"] = len(m.sums)
	c.count["lock operations, by function they are reached from"] = n
	c.count["orders of two locks"] = len(found.order)
	c.need(n > 0, "locks", "nothing takes a lock")
	for _, t := range found.trouble {
		c.fail(t.rule, t.key, "%s", t.msg)
	}
	// threads must not end with a lock
	for _, fn := range m.p.Funcs {
		if fn.Blocks == nil {
			continue
		}
		s := m.sums[fn]
		if s == nil || len(s.acq) == 0 {
			continue
		}
		if len(m.fl.callersOf(fn)) == 0 || len(m.fl.refs[fn]) > 0 || len(m.fl.closes[fn]) > 0 {
			for _, l := range byKey(s.acq) {
				c.fail("leak", m.lockName(l)+" in "+shortName(fn.String()), "%s: %s returns with %s held", m.p.pos(fn.Pos()), shortName(fn.String()), m.lockName(l))
			}
		}
	}
	next := map[string][]string{}
	for k, o := range found.order {
		if k[0] != k[1] {
			next[k[0]] = append(next[k[0]], k[1])
		}
		c.sample("%s is held when %s is taken (%s)", o.a, o.b, m.p.pos(o.rec.in.Pos()))
	}
	var reach func(a, b string, seen map[string]bool) bool
	reach = func(a, b string, seen map[string]bool) bool {
		if a == b {
			return true
		}
		if seen[a] {
			return false
		}
		seen[a] = true
		for _, x := range next[a] {
			if reach(x, b, seen) {
				return true
			}
		}
		return false
	}
	var keys [][2]string
	for k := range found.order {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i][0]+keys[i][1] < keys[j][0]+keys[j][1] })
	for _, k := range keys {
		if k[0] != k[1] && reach(k[1], k[0], map[string]bool{}) {
			o := found.order[k]
			c.fail("order", k[0]+" before "+k[1], "%s in %s: %s is taken with %s held, and elsewhere they are taken the other way round", m.p.pos(o.rec.in.Pos()), shortName(o.rec.in.Parent().String()), k[1], k[0])
		}
	}
}
