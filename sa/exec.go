package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Root is an activity that is analysed on its own: an entry point, a
// goroutine, or a callback handed to a library.
type Root struct {
	name   string
	fn     *ssa.Function
	kind   string // "entry", "go", "callback"
	lib    string // the library function a callback was handed to
	site   ssa.Instruction
	parent *Root
	init   *State
	nonNil map[*Term]bool
	data   map[string]any
	args   []*Term
	free   []*Term // what a closure or goroutine was given
}

// Outcome is one of the ways a call can end.
type Outcome struct {
	res   *Term
	eff   func(s *State) bool // false: impossible
	panic *Term
	stop  bool // ends the process or the activity
	note  string
}

// CallInfo describes a call that is about to be made.
type CallInfo struct {
	site   ssa.CallInstruction
	callee *Callee
	name   string // canonical name of the function or interface method
	args   []*Term
	sig    *types.Signature
	mode   string // "call", "go", "defer"
}

func (ci *CallInfo) arg(i int) *Term {
	if i < len(ci.args) {
		return ci.args[i]
	}
	return tNil
}

type Callee struct {
	fn      *ssa.Function
	free    []*Term
	clo     *Term
	builtin *ssa.Builtin
	obj     *types.Func // interface method of an unknown dynamic type
	sig     *types.Signature
}

func (c *Callee) name() string {
	switch {
	case c.fn != nil:
		return fullName(c.fn)
	case c.builtin != nil:
		return "builtin." + c.builtin.Name()
	case c.obj != nil:
		return objName(c.obj)
	}
	return "?"
}

// Hooks are what a client of the engine observes and controls.
type Hooks struct {
	Inline   func(fn *ssa.Function) bool
	Call     func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool)
	Result   func(e *Engine, s *State, ci *CallInfo, res *Term)
	Enter    func(e *Engine, s *State, fn *ssa.Function, args []*Term)
	Return   func(e *Engine, s *State, fn *ssa.Function, res *Term, site ssa.Instruction)
	Store    func(e *Engine, s *State, addr, val *Term, in ssa.Instruction)
	Load     func(e *Engine, s *State, addr, val *Term, in ssa.Instruction)
	Deref    func(e *Engine, s *State, ptr *Term, in ssa.Instruction)
	Index    func(e *Engine, s *State, base, idx *Term, in ssa.Instruction, slice bool)
	Assert   func(e *Engine, s *State, x *Term, t types.Type, decided int, in ssa.Instruction)
	Asserted func(e *Engine, s *State, x *Term, t types.Type, in ssa.Instruction)
	Lock     func(e *Engine, s *State, m *Term, op string, in ssa.Instruction)
	Chan     func(e *Engine, s *State, op string, ch, val *Term, in ssa.Instruction)
	Select   func(e *Engine, s *State, chans []*Term, in *ssa.Select)
	Spawn    func(e *Engine, s *State, r *Root)
	Exit     func(e *Engine, s *State, kind string, res *Term)
	Branch   func(e *Engine, s *State, cond *Term, taken bool, in ssa.Instruction)
	Map      func(e *Engine, s *State, op string, m, k, v *Term, in ssa.Instruction)
	Copy     func(e *Engine, s *State, dst, src *Term)
	Clear    func(e *Engine, s *State, base *Term, in ssa.Instruction)
	NoRoots  bool                                         // do not analyse goroutines and callbacks
	Panics   func(e *Engine, s *State, ci *CallInfo) bool // may this library call panic?
	KeepFact func(f *Term) bool
	// Weak facts are forgotten where paths join.
	Weak func(f *Term) bool
	// Opaque memory isn't followed: every load gives an unknown value.
	Opaque   func(s *State, a *Term, t types.Type) bool
	Round    func() // a round of the exploration starts
	KeepArgs bool   // remember what is known of the arguments of callbacks to their end
}

type Violation struct {
	rule  string
	key   string
	msg   string
	where string
	trace []string
}

type Engine struct {
	locNames  map[string]int
	p         *Prog
	h         *Hooks
	work      []*State
	visited   map[string]struct{}
	perLoc    map[string]int
	pending   []*Root
	rootKey   map[string]bool
	roots     []*Root
	mutable   map[any]bool
	newMut    bool
	implCache map[*types.Func][]*ssa.Function

	initHeap map[*Term]*Term

	// statistics
	steps, states, merged, forks, widened int
	fns                                   map[*ssa.Function]bool
	callSites                             map[ssa.Instruction]bool
	truncated                             bool

	viol     []*Violation
	vkeys    map[string]bool
	maxSteps int
	locLimit int
	// true and false are told apart where a loop begins again
	splitBools  bool
	closedElems map[string]bool // of channels that are closed
	unroll      int             // rounds of a loop before its values are widened
	debug       bool
}

func NewEngine(p *Prog, h *Hooks) *Engine {
	return &Engine{p: p, h: h, visited: map[string]struct{}{}, perLoc: map[string]int{}, rootKey: map[string]bool{},
		mutable: map[any]bool{}, fns: map[*ssa.Function]bool{}, callSites: map[ssa.Instruction]bool{}, vkeys: map[string]bool{},
		implCache: map[*types.Func][]*ssa.Function{}, maxSteps: 40_000_000, locLimit: 600, debug: os.Getenv("SA_DEBUG") != ""}
}

// report records a violation once per key.
func (e *Engine) report(s *State, rule, key string, in ssa.Instruction, format string, a ...any) {
	if e.vkeys[rule+"|"+key] {
		return
	}
	e.vkeys[rule+"|"+key] = true
	v := &Violation{rule: rule, key: key, msg: fmt.Sprintf(format, a...)}
	if in != nil {
		v.where = e.p.pos(in.Pos())
		if v.where == "?" && in.Parent() != nil {
			v.where = e.p.pos(in.Parent().Pos())
		}
		if in.Parent() != nil {
			v.where += " in " + shortName(in.Parent().String())
		}
	}
	if s != nil {
		v.trace = s.steps()
		if s.root != nil {
			v.trace = append([]string{"activity: " + s.root.name}, v.trace...)
		}
	}
	e.viol = append(e.viol, v)
}

func (e *Engine) pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	return e.p.pos(in.Pos())
}

// class groups addresses for the question whether they change after being shared.
func class(a *Term) any {
	for a.k == KOp {
		switch a.op {
		case "field":
			return a.ref
		case "index", "mapcell", "slice":
			a = a.args[0]
			continue
		case "init":
			a = a.args[0]
			continue
		}
		break
	}
	if a.k == KObj || a.k == KGlobal {
		return a.ref
	}
	return a.op
}

// ---- exploration ----

// Explore analyses roots and everything they start, to a fixpoint.
func (e *Engine) Explore(roots []*Root) {
	for round := 0; round < 8; round++ {
		if e.h.Round != nil {
			e.h.Round()
		}
		e.newMut = false
		e.visited = map[string]struct{}{}
		e.perLoc = map[string]int{}
		e.rootKey = map[string]bool{}
		e.viol, e.vkeys = nil, map[string]bool{}
		e.pending = append([]*Root(nil), roots...)
		e.roots = nil
		for len(e.pending) > 0 {
			r := e.pending[0]
			e.pending = e.pending[1:]
			e.roots = append(e.roots, r)
			before := e.steps
			e.runRoot(r)
			if e.debug {
				fmt.Fprintf(os.Stderr, "round %d root %s: %d steps, %d states\n", round, r.name, e.steps-before, e.states)
			}
		}
		if !e.newMut {
			break
		}
	}
}

func (e *Engine) runRoot(r *Root) {
	s := r.init.clone()
	s.root = r
	e.work = append(e.work, s)
	for len(e.work) > 0 {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.run(s)
		if e.steps > e.maxSteps {
			e.truncated = true
			e.work = nil
			return
		}
	}
}

// newState is an empty state, with the package variables that never change.
func (e *Engine) newState() *State {
	s := &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, ghost: map[string]*Term{}, epochs: map[*Term]int{},
		shared: map[*Term]bool{}, snap: map[*Term]bool{}, locks: map[*Term]int{}}
	for k, v := range e.initHeap {
		s.heap[k] = v
	}
	for k := range e.initHeap {
		if r := rootOf(k); r.k == KObj {
			s.shared[r] = true
		}
	}
	return s
}

// NewRoot starts fn with unknown (or given) arguments.
func (e *Engine) NewRoot(name string, fn *ssa.Function, args []*Term, st *State) *Root {
	if st == nil {
		st = e.newState()
	}
	r := &Root{name: name, fn: fn, kind: "entry", init: st, nonNil: map[*Term]bool{}}
	st.root = r
	if args == nil {
		for _, p := range fn.Params {
			a := fresh("param:"+p.Name(), p.Type())
			args = append(args, a)
			if fn.Signature.Recv() != nil && len(args) == 1 {
				r.nonNil[a] = true
			}
		}
	}
	r.args = args
	e.pushFrame(st, &Callee{fn: fn}, args, nil)
	return r
}

func (e *Engine) pushFrame(s *State, c *Callee, args []*Term, res ssa.Value) *Frame {
	f := &Frame{fn: c.fn, block: c.fn.Blocks[0], regs: map[ssa.Value]*Term{}, call: res, depth: len(s.stack)}
	for i, p := range c.fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		} else {
			f.regs[p] = fresh("param:"+p.Name(), p.Type())
		}
	}
	f.free = c.free
	s.stack = append(s.stack, f)
	e.fns[c.fn] = true
	if e.h.Enter != nil {
		e.h.Enter(e, s, c.fn, args)
	}
	return f
}

// debugging: which parts of the states at one place differ
var (
	dumpFn     = os.Getenv("SA_DUMP")
	dumps      = map[int][]string{}
	lastCanon  string
	dumpEngine *Engine
)

func (e *Engine) topLocs() {
	type kv struct {
		k string
		n int
	}
	var kvs []kv
	for k, n := range e.locNames {
		kvs = append(kvs, kv{k, n})
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].n > kvs[j].n })
	for i := 0; i < len(kvs) && i < 25; i++ {
		fmt.Println("LOC", kvs[i].n, kvs[i].k)
	}
}

func printDumps() {
	if len(dumps) == 0 {
		return
	}
	best := -1
	for b, l := range dumps {
		if best < 0 || len(l) > len(dumps[best]) {
			best = b
		}
	}
	cnt := map[string]int{}
	for _, l := range dumps[best] {
		for _, w := range strings.Fields(l) {
			cnt[w]++
		}
	}
	type kv struct {
		k string
		n int
	}
	var kvs []kv
	for k, n := range cnt {
		if n < len(dumps[best])*95/100 {
			kvs = append(kvs, kv{k, n})
		}
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].n > kvs[j].n })
	fmt.Println("block", best, len(dumps[best]), "states")
	for i, k := range kvs {
		if i < 70 {
			fmt.Println(k.n, k.k)
		}
	}
}

// seen does the merging of states at a program point.
func (e *Engine) seen(s *State) bool {
	if e.h.Weak != nil {
		for c := range s.facts {
			if e.h.Weak(c) {
				delete(s.facts, c)
			}
		}
	}
	k := s.canonical()
	if _, ok := e.visited[k]; ok {
		e.merged++
		return true
	}
	f := s.top()
	if dumpFn != "" && strings.HasSuffix(f.fn.String(), dumpFn) {
		dumps[f.block.Index] = append(dumps[f.block.Index], lastCanon)
	}
	loc := fmt.Sprintf("%p:%d:%d", f.fn, f.block.Index, f.idx)
	for _, g := range s.stack[:len(s.stack)-1] {
		loc += fmt.Sprintf("/%p:%d:%d", g.fn, g.block.Index, g.idx)
	}
	e.perLoc[loc]++
	if e.debug {
		dumpEngine = e
		if e.locNames == nil {
			e.locNames = map[string]int{}
		}
		n := shortName(f.fn.String()) + ":" + strconv.Itoa(f.block.Index) + " " + e.p.pos(firstPos(f.block))
		for i := len(s.stack) - 2; i >= 0; i-- {
			n += "/" + s.stack[i].fn.Name()
		}
		e.locNames[n]++
	}
	if e.perLoc[loc] > e.locLimit {
		// too many: forget the facts (keeps the client's state and memory)
		e.widened++
		for c := range s.facts {
			if e.h.KeepFact == nil || !e.h.KeepFact(c) {
				delete(s.facts, c)
			}
		}
		k2 := s.canonical()
		e.visited[k] = struct{}{}
		if _, ok := e.visited[k2]; ok {
			e.merged++
			return true
		}
		k = k2
		if e.perLoc[loc] > 60*e.locLimit {
			e.truncated = true
			if e.debug {
				fmt.Fprintf(os.Stderr, "truncated at %s %s\n", f.fn, e.p.pos(firstPos(f.block)))
			}
			return true
		}
	}
	e.visited[k] = struct{}{}
	e.states++
	return false
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

// jump moves to a successor block; false if the state was already explored.
func (e *Engine) jump(s *State, f *Frame, to *ssa.BasicBlock) bool {
	from := f.block
	var phis []*ssa.Phi
	var vals []*Term
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		if pi >= 0 {
			vals = append(vals, e.val(s, f, phi.Edges[pi]))
		} else {
			vals = append(vals, tNil)
		}
	}
	if e.splitBools && isLoopHeader(to) {
		// what a loop carries along as true or false is followed as that
		for i, phi := range phis {
			v := vals[i]
			if v == nil || v.isNil() || v.isConst() || !isBoolT(phi.Type()) {
				continue
			}
			one := func(b bool) func(*State) bool {
				return func(s *State) bool {
					if s.decide(v) == 0 && !s.assume(v, b) {
						return false
					}
					f := s.top()
					for r, x := range f.regs {
						if x == v {
							f.regs[r] = mkBool(b)
						}
					}
					for g, x := range s.ghost {
						if x == v {
							s.setG(g, mkBool(b))
						}
					}
					return e.jump(s, f, to)
				}
			}
			switch s.decide(v) {
			case 1:
				return one(true)(s)
			case -1:
				return one(false)(s)
			}
			e.fork(s, one(true), one(false))
			return !s.dead
		}
	}
	for i, phi := range phis {
		f.regs[phi] = vals[i]
	}
	f.prev, f.block, f.idx = from, to, len(phis)
	if len(to.Preds) > 1 {
		if isLoopHeader(to) {
			e.widen(s, f, from, phis)
		}
		return !e.seen(s)
	}
	return true
}

var headerCache = map[*ssa.BasicBlock]bool{}

func isLoopHeader(b *ssa.BasicBlock) bool {
	if r, ok := headerCache[b]; ok {
		return r
	}
	r := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			r = true
		}
	}
	headerCache[b] = r
	return r
}

// fewRounds tells whether a loop counts up to a small number.
func (e *Engine) fewRounds(s *State, f *Frame, to *ssa.BasicBlock) bool {
	br, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != to {
		return false
	}
	x := cmp.X
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD && add.Block() == to {
		x = add.X
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != to || !f.regs[phi].isConst() {
		return false
	}
	if y, ok := cmp.Y.(ssa.Instruction); ok && y.Block() == to {
		return false
	}
	n := e.val(s, f, cmp.Y)
	if !n.isConst() || n.c == nil || n.c.Kind() != constant.Int {
		return false
	}
	k, exact := constant.Int64Val(n.c)
	return exact && k <= 4
}

// widen makes the states at a loop header converge: numbers, strings and
// slices that change from one iteration to the next become unknown.
func (e *Engine) widen(s *State, f *Frame, from *ssa.BasicBlock, phis []*ssa.Phi) {
	if f.loops == nil {
		f.loops = map[*ssa.BasicBlock]*loopSnap{}
	}
	to := f.block
	old := f.loops[to]
	rounds := 0
	made := map[*Term]bool{}
	if old != nil && to.Dominates(from) {
		rounds = old.n + 1
		for t := range old.made {
			made[t] = true
		}
	}
	if rounds > 0 && (rounds <= e.unroll || e.fewRounds(s, f, to)) {
		// the first few times, constants are followed
	} else if old != nil && to.Dominates(from) {
		for _, phi := range phis {
			o, n := old.phis[phi], f.regs[phi]
			if o == nil || o == n || !widenable(n, phi.Type()) {
				continue
			}
			f.regs[phi] = s.widened(o, n, phi.Type(), old.made)
			made[f.regs[phi]] = true
			s.follow(n, f.regs[phi])
		}
		for a, n := range s.heap {
			o, ok := old.heap[a]
			if ok && o == n {
				continue
			}
			if !ok {
				continue
			}
			if a.typ != nil && widenable(n, deref(a.typ)) {
				s.heap[a] = s.widened(o, n, deref(a.typ), old.made)
				made[s.heap[a]] = true
				s.follow(n, s.heap[a])
			}
		}
		for k, n := range s.ghost {
			if o, ok := old.heap[mkStr("ghost:"+k)]; ok && o != n && n.isConst() && n.typ == types.Typ[types.Int] {
				_ = o
			}
		}
	} else if old != nil {
		// the loop is entered anew: earlier iterations don't matter
	}
	sn := &loopSnap{n: rounds, phis: map[*ssa.Phi]*Term{}, heap: make(map[*Term]*Term, len(s.heap)), made: made}
	for _, phi := range phis {
		sn.phis[phi] = f.regs[phi]
	}
	for a, v := range s.heap {
		sn.heap[a] = v
	}
	f.loops[to] = sn
}

// follow: the client's values (their names begin with "=") that lie at a fixed
// distance from a loop's value n keep that distance from what it becomes.
func (s *State) follow(n, w *Term) {
	if !isInteger(w.typ) {
		return
	}
	for k, v := range s.ghost {
		if !strings.HasPrefix(k, "=") || v == nil || v.isNil() {
			continue
		}
		if d := linOf(v).add(linOf(n), -1); len(d.c) == 0 && !n.isConst() {
			s.ghost[k] = binop(token.ADD, w, mkConst(constant.MakeInt64(d.k), w.typ), w.typ, w.typ)
		} else if n.isConst() && v.isConst() && d.k >= -3 && d.k <= 3 {
			s.ghost[k] = binop(token.ADD, w, mkConst(constant.MakeInt64(d.k), w.typ), w.typ, w.typ)
		}
	}
}

// made: the values that this loop's earlier rounds made unknown.
func (s *State) widened(o, n *Term, t types.Type, made map[*Term]bool) *Term {
	w := fresh("loop", t)
	if isInteger(t) {
		lo, _ := s.bounds(o)
		if lo > -inf {
			if l2, _ := s.bounds(n); l2 >= lo {
				s.assume(mkNot(mkLt(w, mkConst(constant.MakeInt64(lo), t))), true)
			}
		}
		// it only ever goes up (or down): it stays beyond where it came from
		if bo, ko := linear(o); bo != nil {
			if bn, kn := linear(n); bn == bo && kn != ko {
				up := kn > ko
				if !made[o] {
					if up {
						s.assume(mkLt(w, o), false)
					} else {
						s.assume(mkLt(o, w), false)
					}
				} else {
					for f, v := range s.facts {
						if !f.isOp("lt") || v {
							continue
						}
						if up && f.args[0] == o {
							defer s.assume(mkLt(w, f.args[1]), false)
						} else if !up && f.args[1] == o {
							defer s.assume(mkLt(f.args[0], w), false)
						}
					}
				}
			}
		}
		_, hi := s.bounds(o)
		if hi < inf {
			if _, h2 := s.bounds(n); h2 <= hi {
				s.assume(mkNot(mkLt(mkConst(constant.MakeInt64(hi), t), w)), true)
			}
		}
	}
	return w
}

func widenable(n *Term, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsNumeric|types.IsString) != 0 && n.k != KSym
	case *types.Slice:
		return n.k == KOp && n.op != "init"
	case *types.Struct:
		return n.depth > 5
	case *types.Interface:
		return n.depth > 8
	}
	return false
}

// run executes a state until it ends, merges or forks.
func (e *Engine) run(s *State) {
	for !s.dead {
		if len(s.stack) == 0 {
			return
		}
		f := s.top()
		if f.panicking {
			if !e.unwind(s) {
				return
			}
			continue
		}
		in := f.block.Instrs[f.idx]
		f.idx++
		e.steps++
		if e.steps > e.maxSteps {
			return
		}
		e.exec(s, f, in)
	}
}

// fork continues with each of the alternatives.
func (e *Engine) fork(s *State, alts ...func(s *State) bool) {
	e.forks++
	for i := len(alts) - 1; i >= 1; i-- {
		n := s.clone()
		if alts[i](n) && !n.dead {
			e.work = append(e.work, n)
		}
	}
	if !alts[0](s) {
		s.dead = true
	}
}

func (e *Engine) val(s *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Function:
		return intern(KFunc, "", v.Type(), v, 0, nil)
	case *ssa.Global:
		return intern(KGlobal, "", v.Type(), v, 0, nil)
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				if i < len(f.free) {
					return f.free[i]
				}
			}
		}
		t := fresh("freevar:"+v.Name(), v.Type())
		return t
	case *ssa.Builtin:
		return intern(KSym, "builtin."+v.Name(), v.Type(), nil, 0, nil)
	}
	if t, ok := f.regs[v]; ok {
		return t
	}
	t := fresh("undef:"+v.Name(), v.Type())
	f.regs[v] = t
	return t
}

func (e *Engine) exec(s *State, f *Frame, in ssa.Instruction) {
	set := func(v ssa.Value, t *Term) { f.regs[v] = t }
	val := func(v ssa.Value) *Term { return e.val(s, f, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := mkObj(in, in.Type())
		set(in, o)
	case *ssa.BinOp:
		x, y := val(in.X), val(in.Y)
		r := binop(in.Op, x, y, in.Type(), in.X.Type())
		if isBoolT(in.Type()) {
			switch s.decide(r) {
			case 1:
				r = tTrue
			case -1:
				r = tFalse
			}
		}
		set(in, r)
	case *ssa.UnOp:
		e.unop(s, f, in)
	case *ssa.ChangeType:
		set(in, val(in.X))
	case *ssa.ChangeInterface:
		set(in, val(in.X))
	case *ssa.Convert:
		set(in, s.convert(val(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, mkOpRef("conv", in.Type(), in.Type(), 0, val(in.X)))
	case *ssa.SliceToArrayPointer:
		set(in, val(in.X))
	case *ssa.MakeInterface:
		set(in, mkIface(in.X.Type(), val(in.X), in.Type()))
	case *ssa.MakeClosure:
		var as []*Term
		for _, b := range in.Bindings {
			as = append(as, val(b))
		}
		set(in, mkOpRef("closure", in.Type(), in.Fn.(*ssa.Function), 0, as...))
	case *ssa.MakeMap:
		set(in, mkObj(in, in.Type()))
	case *ssa.MakeChan:
		o := mkObj(in, in.Type())
		set(in, o)
		if e.h.Chan != nil {
			e.h.Chan(e, s, "make", o, val(in.Size), in)
		}
	case *ssa.MakeSlice:
		o := mkObj(in, types.NewPointer(in.Type().Underlying().(*types.Slice).Elem()))
		set(in, mkOp("slice", in.Type(), o, mkInt(0), val(in.Len)))
	case *ssa.Slice:
		e.sliceOp(s, f, in)
	case *ssa.FieldAddr:
		b := val(in.X)
		if e.derefCheck(s, b, in) {
			return
		}
		set(in, fieldAddr(b, structType(in.X.Type()), in.Field))
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		set(in, fieldOf(val(in.X), st, in.Field))
	case *ssa.IndexAddr:
		b, i := val(in.X), val(in.Index)
		if e.h.Index != nil {
			e.h.Index(e, s, b, i, in, false)
		}
		if b.isNil() {
			e.runtimePanic(s, "index out of range", in)
			return
		}
		set(in, indexAddr(b, i, deref(in.Type())))
	case *ssa.Index:
		b, i := val(in.X), val(in.Index)
		if e.h.Index != nil {
			e.h.Index(e, s, b, i, in, false)
		}
		if b.k == KZero {
			set(in, zeroOf(in.Type()))
		} else {
			set(in, mkOp("indexval", in.Type(), b, i))
		}
	case *ssa.Lookup:
		e.lookup(s, f, in)
	case *ssa.Extract:
		set(in, tupleAt(val(in.Tuple), in.Index, in.Type()))
	case *ssa.TypeAssert:
		e.typeAssert(s, f, in)
	case *ssa.Range:
		set(in, mkOp("iter", in.Type(), val(in.X)))
	case *ssa.Next:
		e.next(s, f, in)
	case *ssa.Select:
		e.selectOp(s, f, in)
	case *ssa.Store:
		a, v := val(in.Addr), val(in.Val)
		if e.derefCheck(s, a, in) {
			return
		}
		e.storeTo(s, a, v, in)
	case *ssa.MapUpdate:
		m, k, v := val(in.Map), val(in.Key), val(in.Value)
		if m.isNil() {
			e.runtimePanic(s, "assignment to entry in nil map", in)
			return
		}
		if e.h.Map != nil {
			e.h.Map(e, s, "update", m, k, v, in)
		}
		e.mapStore(s, m, k, v, in.Map.Type().Underlying().(*types.Map))
	case *ssa.Send:
		ch, v := val(in.Chan), val(in.X)
		s.markShared(v)
		if e.h.Chan != nil {
			e.h.Chan(e, s, "send", ch, v, in)
		}
	case *ssa.Go:
		e.call(s, f, in, "go")
	case *ssa.Defer:
		e.call(s, f, in, "defer")
	case *ssa.Call:
		e.call(s, f, in, "call")
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.idx-- // come back for the next one
			e.invoke(s, d.site, d.call, d.args, nil, true)
		}
	case *ssa.Panic:
		e.startPanic(s, val(in.X), in)
	case *ssa.Return:
		e.ret(s, f, in)
	case *ssa.Jump:
		if !e.jump(s, f, f.block.Succs[0]) {
			s.dead = true
		}
	case *ssa.If:
		c := val(in.Cond)
		d := s.decide(c)
		t, fl := f.block.Succs[0], f.block.Succs[1]
		take := func(s *State, v bool, to *ssa.BasicBlock, forked bool) bool {
			if forked {
				if !s.assume(c, v) {
					return false
				}
				s.note("%s: %s is %v", e.pos(in), c, v)
			}
			if e.h.Branch != nil {
				e.h.Branch(e, s, c, v, in)
			}
			return e.jump(s, s.top(), to)
		}
		switch d {
		case 1:
			if !take(s, true, t, false) {
				s.dead = true
			}
		case -1:
			if !take(s, false, fl, false) {
				s.dead = true
			}
		default:
			e.fork(s, func(s *State) bool { return take(s, true, t, true) },
				func(s *State) bool { return take(s, false, fl, true) })
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, fresh("unsupported", v.Type()))
		}
	}
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *Engine) derefCheck(s *State, p *Term, in ssa.Instruction) bool {
	isNil := p.isNil() || (!s.nonNil(p) && s.decideEq(p, tNil) == 1)
	if e.h.Deref != nil {
		if isNil {
			e.h.Deref(e, s, tNil, in)
		} else {
			e.h.Deref(e, s, p, in)
		}
	}
	if isNil {
		e.runtimePanic(s, "nil pointer dereference", in)
	}
	return isNil
}

func (e *Engine) runtimePanic(s *State, what string, in ssa.Instruction) {
	e.startPanic(s, mkIface(types.Typ[types.String], mkStr("runtime error: "+what), nil), in)
}

func (e *Engine) startPanic(s *State, v *Term, in ssa.Instruction) {
	s.note("%s: panic(%s)", e.pos(in), v)
	f := s.top()
	f.panicking, f.panicVal, f.recovered = true, v, false
}

// unwind runs the deferred calls of a panicking function.
func (e *Engine) unwind(s *State) bool {
	f := s.top()
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		before := len(s.stack)
		e.invoke(s, d.site, d.call, d.args, nil, true)
		if s.dead || len(s.stack) > before {
			// the frame below is resumed by unwind when it returns
			return !s.dead
		}
		return true
	}
	if f.recovered {
		f.panicking = false
		f.recovered = false
		s.note("recovered in %s", shortName(f.fn.String()))
		if f.fn.Recover != nil {
			f.prev, f.block, f.idx = nil, f.fn.Recover, 0
			if e.seen(s) {
				s.dead = true
			}
			return !s.dead
		}
		e.popFrame(s, zeroOf(f.fn.Signature.Results()), nil)
		return !s.dead
	}
	v := f.panicVal
	if len(s.stack) == 1 || f.after != nil && false {
		if e.h.Exit != nil {
			e.h.Exit(e, s, "panic", v)
		}
		s.dead = true
		return false
	}
	wasDeferred := f.deferred
	s.stack = s.stack[:len(s.stack)-1]
	g := s.top()
	if wasDeferred && g.panicking {
		g.panicVal, g.recovered = v, false
	} else {
		g.panicking, g.panicVal, g.recovered = true, v, false
	}
	return true
}

func (e *Engine) ret(s *State, f *Frame, in *ssa.Return) {
	var r *Term
	switch len(in.Results) {
	case 0:
		r = tNil
	case 1:
		r = e.val(s, f, in.Results[0])
	default:
		as := make([]*Term, len(in.Results))
		for i, v := range in.Results {
			as[i] = e.val(s, f, v)
		}
		r = mkOp("tuple", f.fn.Signature.Results(), as...)
	}
	e.popFrame(s, r, in)
}

func (e *Engine) popFrame(s *State, r *Term, in ssa.Instruction) {
	f := s.top()
	if e.h.Return != nil {
		e.h.Return(e, s, f.fn, r, in)
	}
	if len(s.stack) == 1 {
		if e.h.Exit != nil {
			e.h.Exit(e, s, "return", r)
		}
		s.dead = true
		return
	}
	s.stack = s.stack[:len(s.stack)-1]
	g := s.top()
	if f.call != nil {
		g.regs[f.call] = r
	}
	if f.after != nil {
		f.after(e, s, r)
		if s.dead {
			return
		}
	}
	if !g.panicking && e.seen(s) {
		s.dead = true
	}
}

func (e *Engine) unop(s *State, f *Frame, in *ssa.UnOp) {
	x := e.val(s, f, in.X)
	switch in.Op {
	case token.MUL:
		if e.derefCheck(s, x, in) {
			return
		}
		f.regs[in] = e.loadFrom(s, x, in.Type(), in)
	case token.NOT:
		f.regs[in] = mkNot(x)
	case token.SUB:
		if i, ok := x.int64(); ok {
			f.regs[in] = mkConst(wrapInt(constant.MakeInt64(-i), in.Type()), in.Type())
		} else {
			f.regs[in] = mkOp("neg", in.Type(), x)
		}
	case token.XOR:
		f.regs[in] = mkOp("^", in.Type(), x)
	case token.ARROW:
		if e.h.Chan != nil {
			e.h.Chan(e, s, "recv", x, nil, in)
		}
		s.ctxDone(x)
		if in.CommaOk {
			tt := in.Type().(*types.Tuple)
			ok := fresh("recvok", tt.At(1).Type(), x)
			if e.staysOpen(tt.At(0).Type()) {
				ok = tTrue
			}
			f.regs[in] = mkOp("tuple", tt, fresh("recv", tt.At(0).Type(), x), ok)
		} else {
			f.regs[in] = fresh("recv", in.Type(), x)
		}
	default:
		f.regs[in] = fresh("unop", in.Type())
	}
}

func (e *Engine) loadFrom(s *State, a *Term, t types.Type, in ssa.Instruction) *Term {
	v := s.load(a, t)
	if e.h.Opaque != nil && e.h.Opaque(s, a, t) {
		v = fresh("opaque", t)
	}
	if e.h.Load != nil {
		e.h.Load(e, s, a, v, in)
	}
	return v
}

func (e *Engine) storeTo(s *State, a, v *Term, in ssa.Instruction) {
	r := rootOf(a)
	opaque := e.h.Opaque != nil && e.h.Opaque(s, a, deref(a.typ))
	if s.isShared(r) {
		s.markShared(v)
		if !opaque && (r.k != KObj || s.snap[r]) {
			e.markMutable(class(a))
		}
	}
	if e.h.Store != nil {
		e.h.Store(e, s, a, v, in)
	}
	if opaque {
		return
	}
	s.store(a, v)
}

func (e *Engine) markMutable(c any) {
	if !e.mutable[c] {
		e.mutable[c] = true
		if e.debug {
			fmt.Println("MUT", c)
		}
		e.newMut = true
	}
}

func (s *State) convert(x *Term, from, to types.Type) *Term {
	if x.k == KConst {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
			c := x.c
			if tb.Info()&types.IsInteger != 0 {
				c = constant.ToInt(c)
				if c.Kind() != constant.Int {
					return mkOpRef("conv", to, types.Type(types.Typ[tb.Kind()]), 0, x)
				}
				c = wrapInt(c, to)
			}
			return mkConst(c, to)
		}
	}
	if isInteger(from) && isInteger(to) {
		lo, hi := s.bounds(x)
		tmp := intern(KSym, "range", to, nil, 0, nil)
		tlo, thi := (&State{facts: map[*Term]bool{}}).bounds(&Term{k: KSym, typ: to})
		_ = tmp
		if isUnsigned(to) && intBits(to) == 64 {
			thi = inf
		}
		if !isUnsigned(to) && intBits(to) == 64 {
			// signed 64 bit holds everything but big uint64
			if !(isUnsigned(from) && intBits(from) == 64) || hi < inf {
				return x
			}
		}
		if lo >= tlo && hi <= thi && (lo > -inf || !isUnsigned(to)) {
			return x
		}
		if types.Identical(from.Underlying(), to.Underlying()) {
			return x
		}
		b := to.Underlying().(*types.Basic)
		return mkOpRef("conv", to, types.Type(types.Typ[b.Kind()]), 0, x)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if b, ok := to.Underlying().(*types.Basic); ok {
		// []byte(string(x)) and string([]byte(x)) are x
		if b.Info()&types.IsString != 0 && x.isOp("bytes") {
			return x.args[0]
		}
		return mkOpRef("conv", to, types.Type(types.Typ[b.Kind()]), 0, x)
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		return mkOp("bytes", to, x)
	}
	return x
}

func (e *Engine) sliceOp(s *State, f *Frame, in *ssa.Slice) {
	b := e.val(s, f, in.X)
	lo, hi := mkInt(0), tNil
	if in.Low != nil {
		lo = e.val(s, f, in.Low)
	}
	if in.High != nil {
		hi = e.val(s, f, in.High)
	}
	if e.h.Index != nil {
		if !hi.isNil() {
			e.h.Index(e, s, b, hi, in, true)
		} else if l, ok := lo.int64(); !ok || l != 0 {
			e.h.Index(e, s, b, lo, in, true)
		}
	}
	l, lok := lo.int64()
	if isString(in.X.Type()) {
		if lok && l == 0 && hi.isNil() {
			f.regs[in] = b
			return
		}
		f.regs[in] = mkOp("slice", in.Type(), b, lo, hi)
		return
	}
	_, isPtr := in.X.Type().Underlying().(*types.Pointer)
	if lok && l == 0 && hi.isNil() && !isPtr {
		f.regs[in] = b
		return
	}
	if b.isNil() {
		f.regs[in] = tNil
		return
	}
	if b.isOp("slice") && !isPtr {
		if l0, ok := b.args[1].int64(); ok && lok {
			nh := hi
			if hi.isNil() {
				nh = b.args[2]
			} else {
				nh = addInt(hi, l0)
			}
			f.regs[in] = mkOp("slice", in.Type(), b.args[0], mkInt(l0+l), nh)
			return
		}
	}
	f.regs[in] = mkOp("slice", in.Type(), b, lo, hi)
}

var tAbsent = intern(KSym, "absent", nil, nil, 0, nil)

func mapCell(m, k *Term, mt *types.Map) *Term {
	return mkOp("mapcell", types.NewPointer(mt.Elem()), m, k)
}

func (e *Engine) mapStore(s *State, m, k, v *Term, mt *types.Map) {
	if s.isShared(m) {
		s.markShared(v)
		if m.k != KObj || s.snap[m] {
			e.markMutable(class(m))
		}
	}
	s.mapForget(m, k)
	s.heap[mapCell(m, k, mt)] = v
}

// mapForget drops what a write to m[k] may change.
func (s *State) mapForget(m, k *Term) {
	for c := range s.heap {
		if c.isOp("mapcell") && c.args[0] == m && s.decideEq(c.args[1], k) != -1 {
			delete(s.heap, c)
		}
	}
	if !k.isConst() {
		freshCount++
		s.epochs[m] = freshCount
	}
}

func (e *Engine) lookup(s *State, f *Frame, in *ssa.Lookup) {
	m, k := e.val(s, f, in.X), e.val(s, f, in.Index)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string
		if e.h.Index != nil {
			e.h.Index(e, s, m, k, in, false)
		}
		f.regs[in] = mkOp("indexval", in.Type(), m, k)
		return
	}
	if e.h.Map != nil {
		e.h.Map(e, s, "lookup", m, k, nil, in)
	}
	et := mt.Elem()
	res := func(s *State, v *Term, ok bool) bool {
		g := s.top()
		if e.h.Map != nil {
			if ok {
				e.h.Map(e, s, "lookuphit", m, k, v, in)
			} else {
				e.h.Map(e, s, "lookupmiss", m, k, nil, in)
			}
		}
		if in.CommaOk {
			g.regs[in] = mkOp("tuple", in.Type(), v, mkBool(ok))
		} else {
			g.regs[in] = v
		}
		return true
	}
	cell := mapCell(m, k, mt)
	v, have := s.heap[cell]
	if have {
		if v == tAbsent {
			res(s, zeroOf(et), false)
		} else {
			res(s, v, true)
		}
		return
	}
	if m.isNil() || (m.k == KObj && s.epochOf(m) == 0 && k.isConst()) {
		res(s, zeroOf(et), false)
		return
	}
	if m.k == KObj && s.epochOf(m) == 0 {
		// only known keys are in there
		var cells []*Term
		alts := []func(*State) bool{func(s *State) bool {
			for _, c := range cells {
				if s.heap[c] != tAbsent && !s.assume(mkEq(k, c.args[1]), false) {
					return false
				}
			}
			return res(s, zeroOf(et), false)
		}}
		for c := range s.heap {
			if c.isOp("mapcell") && c.args[0] == m {
				cells = append(cells, c)
			}
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
		for _, c := range cells {
			c := c
			alts = append(alts, func(s *State) bool {
				if s.heap[c] == tAbsent {
					return false
				}
				return s.assume(mkEq(k, c.args[1]), true) && res(s, s.heap[c], true)
			})
		}
		e.fork(s, alts...)
		return
	}
	ep := s.epochOf(m)
	okT := intern(KOp, "init", types.Typ[types.Bool], nil, ep, nil, mkOp("mapok", nil, m, k))
	uv := intern(KOp, "init", et, nil, ep, nil, cell)
	forkVal := in.CommaOk
	switch et.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Signature, *types.Interface:
		forkVal = true
	}
	if !forkVal {
		res(s, uv, true)
		return
	}
	switch s.decide(okT) {
	case 1:
		res(s, uv, true)
	case -1:
		res(s, zeroOf(et), false)
	default:
		e.fork(s, func(s *State) bool {
			s.note("%s: %s[%s] is there", e.pos(in), m, k)
			return s.assume(okT, true) && res(s, uv, true)
		}, func(s *State) bool {
			s.note("%s: %s[%s] is missing", e.pos(in), m, k)
			return s.assume(okT, false) && res(s, zeroOf(et), false)
		})
	}
}

func (e *Engine) typeAssert(s *State, f *Frame, in *ssa.TypeAssert) {
	x := e.val(s, f, in.X)
	ok := mkOpRef("assertok", types.Typ[types.Bool], in.AssertedType, 0, x)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	var v *Term
	switch {
	case toIface:
		v = x
	case x.isOp("iface"):
		v = x.args[0]
	default:
		v = mkOpRef("assertval", in.AssertedType, in.AssertedType, 0, x)
	}
	d := s.decide(ok)
	if toIface && d == 0 && in.X.Type() != nil {
		// an interface that includes the asserted one: only nil can fail
		if types.AssignableTo(in.X.Type(), in.AssertedType) {
			if s.decideEq(x, tNil) == -1 {
				d = 1
			}
		}
	}
	if e.h.Assert != nil && !in.CommaOk {
		e.h.Assert(e, s, x, in.AssertedType, d, in)
	}
	good := func(s *State) bool {
		if e.h.Asserted != nil {
			e.h.Asserted(e, s, x, in.AssertedType, in)
		}
		if in.CommaOk {
			s.top().regs[in] = mkOp("tuple", in.Type(), v, tTrue)
		} else {
			s.top().regs[in] = v
		}
		return true
	}
	bad := func(s *State) bool {
		if in.CommaOk {
			s.top().regs[in] = mkOp("tuple", in.Type(), zeroOf(in.AssertedType), tFalse)
		} else {
			e.runtimePanic(s, "interface conversion", in)
		}
		return true
	}
	switch d {
	case 1:
		good(s)
	case -1:
		bad(s)
	default:
		e.fork(s, func(s *State) bool {
			if !s.assume(ok, true) {
				return false
			}
			s.note("%s: %s is a %s", e.pos(in), x, types.TypeString(in.AssertedType, shortQual))
			return good(s)
		}, func(s *State) bool {
			if !s.assume(ok, false) {
				return false
			}
			s.note("%s: %s is no %s", e.pos(in), x, types.TypeString(in.AssertedType, shortQual))
			return bad(s)
		})
	}
}

func (e *Engine) next(s *State, f *Frame, in *ssa.Next) {
	it := e.val(s, f, in.Iter)
	tt := in.Type().(*types.Tuple)
	m := tNil
	if it.isOp("iter") {
		m = it.args[0]
	}
	done := func(s *State) bool {
		if e.h.Map != nil && !m.isNil() {
			e.h.Map(e, s, "rangeend", m, nil, nil, in)
		}
		s.top().regs[in] = mkOp("tuple", tt, tFalse, zeroOf(nz(tt.At(1).Type())), zeroOf(nz(tt.At(2).Type())))
		return true
	}
	if m.isNil() {
		done(s)
		return
	}
	mt, isMap := (types.Type)(nil), false
	if m.typ != nil {
		if x, ok := m.typ.Underlying().(*types.Map); ok {
			mt, isMap = x, true
		}
	}
	more := func(s *State) bool {
		k := fresh("rangekey", tt.At(1).Type(), m)
		var v *Term
		if isMap {
			mm := mt.(*types.Map)
			k.typ = mm.Key()
			v = fresh("rangeval", mm.Elem(), m, k)
			s.note("%s: range over %s", e.pos(in), m)
			if e.h.Map != nil {
				e.h.Map(e, s, "range", m, k, v, in)
			}
		} else {
			v = fresh("rangeval", tt.At(2).Type(), m)
		}
		s.top().regs[in] = mkOp("tuple", tt, tTrue, k, v)
		return true
	}
	e.fork(s, more, done)
}

func nz(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return types.Typ[types.Int]
	}
	return t
}

func (e *Engine) selectOp(s *State, f *Frame, in *ssa.Select) {
	tt := in.Type().(*types.Tuple)
	var alts []func(*State) bool
	nrecv := 0
	if e.h.Select != nil {
		var cs []*Term
		for _, st := range in.States {
			cs = append(cs, e.val(s, f, st.Chan))
		}
		e.h.Select(e, s, cs, in)
	}
	for i, st := range in.States {
		i, st := i, st
		ch := e.val(s, f, st.Chan)
		ri := -1
		if st.Dir == types.RecvOnly {
			ri = nrecv
			nrecv++
		}
		var v *Term
		if st.Send != nil {
			v = e.val(s, f, st.Send)
		}
		if ch.isNil() {
			continue // never ready
		}
		alts = append(alts, func(s *State) bool {
			as := []*Term{mkInt(int64(i)), fresh("recvok", types.Typ[types.Bool], ch)}
			for j := 2; j < tt.Len(); j++ {
				if j-2 == ri {
					as = append(as, fresh("recv", tt.At(j).Type(), ch))
				} else {
					as = append(as, zeroOf(tt.At(j).Type()))
				}
			}
			s.note("%s: select case %d (%s)", e.pos(in), i, ch)
			op := "selrecv"
			s.ctxDone(ch)
			if st.Dir == types.SendOnly {
				op = "selsend"
				s.markShared(v)
			}
			if e.h.Chan != nil {
				e.h.Chan(e, s, op, ch, v, in)
			}
			s.top().regs[in] = mkOp("tuple", tt, as...)
			return true
		})
	}
	if !in.Blocking {
		alts = append(alts, func(s *State) bool {
			as := []*Term{mkInt(-1), tFalse}
			for j := 2; j < tt.Len(); j++ {
				as = append(as, zeroOf(tt.At(j).Type()))
			}
			s.note("%s: select default", e.pos(in))
			s.top().regs[in] = mkOp("tuple", tt, as...)
			return true
		})
	}
	if len(alts) == 0 {
		if e.h.Exit != nil {
			e.h.Exit(e, s, "block", tNil)
		}
		s.dead = true
		return
	}
	e.fork(s, alts...)
}

var _ = strings.Contains

// ctxDone: something was received from ch.
func (s *State) ctxDone(ch *Term) {
	if (ch.k == KSym || ch.k == KOp) && strings.HasSuffix(ch.op, "context.Context.Done") && len(ch.args) > 0 {
		s.addSet("ctxdone", ch.args[0])
	}
}

// staysOpen: channels of times and signals that nobody closes.
func (e *Engine) staysOpen(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "time.Time", "os.Signal":
	default:
		return false
	}
	if e.closedElems == nil {
		e.closedElems = map[string]bool{}
		for _, f := range e.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
							e.closedElems[call.Common().Args[0].Type().Underlying().(*types.Chan).Elem().String()] = true
						}
					}
				}
			}
		}
	}
	return !e.closedElems[t.String()]
}
