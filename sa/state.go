package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Frame is an activation of a function.
type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	regs   map[ssa.Value]*Term
	free   []*Term
	defers []*Deferred
	// where the result goes in the caller, nil if it is dropped
	call ssa.Value
	// called by a deferred call while running defers or panicking
	deferred  bool
	panicking bool
	panicVal  *Term
	recovered bool
	// this frame was entered by the model of a library function
	after func(e *Engine, s *State, res *Term)
	// header block -> what the phis and the heap were when it was last entered
	loops map[*ssa.BasicBlock]*loopSnap
	// identity of the activation: call string from the root
	depth int
}

type loopSnap struct {
	phis map[*ssa.Phi]*Term
	heap map[*Term]*Term
	n    int
	made map[*Term]bool
}

type Deferred struct {
	site ssa.CallInstruction
	call *Callee
	args []*Term
}

// Trace is a backward-linked list of the steps that led to a state.
type Trace struct {
	prev *Trace
	msg  string
	n    int
}

// State is an abstract state of one activity (goroutine or callback).
type State struct {
	stack  []*Frame
	heap   map[*Term]*Term
	facts  map[*Term]bool
	ghost  map[string]*Term
	epochs map[*Term]int // address -> epoch of its unknown contents
	shared map[*Term]bool
	snap   map[*Term]bool // objects some other activity was given
	locks  map[*Term]int  // mutex -> +n write, -n read
	trace  *Trace
	dead   bool
	root   *Root
}

func (s *State) clone() *State {
	n := &State{
		heap:   make(map[*Term]*Term, len(s.heap)+8),
		facts:  make(map[*Term]bool, len(s.facts)+4),
		ghost:  make(map[string]*Term, len(s.ghost)),
		epochs: make(map[*Term]int, len(s.epochs)),
		shared: make(map[*Term]bool, len(s.shared)),
		snap:   make(map[*Term]bool, len(s.snap)),
		locks:  make(map[*Term]int, len(s.locks)),
		trace:  s.trace,
		root:   s.root,
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.epochs {
		n.epochs[k] = v
	}
	for k, v := range s.shared {
		n.shared[k] = v
	}
	for k, v := range s.snap {
		n.snap[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.stack = make([]*Frame, len(s.stack))
	for i, f := range s.stack {
		n.stack[i] = f.clone()
	}
	return n
}

func (f *Frame) clone() *Frame {
	g := *f
	g.regs = make(map[ssa.Value]*Term, len(f.regs)+4)
	for k, v := range f.regs {
		g.regs[k] = v
	}
	g.defers = append([]*Deferred(nil), f.defers...)
	if f.loops != nil {
		g.loops = make(map[*ssa.BasicBlock]*loopSnap, len(f.loops))
		for k, v := range f.loops {
			g.loops[k] = v
		}
	}
	return &g
}

func (s *State) top() *Frame { return s.stack[len(s.stack)-1] }

func (s *State) note(format string, a ...any) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{prev: s.trace, msg: fmt.Sprintf(format, a...), n: n}
}

func (s *State) steps() []string {
	var out []string
	for t := s.trace; t != nil; t = t.prev {
		out = append(out, t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- ghost state of the client ----

func (s *State) g(k string) *Term {
	if v, ok := s.ghost[k]; ok {
		return v
	}
	return tNil
}
func (s *State) gInt(k string) int64 {
	if v, ok := s.ghost[k]; ok {
		i, _ := v.int64()
		return i
	}
	return 0
}
func (s *State) gBool(k string) bool     { return s.ghost[k] == tTrue }
func (s *State) setG(k string, v *Term)  { s.ghost[k] = v }
func (s *State) setB(k string, b bool)   { s.ghost[k] = mkBool(b) }
func (s *State) setI(k string, i int64)  { s.ghost[k] = mkInt(i) }
func (s *State) gStr(k string) string    { v, _ := s.g(k).str(); return v }
func (s *State) setS(k string, v string) { s.ghost[k] = mkStr(v) }

// ---- memory ----

func parentAddr(a *Term) *Term {
	if a.k == KOp && (a.op == "field" || a.op == "index") {
		return a.args[0]
	}
	return nil
}

func isUnder(a, base *Term) bool {
	for p := parentAddr(a); p != nil; p = parentAddr(p) {
		if p == base {
			return true
		}
		if p.isOp("slice") && p.args[0] == base {
			return true
		}
	}
	return false
}

func (s *State) epochOf(a *Term) int {
	e := s.epochs[a]
	for p := a; p != nil; {
		if x := s.epochs[p]; x > e {
			e = x
		}
		if q := parentAddr(p); q != nil {
			p = q
		} else if p.isOp("slice") || p.isOp("mapcell") || p.isOp("mapok") {
			p = p.args[0]
		} else {
			break
		}
	}
	return e
}

// havoc forgets everything at and below an address.
func (s *State) havoc(a *Term) {
	s.split(a)
	for c := range s.heap {
		if c == a || isUnder(c, a) || (c.isOp("mapcell") && c.args[0] == a) {
			delete(s.heap, c)
		}
	}
	freshCount++
	s.epochs[a] = freshCount
}

// split makes sure no ancestor of an address has its value as a whole.
func (s *State) split(a *Term) {
	p := parentAddr(a)
	if p == nil {
		return
	}
	s.split(p)
	v, ok := s.heap[p]
	if !ok {
		return
	}
	if a.op == "field" {
		st := structType(p.typ)
		if st == nil {
			return
		}
		delete(s.heap, p)
		for i := 0; i < st.NumFields(); i++ {
			s.heap[fieldAddr(p, st, i)] = fieldOf(v, st, i)
		}
		return
	}
	// an element of an array stored as a whole
	if at, ok := deref(p.typ).Underlying().(*types.Array); ok {
		delete(s.heap, p)
		for i := int64(0); i < at.Len() && i < 64; i++ {
			s.heap[indexAddr(p, mkInt(i), at.Elem())] = mkOp("indexval", at.Elem(), v, mkInt(i))
		}
	}
}

func structType(ptr types.Type) *types.Struct {
	if ptr == nil {
		return nil
	}
	st, _ := deref(ptr).Underlying().(*types.Struct)
	return st
}

func (s *State) load(a *Term, t types.Type) *Term {
	if v, ok := s.heap[a]; ok {
		return v
	}
	// an ancestor stored as a whole
	if v := s.fromAncestor(a); v != nil {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		under := false
		for c := range s.heap {
			if isUnder(c, a) {
				under = true
				break
			}
		}
		if under {
			fs := make([]*Term, st.NumFields())
			for i := range fs {
				fs[i] = s.load(fieldAddr(a, st, i), st.Field(i).Type())
			}
			return mkOpRef("struct", t, t, 0, fs...)
		}
	}
	return s.initial(a, t)
}

// initial is the value an address has when nothing was stored there.
func (s *State) initial(a *Term, t types.Type) *Term {
	e := s.epochOf(a)
	r := rootOf(a)
	if e == 0 && r.k == KObj {
		return zeroOf(t)
	}
	// contents of a slice value known element by element
	if a.isOp("index") && e == 0 {
		if v := elemOf(a.args[0], a.args[1]); v != nil {
			return v
		}
	}
	return intern(KOp, "init", t, nil, e, nil, a)
}

// elemOf is element i of a slice built by append from nothing.
func elemOf(sl, idx *Term) *Term {
	i, ok := idx.int64()
	if !ok || !sl.isOp("append") {
		return nil
	}
	base := sl.args[0]
	n, ok := mkLen(base).int64()
	if !ok {
		return nil
	}
	if i >= n && int(i-n) < len(sl.args)-1 {
		return sl.args[1+i-n]
	}
	return elemOf(base, idx)
}

func (s *State) fromAncestor(a *Term) *Term {
	p := parentAddr(a)
	if p == nil {
		return nil
	}
	v, ok := s.heap[p]
	if !ok {
		if v = s.fromAncestor(p); v == nil {
			return nil
		}
	}
	if a.op == "field" {
		if st := structType(p.typ); st != nil {
			return fieldOf(v, st, a.n)
		}
		return nil
	}
	if v.k == KZero {
		return zeroOf(deref(a.typ))
	}
	return mkOp("indexval", deref(a.typ), v, a.args[1])
}

func (s *State) store(a, v *Term) {
	s.split(a)
	// drop what it overwrites
	composite := false
	if a.typ != nil {
		switch deref(a.typ).Underlying().(type) {
		case *types.Struct, *types.Array:
			composite = true
		}
	}
	if composite {
		for c := range s.heap {
			if isUnder(c, a) {
				delete(s.heap, c)
			}
		}
	}
	if a.isOp("index") {
		if _, ok := a.args[1].int64(); !ok {
			// unknown element: the others are unknown from now on
			s.havoc(a.args[0])
		} else {
			// may overwrite an element at an unknown index
			for c := range s.heap {
				if c.isOp("index") && c.args[0] == a.args[0] {
					if _, ok := c.args[1].int64(); !ok {
						delete(s.heap, c)
					}
				}
			}
		}
	}
	s.heap[a] = v
}

func (s *State) isShared(root *Term) bool {
	if root.k == KObj {
		return s.shared[root]
	}
	return true
}

// reach visits the objects reachable from a value.
func (s *State) reach(v *Term, visit func(obj *Term) bool) {
	seen := map[*Term]bool{}
	var byRoot map[*Term][]*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.k == KSym {
			// its arguments only say where it comes from
		} else {
			for _, a := range t.args {
				rec(a)
			}
		}
		if t.k == KObj || t.k == KSym || t.isOp("init") || t.k == KGlobal {
			if t.k == KObj && !visit(t) {
				return
			}
			if byRoot == nil {
				byRoot = map[*Term][]*Term{}
				for c := range s.heap {
					r := rootOf(c)
					byRoot[r] = append(byRoot[r], c)
				}
			}
			for _, c := range byRoot[t] {
				rec(s.heap[c])
				rec(c)
			}
		}
	}
	rec(v)
}

func (s *State) markShared(v *Term) {
	s.reach(v, func(o *Term) bool {
		s.shared[o] = true
		return true
	})
}

// ---- facts ----

// assume adds the fact that a boolean term has a value; false if that is impossible.
func (s *State) assume(c *Term, v bool) bool {
	for c.isOp("not") {
		c, v = c.args[0], !v
	}
	if c.k == KConst {
		return (c == tTrue) == v
	}
	switch s.decide(c) {
	case 1:
		return v
	case -1:
		return !v
	}
	s.facts[c] = v
	return true
}

// decide evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (s *State) decide(c *Term) int {
	if c.k == KConst {
		if c == tTrue {
			return 1
		}
		return -1
	}
	if c.isOp("not") {
		return -s.decide(c.args[0])
	}
	if v, ok := s.facts[c]; ok {
		return b2i(v)
	}
	switch c.op {
	case "eq":
		return s.eqRaw(c.args[0], c.args[1])
	case "lt":
		return s.decideLt(c.args[0], c.args[1])
	case "assertok":
		x, t := c.args[0], c.ref.(types.Type)
		if x.isOp("iface") {
			return b2i(types.AssignableTo(x.ref.(types.Type), t) || implements(x.ref.(types.Type), t))
		}
		if x.isNil() {
			return -1
		}
		if s.eqRaw(x, tNil) == 1 {
			return -1
		}
		if _, isI := t.Underlying().(*types.Interface); !isI {
			for f, v := range s.facts {
				if v && f.isOp("assertok") && f.args[0] == x && f != c {
					if _, isI := f.ref.(types.Type).Underlying().(*types.Interface); !isI {
						return -1
					}
				}
			}
		}
	}
	return 0
}

func implements(dyn, t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return types.Identical(dyn, t)
	}
	return types.Implements(dyn, i)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return -1
}

// nonNil tells whether a value is certainly not nil.
func (s *State) nonNil(x *Term) bool {
	switch x.k {
	case KObj, KFunc, KGlobal:
		return true
	case KSym:
		return x.op == "nonnil" || s.root != nil && s.root.nonNil[x]
	case KOp:
		switch x.op {
		case "field", "index", "iface", "closure", "append1":
			return true
		case "slice":
			return s.nonNil(x.args[0])
		case "append":
			return true
		case "appendv":
			return s.nonNil(x.args[0]) || s.facts[mkEq(x.args[0], tNil)] == false && s.has(mkEq(x.args[0], tNil))
		}
	}
	return false
}

func (s *State) has(f *Term) bool { _, ok := s.facts[f]; return ok }

// decideEq tells whether two values are equal: 1 yes, -1 no, 0 unknown.
func (s *State) decideEq(x, y *Term) int { return s.decide(mkEq(x, y)) }

func (s *State) eqRaw(x, y *Term) int {
	if x == y {
		return 1
	}
	if x.isNil() {
		x, y = y, x
	}
	if y.isNil() {
		if s.nonNil(x) {
			return -1
		}
		if x.isNil() {
			return 1
		}
		for f, v := range s.facts {
			// a value of some type is not nil
			if v && f.isOp("assertok") && f.args[0] == x {
				return -1
			}
			// equal to something known
			if v && f.isOp("eq") && f.args[0] == x && !f.args[1].isNil() && f.args[1].isConst() {
				return -1
			}
		}
		return 0
	}
	if x.isOp("iface") && y.isOp("iface") {
		if !types.Identical(x.ref.(types.Type), y.ref.(types.Type)) {
			return -1
		}
		return s.decide(mkEq(x.args[0], y.args[0]))
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		for f, v := range s.facts {
			if v && f.isOp("eq") && f.args[0] == x && f.args[1].isConst() && f.args[1] != y && f.args[1].c.Kind() == y.c.Kind() && !constant.Compare(f.args[1].c, token.EQL, y.c) {
				return -1
			}
		}
		if i, ok := y.int64(); ok {
			lo, hi := s.bounds(x)
			if i < lo || i > hi {
				return -1
			}
			if lo == hi && i == lo {
				return 1
			}
		}
		if x.k == KZero || x.isOp("struct") {
			return 0
		}
		return 0
	}
	// distinct objects
	if isAddrLike(x) && isAddrLike(y) {
		rx, ry := rootOf(x), rootOf(y)
		if rx.k == KObj && ry.k == KObj && rx != ry {
			return -1
		}
		if (rx.k == KObj) != (ry.k == KObj) && !s.isShared(pick(rx.k == KObj, rx, ry)) {
			return -1
		}
	}
	if isInteger(x.typ) && isInteger(y.typ) {
		if s.decideLt(x, y) == 1 || s.decideLt(y, x) == 1 {
			return -1
		}
		if d, ok := s.diffUB(x, y); ok && d <= 0 {
			if d2, ok := s.diffUB(y, x); ok && d2 <= 0 {
				return 1
			}
		}
	}
	return 0
}

func pick(c bool, a, b *Term) *Term {
	if c {
		return a
	}
	return b
}

func isAddrLike(t *Term) bool {
	return t.k == KObj || t.k == KGlobal || t.isOp("field") || t.isOp("index") || t.k == KSym || t.isOp("init")
}

// linear splits x into base + constant (signed integers only, so that the
// arithmetic is not modular in practice).
func linear(x *Term) (*Term, int64) {
	if i, ok := x.int64(); ok {
		return nil, i
	}
	if x.isOp("+") && x.ref == nil {
		if c, ok := x.args[1].int64(); ok {
			b, k := linear(x.args[0])
			return b, k + c
		}
	}
	return x, 0
}

const inf = math.MaxInt64 / 4

// bounds is an interval that contains an integer term's value.
func (s *State) bounds(x *Term) (int64, int64) { return s.boundsD(x, 0) }

func (s *State) boundsD(x *Term, depth int) (int64, int64) {
	if i, ok := x.int64(); ok {
		return i, i
	}
	lo, hi := int64(-inf), int64(inf)
	if x.typ != nil {
		if isUnsigned(x.typ) {
			lo = 0
		}
		if isInteger(x.typ) {
			switch intBits(x.typ) {
			case 8:
				if isUnsigned(x.typ) {
					hi = 255
				} else {
					lo, hi = -128, 127
				}
			case 16:
				if isUnsigned(x.typ) {
					hi = 65535
				} else {
					lo, hi = -32768, 32767
				}
			case 32:
				if isUnsigned(x.typ) {
					hi = math.MaxUint32
				} else {
					lo, hi = math.MinInt32, math.MaxInt32
				}
			}
		}
	}
	up := func(h int64) {
		if h < hi {
			hi = h
		}
	}
	down := func(l int64) {
		if l > lo {
			lo = l
		}
	}
	if x.k == KOp && depth < 4 {
		switch x.op {
		case "len", "cap":
			down(0)
			if a := x.args[0]; a.isOp("slice") || a.isOp("append") {
				// handled by mkLen
			}
		case "+":
			if x.ref == nil {
				l1, h1 := s.boundsD(x.args[0], depth+1)
				l2, h2 := s.boundsD(x.args[1], depth+1)
				if l1 > -inf && l2 > -inf {
					down(l1 + l2)
				}
				if h1 < inf && h2 < inf {
					up(h1 + h2)
				}
			}
		case "-":
			if x.ref == nil {
				l1, h1 := s.boundsD(x.args[0], depth+1)
				l2, h2 := s.boundsD(x.args[1], depth+1)
				if l1 > -inf && h2 < inf {
					down(l1 - h2)
				}
				if h1 < inf && l2 > -inf {
					up(h1 - l2)
				}
			}
			if x.ref == nil && depth == 0 {
				if partOf(x.args[1], x.args[0]) {
					down(0)
				}
			}
		case "*":
			l1, h1 := s.boundsD(x.args[0], depth+1)
			l2, h2 := s.boundsD(x.args[1], depth+1)
			if l1 >= 0 && l2 >= 0 && x.ref == nil {
				down(mulSat(l1, l2))
				if h1 < inf && h2 < inf {
					up(mulSat(h1, h2))
				}
			}
		case "/":
			l1, h1 := s.boundsD(x.args[0], depth+1)
			l2, _ := s.boundsD(x.args[1], depth+1)
			if l1 >= 0 && l2 > 0 {
				down(0)
				if h1 < inf {
					up(h1 / l2)
				}
			}
		case "%":
			l1, _ := s.boundsD(x.args[0], depth+1)
			l2, h2 := s.boundsD(x.args[1], depth+1)
			if l2 > 0 && h2 < inf {
				up(h2 - 1)
				down(-(h2 - 1))
			}
			if l1 >= 0 {
				down(0)
			}
		case "&":
			if c, ok := x.args[1].int64(); ok && c >= 0 {
				down(0)
				up(c)
			}
		case "conv":
			l, h := s.boundsD(x.args[0], depth+1)
			// value preserving if it fits
			if l >= lo && h <= hi && l > -inf {
				down(l)
				up(h)
			}
		}
	}
	for f, v := range s.facts {
		if f.k != KOp {
			continue
		}
		switch f.op {
		case "eq":
			if v && f.args[0] == x {
				if i, ok := f.args[1].int64(); ok {
					return i, i
				}
			}
		case "lt":
			a, ka := linear(f.args[0])
			b, kb := linear(f.args[1])
			if a == x && b == nil {
				if v { // x + ka < kb
					up(kb - ka - 1)
				} else { // x + ka >= kb
					down(kb - ka)
				}
			} else if b == x && a == nil {
				if v { // ka < x + kb
					down(ka - kb + 1)
				} else {
					up(ka - kb)
				}
			}
		}
	}
	// x != bound
	for i := 0; i < 4; i++ {
		ch := false
		if v, ok := s.facts[mkEq(x, mkConst(constant.MakeInt64(lo), x.typ))]; lo > -inf && ok && !v {
			lo++
			ch = true
		}
		if v, ok := s.facts[mkEq(x, mkConst(constant.MakeInt64(hi), x.typ))]; hi < inf && ok && !v {
			hi--
			ch = true
		}
		if !ch {
			break
		}
	}
	return lo, hi
}

func mulSat(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a > inf/b {
		return inf
	}
	return a * b
}

func (s *State) decideLt(x, y *Term) int {
	if d, ok := s.diffUB(x, y); ok && d < 0 {
		return 1
	}
	if d, ok := s.diffUB(y, x); ok && d <= 0 {
		return -1
	}
	return 0
}

// diffUB is an upper bound of x - y that follows from the facts (difference
// constraints, intervals, up to three links).
func (s *State) diffUB(x, y *Term) (int64, bool) {
	bx, cx := linear(x)
	by, cy := linear(y)
	if bx == by {
		return cx - cy, true
	}
	best, ok := s.pathUB(bx, by, 3, nil)
	if !ok {
		// a difference with a bound of its own: (a - b) < c and the like
		return 0, false
	}
	return best + cx - cy, true
}

// pathUB bounds x - y for bases (nil is zero).
// partOf: x is the length of a part of the string whose length y is.
func partOf(x, y *Term) bool {
	if !x.isOp("len") || !y.isOp("len") {
		return false
	}
	c := x.args[0]
	switch c.op {
	case "call:path.Ext", "call:path/filepath.Ext", "call:strings.TrimSpace", "call:strings.TrimSuffix", "call:strings.TrimPrefix":
		return c.args[0] == y.args[0]
	}
	return false
}

func (s *State) pathUB(x, y *Term, depth int, avoid []*Term) (int64, bool) {
	best, ok := int64(0), false
	upd := func(v int64) {
		if !ok || v < best {
			best, ok = v, true
		}
	}
	lo, hi := int64(0), int64(0)
	if x != nil {
		_, hi = s.bounds(x)
	}
	if y != nil {
		lo, _ = s.bounds(y)
	}
	if hi < inf && lo > -inf {
		upd(hi - lo)
	}
	if depth == 0 || x == nil {
		return best, ok
	}
	// x = p - q (signed): x - y <= ub(p - y) - lo(q)
	if x.isOp("-") && x.ref == nil && depth > 1 {
		if l, _ := s.bounds(x.args[1]); l > -inf {
			bp, cp := linear(x.args[0])
			if bp == y {
				upd(cp - l)
			} else if r, k := s.pathUB(bp, y, depth-1, append(avoid, x)); k {
				upd(r + cp - l)
			}
		}
	}
	for _, a := range avoid {
		if a == x {
			return best, ok
		}
	}
	for f, v := range s.facts {
		if f.k != KOp || (f.op != "lt" && !(f.op == "eq" && v)) {
			continue
		}
		a, ka := linear(f.args[0])
		b, kb := linear(f.args[1])
		// edge: from - to <= w
		edge := func(from, to *Term, w int64) {
			if from != x {
				return
			}
			if to == y {
				upd(w)
				return
			}
			if to == nil {
				return // intervals cover it
			}
			if r, k := s.pathUB(to, y, depth-1, append(append([]*Term(nil), avoid...), x)); k {
				upd(w + r)
			}
		}
		if f.op == "eq" {
			if !isInteger(f.args[0].typ) {
				continue
			}
			edge(a, b, kb-ka)
			edge(b, a, ka-kb)
		} else if v { // a + ka < b + kb
			edge(a, b, kb-ka-1)
		} else { // b + kb <= a + ka
			edge(b, a, ka-kb)
		}
	}
	return best, ok
}

// mkLen is the length of a string, slice, map or array.
func mkLen(x *Term) *Term {
	intT := types.Typ[types.Int]
	switch x.k {
	case KNil:
		return mkInt(0)
	case KConst:
		if s, ok := x.str(); ok {
			return mkInt(int64(len(s)))
		}
	case KZero:
		if a, ok := x.typ.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	if x.typ != nil {
		if a, ok := deref(x.typ).Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	switch {
	case x.isOp("slice"):
		hi := x.args[2]
		if hi.isNil() {
			hi = mkLen(x.args[0])
		}
		return subInt(hi, x.args[1])
	case x.isOp("append"):
		return addInt(mkLen(x.args[0]), int64(len(x.args)-1))
	case x.isOp("appendv"):
		return binopAdd(mkLen(x.args[0]), mkLen(x.args[1]), intT)
	}
	return mkOp("len", intT, x)
}

func addInt(x *Term, c int64) *Term {
	if c == 0 {
		return x
	}
	return binopAdd(x, mkInt(c), types.Typ[types.Int])
}
