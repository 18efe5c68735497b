package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C31"] = checkJitter
}

// jbModel explores the operations of the jitter buffer, one critical section
// at a time.
type jbModel struct {
	c    *Ctx
	p    *Prog
	t    *types.Named
	st   *types.Struct
	next int // the position of the next packet to release
	last int // the last packet given up on
	pk   int // the slots
	size int // the number of slots, -1 if there is no such field

	quiet bool // explore without taking over what is found

	begin  func(e *Engine, s *State)
	end    func(e *Engine, s *State, in ssa.Instruction)
	store  func(e *Engine, s *State, i int, old, val *Term, in ssa.Instruction)
	slot   func(e *Engine, s *State, addr, val *Term, in ssa.Instruction)
	index  func(e *Engine, s *State, base, idx *Term, in ssa.Instruction)
	append func(e *Engine, s *State, v *Term, in ssa.Instruction)
	ret    func(e *Engine, s *State, res *Term)
}

func (m *jbModel) fieldAddr(s *State, i int) *Term { return fieldAddr(s.g("recv"), m.st, i) }
func (m *jbModel) get(s *State, i int) *Term {
	return s.load(m.fieldAddr(s, i), m.st.Field(i).Type())
}

// returned is the field a method returns (as its first result).
func returnedField(p *Prog, f *ssa.Function, n *types.Named, st *types.Struct) map[int]bool {
	out := map[int]bool{}
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value)
	from = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, x := range v.Edges {
				from(x)
			}
		case *ssa.Convert:
			from(v.X)
		case *ssa.ChangeType:
			from(v.X)
		case *ssa.Extract:
			from(v.Tuple)
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && g.Blocks != nil && p.isRepoFn(g) {
				for i := range returnedField(p, g, n, st) {
					out[i] = true
				}
			}
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == n {
				out[fa.Field] = true
			}
			if a, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a {
						from(st.Val)
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			from(r.Results[0])
		}
	}
	return out
}

func (p *Prog) isRepoFn(f *ssa.Function) bool { return f.Pkg != nil && p.isRepoPkg(f.Pkg.Pkg) }

func newJbModel(c *Ctx) *jbModel {
	m := &jbModel{c: c, p: c.p, next: -1, last: -1, pk: -1, size: -1}
	sp := c.p.pkgOf("internal/webrtc/utils")
	if !c.need(sp != nil, "utils", "no package internal/webrtc/utils") {
		return nil
	}
	for _, mem := range sp.Members {
		if tn, ok := mem.(*ssa.Type); ok {
			if n, ok := tn.Type().(*types.Named); ok && c.p.method(n, "NextPackets") != nil {
				m.t = n
			}
		}
	}
	if !c.need(m.t != nil, "jitter buffer", "no type of internal/webrtc/utils has a method NextPackets") {
		return nil
	}
	m.st, _ = m.t.Underlying().(*types.Struct)
	if !c.need(m.st != nil, "jitter buffer fields", "%s is not a structure", m.t) {
		return nil
	}
	one := func(meth string) int {
		f := c.p.method(m.t, meth)
		if f == nil {
			return -1
		}
		fs := returnedField(c.p, f, m.t, m.st)
		for i := range fs {
			if len(fs) == 1 {
				return i
			}
		}
		return -1
	}
	m.next = one("GetNextStart")
	m.last = one("GetAndClearLastSkipped")
	for i := 0; i < m.st.NumFields(); i++ {
		if sl, ok := m.st.Field(i).Type().Underlying().(*types.Slice); ok {
			if n := namedOf(sl.Elem()); n != nil && n.Obj().Name() == "Packet" {
				m.pk = i
			}
		}
	}
	ok := c.need(m.next >= 0, "position", "GetNextStart doesn't return a field of %s", m.t.Obj().Name())
	ok = c.need(m.pk >= 0, "slots", "%s has no slice of packets", m.t.Obj().Name()) && ok
	if !ok {
		return nil
	}
	return m
}

func stripConv(t *Term) *Term {
	for t.isOp("conv") {
		t = t.args[0]
	}
	return t
}

// sameCount: two integers are the same number, whatever their types.
func (s *State) sameCount(a, b *Term) bool {
	a, b = stripConv(a), stripConv(b)
	return a == b || s.decideEq(a, b) == 1
}

// ctor finds the field that is the number of slots.
func (m *jbModel) ctor() {
	c := m.c
	mut := map[int]bool{}
	for _, f := range m.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != m.t {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); !fresh {
					mut[fa.Field] = true
				}
			}
		}
	}
	h := &Hooks{KeepArgs: true, NoRoots: true}
	h.Inline = m.inline
	cand := map[int]int{}
	n := 0
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind != "return" || res == nil {
			return
		}
		o := tupleAt(res, 0, nil)
		if res.typ != nil {
			if _, ok := res.typ.(*types.Tuple); !ok {
				o = res
			}
		}
		if o == nil || o.k != KObj || namedOf(o.typ) != m.t {
			return
		}
		n++
		l := mkLen(s.load(fieldAddr(o, m.st, m.pk), m.st.Field(m.pk).Type()))
		for i := 0; i < m.st.NumFields(); i++ {
			if !isInteger(m.st.Field(i).Type()) || mut[i] {
				continue
			}
			if s.sameCount(s.load(fieldAddr(o, m.st, i), m.st.Field(i).Type()), l) {
				cand[i]++
			}
		}
	}
	e := NewEngine(m.p, h)
	e.initHeap = c.initH
	for _, f := range m.p.Funcs {
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Blocks == nil || f.Pkg == nil || relPkg(m.p, f.Pkg.Pkg) != "internal/webrtc/utils" {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() > 0 && namedOf(rs.At(0).Type()) == m.t {
			e.Explore([]*Root{e.NewRoot(f.Name(), f, nil, nil)})
		}
	}
	for i, k := range cand {
		if k == n {
			m.size = i
		}
	}
}

func (m *jbModel) inline(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil && relPkg(m.p, f.Pkg.Pkg) == "internal/webrtc/utils" {
			return true
		}
	}
	return false
}

// assumed at the beginning of a critical section, shown at its end
func (m *jbModel) inv(s *State) {
	if s.dead {
		return
	}
	for i := 0; i < m.st.NumFields(); i++ {
		t := m.st.Field(i).Type()
		if isInteger(t) && intBits(t) == 64 && !isNamedInt(t) {
			s.assume(mkLt(m.get(s, i), mkConst(constInt(0), t)), false)
		}
	}
	if m.size >= 0 {
		t := m.st.Field(m.size).Type()
		s.assume(mkLt(m.get(s, m.size), mkConst(constInt(1), t)), false)
		if l := mkLen(m.get(s, m.pk)); l.isOp("len") {
			s.assume(mkLt(l, m.get(s, m.size)), false)
			s.assume(mkLt(m.get(s, m.size), l), false)
		}
	}
	s.setG("next0", m.get(s, m.next))
	if m.last >= 0 {
		s.setG("last0", m.get(s, m.last))
	}
	s.setG("skip", tNil)
	s.setG("rel", tNil)
	s.setG("unforgotten", tNil)
	if m.begin != nil {
		m.begin(nil, s)
	}
}

func isNamedInt(t types.Type) bool { _, ok := t.(*types.Named); return ok }

func (m *jbModel) run(only func(meth string) bool) *Engine {
	h := &Hooks{KeepArgs: true, NoRoots: true}
	h.Inline = m.inline
	h.KeepFact = func(*Term) bool { return true }
	mine := func(s *State, l *Term) bool {
		return !s.g("recv").isNil() && (rootOf(l) == s.g("recv") || l.find(func(u *Term) bool { return u == s.g("recv") }) != nil)
	}
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.mode != "call" {
			return nil, false
		}
		if ci.name == "sync.Mutex.Lock" || ci.name == "sync.RWMutex.Lock" || ci.name == "sync.RWMutex.RLock" {
			if mine(s, ci.arg(0)) {
				if _, ok := e.lockModel(s, ci); ok {
					m.inv(s)
					return []Outcome{{}}, true
				}
			}
		}
		if ci.callee.builtin != nil && ci.callee.builtin.Name() == "append" && m.append != nil {
			for _, v := range s.spread(ci)[1:] {
				m.append(e, s, v, ci.site)
			}
		}
		return nil, false
	}
	h.Lock = func(e *Engine, s *State, l *Term, op string, in ssa.Instruction) {
		if strings.HasSuffix(op, "Unlock") && mine(s, l) {
			s.setB("left", true)
			m.c.inc("critical sections left")
			if m.end != nil {
				m.end(e, s, in)
			}
		}
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind != "return" {
			return
		}
		if !s.gBool("left") && m.end != nil {
			m.end(e, s, nil)
		}
		if m.ret != nil {
			m.ret(e, s, res)
		}
	}
	h.Store = func(e *Engine, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.isOp("field") && addr.args[0] == s.g("recv") {
			for i := 0; i < m.st.NumFields(); i++ {
				if m.fieldAddr(s, i) == addr && m.store != nil {
					m.store(e, s, i, m.get(s, i), val, in)
				}
			}
		}
		if addr.isOp("index") && m.isSlots(s, addr.args[0]) && m.slot != nil {
			m.slot(e, s, addr, val, in)
		}
	}
	h.Index = func(e *Engine, s *State, base, idx *Term, in ssa.Instruction, slice bool) {
		if m.isSlots(s, base) && m.index != nil && !slice {
			m.index(e, s, base, idx, in)
		}
	}
	h.Clear = func(e *Engine, s *State, base *Term, in ssa.Instruction) {
		if m.isSlots(s, base) {
			s.setB("all cleared", true)
		}
	}
	e := m.c.engine(h)
	var roots []*Root
	for i := 0; i < m.t.NumMethods(); i++ {
		mt := m.t.Method(i)
		f := m.p.SSA.FuncValue(mt)
		if f == nil || f.Blocks == nil || !mt.Exported() || (only != nil && !only(mt.Name())) {
			continue
		}
		r := e.NewRoot(m.t.Obj().Name()+"."+mt.Name(), f, nil, nil)
		r.data = map[string]any{"method": mt.Name()}
		r.init.setG("recv", r.args[0])
		r.init.shared[r.args[0]] = true
		for i, p := range f.Params {
			// what is known of the arguments is needed to the end
			r.init.setG(fmt.Sprintf("arg%d", i), r.args[i])
			if i > 0 && isInteger(p.Type()) && mt.Name() == "Add" {
				// unwrapped numbers are never negative (C30)
				r.init.assume(mkLt(r.args[i], mkConst(constInt(0), p.Type())), false)
			}
		}
		m.inv(r.init)
		roots = append(roots, r)
		m.c.inc("operations")
	}
	if m.quiet {
		e.Explore(roots)
		return e
	}
	m.c.explore(e, roots...)
	return e
}

func (m *jbModel) isSlots(s *State, base *Term) bool {
	if s.g("recv").isNil() {
		return false
	}
	v := m.get(s, m.pk)
	return base == v || v.isOp("slice") && base == v.args[0]
}

func (s *State) meth() string { n, _ := s.root.data["method"].(string); return n }

// ---- C21: the jitter buffer ----

func (c *Ctx) jitterSkips(jb *types.Named) {
	m := newJbModel(c)
	if m == nil {
		return
	}
	if !c.need(m.last >= 0, "given up on", "GetAndClearLastSkipped doesn't return a field of %s", jb.Obj().Name()) {
		return
	}
	if c.initH == nil {
		c.initH = buildInitHeap(c.p)
	}
	m.ctor()
	// what the transports use
	used := map[string]bool{}
	for _, f := range c.p.Funcs {
		if f.Pkg != nil && relPkg(c.p, f.Pkg.Pkg) == "internal/webrtc/utils" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil && namedOf(g.Signature.Recv().Type()) == jb {
						used[g.Name()] = true
					}
				}
			}
		}
	}
	moves := 0
	m.store = func(e *Engine, s *State, i int, old, val *Term, in ssa.Instruction) {
		switch i {
		case m.last:
			if need := s.g("skip"); !need.isNil() && s.decideEq(val, need) == 1 {
				s.setG("skip", tNil)
			} else if s.meth() != "GetAndClearLastSkipped" && s.decideEq(val, zeroOf(val.typ)) == 1 {
				e.report(s, "cleared", s.meth(), in, "what was given up on is cleared by %s without being asked for", s.meth())
			}
		case m.next:
			moves++
			c.inc("moves of the position")
			if s.decideEq(old, val) == 1 {
				return
			}
			if s.decideEq(old, zeroOf(old.typ)) == 1 {
				c.sample("%s: first packet", e.pos(in))
				return
			}
			if m.filled(s, old) {
				c.sample("%s: released up to %s", e.pos(in), val)
				return
			}
			c.sample("%s: gives up on packets before %s", e.pos(in), val)
			want := binop(token.SUB, val, mkConst(constInt(1), val.typ), val.typ, val.typ)
			if s.decideEq(m.get(s, m.last), want) != 1 {
				s.setG("skip", want)
			} else {
				s.setG("skip", tNil)
			}
		}
	}
	m.end = func(e *Engine, s *State, in ssa.Instruction) {
		if need := s.g("skip"); !need.isNil() {
			e.report(s, "unrecorded", s.meth(), in, "%s moves the position over packets that were not released without recording %s as given up on", s.meth(), need)
		}
		s.setG("skip", tNil)
	}
	m.ret = func(e *Engine, s *State, res *Term) {
		if s.meth() != "GetAndClearLastSkipped" || res == nil {
			return
		}
		v, ok := tupleAt(res, 0, nil), tupleAt(res, 1, nil)
		l0 := s.g("last0")
		c.inc("ways out of GetAndClearLastSkipped")
		zero := s.decideEq(l0, zeroOf(l0.typ))
		switch s.decide(ok) {
		case 1:
			if s.decideEq(v, l0) != 1 {
				e.report(s, "which", "GetAndClearLastSkipped", nil, "GetAndClearLastSkipped returns %s instead of the packet given up on", v)
			}
			if g := s.g("lastEnd"); s.decideEq(g, zeroOf(l0.typ)) != 1 {
				e.report(s, "not cleared", "GetAndClearLastSkipped", nil, "GetAndClearLastSkipped doesn't clear what it returns")
			}
		case -1:
			if zero != 1 {
				e.report(s, "hidden", "GetAndClearLastSkipped", nil, "GetAndClearLastSkipped says that nothing was given up on although it may have been")
			}
		default:
			e.report(s, "unclear", "GetAndClearLastSkipped", nil, "GetAndClearLastSkipped's answer is not determined")
		}
	}
	end := m.end
	m.end = func(e *Engine, s *State, in ssa.Instruction) {
		end(e, s, in)
		s.setG("lastEnd", m.get(s, m.last))
	}
	m.run(func(meth string) bool { return used[meth] })
	c.need(moves > 0, "moves of the position", "no operation moves the position of the jitter buffer")
}

// filled: the slot of a position is known to hold a packet.
func (m *jbModel) filled(s *State, pos *Term) bool {
	for f, v := range s.facts {
		if v || !f.isOp("eq") {
			continue
		}
		a, b := f.args[0], f.args[1]
		if a.isNil() {
			a, b = b, a
		}
		if !b.isNil() || !a.isOp("init") || !a.args[0].isOp("index") {
			continue
		}
		idx := a.args[0].args[1]
		if idx == pos || (idx.isOp("%") && s.sameCount(idx.args[0], pos)) {
			return true
		}
	}
	return false
}

// ---- C31 ----

func checkJitter(c *Ctx) {
	c.explain = "difference-bound reasoning over every path of every operation of the jitter buffer, one critical section at a time: the position at the end of the section is not below that at its beginning; the slots are only addressed by a non-negative number modulo their number; what is released lies before the new position and its slot is emptied; the slots of all the positions that the last one is moved over are cleared, by the loop's index or at once, in the same section"
	c.assume = append(c.assume, "unwrapped sequence numbers are not negative (C30) and don't overflow 63 bits", "the buffer has at least one slot")
	m := newJbModel(c)
	if m == nil {
		return
	}
	if c.initH == nil {
		c.initH = buildInitHeap(c.p)
	}
	m.ctor()
	// the last position that was filled
	ends := map[int]bool{}
	m.store = func(e *Engine, s *State, i int, old, val *Term, in ssa.Instruction) {
		if s.meth() == "Add" && i != m.next && len(s.root.args) > 1 && stripConv(val) == stripConv(s.root.args[1]) {
			ends[i] = true
		}
	}
	m.quiet = true
	m.run(func(meth string) bool { return meth == "Add" })
	m.quiet = false
	last := -1
	for i := range ends {
		if len(ends) == 1 {
			last = i
		}
	}
	c.need(last >= 0, "last position", "%d fields of the jitter buffer are set to the position of what is added", len(ends))
	stores, idxs, rels := 0, 0, 0
	m.index = func(e *Engine, s *State, base, idx *Term, in ssa.Instruction) {
		idxs++
		c.inc("slots addressed")
		i := stripConv(idx)
		ok := false
		if i.isOp("%") {
			n := i.args[1]
			size := m.size >= 0 && s.sameCount(n, m.get(s, m.size))
			nonneg := s.proveGE(i.args[0], zeroOf(i.args[0].typ), 0)
			ok = nonneg && (size || s.sameCount(n, mkLen(base)))
			if !nonneg {
				e.report(s, "negative", s.meth(), in, "a slot is addressed by %s, which may be negative", idx)
				return
			}
		}
		if !ok && s.proveGE(idx, zeroOf(idx.typ), 0) && s.proveGE(mkLen(base), idx, 1) {
			ok = true
		}
		if !ok {
			e.report(s, "outside", s.meth(), in, "a slot is addressed by %s, which is not known to be one of the buffer's", idx)
		}
	}
	m.store = func(e *Engine, s *State, i int, old, val *Term, in ssa.Instruction) {
		switch i {
		case m.next:
			stores++
			c.inc("moves of the position")
			s.setG("left from", old) // and what is known of it
			c.sample("%s: the position becomes %s", e.pos(in), val)
		case last:
			if s.g("last from").isNil() {
				s.setG("last from", old)
			}
		case m.pk:
			s.setG("unforgotten", tNil)
			s.setB("all cleared", val.isOp("slice") && val.args[0].k == KObj && !stripConv(old).isOp("slice") || val.isOp("slice") && old.isOp("slice") && val.args[0] != old.args[0] && val.args[0].k == KObj)
			s.setG("put", tNil)
			if m.size < 0 || !s.sameCount(mkLen(val), m.get(s, m.size)) {
				if !s.sameCount(mkLen(val), mkLen(old)) {
					e.report(s, "resized", s.meth(), in, "the buffer's slots are replaced by %s, whose number is not the same", val)
				}
			}
		}
	}
	m.slot = func(e *Engine, s *State, addr, val *Term, in ssa.Instruction) {
		p := addr.args[1]
		if p = stripConv(p); p.isOp("%") {
			p = stripConv(p.args[0])
		}
		if val.isNil() {
			// going up, the interval's end follows the loop; going down, its start
			one := mkConst(constInt(1), p.typ)
			q := binop(token.ADD, p, one, p.typ, p.typ)
			same := func(a, b *Term) bool { return !a.isNil() && s.proveGE(a, b, 0) && s.proveGE(b, a, 0) }
			if !same(s.g("=up to"), p) {
				s.setG("up from", p)
			}
			s.setG("=up to", q)
			if !same(s.g("=down to"), q) {
				s.setG("down from", q)
			}
			s.setG("=down to", p)
		} else {
			s.setG("put", p)
		}
		u := s.g("unforgotten")
		if !val.isNil() || u.isNil() {
			return
		}
		at, _ := s.g("relIn").ref.(ssa.Instruction)
		if u == addr || at == nil || in.Block() != at.Block() {
			s.setG("unforgotten", tNil)
		}
	}
	m.append = func(e *Engine, s *State, v *Term, in ssa.Instruction) {
		if !v.isOp("init") || !v.args[0].isOp("index") || !m.isSlots(s, v.args[0].args[0]) {
			return
		}
		rels++
		c.inc("packets released")
		idx := stripConv(v.args[0].args[1])
		if idx.isOp("%") {
			idx = idx.args[0]
		}
		if !s.proveGE(idx, m.get(s, m.next), 0) {
			e.report(s, "released before", s.meth(), in, "the packet at %s is released although it may lie before the position %s", idx, m.get(s, m.next))
		}
		s.setG("rel", idx)
		s.setG("unforgotten", v.args[0])
		s.setG("relIn", intern(KObj, "site", nil, in, 0, nil))
	}
	m.begin = func(e *Engine, s *State) {
		for _, k := range []string{"last from", "=up to", "up from", "=down to", "down from", "put"} {
			s.setG(k, tNil)
		}
		s.setB("all cleared", false)
	}
	m.end = func(e *Engine, s *State, in ssa.Instruction) {
		n0, n := s.g("next0"), m.get(s, m.next)
		if o := s.g("last from"); !o.isNil() {
			c.inc("advances of the last position")
			l := m.get(s, last)
			cleared := func(from, to *Term) bool {
				for _, iv := range [][2]*Term{{s.g("up from"), s.g("=up to")}, {s.g("=down to"), s.g("down from")}} {
					lo, hi := iv[0], iv[1]
					if lo.isNil() || hi.isNil() {
						continue
					}
					if s.proveGE(from, lo, 0) && s.proveGE(hi, to, 0) {
						return true
					}
					// all of them
					n := binop(token.SUB, hi, lo, hi.typ, hi.typ)
					if m.size >= 0 && s.proveGE(n, m.get(s, m.size), 0) || s.proveGE(n, mkLen(m.get(s, m.pk)), 0) {
						return true
					}
				}
				return s.gBool("all cleared")
			}
			one := mkConst(constInt(1), o.typ)
			first, after := binop(token.ADD, o, one, o.typ, o.typ), binop(token.ADD, l, one, o.typ, o.typ)
			if !s.proveGE(first, l, 0) && !cleared(first, l) {
				e.report(s, "stale", s.meth(), in, "%s can move the last position from %s to %s without clearing the slots of all those between: what was in them a round before can be released again", s.meth(), o, l)
			}
			if p := s.g("put"); !s.proveGE(o, l, 0) && (p.isNil() || !s.proveGE(p, l, 0) || !s.proveGE(l, p, 0)) && !cleared(l, after) {
				e.report(s, "stale", s.meth()+"|last", in, "%s can move the last position from %s to %s without filling or clearing its slot", s.meth(), o, l)
			}
		}
		c.inc("sections compared")
		if !s.proveGE(n, n0, 0) {
			e.report(s, "back", s.meth(), in, "%s can move the position from %s to %s, which may be lower", s.meth(), n0, n)
		}
		if !s.proveGE(n, zeroOf(n.typ), 0) {
			e.report(s, "negative position", s.meth(), in, "%s can make the position negative: %s", s.meth(), n)
		}
		for i := 0; i < m.st.NumFields(); i++ {
			t := m.st.Field(i).Type()
			if isInteger(t) && intBits(t) == 64 && !isNamedInt(t) && i != m.next {
				if v := m.get(s, i); !v.isOp("init") && !s.proveGE(v, zeroOf(t), 0) {
					e.report(s, "negative", s.meth()+"|"+m.st.Field(i).Name(), in, "%s can make %s negative: %s", s.meth(), m.st.Field(i).Name(), v)
				}
			}
		}
		if r := s.g("rel"); !r.isNil() && !s.proveGE(n, r, 1) {
			e.report(s, "twice", s.meth(), in, "the packet at %s was released, but the position becomes %s", r, n)
		}
		if u := s.g("unforgotten"); !u.isNil() {
			e.report(s, "kept", s.meth(), in, "a released packet is not taken out of its slot")
		}
	}
	m.run(nil)
	c.need(stores > 0, "moves of the position", "no operation moves the position of the jitter buffer")
	c.need(idxs > 0, "slots addressed", "no operation addresses a slot")
	c.need(rels > 0, "releases", "no operation releases packets")
}

func constInt(i int64) constant.Value { return constant.MakeInt64(i) }
