package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C42"] = checkNacks }

// C42: what is missing is asked for again, all of it and nothing else.

func checkNacks(c *Ctx) {
	c.explain = "typestate with linear inequalities over every path: the packing of sequence numbers goes over all of them, each becomes the number of a pair or its own bit, at most 16 after it, of one, and each pair is handed back; in the transports every packet that is read is entered into the log, every tick looks at the same log, goes over all that it reports missing, and each of those is collected, or was asked for before; what was collected is sent in the same round for the SSRC of the track"
	c.assume = append(c.assume, "the sequence numbers handed to the packing are in order", "what the log reports missing (C32, not decided)")
	c.packing()
	m := newAdModel(c)
	if m == nil {
		return
	}
	looks := 0
	for _, a := range m.adapters {
		looks += m.nacks(a)
	}
	c.need(looks > 0, "looks", "no transport looks for missing packets")
}

func isU16(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint16
}

// cover follows how far a loop over a list has got: below the ghost "=<k>" all
// were met.
func (s *State) cover(k string, idx *Term) (skips bool) {
	h := s.g(k)
	if h.isNil() {
		h = mkInt(0)
	}
	q := binop(token.ADD, idx, mkConst(constant.MakeInt64(1), idx.typ), idx.typ, idx.typ)
	if !s.proveGE(h, idx, 0) {
		return true
	}
	if s.proveGE(q, h, 0) {
		s.setG(k, q)
	}
	return false
}

// elemAt: the list that an element's address belongs to, and its place there.
func elemAt(addr *Term) (base, idx *Term) {
	if !addr.isOp("index") {
		return nil, nil
	}
	base, idx = addr.args[0], addr.args[1]
	for base.isOp("slice") {
		if !base.args[1].isNil() {
			idx = binop(token.ADD, idx, base.args[1], idx.typ, idx.typ)
		}
		base = base.args[0]
	}
	return
}

// ---- packing ----

func (c *Ctx) packing() {
	n := 0
	for _, f := range c.p.Funcs {
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Blocks == nil || f.Pkg == nil || f.Object() == nil || !f.Object().Exported() || relPkg(c.p, f.Pkg.Pkg) != "internal/webrtc/utils" {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if ps.Len() != 1 || rs.Len() != 1 || !isU16(elemOrNil(ps.At(0).Type())) || !isNamed(elemOfSlice(rs.At(0).Type()), "NackPair") {
			continue
		}
		n++
		c.inc("functions that pack")
		c.packs(f)
	}
	c.need(n > 0, "packing", "no function packs sequence numbers into pairs")
}

func elemOrNil(t types.Type) types.Type { return elemOfSlice(t) }

func (c *Ctx) packs(f *ssa.Function) {
	h := &Hooks{KeepArgs: true}
	h.Inline = func(fn *ssa.Function) bool {
		for g := fn; g != nil; g = g.Parent() {
			if g.Pkg != nil && g.Pkg == f.Pkg {
				return true
			}
		}
		return false
	}
	h.KeepFact = func(*Term) bool { return true }
	var pairT *types.Struct
	lib := false
	settle := func(e *Engine, s *State, in ssa.Instruction) {
		o := s.g("owed")
		s.setG("owed", tNil)
		if o.isNil() || s.gBool("used") {
			return
		}
		// the first one again
		if i := s.g("at"); s.gBool("first in") && !i.isNil() && s.decideEq(i, mkInt(0)) == 1 {
			return
		}
		// the same as the one before, which is in
		if p := s.g("pid"); !p.isNil() && s.decideEq(o, p) == 1 {
			return
		}
		e.report(s, "lost", f.Name(), in, "the sequence number %s can be left out of the pairs", o)
	}
	h.Load = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		base, idx := elemAt(addr)
		if base == nil || base != s.root.args[0] || v == s.g("owed") {
			return
		}
		settle(e, s, in)
		if s.cover("=next", idx) {
			e.report(s, "skipped", f.Name(), in, "the packing can go on with %s without having looked at those before", idx)
		}
		s.setG("owed", v)
		s.setG("at", idx)
		s.setB("used", false)
		c.inc("sequence numbers looked at (states)")
	}
	isPair := func(addr *Term, name string) (base *Term) {
		if !addr.isOp("field") {
			return nil
		}
		fv, ok := addr.ref.(*types.Var)
		if !ok || fv.Name() != name || addr.args[0].typ == nil {
			return nil
		}
		if t := deref(addr.args[0].typ); isNamed(t, "NackPair") {
			pairT, _ = t.Underlying().(*types.Struct)
			return addr.args[0]
		}
		return nil
	}
	put := func(e *Engine, s *State, v *Term, in ssa.Instruction) {
		if !v.isOp("struct") {
			return
		}
		for _, o := range s.set("open") {
			if l := s.load(o, deref(o.typ)); l == v {
				s.delSet("open", o)
				if s.inSet("stale", o) {
					e.report(s, "added", f.Name(), in, "the pair %s begins with the bits of another", o)
				}
			}
		}
	}
	h.Store = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		if b := isPair(addr, "PacketID"); b != nil {
			o := s.g("owed")
			switch {
			case v.isConst() && o.isNil():
				return
			case o.isNil() || noConv(v) != o:
				e.report(s, "added", f.Name(), in, "a pair begins at %s, which isn't the sequence number that was looked at", v)
			default:
				s.setB("used", true)
				s.setG("pid", o)
				if k, ok := s.g("at").int64(); ok && k == 0 {
					s.setB("first in", true)
				}
				c.inc("pairs begun (states)")
			}
			for i := 0; i < pairT.NumFields(); i++ {
				if pairT.Field(i).Name() == "LostPackets" {
					if k, ok := s.load(fieldAddr(b, pairT, i), pairT.Field(i).Type()).int64(); !ok || k != 0 {
						s.addSet("stale", b)
					}
				}
			}
			if s.inSet("open", b) {
				e.report(s, "kept", f.Name(), in, "the pair %s begins anew before it is kept to be handed back", b)
			}
			if !b.isOp("index") {
				s.addSet("open", b)
			}
			return
		}
		if b := isPair(addr, "LostPackets"); b != nil {
			if k, ok := v.int64(); ok && k == 0 {
				s.delSet("stale", b)
				return
			}
			o := s.g("owed")
			var pid *Term
			for i := 0; i < pairT.NumFields(); i++ {
				if pairT.Field(i).Name() == "PacketID" {
					pid = s.load(fieldAddr(b, pairT, i), pairT.Field(i).Type())
				}
			}
			old := s.load(addr, deref(addr.typ))
			if why := s.ownBit(v, old, o, pid); why != "" {
				e.report(s, "bit", f.Name(), in, "the bits of a pair become %s: %s", v, why)
			} else {
				s.setB("used", true)
				c.inc("bits set (states)")
				c.sample("%s: %s", e.pos(in), v)
			}
			if !b.isOp("index") {
				s.addSet("open", b)
			}
			return
		}
		if v.typ != nil && isNamed(v.typ, "NackPair") {
			put(e, s, v, in)
			if !addr.isOp("index") && v.isOp("struct") {
				if s.inSet("open", addr) {
					e.report(s, "kept", f.Name(), in, "the pair %s is replaced before it is kept to be handed back", addr)
				}
				s.addSet("open", addr)
			}
		}
	}
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		// the library's own packing, of all of them
		if strings.Contains(ci.name, "NackPairsFromSequenceNumbers") && len(ci.args) > 0 && stripConv(ci.args[0]) == s.root.args[0] {
			lib = true
			s.setG("=next", mkLen(s.root.args[0]))
		}
		return nil, false
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind != "return" {
			return
		}
		settle(e, s, nil)
		c.inc("ways out of the packing (states)")
		if n := s.g("=next"); n.isNil() && !s.proveGE(mkInt(0), mkLen(s.root.args[0]), 0) || !n.isNil() && !s.proveGE(n, mkLen(s.root.args[0]), 0) {
			e.report(s, "rest", f.Name(), nil, "the packing can end without having looked at all the sequence numbers")
		}
		for _, o := range s.set("open") {
			e.report(s, "kept", f.Name(), nil, "the pair %s, or what was last put into it, isn't handed back", o)
		}
		if r := stripConv(res); r != nil && r.isOp("slice") && !s.g("=next").isNil() && !lib {
			if lo, ok := r.args[1].int64(); !ok || lo != 0 || !r.args[2].isNil() && r.args[2] != mkLen(r.args[0]) && r.args[0].k != KObj {
				e.report(s, "cut", f.Name(), nil, "only some of the pairs are handed back: %s", r)
			}
		}
	}
	e := c.engine(h)
	r := e.NewRoot(f.Name(), f, nil, nil)
	r.data = map[string]any{}
	c.explore(e, r)
}

// ownBit: v is old with the bit set that stands for o after pid; "" if so.
func (s *State) ownBit(v, old, o, pid *Term) string {
	if o.isNil() || pid == nil {
		return "no sequence number was looked at"
	}
	v = noConv(v)
	if !v.isOp("|") && !v.isOp("+") {
		return "no bit is added"
	}
	for i := 0; i < 2; i++ {
		keep, sh := noConv(v.args[i]), noConv(v.args[1-i])
		if keep != noConv(old) || !sh.isOp("<<") {
			continue
		}
		if k, ok := noConv(sh.args[0]).int64(); !ok || k != 1 {
			return "it isn't a single bit"
		}
		want := linOf(o).add(linOf(pid), -1)
		want.k--
		got := linUnder(noConv(sh.args[1]))
		d := got.add(want, -1)
		if len(d.c) != 0 || d.k != 0 {
			return "the bit isn't that of the number after the pair's"
		}
		dist := binop(token.SUB, o, pid, o.typ, o.typ)
		for _, x := range []*Term{dist, binop(token.SUB, dist, mkConst(constant.MakeInt64(1), o.typ), o.typ, o.typ), noConv(sh.args[1])} {
			top := int64(16)
			if x != dist {
				top = 15
			}
			if _, hi := s.bounds(x); hi <= top {
				return ""
			}
			if s.decide(mkLt(mkConst(constant.MakeInt64(top), x.typ), x)) == -1 || s.decide(mkLt(x, mkConst(constant.MakeInt64(top+1), x.typ))) == 1 {
				return ""
			}
		}
		return "the number may be more than 16 after the pair's, where there is no bit for it"
	}
	return "the other bits aren't kept"
}

// linUnder is linOf that looks through conversions and wrap-around.
func linUnder(t *Term) lin {
	t = noConv(t)
	switch {
	case t.isOp("+") && len(t.args) == 2:
		return linUnder(t.args[0]).add(linUnder(t.args[1]), 1)
	case t.isOp("-") && len(t.args) == 2:
		return linUnder(t.args[0]).add(linUnder(t.args[1]), -1)
	}
	return linOf(t)
}

// ---- rounds ----

func (m *adModel) nacks(a *adapter) int {
	c := m.c
	looks, reads, sent := 0, 0, 0
	lookers := map[*ssa.Function]bool{}
	logged, looked := map[*Term]bool{}, map[*Term]bool{}
	type cand struct {
		s        *State
		in       ssa.Instruction
		key, msg string
		fn       *ssa.Function
	}
	var cands []cand
	logs := false
	mark := func(s *State, in ssa.Instruction, key, msg string, fn *ssa.Function) {
		cands = append(cands, cand{s.clone(), in, key, msg, fn})
	}
	h := m.hooks()
	h.Round = func() {
		looks, reads, sent, logs, cands = 0, 0, 0, false, nil
		lookers, logged, looked = map[*ssa.Function]bool{}, map[*Term]bool{}, map[*Term]bool{}
	}
	settle := func(s *State, in ssa.Instruction) {
		o := s.g("owed")
		s.setG("owed", tNil)
		if o.isNil() || s.gBool("used") || s.gBool("given up") {
			return
		}
		if s.gBool("tracked") && s.gBool("enough") {
			return
		}
		mark(s, in, "unasked", "a packet that is missing can be passed over although it wasn't asked for as often as is allowed", nil)
	}
	// a round is over
	over := func(s *State, in ssa.Instruction) {
		settle(s, in)
		if ms := s.g("missing"); !ms.isNil() {
			n := s.g("=next")
			if n.isNil() {
				n = mkInt(0)
			}
			if !s.proveGE(n, mkLen(ms), 0) && s.decideEq(ms, tNil) != 1 {
				mark(s, in, "rest", "a round can end without having gone over all that is missing", nil)
			}
			if s.gBool("collected") {
				mark(s, in, "unsent", "a round can end without what was collected being asked for", nil)
			}
		}
		s.setG("missing", tNil)
		s.setG("=next", tNil)
		s.setB("collected", false)
	}
	m.call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		n := methName(ci)
		rn := recvType(ci)
		isLog := rn != nil && rn.Obj().Name() == "ReceiveLog" && m.p.isRepoPkg(rn.Obj().Pkg())
		switch {
		case isLog && n == "MissingSeqNumbers":
			over(s, ci.site)
			looks++
			c.inc("looks for what is missing (states)")
			lookers[s.root.fn] = true
			looked[noConv(ci.arg(0))] = true
			s.setB("looked", true)
			sl := ci.site.Common().Signature().Results().At(0).Type()
			r := fresh("missing", sl)
			s.setG("missing", r)
			return []Outcome{{res: r}}, true
		case isLog && n == "IgnoreSeqNum":
			o := s.g("owed")
			switch {
			case o.isNil() || noConv(ci.arg(1)) != o:
				e.report(s, "forgets", a.name(), ci.site, "the log is told to ignore %s, which isn't what is being dealt with", ci.arg(1))
			case !s.gBool("tracked"):
				e.report(s, "forgets", a.name(), ci.site, "a missing packet can be given up although it wasn't asked for before")
			default:
				c.inc("given up (states)")
				s.setB("given up", true)
			}
			return []Outcome{{}}, true
		case isLog && n == "Add":
			logs = true
			logged[noConv(ci.arg(0))] = true
			num := noConv(ci.arg(1))
			if num.isOp("+") || num.isOp("-") || num.isOp("*") || num.isConst() || callAtom(ci.arg(1), "TrackRemote.ReadRTP", nil) == nil && callAtom(ci.arg(1), "TrackRemote.Read", nil) == nil {
				e.report(s, "logged", a.name(), ci.site, "the log is told that %s was received, which isn't the number of the packet that was read", ci.arg(1))
			}
			s.setB("unlogged", false)
			return []Outcome{{}}, true
		case n == "ReadRTP" && rn != nil && rn.Obj().Name() == "TrackRemote":
			if s.gBool("unlogged") {
				mark(s, ci.site, "unlogged", "a packet can be read without being entered into the log of those received: it is asked for again", nil)
			}
			reads++
			c.inc("packets read (states)")
			s.setB("unlogged", true)
		case n == "WriteRTCP" && len(ci.args) > 1:
			x := ci.arg(1)
			st, ok := x.typ.Underlying().(*types.Slice)
			if !ok {
				break
			}
			k, _ := mkLen(x).int64()
			for i := int64(0); i < k && i < 8; i++ {
				p := stripIface(s.load(indexAddr(x, mkInt(i), st.Elem()), st.Elem()))
				if p.typ == nil || namedOf(p.typ) == nil || namedOf(p.typ).Obj().Name() != "TransportLayerNack" {
					continue
				}
				ps := deref(p.typ).Underlying().(*types.Struct)
				for j := 0; j < ps.NumFields(); j++ {
					v := s.load(fieldAddr(p, ps, j), ps.Field(j).Type())
					switch ps.Field(j).Name() {
					case "MediaSSRC":
						if !isSSRC(v) {
							e.report(s, "ssrc", a.name(), ci.site, "packets of %s are asked for, which isn't the SSRC of the track", v)
						}
					case "Nacks":
						m.asks(e, s, a, v, ci)
					}
				}
				sent++
				c.inc("requests sent (states)")
			}
		}
		return nil, false
	}
	h.Load = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		ms := s.g("missing")
		if ms.isNil() || !addr.isOp("index") || v == s.g("owed") {
			return
		}
		base, idx := elemAt(addr)
		if base != ms {
			return
		}
		// only where it is being gone over, not a look at the first or last for a message
		if hd, _ := loopOf(in); hd == nil {
			return
		}
		settle(s, in)
		if s.cover("=next", idx) {
			return
		}
		s.setG("owed", v)
		s.setB("used", false)
		s.setB("tracked", false)
		s.setG("entry", tNil)
		s.setB("enough", false)
		s.setB("given up", false)
	}
	h.Store = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		if o := s.g("owed"); !o.isNil() && addr.isOp("index") && noConv(v) == o && isU16(v.typ) {
			s.setB("used", true)
			s.setB("collected", true)
		}
	}
	h.Map = func(e *Engine, s *State, op string, mp, k, v *Term, in ssa.Instruction) {
		if o := s.g("owed"); !o.isNil() && op == "lookuphit" && noConv(k) == o {
			s.setB("tracked", true)
			s.setG("entry", v)
		}
	}
	h.Branch = func(e *Engine, s *State, cond *Term, taken bool, in ssa.Instruction) {
		// asked for often enough: some number of its entry isn't below a limit
		if v := s.g("entry"); s.gBool("tracked") && !v.isNil() {
			for cond.isOp("not") {
				cond, taken = cond.args[0], !taken
			}
			part := func(t *Term) bool {
				return t.find(func(u *Term) bool { return u == v || v.isOp("init") && u == v.args[0] }) != nil || !t.isConst() && v.find(func(u *Term) bool { return u == t }) != nil
			}
			if cond.isOp("lt") && (!taken && part(cond.args[0]) || taken && part(cond.args[1])) || cond.isOp("eq") && taken && (part(cond.args[0]) || part(cond.args[1])) {
				s.setB("enough", true)
			}
		}
		if s.gBool("unlogged") && cond.isOp("eq") {
			for i := 0; i < 2; i++ {
				if x := cond.args[i]; cond.args[1-i].isNil() && strings.Contains(x.op, "ReadRTP") && s.decideEq(x, tNil) == -1 && isNamed(x.typ, "error") {
					s.setB("unlogged", false)
				}
			}
		}
		if !s.gBool("collected") {
			return
		}
		if cond.find(func(u *Term) bool {
			if !u.isOp("len") || u.args[0] == s.g("missing") || u.args[0].typ != nil && !isU16(elemOfSlice(u.args[0].typ)) {
				return false
			}
			_, hi := s.bounds(u)
			return hi <= 0 || s.decideEq(u, mkInt(0)) == 1
		}) != nil {
			s.setB("collected", false)
		}
	}
	h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		if op != "recv" && op != "selrecv" || ch == nil || trackRoot(s.root) == nil || s.root.kind != "go" {
			return
		}
		over(s, in)
		if !isTimeChan(ch.typ) {
			return
		}
		if s.gBool("ticked") && !s.gBool("looked") {
			mark(s, in, "tick", "a tick can go by without a look at what is missing", s.root.fn)
		}
		s.setB("ticked", true)
		s.setB("looked", false)
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind == "return" {
			over(s, nil)
		}
	}
	e := m.run(a, h)
	m.call = nil
	e.viol, e.vkeys = nil, map[string]bool{}
	for _, k := range cands {
		switch {
		case k.fn != nil && !lookers[k.fn]:
		case k.key == "unlogged" && !logs:
		default:
			e.report(k.s, k.key, a.name(), k.in, "%s", k.msg)
		}
	}
	for _, v := range e.viol {
		c.add(v)
	}
	if looks > 0 {
		c.need(sent > 0, a.name()+" requests", "%s looks for what is missing but sends no requests", a.name())
		c.need(logs && reads > 0, a.name()+" log", "%s looks for what is missing but logs nothing it reads", a.name())
		for l := range looked {
			c.need(logged[l], a.name()+" same log", "%s looks for what is missing in another log than that of what it reads", a.name())
		}
	}
	return looks
}

// asks: the pairs of a request are all those that were collected.
func (m *adModel) asks(e *Engine, s *State, a *adapter, pairs *Term, ci *CallInfo) {
	p := stripConv(pairs)
	call := callAtom(p, "NackPairs", nil)
	if call == nil {
		call = callAtom(p, "NackPairsFromSequenceNumbers", nil)
	}
	if call == nil {
		e.report(s, "pairs", a.name(), ci.site, "a request asks for %s, which isn't the packing of what was collected", pairs)
		return
	}
	if p != call {
		e.report(s, "pairs", a.name(), ci.site, "a request asks for a part of the pairs only: %s", pairs)
		return
	}
	x := stripConv(call.args[0])
	if x.isOp("slice") {
		lo, ok := x.args[1].int64()
		_, cut := x.args[2].int64()
		if !x.args[1].isNil() && (!ok || lo != 0) || cut {
			e.report(s, "pairs", a.name(), ci.site, "a request asks for a part of what was collected only: %s", x)
			return
		}
	}
	s.setB("collected", false)
	// all of what is missing, as it is
	if x == s.g("missing") {
		s.setG("=next", mkLen(x))
		s.setB("used", true)
	}
}
