package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C40"] = checkFlowStatus }

// C40: media that starts or stops flowing is announced, once each time.

func checkFlowStatus(c *Ctx) {
	c.explain = "typestate over every path of what looks after a track's flow in the transports: a report that isn't the end must differ from what was reported before (kept by the activity itself or in a cell shared under a lock), a difference that was found must be reported before the activity looks again, and the status must follow from comparing what was received last with what had been; and over every path of the server's callback: one status message for a report, none for an end"
	c.assume = append(c.assume, "a track whose packets' sequence number changed between two looks is flowing; the first look is taken to be preceded by silence")
	m := newAdModel(c)
	if m == nil {
		return
	}
	for _, a := range m.adapters {
		m.flowStatus(a)
	}
	sm := newSrvModel(c)
	if sm == nil {
		return
	}
	h, _ := sm.busHandlers()
	if !c.need(h != nil, "handler", "no method of the server package is given to PubSub.Subscribe") {
		return
	}
	reported := 0
	ev := &srvEvents{}
	ev.publish = func(e *Engine, s *State, kind string, v *Term, t types.Type, ci *CallInfo) {
		if kind == "recordingRtpStatusChanged" {
			s.setI("statusMsgs", clampI(s.gInt("statusMsgs")+1))
		}
	}
	ev.exit = func(e *Engine, s *State, kind string, res *Term) {
		r := s.root
		if r.kind != "callback" || !isFlowCallback(r.fn.Signature) || kind != "return" {
			return
		}
		reported++
		c.inc("ways out of the server's flow callback (states)")
		n, closed := s.gInt("statusMsgs"), s.decide(r.args[len(r.args)-1])
		switch {
		case closed != 1 && n != 1:
			e.report(s, "server", "announced", nil, "a report that the flow changed is announced %d times", n)
		case closed == 1 && n != 0:
			e.report(s, "server", "closed", nil, "the end of a track is announced as a change of its flow")
		}
	}
	e := c.engine(sm.hooks(ev))
	e.unroll = 3
	r := e.NewRoot("bus message", h, nil, nil)
	r.data = map[string]any{"handler": true}
	for _, p := range h.Params {
		r.nonNil[r.init.top().regs[p]] = true
	}
	c.explore(e, r)
	c.need(reported > 0, "server callback", "the transports aren't given a callback for changes of the flow")
}

type flowCand struct {
	s      *State
	in     ssa.Instruction
	rule   string
	msg    string
	cells  map[types.Object]bool // only if one of these is what reports are kept in
	by     bool                  // only if the activity reports anything
	into   []any                 // where a packet's number was put
	packet bool
	none   bool // only if reports aren't kept in a cell
}

func (m *adModel) flowStatus(a *adapter) {
	c := m.c
	var cands []*flowCand
	cells := map[types.Object]bool{}
	reporters, lookers := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	compared := map[any]bool{} // what is compared with what it was before
	reports, looks := 0, 0
	h := m.hooks()
	h.Round = func() {
		cands, cells, reports, looks = nil, map[types.Object]bool{}, 0, 0
		reporters, lookers = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		compared = map[any]bool{}
	}
	cand := func(s *State, in ssa.Instruction, k *flowCand) {
		k.s, k.in = s.clone(), in
		cands = append(cands, k)
	}
	told := func(s *State) *Term {
		if t := s.g("toldFlow"); t != nil && !t.isNil() {
			return t
		}
		return tFalse
	}
	sym := func(f types.Object) *Term { return intern(KSym, "field:"+f.Name(), nil, f, 0, nil) }
	settle := func(s *State) {
		for _, x := range s.set("pendCells") {
			if f := x.ref.(types.Object); s.decideEq(s.g("pendOld:"+f.Name()), s.g("pendNew:"+f.Name())) == 1 {
				s.delSet("pendCells", x)
			}
		}
	}
	// what is pending in cells
	pending := func(s *State, in ssa.Instruction) {
		for _, x := range s.set("pendCells") {
			f := x.ref.(types.Object)
			old, v := s.g("pendOld:"+f.Name()), s.g("pendNew:"+f.Name())
			s.delSet("pendCells", x)
			if s.decideEq(old, v) == 1 {
				continue
			}
			cand(s, in, &flowCand{rule: "missed", msg: "a change of the flow is noted, but not reported", cells: map[types.Object]bool{f: true}})
		}
	}
	look := func(s *State, in ssa.Instruction) {
		pending(s, in)
		if !s.gBool("looked") {
			s.setB("looked", true)
		} else if v := s.g("compared"); !v.isNil() {
			looks++
			lookers[s.root.fn] = true
			c.inc("looks at the flow (states)")
			// v: the numbers are the same
			same := v == tTrue
			t := s.decide(told(s))
			if same && t != -1 && !s.gBool("noted") || !same && t != 1 && !s.gBool("noted") {
				cand(s, in, &flowCand{rule: "missed", by: true, msg: "the flow of a track " + map[bool]string{true: "stopped", false: "started"}[same] + " without a report", none: true})
			}
			if same && !s.gBool("noted") {
				cand(s, in, &flowCand{rule: "unnoticed", by: true, msg: "the flow of a track may have stopped without this being noted", cells: map[types.Object]bool{nil: true}})
			}
		}
		if s.g("compared").isNil() {
			s.setG("pairX", tNil)
			s.setG("pairY", tNil)
			s.setG("pairShared", tNil)
			if f := s.g("sawFlowing"); f != nil && !f.isNil() && !s.gBool("noted") && !s.gBool("comparedFirst") {
				cand(s, in, &flowCand{rule: "unnoticed", by: true, msg: "a track that flows is not looked after", cells: map[types.Object]bool{f.ref.(types.Object): true}})
			}
		}
		s.setG("sawFlowing", tNil)
		s.setB("comparedFirst", false)
		s.setG("compared", tNil)
		s.setB("noted", false)
	}
	// a look compares with what the last look found
	pair := func(s *State, x, y *Term, in ssa.Instruction) {
		px, py := s.g("pairX"), s.g("pairY")
		shared := tNil
		if px != nil && !px.isNil() {
			for _, t := range []*Term{x, y} {
				if t == px || t == py {
					shared = t
				}
			}
		}
		if old := s.g("pairShared"); old != nil && !old.isNil() && old == shared {
			cand(s, in, &flowCand{rule: "compared", by: true, msg: "what was received last is compared with what had been received before the last look"})
		}
		s.setG("pairX", x)
		s.setG("pairY", y)
		s.setG("pairShared", shared)
	}
	// packets that are handed over are seen by those who look
	settlePackets := func(s *State, in ssa.Instruction) {
		k := &flowCand{rule: "unseen", msg: "packets are handed over, but their numbers aren't put where the flow is looked after", packet: true}
		for _, x := range s.set("numbered") {
			k.into = append(k.into, x.ref)
			s.delSet("numbered", x)
		}
		if s.gBool("pushed") {
			cand(s, in, k)
		}
		s.setB("pushed", false)
	}
	number := func(s *State, into any, v *Term) {
		if into != nil && isPacketNumber(noConv(v)) {
			s.addSet("numbered", intern(KOp, "numbered", nil, into, 0, nil))
		}
	}
	m.push = func(e *Engine, s *State, kind string, ci *CallInfo) {
		if trackRoot(s.root) != nil {
			c.inc("packet hand-overs (states)")
			s.setB("pushed", true)
		}
	}
	m.call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.mode != "probe" && trackRoot(s.root) != nil {
			switch {
			case strings.HasPrefix(ci.name, "(*sync/atomic.") || strings.HasPrefix(ci.name, "sync/atomic."):
				if strings.Contains(methName(ci), "Store") && len(ci.args) > 1 {
					number(s, placeOf(ci.arg(0)), ci.arg(1))
				}
			case methName(ci) == "ReadRTP":
				settlePackets(s, ci.site)
			}
		}
		if ci.callee.fn != nil || ci.callee.obj != nil || !isFlowCallback(ci.sig) || trackRoot(s.root) == nil {
			return nil, false
		}
		if s.decide(ci.arg(2)) != -1 {
			return []Outcome{{}}, true // C25
		}
		reports++
		reporters[s.root.fn] = true
		c.inc("reports of the flow (states)")
		v := ci.arg(0)
		// what the status says
		if x := s.g("compared"); !x.isNil() && v.isConst() && x == v {
			e.report(s, "status", a.name(), ci.site, "the flow is reported as %v although the opposite was found", v)
		}
		if v.isOp("eq") && isSeqCmp(v) {
			e.report(s, "status", a.name(), ci.site, "the flow is reported as flowing if nothing was received")
		}
		ok := false
		for _, x := range s.set("pendCells") {
			f := x.ref.(types.Object)
			if s.g("pendNew:"+f.Name()) != v {
				continue
			}
			cells[f] = true
			ok = true
			s.delSet("pendCells", x)
			if s.decideEq(s.g("pendOld:"+f.Name()), v) != -1 {
				e.report(s, "repeated", a.name(), ci.site, "the flow may be reported as %v although that is what it had been", v)
			}
		}
		if !ok {
			if s.decideEq(told(s), v) != -1 {
				cand(s, ci.site, &flowCand{rule: "repeated", msg: "the flow may be reported to be as it had been reported before", none: true})
			}
			cand(s, ci.site, &flowCand{rule: "kept", msg: "the flow is reported without this being kept", cells: map[types.Object]bool{nil: true}})
		}
		s.setG("toldFlow", v)
		return []Outcome{{}}, true
	}
	h.Store = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		if trackRoot(s.root) == nil {
			return
		}
		number(s, placeOf(addr), v)
		if !addr.isOp("field") || v.typ == nil && !v.isConst() {
			return
		}
		fv, ok := addr.ref.(*types.Var)
		if !ok || !isBoolT(fv.Type()) {
			return
		}
		old := s.load(addr, fv.Type())
		settle(s)
		if s.inSet("pendCells", sym(fv)) {
			old = s.g("pendOld:" + fv.Name())
		}
		s.addSet("pendCells", sym(fv))
		s.setG("pendOld:"+fv.Name(), old)
		s.setG("pendNew:"+fv.Name(), v)
		if x := v; s.root.kind == "go" {
			for x.isOp("not") {
				x = x.args[0]
			}
			if x.isOp("eq") && isSeqCmp(x) && !s.g("compared").isNil() {
				ok := false
				for _, t := range x.args {
					t = noConv(t)
					ok = ok || t == s.g("pairX") || t == s.g("pairY")
				}
				if !ok {
					cand(s, in, &flowCand{rule: "unnoticed", by: true, msg: "the flow of a track doesn't follow from what was found", cells: map[types.Object]bool{fv: true}})
				}
			}
		}
		s.setB("noted", true)
	}
	h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		if (op == "recv" || op == "selrecv") && ch != nil && isTimeChan(ch.typ) && trackRoot(s.root) != nil && s.root.kind == "go" {
			look(s, in)
		}
	}
	h.Branch = func(e *Engine, s *State, cond *Term, taken bool, in ssa.Instruction) {
		if trackRoot(s.root) == nil {
			return
		}
		neg := false
		for cond.isOp("not") {
			cond, neg = cond.args[0], !neg
		}
		if cond.isOp("eq") && isSeqCmp(cond) && s.root.kind == "go" {
			if s.g("compared").isNil() {
				x, y := noConv(cond.args[0]), noConv(cond.args[1])
				compared[placeOf(x)], compared[placeOf(y)] = true, true
				pair(s, x, y, in)
			}
			s.setG("compared", mkBool(taken != neg))
		}
		if cond.isOp("eq") && (cond.args[0].isConst() || cond.args[1].isConst()) && !isBoolTerm(cond.args[0]) {
			s.setB("comparedFirst", true)
		}
		if f := boolField(cond); f != nil && taken != neg {
			s.setG("sawFlowing", sym(f))
		}
		if cond.isOp("eq") && isBoolTerm(cond.args[0]) && !cond.args[0].isConst() && !cond.args[1].isConst() && (boolField(cond.args[0]) != nil || boolField(cond.args[1]) != nil) {
			s.setB("noted", true)
		}
		settle(s)
		cond.find(func(x *Term) bool {
			if x.typ != nil {
				if sg, ok := x.typ.Underlying().(*types.Signature); ok && isFlowCallback(sg) && s.decideEq(x, tNil) == 1 {
					// nobody to tell
					for _, x := range s.set("pendCells") {
						s.delSet("pendCells", x)
					}
				}
			}
			return false
		})
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind == "return" {
			settlePackets(s, nil)
			pending(s, nil)
		}
	}
	m.split = true
	e := m.run(a, h)
	m.split, m.call, m.push = false, nil, nil
	e.viol, e.vkeys = nil, map[string]bool{}
	for _, k := range cands {
		if k.packet {
			hit := false
			for _, x := range k.into {
				hit = hit || compared[x]
			}
			if hit {
				continue
			}
		}
		switch {
		case k.by && !reporters[k.s.root.fn]:
			continue
		case k.none && len(cells) > 0:
			continue
		case k.cells[nil] && len(cells) == 0:
			continue
		case k.cells != nil && !k.cells[nil]:
			hit := false
			for f := range k.cells {
				hit = hit || cells[f]
			}
			if !hit {
				continue
			}
		}
		e.report(k.s, k.rule, a.name(), k.in, "%s", k.msg)
	}
	for _, v := range e.viol {
		c.add(v)
	}
	c.need(reports > 0, a.name()+" reports", "%s doesn't report changes of the flow", a.name())
	looked := 0
	for f := range lookers {
		if reporters[f] {
			looked += looks
		}
	}
	c.need(looked > 0, a.name()+" looks", "%s doesn't look from time to time whether a track still flows", a.name())
}

// placeOf is the field or variable something was read from, or is put into.
func placeOf(t *Term) any {
	for t != nil {
		if t.isOp("field") || t.isOp("sel") {
			if v, ok := t.ref.(*types.Var); ok {
				return v
			}
		}
		if t.k == KObj {
			return t.ref
		}
		if len(t.args) == 0 {
			return nil
		}
		t = t.args[0]
	}
	return nil
}

func boolField(t *Term) types.Object {
	for t.isOp("not") {
		t = t.args[0]
	}
	if !isBoolTerm(t) || t.isOp("eq") || t.isOp("lt") {
		return nil
	}
	if v, ok := placeOf(t).(*types.Var); ok && isBoolT(v.Type()) {
		return v
	}
	return nil
}

func isBoolTerm(t *Term) bool { return t.typ != nil && isBoolT(t.typ) }

func isPacketNumber(t *Term) bool {
	v, ok := placeOf(t).(*types.Var)
	return ok && v.Name() == "SequenceNumber"
}

// isSeqCmp: a comparison of two numbers, neither of which is fixed.
func isSeqCmp(t *Term) bool {
	if len(t.args) != 2 {
		return false
	}
	for _, x := range t.args {
		x = noConv(x)
		if x.isNil() || x.typ == nil || !isInteger(x.typ) {
			return false
		}
		if x.isConst() {
			return false
		}
	}
	return !isLenCmp(t)
}

func isLenCmp(t *Term) bool {
	return t.find(func(u *Term) bool { return u.isOp("len") }) != nil
}
