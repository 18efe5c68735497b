package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C39"] = checkKeyframes }

// C39: what the recorder asks its transport for gets to the publisher.

func checkKeyframes(c *Ctx) {
	c.explain = "typestate over every path of the transports, of the callbacks of media tracks and of the goroutines they start: a video packet is handed over only after the recorder was given the transport to ask for keyframes and after the track's SSRC became one that is asked for; every request goes over all the SSRCs to the end, each of which is named in a picture loss indication that is sent; and each tick of a video track's timer for keyframes sends one with its SSRC"
	c.assume = append(c.assume, "a picture loss indication that is written to the connection reaches the publisher")
	m := newAdModel(c)
	if m == nil {
		return
	}
	for _, a := range m.adapters {
		m.keyframes(a)
	}
}

func noConv(t *Term) *Term {
	for t != nil && (t.isOp("conv") || t.isOp("iface") || t.isOp("assertval")) {
		t = t.args[0]
	}
	return t
}

// isSSRC: the SSRC of the track a callback was given.
func isSSRC(t *Term) bool {
	t = noConv(t)
	return t != nil && strings.HasPrefix(t.op, "call:") && strings.Contains(t.op, "TrackRemote.SSRC")
}

// hasMethod: a pointer or interface type has a method.
func methodSetHas(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func isU32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

// loopExit: does a branch leave the innermost loop that an instruction is in?
func loopOf(in ssa.Instruction) (head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	b := in.Block()
	for _, h := range b.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		l := map[*ssa.BasicBlock]bool{h: true}
		var back func(x *ssa.BasicBlock)
		back = func(x *ssa.BasicBlock) {
			if l[x] {
				return
			}
			l[x] = true
			for _, p := range x.Preds {
				back(p)
			}
		}
		for _, p := range h.Preds {
			if h.Dominates(p) {
				back(p)
			}
		}
		if len(l) > 1 && l[b] && (body == nil || len(l) < len(body)) {
			head, body = h, l
		}
	}
	return
}

// loops are the loops of a function that go over SSRCs.
func loops(f *ssa.If) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && isU32(deref(ia.Type())) {
				if head, body := loopOf(in); head != nil {
					r[head] = body
				}
			}
		}
	}
	return r
}

type kfCand struct {
	s    *State
	in   ssa.Instruction
	key  string
	msg  string
	from ssa.Instruction        // only if this is where what is asked for comes from
	fn   *ssa.Function          // only if this is a timer
	put  map[types.Object]bool  // only if none of these is asked for
	kids map[*ssa.Function]bool // only if none of these is a timer
}

func (m *adModel) keyframes(a *adapter) {
	c := m.c
	var cands []*kfCand
	asked := map[types.Object]bool{}    // fields whose SSRCs are asked for
	timers := map[*ssa.Function]bool{}  // activities that send requests by themselves
	readers := map[*ssa.Function]bool{} // activities that read tracks
	sending := map[ssa.Instruction]bool{}
	feeding := map[ssa.Instruction]bool{}
	origin := map[*Term]types.Object{} // what was loaded from a field of the transport
	requests, sent, drops, pushes, buffers := 0, 0, 0, 0, 0
	reset := func() {
		cands = nil
		requests, sent, drops, pushes, buffers = 0, 0, 0, 0, 0
		sending, feeding = map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
		asked, timers, readers = map[types.Object]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	}
	cand := func(s *State, in ssa.Instruction, k *kfCand) {
		k.s, k.in = s.clone(), in
		cands = append(cands, k)
	}
	instrs := map[int]ssa.Instruction{}
	ids := map[ssa.Instruction]int{}
	idOf := func(in ssa.Instruction) int {
		if ids[in] == 0 {
			ids[in] = len(ids) + 1
			instrs[ids[in]] = in
		}
		return ids[in]
	}
	mark := func(s *State, k string, in ssa.Instruction) {
		s.setI(k, int64(idOf(in)))
	}
	copied := map[*Term]types.Object{}
	// the container's field
	field := func(ct *Term) types.Object {
		for i := 0; ct != nil && i < 12; i++ {
			switch {
			case origin[ct] != nil:
				return origin[ct]
			case ct.isOp("conv"), strings.HasPrefix(ct.op, "call:slices.Clone"):
				ct = ct.args[0]
			case ct.isOp("slice"):
				if lo, ok := ct.args[1].int64(); !ok && !ct.args[1].isNil() || lo != 0 {
					return nil
				}
				if hi := ct.args[2]; !hi.isNil() && hi != mkLen(ct.args[0]) && copied[ct.args[0]] == nil {
					return nil
				}
				ct = ct.args[0]
			case copied[ct] != nil:
				return copied[ct]
			case ct.isOp("appendv") && (ct.args[0].isNil() || isZeroLen(ct.args[0])):
				ct = ct.args[1]
			default:
				return nil
			}
		}
		return nil
	}
	isReq := func(r *Root) bool { return r.kind == "entry" && r.fn.Name() == "RequestKeyframe" }
	isDrop := func(r *Root) bool { return r.kind == "callback" && strings.Contains(r.lib, "PacketDropped") }
	// nobody to ask
	absent := func(s *State) bool {
		return s.gBool("noConn")
	}
	// done with the SSRC that was last met
	settle := func(e *Engine, s *State, in ssa.Instruction) {
		o := s.g("owed")
		if o.isNil() {
			return
		}
		s.setG("owed", tNil)
		prepared := s.gBool("prepared")
		s.setB("prepared", false)
		if s.gBool("used") || absent(s) || s.gBool("noTargets") {
			return
		}
		if prepared {
			s.setB("pending", true)
			feeding[instrs[int(s.gInt("owedAt"))]] = true
			return
		}
		cand(s, in, &kfCand{key: "each", msg: "a request goes over the SSRC of a track without asking for it", from: instrs[int(s.gInt("owedAt"))]})
	}
	targetsLeft := func(s *State, in ssa.Instruction) {
		if s.gBool("targetLoop") {
			cand(s, in, &kfCand{key: "publisher", msg: "a request leaves out publishers that are left"})
		}
		s.setB("targetLoop", false)
	}
	met := func(e *Engine, s *State, x, ct *Term, in ssa.Instruction) {
		settle(e, s, in)
		targetsLeft(s, in)
		if f := field(ct); f != nil {
			s.addSet("fields", intern(KSym, "field:"+f.Name(), nil, f, 0, nil))
		}
		s.setG("owed", x)
		mark(s, "owedAt", in)
		s.setB("used", false)
		s.setB("noTargets", false)
		s.setB("targets", false)
		s.setB("noConn", false)
		if head, _ := loopOf(in); head != nil {
			l := head.Instrs[len(head.Instrs)-1]
			s.setB("open:"+itoa(idOf(l)), true)
			mark(s, "loop:"+itoa(idOf(l)), in)
		}
	}
	settleTarget := func(s *State, in ssa.Instruction) {
		if t := s.g("target"); !t.isNil() && !s.gBool("told") {
			cand(s, in, &kfCand{key: "publisher", msg: "a request passes over a publisher without asking it"})
		}
		s.setG("target", tNil)
	}
	pli := func(e *Engine, s *State, ssrc, to *Term, ci *CallInfo) {
		sent++
		c.inc("picture loss indications (states)")
		if to != nil && !s.g("target").isNil() && noConv(to) == s.g("target") {
			s.setB("told", true)
		}
		x := noConv(ssrc)
		s.setB("asked", true)
		o := s.g("owed")
		switch {
		case !o.isNil() && x.find(func(u *Term) bool { return u == o }) != nil:
			s.setB("used", true)
			sending[instrs[int(s.gInt("owedAt"))]] = true
			for _, f := range s.set("fields") {
				asked[f.ref.(types.Object)] = true
			}
			c.sample("%s: %s is asked for", e.pos(ci.site), x)
		case trackRoot(s.root) != nil && isSSRC(x):
			s.setB("ticked", false)
			if s.root.kind == "go" && !isDrop(s.root) {
				timers[s.root.fn] = true
			}
		case s.root.kind == "entry" && len(s.root.fn.Params) == 2 && x == s.root.args[1]:
		default:
			e.report(s, "ssrc", a.name(), ci.site, "a picture loss indication names %s, which isn't the SSRC of a video track", ssrc)
		}
	}
	wait := func(s *State, in ssa.Instruction) {
		if s.gBool("ticked") && !absent(s) && !s.gBool("noTargets") {
			cand(s, in, &kfCand{key: "tick", msg: "the timer goes on without a keyframe having been asked for", fn: s.root.fn})
		}
		s.setB("ticked", true)
		s.setB("noTargets", false)
		s.setB("targets", false)
		s.setB("noConn", false)
	}
	m.push = func(e *Engine, s *State, kind string, ci *CallInfo) {
		if kind != "video" || trackRoot(s.root) == nil {
			return
		}
		pushes++
		c.inc("hand-overs of video packets (states)")
		k := s.g("kfr")
		switch {
		case !k.isNil() && noConv(k) != s.g("recv"):
			e.report(s, "requester", a.name(), ci.site, "the recorder was given %s to ask for keyframes instead of the transport", k)
		case k.isNil() && !cannot(s):
			e.report(s, "requester", a.name(), ci.site, "a video packet is handed over although the recorder was not given the transport to ask for keyframes")
		}
		put := map[types.Object]bool{}
		for _, f := range s.set("put") {
			put[f.ref.(types.Object)] = true
		}
		cand(s, ci.site, &kfCand{key: "known", msg: "a video packet is handed over although the track's SSRC isn't one that requests go over", put: put})
	}
	m.call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		n := methName(ci)
		switch {
		case n == "SetKeyframeRequester":
			s.setG("kfr", ci.arg(1))
			return []Outcome{{}}, true
		case n == "WritePLI" && !m.p.isRepoPkg(pkgOfCall(ci)):
			pli(e, s, ci.arg(1), ci.arg(0), ci)
		case n == "WriteRTCP" && len(ci.args) > 1:
			x := ci.arg(1)
			sg := ci.site.Common().Signature().Params()
			st, ok := sg.At(sg.Len() - 1).Type().Underlying().(*types.Slice)
			if !ok {
				break
			}
			k, known := mkLen(x).int64()
			if !known && (s.gBool("pending") || s.gBool("prepared")) {
				// all that were put together, not yet the one that is being prepared
				sent++
				s.setB("pending", false)
				s.setB("asked", true)
				for _, f := range s.set("fields") {
					asked[f.ref.(types.Object)] = true
				}
				if s.gBool("prepared") {
					s.setB("used", true)
				}
			}
			for i := int64(0); i < k && i < 8; i++ {
				p := s.load(indexAddr(x, mkInt(i), st.Elem()), st.Elem())
				p = stripIface(p)
				if p.typ == nil || namedOf(p.typ) == nil || namedOf(p.typ).Obj().Name() != "PictureLossIndication" {
					continue
				}
				ps := deref(p.typ).Underlying().(*types.Struct)
				for j := 0; j < ps.NumFields(); j++ {
					if ps.Field(j).Name() == "MediaSSRC" {
						pli(e, s, s.load(fieldAddr(p, ps, j), ps.Field(j).Type()), nil, ci)
					}
				}
			}
		case n == "ReadRTP" || (n == "Read" && recvType(ci) != nil && recvType(ci).Obj().Name() == "TrackRemote"):
			readers[s.root.fn] = true
			s.setB("reads", true)
		case strings.HasSuffix(ci.name, "jitter.NewBuffer"):
			buffers++
		}
		return nil, false
	}
	h := m.hooks()
	h.Round = reset
	h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		if (op == "recv" || op == "selrecv") && ch != nil && isTimeChan(ch.typ) && trackRoot(s.root) != nil && s.root.kind == "go" {
			wait(s, in)
		}
	}
	h.Branch = func(e *Engine, s *State, cond *Term, taken bool, in ssa.Instruction) {
		cond.find(func(x *Term) bool {
			if origin[x] != nil && x.typ != nil && isPtr(x.typ) && s.decideEq(x, tNil) == 1 {
				if n := namedOf(x.typ); n != nil && !m.p.isRepoPkg(n.Obj().Pkg()) {
					s.setB("noConn", true)
				}
			}
			return false
		})
		// nothing was put together after all
		if s.gBool("pending") && cond.find(func(u *Term) bool {
			if !u.isOp("len") || field(u.args[0]) != nil {
				return false
			}
			if t := u.args[0].typ; t != nil {
				st, ok := t.Underlying().(*types.Slice)
				if !ok || !types.IsInterface(st.Elem()) {
					return false
				}
			}
			_, hi := s.bounds(u)
			return hi <= 0 || s.decideEq(u, mkInt(0)) == 1
		}) != nil {
			s.setB("pending", false)
		}
		// loops that come to their end
		if f, ok := in.(*ssa.If); ok {
			t := f.Block().Succs[1]
			if taken {
				t = f.Block().Succs[0]
			}
			if body := loops(f)[f.Block()]; body != nil && !body[t] && (isReq(s.root) || isDrop(s.root)) {
				settle(e, s, in)
				s.setB("ended", true)
				s.setB("open:"+itoa(idOf(f)), false)
			}
		}
	}
	h.Map = func(e *Engine, s *State, op string, mp, k, v *Term, in ssa.Instruction) {
		mt, ok := mp.typ.Underlying().(*types.Map)
		if !ok {
			return
		}
		switch op {
		case "range":
			switch {
			case isU32(mt.Key()) && (isReq(s.root) || isDrop(s.root)):
				met(e, s, k, mp, in)
			case methodSetHas(mt.Elem(), "WritePLI"):
				settleTarget(s, in)
				s.setG("target", v)
				s.setB("told", false)
				s.setB("targets", true)
				s.setB("targetLoop", true)
			}
		case "rangeend":
			switch {
			case isU32(mt.Key()) && (isReq(s.root) || isDrop(s.root)):
				settle(e, s, in)
				s.setB("ended", true)
				if head, _ := loopOf(in); head != nil {
					s.setB("open:"+itoa(idOf(head.Instrs[len(head.Instrs)-1])), false)
				}
			case methodSetHas(mt.Elem(), "WritePLI"):
				settleTarget(s, in)
				s.setB("targetLoop", false)
				if !s.gBool("targets") {
					s.setB("noTargets", true)
				}
			}
		case "update":
			f := field(mp)
			if f != nil && isSSRC(k) && trackRoot(s.root) != nil {
				s.addSet("put", intern(KSym, "field:"+f.Name(), nil, f, 0, nil))
			}
		case "delete", "clear":
			f := field(mp)
			if f == nil || op == "delete" && isSSRC(k) {
				break
			}
			cand(s, in, &kfCand{key: "forgotten", msg: "SSRCs that requests go over are forgotten", put: map[types.Object]bool{f: true}})
		}
	}
	h.Copy = func(e *Engine, s *State, dst, src *Term) {
		if f := field(src); f != nil {
			copied[rootOf(dst)] = f
			copied[dst] = f
		}
	}
	h.Load = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		if addr.isOp("field") && addr.args[0] == s.g("recv") {
			if fv, ok := addr.ref.(types.Object); ok {
				origin[v] = fv
			}
		}
		if addr.isOp("index") && v.typ != nil && isU32(v.typ) && (isReq(s.root) || isDrop(s.root)) {
			met(e, s, v, addr.args[0], in)
		}
	}
	h.Store = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		if o := s.g("owed"); !o.isNil() && v == o && addr.isOp("index") {
			s.setB("used", true)
			feeding[instrs[int(s.gInt("owedAt"))]] = true
		}
		if o := s.g("owed"); !o.isNil() && addr.isOp("field") {
			if fv, ok := addr.ref.(*types.Var); ok && fv.Name() == "MediaSSRC" && noConv(v).find(func(u *Term) bool { return u == o }) != nil {
				s.setB("prepared", true)
			}
		}
		if addr.isOp("field") && addr.args[0] == s.g("recv") {
			fv, ok := addr.ref.(types.Object)
			if !ok {
				return
			}
			sl, isSl := fv.Type().Underlying().(*types.Slice)
			if !isSl || !isU32(sl.Elem()) {
				return
			}
			if v.find(isSSRC) != nil {
				s.addSet("put", intern(KSym, "field:"+fv.Name(), nil, fv, 0, nil))
			}
			if v.find(func(u *Term) bool { return origin[u] == fv }) == nil {
				cand(s, in, &kfCand{key: "forgotten", msg: "SSRCs that requests go over are forgotten", put: map[types.Object]bool{fv: true}})
			}
		}
	}
	h.Spawn = func(e *Engine, s *State, r *Root) {
		s.setB("cannot", cannot(s))
		g := map[string]*Term{}
		for _, k := range []string{"recv", "kfr", "cannot", "put"} {
			if v := s.ghost[k]; v != nil {
				g[k] = v
			}
		}
		r.data["ghost"] = g
		if trackRoot(s.root) != nil && r.kind == "go" {
			s.addSet("kids", intern(KFunc, "", nil, r.fn, 0, nil))
		}
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind != "return" {
			return
		}
		settle(e, s, nil)
		settleTarget(s, nil)
		targetsLeft(s, nil)
		r := s.root
		// what was put together but not sent
		if (isReq(r) || isDrop(r)) && s.gBool("pending") && !absent(s) {
			cand(s, nil, &kfCand{key: "each", msg: "a request puts together picture loss indications that it doesn't send"})
		}
		// loops that were left early
		if isReq(r) || isDrop(r) {
			for k, v := range s.ghost {
				if strings.HasPrefix(k, "open:") && v == tTrue && !absent(s) {
					cand(s, nil, &kfCand{key: "all", msg: "a request leaves out SSRCs that are left", from: instrs[int(s.gInt("loop:"+k[5:]))]})
				}
			}
		}
		switch {
		case isReq(r):
			requests++
			c.inc("ways out of a request (states)")
			if !s.gBool("asked") && !absent(s) && !s.gBool("noTargets") && !emptyOf(s, func(ct *Term) bool { return field(ct) != nil }) && !s.gBool("ended") {
				e.report(s, "ignored", a.name(), nil, "a request can end without a keyframe having been asked for")
			}
		case r.kind == "entry" && r.fn.Name() == "RequestKeyframeForSSRC":
			if !s.gBool("asked") && !absent(s) && !s.gBool("noTargets") {
				e.report(s, "ignored", a.name()+"|for SSRC", nil, "a request can end without a keyframe having been asked for")
			}
		case isDrop(r):
			drops++
			m.kinds(s, func(*Term) bool { return true })
			if !m.not["video"] && !s.gBool("asked") && !absent(s) && !s.gBool("noTargets") && !s.gBool("ended") && !emptyOf(s, func(ct *Term) bool { return field(ct) != nil }) {
				e.report(s, "ignored", a.name()+"|dropped", nil, "packets of a video track can be given up on without a keyframe being asked for")
			}
		case trackRoot(r) == r:
			_, vi := m.kinds(s, func(*Term) bool { return true })
			if vi != 1 || m.not["video"] {
				break
			}
			kids := map[*ssa.Function]bool{}
			for _, k := range s.set("kids") {
				kids[k.ref.(*ssa.Function)] = true
			}
			cand(s, nil, &kfCand{key: "timer", msg: "a video track is read without keyframes being asked for from time to time", kids: kids})
		}
	}
	e := m.run(a, h)
	m.push, m.call = nil, nil
	e.viol, e.vkeys = nil, map[string]bool{}
	for _, k := range cands {
		switch {
		case k.key == "forgotten":
			hit := false
			for f := range k.put {
				hit = hit || asked[f]
			}
			if !hit {
				continue
			}
		case k.put != nil:
			known := false
			for f := range k.put {
				known = known || asked[f]
			}
			if known {
				continue
			}
		case k.kids != nil:
			reads, timed := readers[trackRoot(k.s.root).fn] && k.s.gBool("reads"), false
			for f := range k.kids {
				reads = reads || readers[f]
				timed = timed || timers[f]
			}
			if !reads || timed {
				continue
			}
		case k.fn != nil && !timers[k.fn]:
			continue
		case k.from != nil && !sending[k.from] && !feeding[k.from]:
			continue
		}
		e.report(k.s, k.key, a.name(), k.in, "%s", k.msg)
	}
	for _, v := range e.viol {
		c.add(v)
	}
	c.need(pushes > 0, a.name()+" hand-over", "%s hands no video packets to the recorder", a.name())
	c.need(requests > 0, a.name()+" requests", "%s can't be asked for keyframes", a.name())
	c.need(sent > 0, a.name()+" sends", "%s sends no picture loss indications", a.name())
	c.need(buffers == 0 || drops > 0, a.name()+" drops", "%s isn't told by its jitter buffer about packets that are given up on", a.name())
	n := 0
	for _, b := range asked {
		if b {
			n++
		}
	}
	c.need(n > 0, a.name()+" SSRCs", "the requests of %s don't go over the SSRCs of its tracks", a.name())
}

// cannot: the recorder has no use for a keyframe requester.
func cannot(s *State) bool {
	if s.gBool("cannot") {
		return true
	}
	for f, v := range s.facts {
		if t, ok := f.ref.(types.Type); ok && !v && f.isOp("assertok") && types.IsInterface(t) && methodSetHas(t, "SetKeyframeRequester") {
			return true
		}
	}
	return false
}

// emptyOf: a container is known to be empty.
func emptyOf(s *State, of func(*Term) bool) bool {
	for f, v := range s.facts {
		if v && f.isOp("eq") || !v && f.isOp("lt") {
			if f.find(func(u *Term) bool { return u.isOp("len") && of(u.args[0]) }) != nil {
				return true
			}
		}
	}
	return false
}
