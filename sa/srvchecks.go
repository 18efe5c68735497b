package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C37"} {
		id := id
		checks[id] = func(c *Ctx) { checkSessions(c, id) }
	}
}

// boundOf is the function behind a bound-method or other wrapper.
func boundOf(p *Prog, f *ssa.Function) *ssa.Function {
	if f != nil && f.Synthetic != "" {
		if o, ok := f.Object().(*types.Func); ok {
			if g := p.SSA.FuncValue(o); g != nil {
				return g
			}
		}
	}
	return f
}

// busHandlers are the functions given to PubSub.Subscribe.
func (m *srvModel) busHandlers() (server *ssa.Function, all []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for _, f := range m.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				name := ""
				if cc.IsInvoke() {
					name = cc.Method.Name()
				} else if g := cc.StaticCallee(); g != nil {
					name = g.Name()
				}
				if name != "Subscribe" {
					continue
				}
				for _, a := range cc.Args {
					for {
						if ct, ok := a.(*ssa.ChangeType); ok {
							a = ct.X
							continue
						}
						break
					}
					var fn *ssa.Function
					switch a := a.(type) {
					case *ssa.MakeClosure:
						fn = a.Fn.(*ssa.Function)
					case *ssa.Function:
						fn = a
					}
					if fn == nil || fn.Signature.Params().Len() != 2 {
						continue
					}
					fn = boundOf(m.p, fn)
					if !seen[fn] {
						seen[fn] = true
						all = append(all, fn)
					}
				}
			}
		}
	}
	for _, fn := range all {
		if rv := fn.Signature.Recv(); rv != nil && fn.Pkg != nil && relPkg(m.p, fn.Pkg.Pkg) == "internal/server" {
			server = fn
		}
	}
	return
}

// stoppers are the exported operations of the server that end sessions without
// a bus message (shutdown).
func (m *srvModel) stoppers(server *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < server.NumMethods(); i++ {
		f := m.p.SSA.FuncValue(server.Method(i))
		if f == nil || f.Blocks == nil || !server.Method(i).Exported() {
			continue
		}
		used := false
		for _, g := range m.p.Funcs {
			if g.Pkg == nil || relPkg(m.p, g.Pkg.Pkg) == "internal/server" {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
						used = true
					}
				}
			}
		}
		if used && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			out = append(out, f)
		}
	}
	return out
}

func checkSessions(c *Ctx, id string) {
	c.explain = "abstract interpretation (typestate) of every path of the bus handler, of the callbacks it installs on the transports and of the shutdown, over the SSA form; registry, gauge, recorders, transports and published messages are tracked as typestate"
	m := newSrvModel(c)
	if m == nil {
		return
	}
	h, _ := m.busHandlers()
	if !c.need(h != nil, "handler", "no method of the server package is given to PubSub.Subscribe") {
		return
	}
	// first pass: which field of a session is its key in the registry
	m.run(c, "", h)
	if !c.need(len(m.idCand) == 1 && m.nStored > 0, "session id", "%d fields of the session equal its key whenever it is registered (%d registrations)", len(m.idCand), m.nStored) {
		return
	}
	for f := range m.idCand {
		m.idField = f
	}
	c.count = map[string]int{}
	m.run(c, id, h)
	if id == "C02" || id == "C06" {
		c.transportEnds(id)
	}
}

func (m *srvModel) run(c *Ctx, id string, handler *ssa.Function) {
	ev := &srvEvents{}
	hk := m.hooks(ev)
	var e *Engine
	if id == "" {
		e = NewEngine(m.p, hk)
		if c.initH == nil {
			c.initH = buildInitHeap(m.p)
		}
		e.initHeap = c.initH
	} else {
		e = c.engine(hk)
	}
	rep := func(s *State, prop, rule, key string, ci *CallInfo, format string, a ...any) {
		if prop != id {
			return
		}
		var in ssa.Instruction
		if ci != nil {
			in = ci.site
		}
		e.report(s, rule, key, in, format, a...)
	}
	ends := map[string]int{}
	if id == "C41" {
		m.givenMedia(ev, hk, rep)
	}
	ev.undecided = func(e *Engine, s *State, what string, ci *CallInfo) {
		rep(s, id, "undecided", what, ci, "cannot tell %s", what)
	}
	ev.publish = func(e *Engine, s *State, kind string, v *Term, t types.Type, ci *CallInfo) {
		s.note("%s: %s is published", e.pos(ci.site), kind)
		sid, _ := wireField(s, v, t, "recordingSessionId")
		switch kind {
		case "startRecordingResponse":
			m.answered(e, s, rep, v, t, sid, ci)
		case "recordingStopped":
			m.stopped(e, s, rep, v, t, sid, ci)
		}
	}
	ev.effect = func(e *Engine, s *State, what string, ci *CallInfo) {
		req := s.gStr(ghReq)
		if s.root.kind != "entry" || s.root.data["handler"] == nil {
			return
		}
		switch req {
		case "StartRecording":
			if what == "uses a transport (Init)" {
				m.c.inc("transports set up (states)")
				if s.g("reg").isNil() {
					rep(s, "C06", "order", "registered before set-up", ci, "the transport, which can end the session from then on, is set up before the session is registered: ending it would not free its id")
				}
			}
			m.guarded(e, s, rep, what, ci)
		case "StopRecording":
			if len(s.set("hit")) == 0 {
				rep(s, "C04", "effect", "stop of unknown session "+what, ci, "a stop request for a session that was not found %s", what)
			}
		}
	}
	ev.exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind == "exit" || id == "" {
			return
		}
		r := s.root
		ends[r.name]++
		handlerRoot := r.kind == "entry" && r.data["handler"] != nil
		if handlerRoot {
			m.handlerExit(e, s, rep, kind)
		}
		m.wonExit(e, s, rep, kind)
		m.triggers(e, s, rep, kind)
	}
	e.unroll = 3
	r := e.NewRoot("bus message", handler, nil, nil)
	r.data = map[string]any{"handler": true}
	for _, p := range handler.Params {
		r.nonNil[r.init.top().regs[p]] = true
	}
	roots := []*Root{r}
	srv := namedOf(handler.Signature.Recv().Type())
	for _, f := range m.stoppers(srv) {
		roots = append(roots, e.NewRoot("shutdown "+f.Name(), f, nil, nil))
	}
	if id == "" {
		e.Explore(roots)
		return
	}
	c.explore(e, roots...)
	if m.several {
		n := len(e.viol)
		for _, f := range m.deferred {
			f()
		}
		for _, v := range e.viol[n:] {
			c.add(v)
		}
	}
	m.instances(c, id, ends, e)
}

type repFn func(s *State, prop, rule, key string, ci *CallInfo, format string, a ...any)

// answered: a start response is published.
func (m *srvModel) answered(e *Engine, s *State, rep repFn, v *Term, t types.Type, sid *Term, ci *CallInfo) {
	st, _ := wireField(s, v, t, "status")
	status := constStr(st)
	req := s.gStr(ghReq)
	s.setI("answers", clampI(s.gInt("answers")+1))
	if s.root.data["handler"] == nil {
		rep(s, "C01", "response", "outside", ci, "a start response is published outside of the handling of bus messages, by %s", s.root.name)
		return
	}
	if req != "StartRecording" {
		rep(s, "C01", "response", "other message", ci, "a start response is published for a message that isn't a start request (%q)", req)
		return
	}
	if s.gInt("answers") > 1 {
		rep(s, "C01", "count", "twice", ci, "a second start response is published for the same request")
	}
	want := m.reqField(s, "recordingSessionId")
	if sid == nil || want == nil || (sid != want && s.decideEq(sid, want) != 1) {
		rep(s, "C01", "session id", "response", ci, "the response carries session id %v instead of the request's", sid)
	}
	switch status {
	case "ok":
		m.c.inc("ok responses (states)")
		if s.gBool("failed") || s.gBool("hitseen") || len(s.set("hit")) > 0 {
			rep(s, "C01", "status", "ok after failure", ci, "the answer is \"ok\" although a set-up step failed")
		}
		if s.g("rec").isNil() || len(s.set("inited")) == 0 || s.g("reg").isNil() {
			rep(s, "C01", "status", "ok without set-up", ci, "the answer is \"ok\" but recorder, session or transport were not set up")
		}
		if a := s.g("answer"); !a.isNil() && a.typ != nil && !isString(a.typ) {
			sdp, _ := wireField(s, v, t, "sdp")
			if sdp != nil && isAddrLike(sdp) {
				x := s.load(sdp, types.Typ[types.String])
				if !derives(s, x, a) {
					rep(s, "C01", "answer", "sdp", ci, "the SDP of the answer (%v) isn't the transport's", x)
				}
			} else {
				rep(s, "C01", "answer", "sdp", ci, "the answer carries no SDP")
			}
		}
		fn, _ := wireField(s, v, t, "fileName")
		if fn == nil || fn.isNil() {
			rep(s, "C01", "answer", "fileName", ci, "the answer carries no file name")
		} else if x := s.load(fn, types.Typ[types.String]); !x.isOp("filepath") {
			rep(s, "C01", "answer", "fileName", ci, "the answer's file name isn't the recorder's path: %v", x)
		}
		s.setS("answered", "ok")
	case "failed":
		m.c.inc("failed responses (states)")
		if !s.gBool("recmade") && !s.gBool("failed") && len(s.set("hit")) == 0 {
			m.c.inc("refusals (states)")
			if what := m.maybeAcceptable(s); what != "" {
				rep(s, "C37", "refused", what, ci, "a start request for %s is answered \"failed\" without anything having been tried", what)
			}
		}
		s.setS("answered", "failed")
	default:
		rep(s, "C01", "status", "value", ci, "the response has status %v", st)
	}
}

// derives: was x computed from y?
func derives(s *State, x, y *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term, d int) bool
	rec = func(t *Term, d int) bool {
		if t == y {
			return true
		}
		if d > 20 || t == nil || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a, d+1) {
				return true
			}
		}
		if isAddrLike(t) {
			if v, ok := s.heap[t]; ok && rec(v, d+1) {
				return true
			}
			for c, v := range s.heap {
				if isUnder(c, t) && rec(v, d+1) {
					return true
				}
			}
		}
		return false
	}
	return rec(x, 0)
}

// guarded: nothing is done for a start request that isn't acceptable.
func (m *srvModel) guarded(e *Engine, s *State, rep repFn, what string, ci *CallInfo) {
	sid := m.reqField(s, "recordingSessionId")
	if len(s.set("hit")) > 0 {
		rep(s, "C03", "guard", "active "+what, ci, "for a start request whose session id is active, the handler %s", what)
	} else if sid == nil || !s.inSet("miss", sid) {
		rep(s, "C03", "guard", "unchecked "+what, ci, "the handler %s before it made sure that the session id is not active", what)
	}
	if what2, ok := m.acceptable(s); !ok {
		rep(s, "C03", "guard", "invalid "+what, ci, "the handler %s for a request that %s", what, what2)
	}
	m.c.inc("guarded effects (states)")
}

// acceptable: the facts of the path say that the request is what the protocol asks for.
func (m *srvModel) acceptable(s *State) (string, bool) {
	o := s.g(ghReqObj)
	ad := m.reqField(s, "adapter")
	if ad == nil {
		return "has no adapter", false
	}
	path := func(names ...string) *Term {
		v, t := o, o.typ
		for _, n := range names {
			if v.isNil() || (v != o && !s.nonNil(v) && s.decideEq(v, tNil) != -1) {
				return nil
			}
			v, t = wireField(s, v, t, n)
			if v == nil {
				return nil
			}
		}
		return v
	}
	notEmpty := func(x *Term) bool {
		if x == nil {
			return false
		}
		if s.decideEq(x, mkStr("")) == -1 {
			return true
		}
		lo, _ := s.bounds(mkLen(x))
		return lo >= 1
	}
	isLK := s.decideEq(ad, mkConst(mkStr("livekit").c, ad.typ))
	if isLK == 0 {
		return "may name either adapter", false
	}
	if isLK == 1 {
		if !notEmpty(path("adapterOptions", "livekit", "room")) {
			return "may not name a room", false
		}
		ids := path("adapterOptions", "livekit", "trackIds")
		if ids == nil {
			return "may not name tracks", false
		}
		if lo, _ := s.bounds(mkLen(ids)); lo < 1 {
			return "may not name any track", false
		}
		return "", true
	}
	if notEmpty(path("sdp")) || notEmpty(path("adapterOptions", "mediasoup", "sdp")) {
		return "", true
	}
	return "may not carry an SDP offer", false
}

// maybeAcceptable is a kind of acceptable request that the facts of the path leave room for.
func (m *srvModel) maybeAcceptable(s *State) string {
	text := func(s *State, x *Term) bool {
		if x == nil {
			return false
		}
		if _, hi := s.bounds(mkLen(x)); hi < 1 {
			return false
		}
		return s.decideEq(x, mkStr("")) != 1 && s.assume(mkEq(x, mkStr("")), false)
	}
	path := func(s *State, names ...string) *Term {
		v, t := s.g(ghReqObj), s.g(ghReqObj).typ
		for i, n := range names {
			if i > 0 && !s.nonNil(v) && (v.isNil() || s.decideEq(v, tNil) == 1 || !s.assume(mkEq(v, tNil), false)) {
				return nil
			}
			v, t = wireField(s, v, t, n)
			if v == nil {
				return nil
			}
		}
		return v
	}
	names := func(s *State, adapter string) bool {
		ad := m.reqField(s, "adapter")
		if ad == nil {
			return adapter == ""
		}
		return s.assume(mkEq(ad, mkConst(mkStr(adapter).c, ad.typ)), true)
	}
	for _, k := range []struct {
		what string
		ok   func(s *State) bool
	}{
		{"livekit with a room and a track", func(s *State) bool {
			ids := path(s, "adapterOptions", "livekit", "trackIds")
			return names(s, "livekit") && text(s, path(s, "adapterOptions", "livekit", "room")) && ids != nil && s.assume(mkLt(mkInt(0), mkLen(ids)), true)
		}},
		{"mediasoup with an SDP offer", func(s *State) bool { return names(s, "mediasoup") && text(s, path(s, "sdp")) }},
		{"mediasoup with an SDP offer among its options", func(s *State) bool {
			return names(s, "mediasoup") && text(s, path(s, "adapterOptions", "mediasoup", "sdp"))
		}},
		{"no adapter with an SDP offer", func(s *State) bool { return names(s, "") && text(s, path(s, "sdp")) }},
		{"no adapter with an SDP offer among mediasoup's options", func(s *State) bool {
			return names(s, "") && text(s, path(s, "adapterOptions", "mediasoup", "sdp"))
		}},
	} {
		t := s.clone()
		if text(t, m.reqField(t, "recordingSessionId")) && text(t, m.reqField(t, "fileName")) && k.ok(t) && t.possible() {
			return k.what
		}
	}
	return ""
}

// stopped: a recordingStopped message is published.
func (m *srvModel) stopped(e *Engine, s *State, rep repFn, v *Term, t types.Type, sid *Term, ci *CallInfo) {
	s.setI("stops", clampI(s.gInt("stops")+1))
	if sid == nil {
		rep(s, "C04", "session id", "none", ci, "recordingStopped carries no session id")
		return
	}
	var of *Term
	for _, o := range s.set("won") {
		if x := m.sessID(s, o); x != nil && (x == sid || s.decideEq(x, sid) == 1) {
			of = o
		}
	}
	if of == nil {
		why := "without having ended that session exactly once before (no one-shot guard was won)"
		if len(s.set("lost")) > 0 {
			why = "although the session was already ended by someone else"
		}
		rep(s, "C05", "one-shot", "announce "+s.root.role(), ci, "recordingStopped for %v is published %s", sid, why)
		if m.isHandler(s) && s.gStr(ghReq) == "StopRecording" {
			rep(s, "C04", "announce", "unfinished", ci, "recordingStopped for %v is published %s", sid, why)
		}
		return
	}
	if s.inSet("announced", of) {
		rep(s, "C05", "one-shot", "twice "+s.root.role(), ci, "recordingStopped is published twice for one session")
		rep(s, "C04", "announce", "twice", ci, "recordingStopped is published twice for one session")
	}
	s.addSet("announced", of)
	m.c.inc("recordingStopped published (states)")
	if s.root.data["handler"] != nil && s.gStr(ghReq) == "StopRecording" {
		rec := m.sessField(s, of, m.recField)
		if !s.inSet("closed", rec) {
			rep(s, "C04", "order", "close before announce", ci, "recordingStopped is published before the recording was finalised")
		}
		want := m.reqField(s, "recordingSessionId")
		if want == nil || (want != sid && s.decideEq(want, sid) != 1) {
			rep(s, "C04", "session id", "stop", ci, "recordingStopped carries session id %v, not the one of the stop request", sid)
		}
	}
	if s.root.data["handler"] != nil && s.gStr(ghReq) == "StartRecording" {
		rep(s, "C05", "start", "announce", ci, "recordingStopped is published while a start request is handled: the session was never announced as started")
	}
}

func (m *srvModel) isHandler(s *State) bool { return s.root.data["handler"] != nil }

func (r *Root) role() string {
	if r.lib != "" {
		return shortName(r.lib)
	}
	if i := strings.IndexByte(r.name, ' '); i > 0 && r.kind == "entry" {
		return r.name
	}
	return r.kind
}

// handlerExit: the handling of a bus message ends.
func (m *srvModel) handlerExit(e *Engine, s *State, rep repFn, kind string) {
	req := s.gStr(ghReq)
	switch req {
	case "StartRecording":
		n := s.gInt("answers")
		m.c.inc("start requests handled (states)")
		if n == 0 {
			how := "returned from"
			if kind != "return" {
				how = "left by a panic"
			}
			rep(s, "C01", "count", "none "+kind, nil, "the handling of a start request is %s without a start response", how)
		}
		failed := s.gStr("answered") == "failed" || n == 0
		if kind != "return" && s.gBool("recmade") {
			rep(s, "C02", "cleanup", "panic", nil, "a start request is left by a panic after work on it began")
			return
		}
		if failed {
			m.failedStart(e, s, rep)
		}
	case "StopRecording":
		m.c.inc("stop requests handled (states)")
		hits := s.set("hit")
		if len(hits) == 0 {
			if s.gInt("stops") > 0 || s.gInt("gauge") != 0 || len(s.set("deleted")) > 0 && len(s.set("miss")) > 0 && false {
				rep(s, "C04", "unknown", "stop", nil, "a stop request for an unknown session has effects")
			}
			if len(s.set("miss")) == 0 {
				rep(s, "C04", "lookup", "none", nil, "a stop request is handled without looking its session up")
			}
			return
		}
		want := m.reqField(s, "recordingSessionId")
		if k := s.g("hitkey"); want == nil || (k != want && s.decideEq(k, want) != 1) {
			rep(s, "C04", "lookup", "key", nil, "a stop request looks up session %v, not its own", k)
		}
		for _, o := range hits {
			if s.inSet("won", o) {
				if !s.inSet("announced", o) {
					rep(s, "C04", "announce", "missing", nil, "a stop request ended a session but recordingStopped was not published")
				}
				if !s.inSet("closed", m.sessField(s, o, m.recField)) {
					rep(s, "C04", "finalise", "missing", nil, "a stop request ended a session but its recording was not finalised")
				}
				if !s.inSet("deleted", m.sessID(s, o)) {
					rep(s, "C04", "free", "missing", nil, "a stop request ended a session but its id was not freed")
				}
			} else if !s.inSet("lost", o) {
				rep(s, "C04", "stop", "ignored", nil, "a stop request for an active session does not end it")
			}
		}
	default:
		if s.gInt("stops") > 0 || s.gInt("gauge") != 0 {
			rep(s, "C04", "other", "effect", nil, "a message that isn't a request (%q) ends a session", req)
		}
	}
}

// failedStart: a start request was answered "failed".
func (m *srvModel) failedStart(e *Engine, s *State, rep repFn) {
	m.c.inc("failed starts (states)")
	sess := s.g("regsess")
	lost := false
	if !sess.isNil() && s.inSet("lost", sess) {
		lost = true // whoever ended it releases what it holds
	}
	if len(s.set("hit")) > 0 {
		return // refused: the active session is none of its business
	}
	if !s.g("reg").isNil() && s.gBool("stored") {
		rep(s, "C02", "cleanup", "registry", nil, "a failed start leaves its session id taken")
	}
	if lost {
		return
	}
	if s.gInt("gauge") != 0 {
		rep(s, "C02", "cleanup", "gauge", nil, "a failed start leaves the session gauge changed by %d", s.gInt("gauge"))
	}
	if rec := s.g("rec"); !rec.isNil() && !s.inSet("closed", rec) {
		rep(s, "C02", "cleanup", "recorder", nil, "a failed start leaves its recorder open")
	}
	for _, t := range s.set("opened") {
		if !s.inSet("tclosed", t) {
			rep(s, "C02", "cleanup", "transport", nil, "a failed start leaves its transport (%v) open", t)
		}
	}
}

// wonExit: whoever ended a session released what it holds.
func (m *srvModel) wonExit(e *Engine, s *State, rep repFn, kind string) {
	for _, o := range s.set("won") {
		m.c.inc("sessions ended (states)")
		role := s.root.role()
		if s.inSet("wontwice", o) {
			rep(s, "C05", "one-shot", "guard "+role, nil, "the session can be ended twice")
		}
		if kind != "return" {
			rep(s, "C06", "release", "panic "+role, nil, "ending a session is left by a panic")
		}
		if !s.inSet("closed", m.sessField(s, o, m.recField)) {
			rep(s, "C06", "release", "recorder "+role, nil, "a session is ended without finalising its recording")
		}
		if id := m.sessID(s, o); id == nil || !s.inSet("deleted", id) {
			rep(s, "C06", "release", "registry "+role, nil, "a session is ended but stays among the active sessions")
		}
		want := int64(-1)
		if m.isHandler(s) && s.gStr(ghReq) == "StartRecording" {
			want = 0
		}
		if len(s.set("won")) == 1 && s.gInt("gauge") != want {
			rep(s, "C06", "release", "gauge "+role, nil, "ending a session changes the session gauge by %d instead of -1", s.gInt("gauge")-want-1)
		}
		open, closed := false, false
		for _, i := range m.transFields {
			t := m.sessField(s, o, i)
			if t.isNil() || s.decideEq(t, tNil) == 1 {
				continue
			}
			if s.inSet("tclosed", t) {
				closed = true
			} else {
				open = true
			}
		}
		unclosed := func(s *State) {
			rep(s, "C06", "release", "transport "+role, nil, "a session is ended but its transport is not closed")
		}
		if open && closed {
			// only if sessions have more than one
			s := s.clone()
			m.deferred = append(m.deferred, func() { unclosed(s) })
		} else if open {
			unclosed(s)
		}
		if !m.isHandler(s) || s.gStr(ghReq) != "StartRecording" {
			if !s.inSet("announced", o) {
				rep(s, "C06", "announce", role, nil, "a session that was started is ended without recordingStopped being published")
			}
		}
	}
	// exactly one end of the session releases it: without winning, nothing is released
	if len(s.set("won")) == 0 && !m.isHandler(s) && s.gInt("gauge") != 0 {
		rep(s, "C06", "release", "gauge twice "+s.root.role(), nil, "the session gauge is changed without having ended a session")
	}
}

// triggers: what has to end a session does.
func (m *srvModel) triggers(e *Engine, s *State, rep repFn, kind string) {
	r := s.root
	if r.kind != "callback" {
		return
	}
	ps := r.args
	tried := len(s.set("tried")) > 0
	for i, p := range r.fn.Params {
		if i >= len(ps) {
			continue
		}
		n := namedOf(p.Type())
		if n != nil && n.Obj().Name() == "ICEConnectionState" {
			m.c.inc("connection state callback (states)")
			for _, nm := range []string{"ICEConnectionStateDisconnected", "ICEConnectionStateFailed", "ICEConnectionStateClosed"} {
				cst, ok := n.Obj().Pkg().Scope().Lookup(nm).(*types.Const)
				if !ok {
					continue
				}
				if !tried && s.decideEq(ps[i], mkConst(cst.Val(), n)) != -1 {
					rep(s, "C06", "trigger", nm, nil, "the media connection ending up in state %s does not end the session", nm)
				}
			}
			// not ended while it is coming up
			for _, nm := range []string{"ICEConnectionStateNew", "ICEConnectionStateChecking", "ICEConnectionStateConnected"} {
				cst, ok := n.Obj().Pkg().Scope().Lookup(nm).(*types.Const)
				if ok && len(s.set("won")) > 0 && s.decideEq(ps[i], mkConst(cst.Val(), n)) != -1 {
					rep(s, "C06", "trigger", "not "+nm, nil, "the session is ended although the media connection is in state %s", nm)
				}
			}
			return
		}
	}
	if len(r.fn.Params)+0 >= 3 && len(ps) >= 3 {
		k := len(r.fn.Params) - 1
		if isBoolT(r.fn.Params[k].Type()) && isBoolT(r.fn.Params[k-2].Type()) {
			m.c.inc("flow callback (states)")
			cl := s.decide(ps[k])
			if cl != -1 && !tried {
				rep(s, "C06", "trigger", "closed", nil, "a track that is closed does not end the session")
			}
			if cl != 1 && len(s.set("won")) > 0 {
				rep(s, "C06", "trigger", "not closed", nil, "the session is ended although the track only stopped flowing")
			}
		}
	}
}

// instances: the rules applied to what is known to be there.
func (m *srvModel) instances(c *Ctx, id string, ends map[string]int, e *Engine) {
	cb, fl := 0, 0
	for _, r := range e.roots {
		c.sample("activity %s: %d ends", r.name, ends[r.name])
	}
	cb, fl = c.count["connection state callback (states)"], c.count["flow callback (states)"]
	if id == "C01" || id == "C02" || id == "C03" {
		c.need(c.count["start requests handled (states)"] > 0, "start", "no path handles a start request")
	}
	if id == "C01" {
		c.need(c.count["ok responses (states)"] > 0, "ok", "no path answers a start request with ok")
	}
	if id == "C01" || id == "C02" {
		c.need(c.count["failed responses (states)"] > 0, "failed", "no path answers a start request with failed")
	}
	if id == "C03" {
		c.need(c.count["guarded effects (states)"] > 0, "effects", "no path acts on a start request")
	}
	if id == "C37" {
		c.need(c.count["refusals (states)"] > 0, "refusals", "no path refuses a start request")
	}
	if id == "C04" {
		c.need(c.count["stop requests handled (states)"] > 0, "stop", "no path handles a stop request")
	}
	if id == "C06" || id == "C05" {
		c.need(c.count["transports set up (states)"] > 0, "set-up", "no path sets a transport up")
		c.need(cb > 0, "connection callback", "no callback for the state of the media connection was found")
		c.need(fl > 0, "flow callback", "no callback for the flow of media was found")
		c.need(c.count["sessions ended (states)"] > 0, "ended", "no path ends a session")
	}
	if id == "C04" || id == "C05" || id == "C06" {
		c.need(c.count["recordingStopped published (states)"] > 0, "announce", "no path announces recordingStopped")
	}
}
