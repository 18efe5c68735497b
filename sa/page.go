package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The test page: each signalling request is answered, with the answer to its
// own start request, and can't hang (C34).

func init() { checks["C34"] = checkPage }

const (
	ghAsk    = "page.session" // session id of the start request this activity published
	ghReply  = "page.reply"   // "", "ok" or "error"
	ghStatus = "page.status"
)

// pageRoot: the activity is a request handler; its ResponseWriter and Request.
func pageParams(s *State) (w, r *Term) {
	if s.root == nil || s.root.kind == "go" {
		return nil, nil
	}
	for _, a := range s.root.args {
		switch typeStr(a.typ) {
		case "net/http.ResponseWriter":
			w = a
		case "*net/http.Request":
			r = a
		}
	}
	return
}

func typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

// bounded: a channel that becomes ready by itself.
func bounded(ch *Term) bool {
	return ch.find(func(u *Term) bool {
		for _, n := range []string{"time.After", "time.NewTimer", "time.Tick", "time.NewTicker", "context.WithTimeout", "context.WithDeadline"} {
			if strings.Contains(u.op, n) {
				return true
			}
		}
		return u.isOp("field") && u.ref != nil && (typeStr(u.args[0].typ) == "*time.Timer" || typeStr(u.args[0].typ) == "*time.Ticker")
	}) != nil
}

func checkPage(c *Ctx) {
	sm := newSrvModel(c)
	if sm == nil {
		return
	}
	m := &wireModel{srvModel: sm, id: "C34"}
	m.findRoots()
	if !c.need(len(m.others) > 0, "page", "nothing but the bus handler subscribes to the bus") {
		return
	}
	c.explain = "every activity started by what subscribes to the bus besides the bus handler (the HTTP test page) is explored: the handlers of HTTP requests and the handler of responses"
	c.assume = append(c.assume, "the bus delivers messages to a handler one at a time", "uuid.New and the like give values that were never given before")
	var unbuf, blocking *State
	var unbufCh *Term
	var silent map[*ssa.Function]*State
	askers := map[*ssa.Function]bool{}
	asked, sends, replies := 0, 0, 0
	ev := &srvEvents{}
	h := m.hooks(ev)
	ev.publish = func(e *Engine, s *State, id string, v *Term, t types.Type, ci *CallInfo) {
		if id != "startRecording" {
			return
		}
		asked++
		c.inc("start requests published (states)")
		w, r := pageParams(s)
		if w == nil {
			e.report(s, "request", "elsewhere", ci.site, "a start request is published outside of the handling of a request to the page")
			return
		}
		askers[s.root.fn] = true
		sid, _ := wireField(s, v, t, "recordingSessionId")
		if sid == nil {
			e.report(s, "request", "no session", ci.site, "the start request has no session id")
			return
		}
		own := sid.find(func(u *Term) bool {
			if u.k != KSym && !strings.HasPrefix(u.op, "call:") {
				return false
			}
			for _, n := range []string{"uuid.", "crypto/rand", "rand.", "xid.", "ksuid.", "ulid.", "nanoid"} {
				if strings.Contains(u.op, n) {
					return true
				}
			}
			return strings.Contains(u.op, "atomic") && strings.Contains(u.op, "Add")
		})
		if own == nil {
			e.report(s, "request", "session", ci.site, "the session id of the start request, %s, need not be its own", sid)
		}
		if !s.inSet("page.key", sid) {
			e.report(s, "request", "unregistered", ci.site, "the start request is published before a channel for its answer is registered under its session id")
		}
		var sdps []*Term
		if x, _ := wireField(s, v, t, "sdp"); x != nil {
			sdps = append(sdps, x)
		}
		x, xt := v, t
		for _, n := range []string{"adapterOptions", "mediasoup", "sdp"} {
			if x != nil && !x.isNil() {
				x, xt = wireField(s, x, xt, n)
			}
		}
		if x != nil {
			sdps = append(sdps, x)
		}
		fromBody := false
		for _, x := range sdps {
			if x != nil && derives(s, x, r) {
				fromBody = true
			}
		}
		if !fromBody {
			e.report(s, "request", "offer", ci.site, "the start request doesn't carry the SDP offer that was posted")
		}
		if len(s.locks) > 0 {
			e.report(s, "wait", "locked publish", ci.site, "the start request is published with a lock held")
		}
		s.setG(ghAsk, sid)
	}
	reply := func(s *State, kind string) {
		if s.gStr(ghReply) == "" {
			s.setS(ghReply, kind)
		}
	}
	call := h.Call
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.mode != "probe" {
			if w, _ := pageParams(s); w != nil {
				has := false
				for _, a := range ci.args {
					if stripAssert(a) == w {
						has = true
					}
				}
				if has {
					m.reply(e, s, ci, reply)
					replies++
				}
			}
			if !s.g(ghAsk).isNil() && ci.mode != "go" && strings.HasSuffix(ci.name, ".Wait") && strings.HasPrefix(ci.name, "sync.") {
				e.report(s, "wait", "sync", ci.site, "the request waits without a limit (%s)", ci.name)
			}
		}
		return call(e, s, ci)
	}
	mp := h.Map
	h.Map = func(e *Engine, s *State, op string, x, k, v *Term, in ssa.Instruction) {
		if k != nil {
			k = stripIface(k)
		}
		switch op {
		case "update", "sync:stored":
			ch := v
			if ch != nil {
				ch = stripIface(ch)
				for _, o := range s.set("page.made") {
					if ch == o || derives(s, ch, o) {
						s.addSet("page.key", k)
						if !s.inSet("page.buffered", o) {
							unbuf, unbufCh = s.clone(), o
						}
						c.sample("%s: the answer for session %s goes to %s", e.pos(in), k, o)
						c.inc("answer channels registered (states)")
					}
				}
			}
		case "lookuphit", "sync:hit":
			s.addSet("page.hit", k)
			if v != nil {
				s.setG("page.hitval", stripIface(v))
			}
		case "delete", "sync:deleted":
			s.addSet("page.gone", k)
		}
		mp(e, s, op, x, k, v, in)
	}
	res := func(s *State) *Term { return m.reqField(s, "recordingSessionId") }
	h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		w, _ := pageParams(s)
		switch op {
		case "make":
			if w != nil {
				s.addSet("page.made", ch)
				if n, ok := v.int64(); ok && n >= 1 {
					s.addSet("page.buffered", ch)
				}
			}
		case "recv":
			if w != nil && !s.g(ghAsk).isNil() && !bounded(ch) {
				e.report(s, "wait", "receive", in, "the request waits for %s without a limit", ch)
			}
			if w != nil && len(s.locks) > 0 && !s.g(ghAsk).isNil() {
				e.report(s, "wait", "locked", in, "the request waits with a lock held")
			}
		case "send", "selsend":
			if w != nil || s.gStr(ghReq) == "" {
				return
			}
			if op == "selsend" {
				if sel, ok := in.(*ssa.Select); ok && !sel.Blocking {
					s.setB("page.trying", true)
				}
			}
			sends++
			c.inc("answers passed on (states)")
			sid := res(s)
			own := false
			for _, k := range s.set("page.hit") {
				if sid != nil && (k == sid || s.decideEq(k, sid) == 1) {
					own = true
				}
			}
			if !own {
				e.report(s, "answer", "other", in, "an answer is passed to %s, which wasn't found under the session id of the answer", ch)
			}
			gone := false
			for _, k := range s.set("page.gone") {
				if sid != nil && (k == sid || s.decideEq(k, sid) == 1) {
					gone = true
				}
			}
			if !gone && !s.gBool("page.trying") {
				s.setG("page.sent", ch)
			}
			if !s.gBool("page.trying") {
				blocking = s.clone()
			}
			c.sample("%s: the answer for session %s is passed to %s", e.pos(in), sid, ch)
			if o := s.g(ghReqObj); !o.isNil() && v != nil && !derives(s, v, o) {
				e.report(s, "answer", "content", in, "what is passed on, %s, isn't the answer", v)
			}
		}
	}
	h.Select = func(e *Engine, s *State, chans []*Term, in *ssa.Select) {
		w, _ := pageParams(s)
		if w == nil || s.g(ghAsk).isNil() || !in.Blocking {
			return
		}
		c.inc("waits for an answer (states)")
		c.sample("%s: a request waits for one of %d channels", e.pos(in), len(chans))
		ok := false
		for _, ch := range chans {
			ok = ok || bounded(ch)
		}
		if !ok {
			e.report(s, "wait", "select", in, "the request waits for an answer without a limit")
		}
		if len(s.locks) > 0 {
			e.report(s, "wait", "locked", in, "the request waits with a lock held")
		}
	}
	ev.exit = func(e *Engine, s *State, kind string, r *Term) {
		if w, _ := pageParams(s); w != nil {
			if kind != "return" {
				if kind == "exit" {
					e.report(s, "reply", "exit", nil, "a request to the page ends the process")
				}
				return
			}
			if s.gStr(ghReply) == "" {
				silent[s.root.fn] = s.clone()
			}
			m.replied(e, s)
			return
		}
		if !s.g("page.sent").isNil() && kind == "return" {
			sid := res(s)
			for _, k := range s.set("page.gone") {
				if sid != nil && (k == sid || s.decideEq(k, sid) == 1) {
					return
				}
			}
			e.report(s, "answer", "again", nil, "an answer was passed on, but its request stays registered: a second answer would block the handling of messages")
		}
	}
	h.Round = func() { unbuf, blocking = nil, nil; silent = map[*ssa.Function]*State{} }
	silent = map[*ssa.Function]*State{}
	e := c.engine(h)
	e.unroll = 3
	var roots []*Root
	for _, f := range m.others {
		r := e.NewRoot(f.Name(), f, nil, nil)
		for i, p := range f.Params {
			if i == 0 && f.Signature.Recv() != nil {
				r.nonNil[r.init.top().regs[p]] = true
			}
		}
		roots = append(roots, r)
	}
	c.explore(e, roots...)
	if unbuf != nil && blocking != nil {
		e.viol, e.vkeys = nil, map[string]bool{}
		e.report(blocking, "answer", "unbuffered", nil, "the handling of messages waits for a request to take its answer from %s, which the request may have given up on", unbufCh)
		for _, v := range e.viol {
			c.add(v)
		}
	}
	for fn, s := range silent {
		if askers[fn] {
			e.viol, e.vkeys = nil, map[string]bool{}
			e.report(s, "reply", "none", nil, "a request to the page can end without an answer")
			for _, v := range e.viol {
				c.add(v)
			}
		}
	}
	c.need(asked > 0, "request", "no request to the page publishes a start request")
	c.need(sends > 0, "answer", "no answer is passed on to a request")
	c.need(replies > 0, "reply", "no reply to a request was found")
}

func stripIface(t *Term) *Term {
	for t.isOp("iface") || t.isOp("assertval") {
		t = t.args[0]
	}
	return t
}

// reply: something is written to the answer of a request.
func (m *wireModel) reply(e *Engine, s *State, ci *CallInfo, reply func(s *State, kind string)) {
	meth := methName(ci)
	switch {
	case ci.name == "net/http.Error" || ci.name == "net/http.NotFound" || strings.HasSuffix(ci.name, "ResponseWriter.WriteHeader"):
		st := int64(404)
		if ci.name != "net/http.NotFound" {
			st = 0
			if n, ok := ci.args[len(ci.args)-1].int64(); ok {
				st = n
			}
		}
		if st >= 400 {
			reply(s, "error")
		} else {
			reply(s, "ok")
			if st == 0 || st >= 300 {
				m.c.inc("replies of unknown status")
			}
			s.setS(ghReply, "ok")
		}
		m.c.inc("error replies (states)")
	case meth == "Header":
	default:
		reply(s, "ok")
		if s.gStr(ghReply) == "ok" && !s.g(ghAsk).isNil() {
			m.c.inc("successful replies (states)")
			s.setB("page.body", true)
			if got := m.received(s); got != nil {
				ok := false
				sdp, _ := wireField(s, got, got.typ, "sdp")
				for _, a := range ci.args {
					if sdp != nil && derives(s, a, s.load(sdp, types.Typ[types.String])) {
						ok = true
					}
				}
				if !ok {
					e.report(s, "reply", "sdp", ci.site, "the reply to the request isn't the SDP of the answer")
				}
			}
		}
	}
}

// received is the answer that the activity received.
func (m *wireModel) received(s *State) *Term {
	for f := range s.facts {
		if x := f.find(func(u *Term) bool { return u.k == KSym && u.op == "recv" && m.isResponse(u.typ) }); x != nil {
			return x
		}
	}
	return nil
}

func (m *wireModel) isResponse(t types.Type) bool {
	n := namedOf(t)
	return n != nil && strings.HasSuffix(n.Obj().Name(), "StartRecordingResponse") && relPkg(m.p, n.Obj().Pkg()) == "internal/pubsub/events"
}

// replied: a request ends.
func (m *wireModel) replied(e *Engine, s *State) {
	if s.g(ghAsk).isNil() {
		return
	}
	got := m.received(s)
	status := 0
	var sdp *Term
	if got != nil {
		st, _ := wireField(s, got, got.typ, "status")
		status = s.decideEq(st, mkStr("ok"))
		sdp, _ = wireField(s, got, got.typ, "sdp")
	}
	// the answer came through the channel this request registered
	if got != nil && len(got.args) > 0 && !s.inSet("page.made", got.args[0]) && got.args[0].k == KObj {
		e.report(s, "answer", "foreign", nil, "the request takes an answer from %s, which it didn't make", got.args[0])
	}
	switch s.gStr(ghReply) {
	case "ok":
		if got == nil {
			e.report(s, "reply", "unfounded", nil, "the request is answered as successful without an answer from the bus")
		} else if status != 1 {
			e.report(s, "reply", "failed as ok", nil, "the request is answered as successful although the start request may have failed")
		}
	case "error":
		if got != nil && status == 1 && sdp != nil && s.decideEq(sdp, tNil) == -1 {
			e.report(s, "reply", "ok as failed", nil, "the request is answered with an error although recording was started")
		}
	}
}
