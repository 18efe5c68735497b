package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is on the wire: which messages are published and decoded (C08), in
// which unit their times are (C09), and that nothing received can crash the
// process (C07).

func init() {
	for _, id := range []string{"C07", "C08", "C09"} {
		id := id
		checks[id] = func(c *Ctx) { checkWire(c, id) }
	}
}

type wireModel struct {
	*srvModel
	id      string
	handler *ssa.Function
	onStart *ssa.Function
	others  []*ssa.Function // entry points that subscribe to something else
}

func (m *wireModel) findRoots() {
	server, all := m.busHandlers()
	m.handler = server
	seen := map[*ssa.Function]bool{}
	for _, f := range all {
		if f == server {
			continue
		}
		for f.Parent() != nil {
			f = f.Parent()
		}
		if !seen[f] && f.Pkg != nil && relPkg(m.p, f.Pkg.Pkg) == "internal/server" {
			seen[f] = true
			m.others = append(m.others, f)
		}
	}
	for _, f := range m.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || len(c.Common().Args) == 0 {
					continue
				}
				as := c.Common().Args
				if fn := funcValue(m.p, as[len(as)-1]); fn != nil && len(as) >= 2 && m.handler != nil && funcValue(m.p, as[len(as)-2]) == m.handler {
					m.onStart = fn
				}
			}
		}
	}
}

// funcValue is the function a value is, if that's evident.
func funcValue(p *Prog, a ssa.Value) *ssa.Function {
	for {
		if ct, ok := a.(*ssa.ChangeType); ok {
			a = ct.X
			continue
		}
		break
	}
	switch a := a.(type) {
	case *ssa.MakeClosure:
		return boundOf(p, a.Fn.(*ssa.Function))
	case *ssa.Function:
		return boundOf(p, a)
	}
	return nil
}

func checkWire(c *Ctx, id string) {
	sm := newSrvModel(c)
	if sm == nil {
		return
	}
	m := &wireModel{srvModel: sm, id: id}
	m.findRoots()
	if !c.need(m.handler != nil, "handler", "no method of the server package is given to PubSub.Subscribe") {
		return
	}
	sm.run(c, "", m.handler)
	if !c.need(len(m.idCand) == 1 && m.nStored > 0, "session id", "%d fields of the session equal its key whenever it is registered (%d registrations)", len(m.idCand), m.nStored) {
		return
	}
	for f := range m.idCand {
		m.idField = f
	}
	c.count = map[string]int{}
	ev := &srvEvents{}
	hk := m.hooks(ev)
	e := c.engine(hk)
	e.unroll = 3
	switch id {
	case "C07":
		m.crashes(c, e, ev)
	case "C08":
		m.vocabulary(c, e, ev)
	case "C09":
		m.millis(c, e, ev)
		c.mediaTimes()
	}
}

func (m *wireModel) explore(c *Ctx, e *Engine) {
	r := e.NewRoot("bus message", m.handler, nil, nil)
	r.data = map[string]any{"handler": true}
	for _, p := range m.handler.Params {
		r.nonNil[r.init.top().regs[p]] = true
	}
	roots := []*Root{r}
	srv := namedOf(m.handler.Signature.Recv().Type())
	for _, f := range m.stoppers(srv) {
		roots = append(roots, e.NewRoot("shutdown "+f.Name(), f, nil, nil))
	}
	if m.onStart != nil {
		r := e.NewRoot("subscribed", m.onStart, nil, nil)
		r.data = map[string]any{"start": true}
		roots = append(roots, r)
	}
	for _, f := range m.others {
		roots = append(roots, e.NewRoot(f.Name(), f, nil, nil))
	}
	for _, r := range roots {
		for i, p := range r.fn.Params {
			if i == 0 && r.fn.Signature.Recv() != nil {
				r.nonNil[r.init.top().regs[p]] = true
			}
		}
	}
	c.explore(e, roots...)
}

// ---- C08 ----

type wireDoc struct {
	fields map[string]string // s: string, p: optional string, n: number, a: anything
	sid    bool
	status []string
}

var published = map[string]*wireDoc{
	"startRecordingResponse":    {map[string]string{"id": "s", "recordingSessionId": "s", "status": "s", "error": "p", "sdp": "p", "fileName": "p"}, true, []string{"ok", "failed"}},
	"recordingRtpStatusChanged": {map[string]string{"id": "s", "recordingSessionId": "s", "status": "s", "timestampUTC": "a", "timestampHR": "n"}, true, []string{"flowing", "not_flowing"}},
	"recordingStopped":          {map[string]string{"id": "s", "recordingSessionId": "s", "reason": "s", "timestampUTC": "a", "timestampHR": "n"}, true, nil},
	"recorderStatus":            {map[string]string{"id": "s", "appVersion": "s", "instanceId": "s", "timestamp": "n"}, false, nil},
	// published by the test page, to the recorder
	"startRecording": {map[string]string{"id": "s", "recordingSessionId": "s", "fileName": "s", "adapter": "s", "adapterOptions": "a", "adapterOptions.mediasoup": "a",
		"adapterOptions.mediasoup.sdp": "s", "adapterOptions.livekit": "a", "adapterOptions.livekit.room": "s", "adapterOptions.livekit.trackIds": "a", "sdp": "s"}, true, nil},
}

var received = map[string]map[string]string{
	"startRecording":         published["startRecording"].fields,
	"stopRecording":          {"id": "s", "recordingSessionId": "s"},
	"getRecorderStatus":      {"id": "s"},
	"startRecordingResponse": published["startRecordingResponse"].fields,
}

// wireType is the type of the field with a given (dotted) JSON name.
func wireType(t types.Type, name string) types.Type {
	rest := ""
	if i := strings.IndexByte(name, '.'); i >= 0 {
		name, rest = name[:i], name[i+1:]
	}
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r types.Type
	for i := 0; i < st.NumFields() && r == nil; i++ {
		f := st.Field(i)
		switch {
		case f.Embedded() && reflectTag(st.Tag(i), "json") == "":
			r = wireType(f.Type(), name)
		case f.Exported() && jsonName(st, i) == name && !strings.Contains(reflectTag(st.Tag(i), "json"), ",string"):
			r = f.Type()
		}
	}
	if r != nil && rest != "" {
		return wireType(r, rest)
	}
	return r
}

// fits: is a field of type t encoded as documented?
func fits(t types.Type, kind string) bool {
	b, _ := t.Underlying().(*types.Basic)
	switch kind {
	case "s":
		return b != nil && b.Info()&types.IsString != 0 || optString(t)
	case "p":
		return optString(t) || b != nil && b.Info()&types.IsString != 0
	case "n":
		return b != nil && b.Info()&types.IsNumeric != 0
	}
	return true
}

func optString(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isString(p.Elem())
}

func (c *Ctx) wireShape(what string, t types.Type, fields map[string]string) {
	for _, f := range sortedKeys(fields) {
		ft := wireType(t, f)
		c.inc("documented fields")
		if ft == nil {
			c.fail("field", what+"|"+f, "%s (%s) has no field named %s on the wire", what, types.TypeString(t, shortQual), f)
		} else if !fits(ft, fields[f]) {
			c.fail("field", what+"|"+f, "%s: the field %s is a %s, which isn't encoded as documented", what, f, types.TypeString(ft, shortQual))
		}
	}
}

func (m *wireModel) vocabulary(c *Ctx, e *Engine, ev *srvEvents) {
	c.explain = "at each publish reached by any path of the bus handler, the transports' callbacks, the shutdown, the start of the subscription and the test page: the encoded type's JSON fields, id, status and session id against the documented protocol; at each successful decode: the id tested on the path against the type filled in"
	c.need(m.onStart != nil, "onStart", "the function called when the subscription of the bus handler starts was not found")
	pubT := map[string]map[types.Type]bool{}
	decT := map[string]map[types.Type]bool{}
	counts := map[string]int{}
	e.h.Round = func() {
		pubT, decT, counts = map[string]map[types.Type]bool{}, map[string]map[types.Type]bool{}, map[string]int{}
	}
	add := func(mm map[string]map[types.Type]bool, id string, t types.Type) {
		if mm[id] == nil {
			mm[id] = map[types.Type]bool{}
		}
		mm[id][t] = true
	}
	role := func(s *State) string { return s.root.role() }
	ev.undecided = func(e *Engine, s *State, what string, ci *CallInfo) {
		e.report(s, "undecided", what+"|"+role(s), ci.site, "cannot tell %s", what)
	}
	ev.publish = func(e *Engine, s *State, id string, v *Term, t types.Type, ci *CallInfo) {
		s.note("%s: %s is published", e.pos(ci.site), id)
		counts["published"]++
		d := published[id]
		if d == nil {
			e.report(s, "id", id, ci.site, "a message with the undocumented id %q is published", id)
			return
		}
		add(pubT, id, deref(t))
		if d.sid {
			sid, _ := wireField(s, v, t, "recordingSessionId")
			if why := m.aboutSession(s, id, sid); why != "" {
				e.report(s, "session id", id+"|"+role(s), ci.site, "%s is published with session id %v, %s", id, sid, why)
			}
		}
		if d.status != nil {
			st, _ := wireField(s, v, t, "status")
			ok := false
			for _, x := range d.status {
				ok = ok || constStr(st) == x
			}
			if !ok {
				e.report(s, "status", id+"|"+role(s), ci.site, "%s is published with status %v; documented: %s", id, st, strings.Join(d.status, ", "))
			}
			switch id {
			case "startRecordingResponse":
				s.setI("resps", clampI(s.gInt("resps")+1))
				er, _ := wireField(s, v, t, "error")
				none := er == nil || er.isNil() || s.decideEq(er, tNil) == 1 || isConstEmpty(er)
				if constStr(st) == "ok" && !none {
					e.report(s, "error", "ok|"+role(s), ci.site, "an ok response carries an error")
				}
				if constStr(st) == "failed" && (none || s.decideEq(er, tNil) == 0 && isPtr(er.typ)) {
					e.report(s, "error", "failed|"+role(s), ci.site, "a failed response carries no error")
				}
			case "recordingRtpStatusChanged":
				// from the callback the transport tells it with
				if r := s.root; r.kind == "callback" && isFlowCallback(r.fn.Signature) {
					a := r.args[len(r.args)-3]
					counts["flow"]++
					if constStr(st) == "flowing" && s.decide(a) != 1 || constStr(st) == "not_flowing" && s.decide(a) != -1 {
						e.report(s, "status", "flow|"+role(s), ci.site, "%s is published although the transport said %v", constStr(st), a)
					}
				}
			}
		}
		switch id {
		case "recorderStatus":
			s.setI("statuses", clampI(s.gInt("statuses")+1))
			counts["status"]++
			for _, f := range []struct{ name, field string }{{"appVersion", "Version"}, {"instanceId", "InstanceId"}} {
				x, _ := wireField(s, v, t, f.name)
				if !m.isAppField(x, f.field) {
					e.report(s, "value", "recorderStatus|"+f.name+"|"+role(s), ci.site, "%s of the recorderStatus is %v, not this process's", f.name, x)
				}
			}
			if s.root.data["handler"] != nil && s.gStr(ghReq) != "GetRecorderStatus" {
				e.report(s, "reply", "recorderStatus|"+s.gStr(ghReq), ci.site, "a recorderStatus is published for a message that isn't a status request (%q)", s.gStr(ghReq))
			}
		case "recordingStopped":
			x, _ := wireField(s, v, t, "reason")
			if x == nil || constStr(x) == "" && x.k == KConst {
				e.report(s, "value", "reason|"+role(s), ci.site, "recordingStopped is published without a reason")
			}
		}
	}
	ev.decoded = func(e *Engine, s *State, typ string, obj *Term) {
		ids := m.idsTested(s)
		counts["decoded"]++
		s.setG("ids", nil)
		if len(ids) != 1 {
			e.report(s, "decoder", "ambiguous|"+typ, nil, "a message is decoded as %s on a path that tested its id to be %v", typ, ids)
			return
		}
		for id := range ids {
			add(decT, id, deref(obj.typ))
			s.setS("decid", id)
		}
	}
	ev.exit = func(e *Engine, s *State, kind string, res *Term) {
		r := s.root
		if kind != "return" {
			return
		}
		n := s.gInt("statuses")
		switch {
		case r.data["start"] != nil:
			counts["start"]++
			if n != 1 && (res == nil || s.decideEq(res, tNil) != -1) {
				e.report(s, "announce", "start", nil, "when the subscription starts, recorderStatus is announced %d times", n)
			}
		case r.data["handler"] != nil && s.gStr("decid") == "getRecorderStatus":
			counts["asked"]++
			if n != 1 {
				e.report(s, "reply", "getRecorderStatus", nil, "a status request is answered with %d recorderStatus messages", n)
			}
		case r.data["handler"] != nil && s.gStr("decid") == "startRecording":
			counts["startreq"]++
			if s.gInt("resps") == 0 && len(s.set("hit")) == 0 && len(s.set("miss")) == 0 {
				e.report(s, "acted on", "startRecording", nil, "a start request is decoded but not acted on")
			}
		case r.data["handler"] != nil && s.gStr("decid") == "stopRecording":
			counts["stopreq"]++
			if len(s.set("hit")) == 0 && len(s.set("miss")) == 0 {
				e.report(s, "acted on", "stopRecording", nil, "a stop request is decoded but its session is not looked up")
			}
		}
	}
	m.explore(c, e)
	for _, id := range sortedKeys(published) {
		if id == "startRecording" {
			if len(pubT[id]) == 0 {
				continue
			}
		} else {
			c.need(len(pubT[id]) > 0, "publish "+id, "no path publishes %s", id)
		}
		for t := range pubT[id] {
			c.wireShape("published "+id, t, published[id].fields)
		}
	}
	for _, id := range []string{"startRecording", "stopRecording", "getRecorderStatus"} {
		c.need(len(decT[id]) > 0, "decode "+id, "no path decodes %s", id)
	}
	owner := map[types.Type]string{}
	for _, id := range sortedKeys(decT) {
		for t := range decT[id] {
			if o := owner[t]; o != "" {
				c.fail("decoder", "shared|"+id, "%s and %s are decoded as the same type %s", o, id, types.TypeString(t, shortQual))
			}
			owner[t] = id
			if d := received[id]; d != nil {
				c.wireShape("received "+id, t, d)
			}
			// what a kind of message is published as is what it's decoded as
			for pt := range pubT[id] {
				if !types.Identical(pt, t) {
					c.sample("%s is published as %s and decoded as %s", id, types.TypeString(pt, shortQual), types.TypeString(t, shortQual))
				}
			}
		}
		if len(decT[id]) > 1 {
			c.fail("decoder", "several|"+id, "%s is decoded as %d types", id, len(decT[id]))
		}
	}
	for k, n := range counts {
		c.count[k+" (states)"] = n
	}
	c.need(counts["asked"] > 0, "status request", "no path handles a status request")
	c.need(counts["start"] > 0, "start", "the start of the subscription has no end")
	c.need(counts["flow"] > 0, "flow", "no path publishes recordingRtpStatusChanged from a transport's callback")
}

func isConstEmpty(t *Term) bool { x, ok := t.str(); return ok && x == "" }

// idsTested: the documented ids that facts of the path say the message has.
func (m *wireModel) idsTested(s *State) map[string]bool {
	ids := map[string]bool{}
	known := map[string]bool{"recordingRtpStatusChanged": true, "recorderStatus": true, "recordingStopped": true}
	for id := range received {
		known[id] = true
	}
	for f, v := range s.facts {
		if v && f.isOp("eq") {
			for _, a := range f.args {
				if x := constStr(a); known[x] {
					ids[x] = true
				}
			}
		}
	}
	return ids
}

// aboutSession: is a session id the one of the session a message is about?
func (m *wireModel) aboutSession(s *State, id string, sid *Term) string {
	if sid == nil {
		return "which it lacks"
	}
	eq := func(x *Term) bool { return x != nil && (x == sid || s.decideEq(x, sid) == 1) }
	if s.root.data["handler"] != nil {
		if eq(m.reqField(s, "recordingSessionId")) {
			return ""
		}
		return "not the request's"
	}
	if id == "startRecording" {
		if isConstEmpty(sid) {
			return "an empty one"
		}
		return ""
	}
	// the sessions at hand: the one the activity belongs to or those it goes through
	var cand []*Term
	cand = append(cand, s.set("ranged")...)
	cand = append(cand, s.set("won")...)
	cand = append(cand, s.set("lost")...)
	cand = append(cand, m.ownSessions(s)...)
	for _, o := range cand {
		if eq(m.sessID(s, o)) {
			return ""
		}
	}
	return "which isn't that of a session it deals with"
}

// ownSessions: the sessions an activity was given when it was set up.
func (m *wireModel) ownSessions(s *State) []*Term {
	var out []*Term
	for r := s.root; r != nil; r = r.parent {
		for _, x := range r.free {
			if pt, ok := x.typ.(*types.Pointer); ok {
				if _, pp := pt.Elem().(*types.Pointer); pp && m.isSess(deref(pt.Elem())) {
					x = s.load(x, pt.Elem())
				}
			}
			if o := m.sessOf(x); o != nil {
				out = append(out, o)
			}
		}
		if r.kind == "entry" {
			break
		}
	}
	return out
}

// isAppField: x is a field of the application's identity.
func (m *wireModel) isAppField(x *Term, name string) bool {
	if x == nil {
		return false
	}
	for x.isOp("conv") {
		x = x.args[0]
	}
	var f *types.Var
	switch {
	case x.isOp("init") && x.args[0].isOp("field"):
		f, _ = x.args[0].ref.(*types.Var)
	case x.isOp("fieldval"):
		f, _ = x.ref.(*types.Var)
	}
	return f != nil && f.Name() == name && f.Pkg() != nil && relPkg(m.p, f.Pkg()) == "internal/config"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- C07 ----

// crashes: nothing received makes the process panic or end.
func (m *wireModel) crashes(c *Ctx, e *Engine, ev *srvEvents) {
	c.explain = "every dereference, index and type assertion on every path of the functions given to Subscribe and of what they start, with unknown message bytes: a value that comes from the message, from a failed lookup or from a session's optional part must be known not to be missing; no path ends in a panic or the end of the process, or publishes for a message that wasn't decoded"
	derefs, asserts, indexes, ends := 0, 0, 0, 0
	stored := map[types.Type]bool{}
	maybeNil := map[*types.Var]bool{}
	var sessDeref []func()
	unprotected := map[*types.Named]bool{}
	nilSent := map[string]ssa.Instruction{}
	closed := map[ssa.Instruction]bool{}
	sent := map[ssa.Instruction]ssa.Instruction{}
	e.h.Round = func() {
		derefs, asserts, indexes, ends = 0, 0, 0, 0
		sessDeref = nil
		nilSent = map[string]ssa.Instruction{}
		unprotected = map[*types.Named]bool{}
		closed, sent = map[ssa.Instruction]bool{}, map[ssa.Instruction]ssa.Instruction{}
	}
	key := func(s *State, in ssa.Instruction, p *Term) string {
		return shortName(in.Parent().String()) + "|" + s.root.role()
	}
	oldMap := e.h.Map
	e.h.Map = func(e *Engine, s *State, op string, mp, k, v *Term, in ssa.Instruction) {
		if op == "sync:stored" && v != nil {
			if v.isOp("iface") {
				stored[v.ref.(types.Type)] = true
			} else {
				stored[nil] = true
			}
		}
		if (op == "sync:stored" || op == "update") && v != nil {
			if x := m.sessOf(v); x != nil {
				st := m.sess.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					fv := m.sessField(s, x, i)
					if !s.nonNil(fv) && s.decideEq(fv, tNil) != -1 {
						maybeNil[st.Field(i)] = true
					}
				}
			}
		}
		oldMap(e, s, op, mp, k, v, in)
	}
	// may the value be missing, depending on what was received?
	e.h.Deref = func(e *Engine, s *State, p *Term, in ssa.Instruction) {
		derefs++
		if p.isNil() {
			e.report(s, "nil", "nil|"+key(s, in, p), in, "nil is dereferenced")
			return
		}
		if s.nonNil(p) || s.decideEq(p, tNil) == -1 {
			return
		}
		if p.op == "recv" {
			// what's received is what was sent
			tr := s.clone()
			sessDeref = append(sessDeref, func() {
				if in2 := nilSent[typeKey(p.typ)]; in2 != nil {
					e.report(tr, "nil", "received|"+key(tr, in, p), in, "a value received from a channel is dereferenced, and nil may be sent at %s", m.p.pos(in2.Pos()))
				}
			})
			return
		}
		if m.fromMessage(s, p) {
			e.report(s, "nil", "message|"+key(s, in, p)+"|"+p.String(), in, "%s, which a message may lack, is dereferenced", p)
			return
		}
		if f := m.sessPart(p); f != nil {
			tr := s.clone()
			sessDeref = append(sessDeref, func() {
				if maybeNil[f] {
					e.report(tr, "nil", "session|"+key(tr, in, p)+"|"+f.Name(), in, "the %s of a session, which not every session has, is dereferenced", f.Name())
				}
			})
		}
	}
	e.h.Assert = func(e *Engine, s *State, x *Term, t types.Type, d int, in ssa.Instruction) {
		asserts++
		if d == 1 {
			return
		}
		if m.isSess(t) && d == 0 && x.find(func(u *Term) bool { return strings.HasPrefix(u.op, "syncmap.") }) != nil {
			ok := true
			for st := range stored {
				ok = ok && st != nil && types.Identical(st, t)
			}
			if ok {
				return
			}
		}
		e.report(s, "assert", key(s, in, x)+"|"+types.TypeString(t, shortQual), in, "%s may not be a %s", x, types.TypeString(t, shortQual))
	}
	e.h.Index = func(e *Engine, s *State, b, i *Term, in ssa.Instruction, slice bool) {
		if !c.inRange(e, s, b, i, in, slice) {
			e.report(s, "index", key(s, in, b)+"|"+b.String(), in, "index %s of %s may be out of range", i, b)
		}
		indexes++
	}
	e.h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		if (op == "send" || op == "selsend") && v != nil && v.typ != nil && !s.nonNil(v) && s.decideEq(v, tNil) != -1 {
			if ct, ok := ch.typ.Underlying().(*types.Chan); ok {
				nilSent[typeKey(ct.Elem())] = in
			}
		}
		x := chanOf(ch)
		if x == nil {
			x = ch
		}
		site, _ := x.ref.(ssa.Instruction)
		if site == nil {
			// any channel of the same type
			for _, r := range m.p.Funcs {
				for _, b := range r.Blocks {
					for _, i := range b.Instrs {
						if mc, ok := i.(*ssa.MakeChan); ok && ch.typ != nil && types.Identical(mc.Type(), ch.typ) {
							if op == "close" {
								closed[i] = true
							} else if op == "send" || op == "selsend" {
								sent[i] = in
							}
						}
					}
				}
			}
			return
		}
		switch op {
		case "close":
			closed[site] = true
		case "send", "selsend":
			sent[site] = in
		}
	}
	old := e.h.Call
	e.h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.mode != "probe" {
			if rn := recvType(ci); rn != nil && m.transports[rn] && len(ci.args) > 0 {
				p := ci.arg(0)
				if ptr := ci.sig.Recv() != nil && isPtr(ci.sig.Recv().Type()); ptr && p.k != KZero && (p.isNil() || !s.nonNil(p) && s.decideEq(p, tNil) != -1) {
					if f := m.sessPart(p); f == nil || maybeNil[f] || p.isNil() {
						e.report(s, "nil", "transport|"+key(s, ci.site, p), ci.site, "a method of %s is called, which a session may lack", p)
					}
				}
				outs, ok := old(e, s, ci)
				if ok && methName(ci) == "Init" {
					outs = append(outs, Outcome{panic: fresh("panic", nil), note: "setting the transport up panics", eff: func(s *State) bool {
						s.setG("initpanic", mkStr(rn.Obj().Name()))
						s.setG("initpanicT", p)
						return true
					}})
				}
				return outs, ok
			}
		}
		return old(e, s, ci)
	}
	ev.exit = func(e *Engine, s *State, kind string, res *Term) {
		ends++
		r := s.root
		switch kind {
		case "panic":
			if t := s.g("initpanicT"); !t.isNil() {
				for n := range m.transports {
					if constStr(s.g("initpanic")) == n.Obj().Name() {
						unprotected[n] = true
					}
				}
				return
			}
			e.report(s, "panic", r.role(), nil, "%s can end in a panic with %s", r.name, res)
		case "exit":
			if r.kind == "go" || r.kind == "entry" && r.data["handler"] == nil {
				return // a listener that can't be opened ends the process at the start
			}
			e.report(s, "exit", r.role(), nil, "%s can end the process", r.name)
		}
	}
	ev.publish = func(e *Engine, s *State, id string, v *Term, t types.Type, ci *CallInfo) {
		if s.root.data["handler"] != nil && s.gStr(ghReq) == "" {
			e.report(s, "reply", id, ci.site, "%s is published for a message that was not decoded", id)
		}
	}
	m.explore(c, e)
	before := len(e.viol)
	for _, f := range sessDeref {
		f()
	}
	for _, v := range e.viol[before:] {
		c.add(v)
	}
	for site, in := range sent {
		if closed[site] {
			c.fail("closed channel", shortName(in.Parent().String()), "%s: a channel is sent to that is closed elsewhere", m.p.pos(in.Pos()))
		}
	}
	c.count["dereferences (states)"], c.count["type assertions (states)"], c.count["index operations (states)"], c.count["ends (states)"] = derefs, asserts, indexes, ends
	c.need(derefs > 0 && ends > 0, "handler", "nothing was analysed")
	c.need(len(m.others) > 0 || true, "others", "")
	c.setUpCrashes(unprotected)
	c.recorderCrashes()
}

// fromMessage: was a value decoded from a message?
func (m *wireModel) fromMessage(s *State, p *Term) bool {
	return p.find(func(u *Term) bool {
		if u.k == KObj && u.typ != nil {
			if n := namedOf(u.typ); n != nil && relPkg(m.p, n.Obj().Pkg()) == "internal/pubsub/events" {
				return true
			}
		}
		if u.typ != nil && (u.isOp("init") || u.isOp("assertval") || u.k == KSym) {
			if n := namedOf(u.typ); n != nil && relPkg(m.p, n.Obj().Pkg()) == "internal/pubsub/events" {
				return true
			}
		}
		return false
	}) != nil
}

// sessPart is the field of a session that a value was read from.
func (m *wireModel) sessPart(p *Term) *types.Var {
	if p.isOp("init") && p.args[0].isOp("field") {
		if f, ok := p.args[0].ref.(*types.Var); ok && m.isSess(deref(p.args[0].args[0].typ)) {
			return f
		}
	}
	return nil
}

// inRange: is an index or the bound of a slice known to be valid?
func (c *Ctx) inRange(e *Engine, s *State, base, idx *Term, in ssa.Instruction, slice bool) bool {
	if base.k == KObj && base.n != 0 {
		if _, ok := deref(base.typ).Underlying().(*types.Array); ok {
			if i, ok := idx.int64(); ok && i >= 0 {
				return true // checked by the compiler
			}
		}
	}
	l := mkLen(base)
	lo, _ := s.bounds(idx)
	ok := lo >= 0 || s.decideLt(idx, mkInt(0)) == -1
	if slice {
		ok = ok && s.decideLt(l, idx) == -1
		if x, isS := in.(*ssa.Slice); ok && isS && x.Low != nil && x.High != nil {
			ok = s.decideLt(idx, e.val(s, s.top(), x.Low)) == -1
		}
		return ok
	}
	return ok && s.decideLt(idx, l) == 1
}

// setUpCrashes: a transport whose set-up isn't protected must not panic on what the request says.
func (c *Ctx) setUpCrashes(which map[*types.Named]bool) {
	if len(which) == 0 {
		return
	}
	m := newAdModel(c)
	if m == nil {
		return
	}
	for _, a := range m.adapters {
		if !which[a.t] {
			c.sample("panics while setting up %s are recovered by the handler", a.name())
			continue
		}
		n := 0
		h := m.hooks()
		mine := func(s *State) bool { return s.root.fn == a.init && s.root.kind == "entry" }
		h.Index = func(e *Engine, s *State, b, i *Term, in ssa.Instruction, slice bool) {
			if mine(s) && !c.inRange(e, s, b, i, in, slice) {
				e.report(s, "index", a.name()+"|"+shortName(in.Parent().String())+"|"+b.String(), in, "index %s of %s may be out of range", i, b)
			}
		}
		h.Deref = func(e *Engine, s *State, p *Term, in ssa.Instruction) {
			if mine(s) && p.isNil() {
				e.report(s, "nil", a.name()+"|"+shortName(in.Parent().String()), in, "nil is dereferenced")
			}
		}
		h.Assert = func(e *Engine, s *State, x *Term, t types.Type, d int, in ssa.Instruction) {
			if mine(s) && d != 1 {
				e.report(s, "assert", a.name()+"|"+shortName(in.Parent().String()), in, "%s may not be a %s", x, types.TypeString(t, shortQual))
			}
		}
		h.Exit = func(e *Engine, s *State, kind string, res *Term) {
			if !mine(s) {
				return
			}
			n++
			if kind == "panic" || kind == "exit" {
				e.report(s, "panic", a.name()+"|Init|"+kind, nil, "%s.Init can end with a %s (%v), and the handler of bus messages does not recover from it", a.name(), kind, res)
			}
		}
		m.run(a, h)
		c.count["ends of "+a.name()+".Init"] = n
	}
}

// recorderCrashes: neither does making the recorder, whatever file is named.
func (c *Ctx) recorderCrashes() {
	m := c.recorder()
	if m == nil {
		return
	}
	n := 0
	m.run(&recEvents{
		index: func(e *Engine, s *State, base, idx *Term, in ssa.Instruction, slice bool) {
			if inCtor(s) && !c.inRange(e, s, base, idx, in, slice) {
				e.report(s, "index", "recorder|"+shortName(in.Parent().String())+"|"+base.String(), in, "index %s of %s may be out of range", idx, base)
			}
		},
		deref: func(e *Engine, s *State, p *Term, in ssa.Instruction) {
			if inCtor(s) && p.isNil() {
				e.report(s, "nil", "recorder|"+shortName(in.Parent().String()), in, "nil is dereferenced")
			}
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {
			if !inCtor(s) {
				return
			}
			n++
			if kind == "panic" || kind == "exit" {
				e.report(s, "panic", "recorder|"+kind, nil, "making a recorder can end with a %s (%v)", kind, res)
			}
		},
	})
	c.need(n > 0, "recorder", "no end of the recorder's constructor was found")
	c.count["ends of the recorder's constructor"] = n
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }
