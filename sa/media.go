package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C41"] = checkMedia }

// C41: what is recorded is what was asked for.

func checkMedia(c *Ctx) {
	checkSessions(c, "C41")
	c.assume = append(c.assume, "a publication keeps its id and a slice that is gone over is not changed meanwhile")
	m := newAdModel(c)
	if m == nil {
		return
	}
	for _, a := range m.adapters {
		m.media(a)
	}
	checkSessions(c, "C41")
	c.explain = "abstract interpretation of every path of the bus handler, for what the transports are given, and of the transports' set-up, for what they ask their library for: the terms at the library's calls are compared with the request's fields; a small state machine per element follows the loops over publications and media descriptions, each of which has to be dealt with, to their ends"
}

func isNamed(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name
}

// callAtom: a call in a term.
func callAtom(t *Term, suffix string, of func(*Term) bool) *Term {
	if t == nil {
		return nil
	}
	return t.find(func(u *Term) bool {
		if !strings.HasPrefix(u.op, "call:") {
			return false
		}
		op := u.op
		if i := strings.IndexByte(op, '#'); i >= 0 {
			op = op[:i]
		}
		return strings.HasSuffix(op, suffix) && (of == nil || (len(u.args) > 0 && of(u.args[0])))
	})
}

func elemOfSlice(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

// followed are the slices whose elements each have to be dealt with.
func followed(t types.Type) string {
	el := elemOfSlice(t)
	switch {
	case el == nil:
	case isNamed(el, "RemoteParticipant"):
		return "participant"
	case isNamed(el, "TrackPublication"), isNamed(el, "RemoteTrackPublication"):
		return "publication"
	case isNamed(el, "MediaDescription"):
		return "media description"
	}
	return ""
}

func (m *adModel) media(a *adapter) {
	c := m.c
	// the fields that constructors and setters fill from outside
	room, ids, offer := map[types.Object]bool{}, map[types.Object]bool{}, map[types.Object]bool{}
	set := map[types.Object]int{}
	outside := func(v ssa.Value) bool {
		_, ok := v.(*ssa.Parameter)
		return ok
	}
	for _, f := range m.p.Funcs {
		if f.Pkg == nil || !m.pkgs[f.Pkg.Pkg.Path()] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != a.t {
					continue
				}
				fv := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
				set[fv]++
				if !outside(st.Val) {
					if cst, ok := st.Val.(*ssa.Const); ok && cst.Value == nil {
						set[fv]-- // made empty at first
					}
					continue
				}
				switch {
				case isString(fv.Type()):
					room[fv] = true
				case elemOfSlice(fv.Type()) != nil && isString(elemOfSlice(fv.Type())):
					ids[fv] = true
				case isNamed(fv.Type(), "SessionDescription"):
					offer[fv] = true
				}
			}
		}
	}
	// only those that are filled nowhere else
	for fv, n := range set {
		if n != 1 {
			delete(room, fv)
			delete(ids, fv)
			delete(offer, fv)
		}
	}
	origin := map[*Term]types.Object{}
	field := func(t *Term, in map[types.Object]bool) bool {
		t = stripConvOnly(t)
		return t != nil && in[origin[t]]
	}
	isItem := func(s *State, kind string, t *Term) bool {
		it := s.g("item:" + kind)
		return !it.isNil() && t != nil && stripAssert(t) == stripAssert(it)
	}
	joined, subscribed, offers, added := 0, 0, 0, 0
	settle := func(e *Engine, s *State, kind string, in ssa.Instruction) {
		it := s.g("item:" + kind)
		s.setG("item:"+kind, tNil)
		if it.isNil() {
			return
		}
		c.inc(kind + "s gone over (states)")
		if s.gBool("done:"+kind) || s.decideEq(it, tNil) == 1 {
			return
		}
		switch kind {
		case "participant":
			e.report(s, "participant", a.name(), in, "the set-up passes over a participant without going over its publications")
		case "publication":
			e.report(s, "publication", a.name(), in, "the set-up passes over a publication that may be one of those asked for without having subscribed to it")
		case "media description":
			e.report(s, "media", a.name(), in, "the set-up passes over a media description that may be audio or video without adding a transceiver of its kind")
		}
	}
	met := func(e *Engine, s *State, kind string, base, x, idx *Term, in ssa.Instruction) {
		if isItem(s, kind, x) {
			return
		}
		settle(e, s, kind, in)
		s.setG("item:"+kind, x)
		s.setB("done:"+kind, false)
		s.setG("whether", tNil)
		s.setB("added", false)
		s.setG("kinds", tNil)
		if i, ok := idx.int64(); ok && i == 0 {
			s.setB("first:"+kind, true)
		}
		if kind == "participant" {
			s.setG("base:publication", tNil)
			s.setB("over:publication", false)
		}
		s.setG("base:"+kind, base)
		s.setB("over:"+kind, false)
	}
	// the loop over a slice has come to its end
	ended := func(e *Engine, s *State, kind string, base *Term, in ssa.Instruction) {
		settle(e, s, kind, in)
		s.setB("over:"+kind, true)
		if kind == "publication" && callAtom(base, "TrackPublications", nil) == nil {
			s.setB("later", false)
		}
		if !s.gBool("first:" + kind) {
			if _, hi := s.bounds(mkLen(base)); hi > 0 {
				e.report(s, "first", a.name()+"|"+kind, in, "the set-up goes over %ss without the first", kind)
			}
		}
		s.setB("first:"+kind, false)
		if kind == "publication" {
			s.setB("done:participant", true)
		}
	}
	isInit := func(s *State) bool { return s.root.kind == "entry" && s.root.fn == a.init }
	m.call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		if !isInit(s) || m.p.isRepoPkg(pkgOfCall(ci)) {
			return nil, false
		}
		n := methName(ci)
		switch n {
		case "WithAutoSubscribe":
			if s.decide(ci.arg(0)) == -1 {
				s.setB("noAuto", true)
			}
		case "ConnectToRoom", "Join":
			for _, x := range ci.args {
				if !isNamed(x.typ, "ConnectInfo") {
					continue
				}
				joined++
				c.inc("rooms joined (states)")
				st := x.typ.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "RoomName" {
						v := fieldOf(x, st, i)
						c.sample("%s: joins %s", e.pos(ci.site), v)
						if !field(v, room) {
							e.report(s, "room", a.name(), ci.site, "the room that is joined is %s, not the one the transport was made for", v)
						}
					}
				}
			}
			if !s.gBool("noAuto") {
				e.report(s, "auto", a.name(), ci.site, "a room is joined without turning the automatic subscription to all its tracks off")
			}
			s.setB("joined", true)
		case "SetSubscribed":
			subscribed++
			c.inc("subscriptions (states)")
			pub := stripAssert(ci.arg(0))
			if s.decide(ci.arg(1)) != 1 {
				e.report(s, "unsubscribe", a.name(), ci.site, "a publication is unsubscribed from")
				break
			}
			again := isItem(s, "publication", pub) && s.gBool("kept") && !s.gBool("others kept") && callAtom(s.g("base:publication"), "TrackPublications", nil) == nil
			if f := s.g("found"); !again && (f.isNil() || stripAssert(f) != pub) && !m.wanted(s, pub, func(t *Term) bool { return field(t, ids) }, true) {
				e.report(s, "not asked for", a.name(), ci.site, "a publication is subscribed to that may not be one of those asked for")
			}
			if isItem(s, "publication", pub) {
				s.setB("done:publication", true)
			}
			if isErrorType(ci.sig.Results().At(0).Type()) {
				return okOrErr(e, ci, "subscribing", nil, func(s *State) bool { s.setB("failed", true); return true }), true
			}
		case "GetRemoteParticipants":
			s.setB("over:participant", false)
			s.setB("listed", true)
		case "TrackPublications":
			s.setB("over:publication", false)
			if !isItem(s, "participant", ci.arg(0)) {
				break
			}
			s.setB("listing", true)
		case "Unmarshal", "UnmarshalString":
			if isNamed(ci.arg(0).typ, "SessionDescription") {
				ok := ci.arg(1).find(func(t *Term) bool { return offer[origin[t]] }) != nil
				if !ok {
					e.report(s, "parsed", a.name(), ci.site, "the media descriptions are taken from %s, not from the offer", ci.arg(1))
				}
				s.setB("parsed", ok)
			}
		case "AddTransceiverFromKind", "AddTransceiver":
			added++
			c.inc("transceivers added (states)")
			k, ok := ci.arg(1).int64()
			name := map[int64]string{1: "audio", 2: "video"}[k]
			it := s.g("item:media description")
			switch {
			case !ok || name == "":
				e.report(s, "transceiver", a.name(), ci.site, "a transceiver of the kind %s is added", ci.arg(1))
			case it.isNil():
				e.report(s, "transceiver", a.name()+"|without", ci.site, "a transceiver is added without a media description")
			case s.gBool("added"):
				e.report(s, "transceiver", a.name()+"|twice", ci.site, "a second transceiver is added for a media description")
			case !mediaIs(s, it, name, true):
				e.report(s, "transceiver", a.name()+"|"+name, ci.site, "a transceiver for %s is added for a media description that may be of another kind", name)
			}
			s.setB("added", true)
			s.setB("done:media description", true)
		case "OnTrack":
			s.setB("onTrack", true)
		case "SetRemoteDescription":
			offers++
			c.inc("offers set (states)")
			v := ci.arg(1)
			c.sample("%s: the offer is %s", e.pos(ci.site), v)
			if !field(v, offer) {
				e.report(s, "offer", a.name(), ci.site, "the remote description is %s, not the offer the transport was given", v)
			}
			if !s.gBool("over:media description") {
				e.report(s, "media", a.name()+"|left", ci.site, "the offer is answered before all its media descriptions were gone over")
			}
			if !s.gBool("onTrack") {
				e.report(s, "deaf", a.name(), ci.site, "the offer is set before the transport is told of tracks")
			}
			s.setB("remote", true)
		case "CreateAnswer":
			if !s.gBool("remote") {
				e.report(s, "answer", a.name()+"|early", ci.site, "an answer is made before the offer is set")
			}
		case "GatheringCompletePromise":
			s.setB("promised", true)
		case "SetLocalDescription":
			v := ci.arg(1)
			if callAtom(v, "CreateAnswer", nil) == nil && callAtom(s.load(v, v.typ), "CreateAnswer", nil) == nil {
				e.report(s, "answer", a.name(), ci.site, "the local description is set to %s, not to the answer", v)
			}
			s.setB("local", true)
			s.setB("gathered", false)
		case "LocalDescription":
			s.setB("final", s.gBool("gathered") && s.gBool("local"))
		}
		return nil, false
	}
	h := m.hooks()
	h.Round = func() { joined, subscribed, offers, added = 0, 0, 0, 0 }
	h.NoRoots = true
	h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		if (op == "recv" || op == "selrecv") && ch != nil && callAtom(ch, "GatheringCompletePromise", nil) != nil && s.gBool("local") {
			s.setB("gathered", true)
		}
	}
	h.Load = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		if addr.isOp("field") && addr.args[0] == s.g("recv") {
			if fv, ok := addr.ref.(types.Object); ok {
				origin[v] = fv
			}
		}
		if addr.isOp("field") && addr.args[0].isOp("field") && addr.args[0].args[0] == s.g("recv") {
			// a part of it
			if fv, ok := addr.args[0].ref.(types.Object); ok {
				origin[v] = fv
			}
		}
		if addr.isOp("index") && isInit(s) && v.typ != nil {
			if kind := followed(types.NewSlice(v.typ)); kind != "" {
				met(e, s, kind, addr.args[0], v, addr.args[1], in)
			}
		}
	}
	h.Store = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		// kept to be subscribed to later
		if addr.isOp("index") && isInit(s) && isItem(s, "publication", v) {
			if f := s.g("found"); !f.isNil() && stripAssert(f) == stripAssert(v) || m.wanted(s, stripAssert(v), func(t *Term) bool { return field(t, ids) }, true) {
				s.setB("kept", true)
			} else {
				s.setB("others kept", true)
			}
			if !s.gBool("done:publication") {
				s.setB("later", true)
				s.setB("done:publication", true)
			}
		}
	}
	h.Map = func(e *Engine, s *State, op string, mp, k, v *Term, in ssa.Instruction) {
		if !isInit(s) || k == nil {
			return
		}
		switch op {
		case "update":
			// a set made of the ids that were asked for
			if v != tFalse && k.find(func(u *Term) bool { return ids[origin[u]] || s.inSet("ids", u) }) != nil {
				s.addSet("idset", rootOf(mp))
			} else {
				s.addSet("otherset", rootOf(mp))
			}
		case "lookuphit", "lookupmiss":
			it := s.g("item:publication")
			if it.isNil() || callAtom(k, "SID", func(u *Term) bool { return about(u, it) }) == nil || !s.inSet("idset", rootOf(mp)) || s.inSet("otherset", rootOf(mp)) {
				return
			}
			if op == "lookuphit" {
				s.setG("found", it)
				if isBoolT(v.typ) {
					s.setG("whether", v)
				}
			} else {
				s.setB("done:publication", true)
			}
		}
	}
	h.Branch = func(e *Engine, s *State, cond *Term, taken bool, in ssa.Instruction) {
		if !isInit(s) {
			return
		}
		// what was asked about the element at hand
		if it := s.g("item:publication"); !it.isNil() {
			if v := s.g("whether"); !v.isNil() && s.decide(v) == -1 {
				s.setG("found", tNil)
				s.setB("done:publication", true)
			}
			if m.wanted(s, it, func(t *Term) bool { return field(t, ids) }, true) {
				s.setG("found", it)
			}
			if m.wanted(s, it, func(t *Term) bool { return field(t, ids) }, false) {
				s.setB("done:publication", true)
			}
			if x := callAtom(cond, "IsSubscribed", func(u *Term) bool { return about(u, it) }); x != nil && s.decide(x) == 1 {
				s.setB("done:publication", true)
			}
		}
		if it := s.g("item:media description"); !it.isNil() && mediaIs(s, it, "audio", false) && mediaIs(s, it, "video", false) {
			s.setB("done:media description", true)
		}
		f, ok := in.(*ssa.If)
		if !ok || !isLoopHeader(f.Block()) {
			return
		}
		t := f.Block().Succs[1]
		if taken {
			t = f.Block().Succs[0]
		}
		_, body := loopOf(f)
		if body == nil || body[t] {
			return
		}
		cond.find(func(u *Term) bool {
			if u.isOp("len") {
				if kind := followed(u.args[0].typ); kind != "" {
					ended(e, s, kind, u.args[0], in)
				}
			}
			return false
		})
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind != "return" || !isInit(s) {
			return
		}
		err := res
		n := s.root.fn.Signature.Results().Len()
		if n > 1 {
			err = tupleAt(res, n-1, nil)
		}
		if s.decideEq(err, tNil) == -1 {
			return
		}
		c.inc("successful set-ups (states)")
		if s.gBool("failed") && s.decideEq(err, tNil) != -1 {
			e.report(s, "hidden", a.name(), nil, "a set-up can succeed although subscribing to a publication failed")
		}
		if s.gBool("joined") {
			if s.gBool("later") {
				e.report(s, "publication", a.name(), nil, "the set-up can succeed without having subscribed to publications it chose")
			}
			if !s.gBool("over:participant") {
				e.report(s, "left", a.name(), nil, "a set-up can succeed before the publications of all the participants of the room were gone over")
			}
			return
		}
		if !s.gBool("remote") {
			e.report(s, "nothing", a.name(), nil, "a set-up can succeed without a room having been joined or an offer having been set")
			return
		}
		d := tupleAt(res, 0, nil)
		x := callAtom(d, "LocalDescription", nil)
		if x == nil || !s.gBool("final") {
			e.report(s, "answer", a.name()+"|returned", nil, "the answer %s isn't the local description once its candidates are gathered", d)
		}
	}
	m.run(a, h)
	m.call = nil
	c.need(joined+offers > 0, a.name()+" set-up", "%s neither joins a room nor sets an offer", a.name())
	c.need(subscribed+added > 0, a.name()+" media", "%s neither subscribes to publications nor adds transceivers", a.name())
}

// stripConvOnly: the value without changes of its type.
func stripConvOnly(t *Term) *Term {
	for t != nil && (t.isOp("conv") || t.isOp("iface")) {
		t = t.args[0]
	}
	return t
}

// about: a value is another, or a part of it.
func about(t, it *Term) bool {
	it = stripAssert(it)
	return t.find(func(u *Term) bool { return u == it }) != nil
}

// wanted: the path knows that the id of a publication is (or isn't) among those asked for.
func (m *adModel) wanted(s *State, pub *Term, ids func(*Term) bool, yes bool) bool {
	sid := func(t *Term) bool {
		return callAtom(t, "SID", func(u *Term) bool { return about(u, pub) }) != nil
	}
	for f, v := range s.facts {
		if f.find(sid) == nil {
			continue
		}
		switch {
		case callAtom(f, "slices.Contains", nil) == f && len(f.args) == 2 && ids(f.args[0]):
			if v == yes {
				return true
			}
		case f.isOp("eq"):
			one := f.args[0]
			if one.find(sid) != nil {
				one = f.args[1]
			}
			if one.find(ids) == nil || v != yes {
				break
			}
			if yes {
				return true
			}
			// not this one: nor any other, once all of them were gone over
			for g, w := range s.facts {
				if g.isOp("lt") && !w && g.args[1].isOp("len") && ids(g.args[1].args[0]) {
					return true
				}
			}
		}
	}
	if !yes {
		for f := range s.facts {
			if l := f.find(func(u *Term) bool { return u.isOp("len") && ids(u.args[0]) }); l != nil {
				if _, hi := s.bounds(l); hi <= 0 {
					return true
				}
			}
		}
	}
	return false
}

// mediaIs: the path knows that a media description is (or isn't) of a kind.
func mediaIs(s *State, it *Term, name string, yes bool) bool {
	for f, v := range s.facts {
		if !f.isOp("eq") || v != yes {
			continue
		}
		a, b := f.args[0], f.args[1]
		if constStr(a) == name {
			a, b = b, a
		}
		if constStr(b) == name && a.find(func(u *Term) bool { return u == it }) != nil {
			return true
		}
		if yes == false {
			continue
		}
	}
	if yes {
		return false
	}
	// it is known to be another
	for f, v := range s.facts {
		if !f.isOp("eq") || !v {
			continue
		}
		for i := 0; i < 2; i++ {
			if k := constStr(f.args[i]); k != "" && k != name && f.args[1-i].find(func(u *Term) bool { return u == it }) != nil {
				return true
			}
		}
	}
	return false
}

// givenMedia: what the handler of a start request gives to the transports.
func (m *srvModel) givenMedia(ev *srvEvents, hk *Hooks, rep repFn) {
	field := func(s *State, names ...string) *Term {
		o := s.g(ghReqObj)
		if o.isNil() {
			return nil
		}
		v, t := o, o.typ
		for _, n := range names {
			if v.isNil() || s.decideEq(v, tNil) == 1 {
				return nil
			}
			if v, t = wireField(s, v, t, n); v == nil {
				return nil
			}
		}
		return v
	}
	same := func(s *State, v, w *Term) bool {
		return v != nil && w != nil && (stripConvOnly(v) == stripConvOnly(w) || s.decideEq(v, w) == 1)
	}
	offers := func(s *State) []*Term {
		return []*Term{field(s, "adapterOptions", "mediasoup", "sdp"), field(s, "sdp")}
	}
	ev.unmarshal = func(e *Engine, s *State, ci *CallInfo) {
		if s.gStr(ghReq) != "StartRecording" || len(ci.args) < 2 {
			return
		}
		to := rootOf(stripIface(ci.arg(1)))
		if !isNamed(deref(to.typ), "SessionDescription") {
			return
		}
		for _, o := range offers(s) {
			if o != nil && ci.arg(0).find(func(u *Term) bool { return u == o }) != nil {
				m.c.inc("offers decoded (states)")
				s.setG("offer", to)
				if leg := field(s, "adapterOptions", "mediasoup", "sdp"); leg != nil && o != leg && s.decideEq(leg, mkStr("")) != 1 {
					rep(s, "C41", "which offer", "handler", ci, "the offer among the old fields is used although there may be one among the adapter's options")
				}
			}
		}
	}
	store := hk.Store
	hk.Store = func(e *Engine, s *State, a, v *Term, in ssa.Instruction) {
		if o := s.g("offer"); !o.isNil() && a != o && rootOf(a) == o {
			if fv, ok := a.ref.(types.Object); ok && a.isOp("field") && isString(fv.Type()) {
				s.setG("altered", v)
			}
		}
		if store != nil {
			store(e, s, a, v, in)
		}
	}
	ev.given = func(e *Engine, s *State, ci *CallInfo) {
		if s.gStr(ghReq) != "StartRecording" || s.root.kind != "entry" {
			return
		}
		for _, a := range ci.args {
			switch {
			case a.typ == nil:
			case isNamed(a.typ, "SessionDescription"):
				o := s.g("offer")
				m.c.inc("offers given to a transport (states)")
				if o.isNil() || !same(s, a, s.load(o, a.typ)) {
					rep(s, "C41", "offer", "handler", ci, "the transport is given %s, which isn't the offer of the request", a)
				}
				if v := s.g("altered"); !v.isNil() {
					rep(s, "C41", "altered", "handler", ci, "the offer of the request is changed to %s before the transport is given it", v)
				}
				s.setB("offered", true)
			case ci.mode == "call" && elemOfSlice(a.typ) != nil && isString(elemOfSlice(a.typ)):
				m.c.inc("lists of tracks given to a transport (states)")
				if !same(s, a, field(s, "adapterOptions", "livekit", "trackIds")) {
					rep(s, "C41", "tracks", "handler", ci, "the transport is given the tracks %s, not those of the request", a)
				}
				s.setB("offered", true)
			case isString(a.typ) && ci.callee.fn != nil && ci.callee.fn.Signature.Recv() == nil:
				m.c.inc("rooms given to a transport (states)")
				if !same(s, a, field(s, "adapterOptions", "livekit", "room")) {
					rep(s, "C41", "room", "handler", ci, "the transport is given the room %s, not that of the request", a)
				}
			}
		}
		if methName(ci) == "Init" && !s.gBool("offered") {
			rep(s, "C41", "nothing", "handler", ci, "a transport is set up without having been given what to record")
		}
	}
}
