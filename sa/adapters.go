package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C21"] = checkSkips
	checks["C25"] = checkMonitors
}

// adapter is a media transport: a type whose Init is given the recorder.
type adapter struct {
	t    *types.Named
	init *ssa.Function
}

func (a *adapter) name() string { return a.t.Obj().Pkg().Name() + "." + a.t.Obj().Name() }

// adModel explores the transports: their Init, their other operations, and
// the callbacks and goroutines these start.
type adModel struct {
	c        *Ctx
	p        *Prog
	rec      *types.Named // the recorder's interface
	adapters []*adapter
	pkgs     map[string]bool
	jb       *types.Named    // the repository's jitter buffer
	not      map[string]bool // kinds the track is known not to be of (set by kinds)

	split   bool // tell true from false where a loop begins again
	push    func(e *Engine, s *State, kind string, ci *CallInfo)
	notify  func(e *Engine, s *State, ci *CallInfo)
	declare func(e *Engine, s *State, kind string, v *Term, ci *CallInfo)
	jbCall  func(e *Engine, s *State, meth string, ci *CallInfo) ([]Outcome, bool)
	result  func(e *Engine, s *State, ci *CallInfo, r *Term)
	call    func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool)
}

func newAdModel(c *Ctx) *adModel {
	m := &adModel{c: c, p: c.p, pkgs: map[string]bool{}}
	m.rec = c.p.typ("internal/webrtc/recorder", "Recorder")
	if !c.need(m.rec != nil, "recorder interface", "no type recorder.Recorder") {
		return nil
	}
	for _, sp := range c.p.SSA.AllPackages() {
		if !c.p.isRepoPkg(sp.Pkg) {
			continue
		}
		for _, mem := range sp.Members {
			tn, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			if relPkg(c.p, sp.Pkg) == "internal/webrtc/utils" {
				for i := 0; i < n.NumMethods(); i++ {
					if n.Method(i).Name() == "NextPackets" {
						m.jb = n
					}
				}
			}
			f := c.p.method(n, "Init")
			if f == nil || f.Blocks == nil || !sigHas(f.Signature, m.rec) {
				continue
			}
			m.adapters = append(m.adapters, &adapter{t: n, init: f})
			m.pkgs[sp.Pkg.Path()] = true
		}
	}
	sort.Slice(m.adapters, func(i, j int) bool { return m.adapters[i].name() < m.adapters[j].name() })
	if !c.need(len(m.adapters) > 0, "transports", "no type has an Init method that is given a recorder.Recorder") {
		return nil
	}
	return m
}

// recvType is the named type a call's method belongs to.
func recvType(ci *CallInfo) *types.Named {
	if ci.callee.fn != nil && ci.callee.fn.Signature.Recv() != nil {
		return namedOf(ci.callee.fn.Signature.Recv().Type())
	}
	if ci.callee.obj != nil {
		if sg, ok := ci.callee.obj.Type().(*types.Signature); ok && sg.Recv() != nil {
			return namedOf(sg.Recv().Type())
		}
	}
	return nil
}

// trackRoot: the activity of a media track (the callback given the track, or
// something it started).
func trackRoot(r *Root) *Root {
	for ; r != nil; r = r.parent {
		if r.kind != "callback" {
			continue
		}
		for _, p := range r.fn.Params {
			if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "TrackRemote" {
				return r
			}
		}
	}
	return nil
}

func (m *adModel) hooks() *Hooks {
	h := &Hooks{KeepArgs: true}
	h.Inline = func(fn *ssa.Function) bool {
		for f := fn; f != nil; f = f.Parent() {
			if f.Pkg != nil && m.pkgs[f.Pkg.Pkg.Path()] {
				return true
			}
		}
		return false
	}
	h.KeepFact = func(f *Term) bool { return true }
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		rn := recvType(ci)
		meth := methName(ci)
		if rn != nil && rn == m.rec {
			if ci.mode == "probe" {
				return nil, true
			}
			switch meth {
			case "PushAudio", "PushVideo":
				if m.push != nil {
					m.push(e, s, strings.ToLower(strings.TrimPrefix(meth, "Push")), ci)
				}
			case "NotifySkippedPacket":
				if m.notify != nil {
					m.notify(e, s, ci)
				}
			case "SetHasAudio", "SetHasVideo":
				if m.declare != nil {
					m.declare(e, s, strings.ToLower(strings.TrimPrefix(meth, "SetHas")), ci.arg(1), ci)
				}
			}
			return []Outcome{{}}, true
		}
		if ci.mode == "probe" {
			return nil, false
		}
		if rn != nil && rn == m.jb && m.jbCall != nil {
			return m.jbCall(e, s, meth, ci)
		}
		if m.call != nil {
			return m.call(e, s, ci)
		}
		return nil, false
	}
	h.Result = func(e *Engine, s *State, ci *CallInfo, r *Term) {
		if m.result != nil {
			m.result(e, s, ci, r)
		}
	}
	return h
}

// run explores one transport.
func (m *adModel) run(a *adapter, h *Hooks) *Engine {
	e := m.c.engine(h)
	e.splitBools = m.split
	var roots []*Root
	add := func(f *ssa.Function) {
		r := e.NewRoot(a.name()+"."+f.Name(), f, nil, nil)
		r.data = map[string]any{}
		recv := r.args[0]
		r.init.shared[recv] = true
		if f == a.init {
			for i, p := range f.Params {
				if i > 0 && namedOf(p.Type()) == m.rec {
					r.nonNil[r.args[i]] = true
				}
			}
		}
		r.init.setG("recv", recv)
		roots = append(roots, r)
	}
	add(a.init)
	for i := 0; i < a.t.NumMethods(); i++ {
		f := m.p.SSA.FuncValue(a.t.Method(i))
		if f == nil || f.Blocks == nil || !a.t.Method(i).Exported() || f == a.init {
			continue
		}
		add(f)
	}
	m.c.explore(e, roots...)
	return e
}

// kinds is what the path knows of the kind of the track whose properties mention one of xs.
func (m *adModel) kinds(s *State, about func(call *Term) bool) (audio, video int) {
	yes, no := map[string]bool{}, map[string]bool{}
	for f, v := range s.facts {
		var k string
		var x *Term
		switch {
		case f.isOp("eq"):
			a, b := f.args[0], f.args[1]
			if a.isConst() {
				a, b = b, a
			}
			if !b.isConst() {
				continue
			}
			x = a
			k = constKind(b, a.typ)
		case strings.HasPrefix(f.op, "call:strings.HasPrefix") || strings.HasPrefix(f.op, "call:strings.EqualFold"):
			x = f.args[0]
			k = constKind(f.args[1], nil)
		}
		if k == "" || x == nil {
			continue
		}
		kindCall := false
		src := x.find(func(u *Term) bool {
			if !strings.HasPrefix(u.op, "call:") {
				return false
			}
			n := strings.SplitN(u.op[strings.LastIndex(u.op, ".")+1:], "#", 2)[0]
			if n == "Kind" {
				kindCall = true
				return about(u)
			}
			return n == "Codec" && about(u)
		})
		if src == nil {
			continue
		}
		switch {
		case v:
			yes[k] = true
		case kindCall:
			no[k] = true
		}
	}
	// facts of several sources or of several tracks may disagree: known is what one of them says
	say := func(k, other string) int {
		switch {
		case yes[k] || no[other]:
			return 1
		case yes[other] || no[k]:
			return -1
		}
		return 0
	}
	m.not = map[string]bool{"audio": no["audio"] || yes["video"], "video": no["video"] || yes["audio"]}
	return say("audio", "video"), say("video", "audio")
}

// constKind: does a constant stand for audio or video?
func constKind(c *Term, t types.Type) string {
	if t, ok := c.str(); ok {
		l := strings.ToLower(t)
		switch {
		case strings.HasPrefix(l, "audio"):
			return "audio"
		case strings.HasPrefix(l, "video"):
			return "video"
		}
		return ""
	}
	var n *types.Named
	if t != nil {
		n = namedOf(t)
	}
	if n == nil {
		n = namedOf(c.typ)
	}
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	v, ok := c.int64()
	if !ok {
		return ""
	}
	for _, name := range n.Obj().Pkg().Scope().Names() {
		k, ok := n.Obj().Pkg().Scope().Lookup(name).(*types.Const)
		if !ok || !types.Identical(k.Type(), n) {
			continue
		}
		if i, ok := mkConst(k.Val(), k.Type()).int64(); ok && i == v {
			l := strings.ToLower(name)
			switch {
			case strings.HasSuffix(l, "audio"):
				return "audio"
			case strings.HasSuffix(l, "video"):
				return "video"
			}
		}
	}
	return ""
}

// ---- C22: adapters ----

func (c *Ctx) adapterTracks() {
	m := newAdModel(c)
	if m == nil {
		return
	}
	for _, a := range m.adapters {
		a := a
		type sub struct {
			key, msg string
			in       ssa.Instruction
			s        *State
		}
		var subs []sub
		undeclared := map[string]bool{}
		pushes := 0
		subscribed := 0
		m.push = func(e *Engine, s *State, kind string, ci *CallInfo) {
			pushes++
			au, vi := m.kinds(s, func(*Term) bool { return true })
			other := map[string]string{"audio": "video", "video": "audio"}[kind]
			ok := (kind == "audio" && au == 1) || (kind == "video" && vi == 1)
			c.inc("packet hand-overs of the transports")
			c.sample("%s: %s handed to the %s path; the path knows audio=%s video=%s", e.pos(ci.site), ci.arg(1), kind, tri(au), tri(vi))
			switch {
			case ok:
			case (kind == "audio" && au == -1) || (kind == "video" && vi == -1):
				e.report(s, "kind", a.name()+"|"+kind+"|"+other, ci.site, "a packet of a %s track is handed to the %s path", other, kind)
			default:
				e.report(s, "kind", a.name()+"|"+kind+"|unknown", ci.site, "a packet is handed to the %s path although the track need not be a %s track", kind, kind)
			}
			if !s.gBool("decl:"+kind) && !m.not[kind] {
				undeclared[kind] = true
			}
			// its packets, not those of another track
			from := ci.arg(1).find(func(u *Term) bool { return u.k == KObj && s.inSet("outer", u) })
			if from != nil {
				e.report(s, "shared", a.name()+"|"+kind, ci.site, "the packet comes from %s, which all the tracks share", from)
			}
		}
		m.declare = func(e *Engine, s *State, kind string, v *Term, ci *CallInfo) {
			if v == tFalse {
				s.setB("decl:"+kind, false)
				return
			}
			c.inc("track declarations of the transports")
			au, vi := m.kinds(s, func(*Term) bool { return true })
			if (kind == "audio" && au == -1 && vi == 1) || (kind == "video" && vi == -1 && au == 1) {
				e.report(s, "declare", a.name()+"|"+kind, ci.site, "a track of the other kind is declared as %s", kind)
			}
			s.setB("decl:"+kind, true)
		}
		m.call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
			if methName(ci) == "SetSubscribed" && ci.arg(1) != tFalse && !m.c.p.isRepoPkg(pkgOfCall(ci)) {
				subscribed++
				c.inc("subscriptions to tracks")
				pub := stripAssert(ci.arg(0))
				if s.gBool("collected") && pub.find(func(u *Term) bool { return strings.HasPrefix(u.op, "call:") || u.k == KSym && strings.HasPrefix(u.op, "param") }) == nil {
					// one of those put aside before
					for _, k := range []string{"audio", "video"} {
						if s.gBool("undeclared:" + k) {
							subs = append(subs, sub{a.name() + "|" + k, k, ci.site, s.clone()})
						}
					}
					return nil, false
				}
				m.kinds(s, func(k *Term) bool { return len(k.args) > 0 && stripAssert(k.args[0]) == pub })
				for _, k := range []string{"audio", "video"} {
					if !m.not[k] && !s.gBool("decl:"+k) {
						subs = append(subs, sub{a.name() + "|" + k, k, ci.site, s.clone()})
					}
				}
				// an implementation that receives before it subscribes doesn't need it
			}
			return nil, false
		}
		h := m.hooks()
		h.Round = func() { subs, undeclared, pushes, subscribed = nil, map[string]bool{}, 0, 0 }
		h.Result = func(e *Engine, s *State, ci *CallInfo, r *Term) {
			if r != nil && trackRoot(s.root) == nil && r.k == KObj {
				s.addSet("outer", r)
			}
		}
		collect := func(s *State, v *Term) {
			if v = stripAssert(v); v.typ == nil || v.isConst() || !methodSetHas(v.typ, "Kind") || !methodSetHas(v.typ, "MimeType") || s.gBool("collected") && v.find(func(u *Term) bool { return strings.HasPrefix(u.op, "call:") }) == nil {
				return
			}
			s.setB("collected", true)
			m.kinds(s, func(k *Term) bool { return len(k.args) > 0 && stripAssert(k.args[0]) == v })
			for _, k := range []string{"audio", "video"} {
				if !m.not[k] && !s.gBool("decl:"+k) {
					s.setB("undeclared:"+k, true)
				}
			}
		}
		h.Store = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
			if addr.isOp("index") {
				collect(s, v)
			}
		}
		h.Map = func(e *Engine, s *State, op string, mp, k, v *Term, in ssa.Instruction) {
			if op == "update" {
				collect(s, v)
			}
		}
		e := m.run(a, h)
		c.need(pushes > 0, a.name()+" hand-over", "%s hands no packets to the recorder", a.name())
		if len(undeclared) > 0 && subscribed == 0 {
			for k := range undeclared {
				c.fail("undeclared", a.name()+"|"+k, "packets of a %s track are handed over by %s although the track was not declared to the recorder", k, a.name())
			}
		}
		for _, x := range subs {
			if undeclared[x.msg] {
				e.viol, e.vkeys = nil, map[string]bool{}
				e.report(x.s, "undeclared", x.key, x.in, "a track that may be a %s track is subscribed to before it is declared to the recorder", x.msg)
				for _, v := range e.viol {
					c.add(v)
				}
			}
		}
	}
	m.push, m.declare, m.call = nil, nil, nil
}

func tri(i int) string {
	switch {
	case i > 0:
		return "yes"
	case i < 0:
		return "no"
	}
	return "?"
}

func stripAssert(t *Term) *Term {
	for t.isOp("assertval") || t.isOp("iface") || t.isOp("conv") {
		t = t.args[0]
	}
	return t
}

func pkgOfCall(ci *CallInfo) *types.Package {
	if ci.callee.fn != nil && ci.callee.fn.Pkg != nil {
		return ci.callee.fn.Pkg.Pkg
	}
	if ci.callee.obj != nil {
		return ci.callee.obj.Pkg()
	}
	return nil
}

// ---- C21 ----

func checkSkips(c *Ctx) {
	c.explain = "typestate over every path of the transports that use the repository's jitter buffer: taking packets from the buffer obliges to ask it for what it gave up on, and to pass that on, before the next packet is handed to the recorder; and, over every path of the buffer's own operations, moving its position over a missing packet obliges to record the packet as given up on"
	m := newAdModel(c)
	if m == nil {
		return
	}
	if !c.need(m.jb != nil, "jitter buffer", "no type of internal/webrtc/utils has a method NextPackets") {
		return
	}
	used := 0
	for _, a := range m.adapters {
		a := a
		n := 0
		rule := func(e *Engine, s *State, ci *CallInfo, what string) {
			if s.gBool("taken") && !s.gBool("asked") {
				e.report(s, "unasked", a.name()+"|"+what, ci.site, "%s after packets were taken from the jitter buffer, without asking it first which packets it gave up on", what)
			}
			if p := s.g("pending"); !p.isNil() {
				e.report(s, "untold", a.name()+"|"+what, ci.site, "%s although the recorder was not told about the packets that were given up on", what)
			}
		}
		m.push = func(e *Engine, s *State, kind string, ci *CallInfo) {
			if trackRoot(s.root) == nil {
				return
			}
			c.inc("packet hand-overs")
			c.sample("%s: a %s packet is handed over", e.pos(ci.site), kind)
			rule(e, s, ci, "a "+kind+" packet is handed over")
		}
		m.notify = func(e *Engine, s *State, ci *CallInfo) {
			c.inc("loss notifications")
			p := s.g("pending")
			if p.isNil() {
				return
			}
			v := ci.arg(1)
			for v.isOp("conv") {
				v = v.args[0]
			}
			if v != p {
				e.report(s, "which", a.name(), ci.site, "the recorder is told about %s, but the packet given up on is %s", ci.arg(1), p)
			}
			s.setG("pending", tNil)
		}
		m.jbCall = func(e *Engine, s *State, meth string, ci *CallInfo) ([]Outcome, bool) {
			switch meth {
			case "NextPackets":
				n++
				s.setB("taken", true)
				s.setB("asked", false)
			case "GetAndClearLastSkipped":
				rs := ci.sig.Results()
				if rs.Len() != 2 {
					return nil, false
				}
				c.inc("questions for skipped packets")
				v := fresh("call:"+ci.name, rs.At(0).Type())
				return []Outcome{
					{res: mkOp("tuple", rs, v, tTrue), eff: func(s *State) bool {
						if p := s.g("pending"); !p.isNil() {
							e.report(s, "untold", a.name()+"|asked again", ci.site, "the jitter buffer is asked again although the recorder was not told about the packets it had given up on")
						}
						s.setB("asked", true)
						s.setG("pending", v)
						return true
					}, note: "packets were skipped"},
					{res: mkOp("tuple", rs, zeroOf(rs.At(0).Type()), tFalse), eff: func(s *State) bool {
						s.setB("asked", true)
						return true
					}, note: "none were skipped"}}, true
			}
			return nil, false
		}
		h := m.hooks()
		h.Exit = func(e *Engine, s *State, kind string, res *Term) {
			if p := s.g("pending"); !p.isNil() && kind == "return" {
				// nothing is handed over any more
			}
		}
		h.Round = func() { n = 0 }
		m.run(a, h)
		if n > 0 {
			used++
			c.sample("%s takes its packets from %s", a.name(), m.jb.Obj().Name())
		} else {
			c.sample("%s doesn't use %s: out of scope", a.name(), m.jb.Obj().Name())
		}
	}
	c.need(used > 0, "use of the jitter buffer", "no transport takes its packets from %s", m.jb.Obj().Name())
	m.push, m.notify, m.jbCall = nil, nil, nil
	c.jitterSkips(m.jb)
}

// ---- C25 ----

type monInfo struct {
	fn     *ssa.Function
	waits  bool // waits for time to pass
	reads  bool // reads the track
	exits  []monExit
	stops  map[*Term]bool
	closed bool
}

type monExit struct {
	stop    *Term // what ended it, nil if it ended by itself
	sig     map[*Term]int
	closedN int64
	kids    []*Term
	s       *State
}

func checkMonitors(c *Ctx) {
	c.explain = "typestate over every path of the callbacks of media tracks and of every goroutine they start: a goroutine that waits for time to pass must end, and only end, when one of its stop channels is signalled; the activity that reads the track must signal each on every way out, after its last read; the end of a track is reported as closed exactly once in total"
	m := newAdModel(c)
	if m == nil {
		return
	}
	for _, a := range m.adapters {
		m.monitors(a)
	}
}

// chanOf is what identifies a stop channel: the channel, or its context.
func chanOf(ch *Term) *Term {
	if strings.HasPrefix(ch.op, "call:") && strings.Contains(ch.op, ".Done") && len(ch.args) > 0 {
		return stripAssert(ch.args[0])
	}
	for ch.isOp("conv") {
		ch = ch.args[0]
	}
	if ch.k == KObj && ch.ref != nil {
		// the same in every activity that knows of it
		return intern(KObj, "site", ch.typ, ch.ref, 0, nil)
	}
	return ch
}

func isTimeChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	n := namedOf(ch.Elem())
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isFlowCallback(sig *types.Signature) bool {
	return sig != nil && sig.Params().Len() == 3 && sig.Results().Len() == 0 &&
		types.TypeString(sig.Params().At(0).Type(), nil) == "bool" && types.TypeString(sig.Params().At(1).Type(), nil) == "time.Duration" &&
		types.TypeString(sig.Params().At(2).Type(), nil) == "bool"
}

func (m *adModel) monitors(a *adapter) {
	c := m.c
	var mons map[*ssa.Function]*monInfo
	info := func(f *ssa.Function) *monInfo {
		if mons[f] == nil {
			mons[f] = &monInfo{fn: f, stops: map[*Term]bool{}}
		}
		return mons[f]
	}
	h := m.hooks()
	h.Round = func() { mons = map[*ssa.Function]*monInfo{} }
	wait := func(e *Engine, s *State, in ssa.Instruction) {
		if trackRoot(s.root) == nil {
			return
		}
		info(s.root.fn).waits = true
		if d := s.g("stopped"); !d.isNil() {
			e.report(s, "goes on", a.name()+"|"+s.root.fn.Name(), in, "the activity waits again although it was told to stop (%s)", d)
		}
	}
	signal := func(s *State, ch *Term, n int64) {
		s.addSet("signalled", ch)
		k := "sig:" + itoa(ch.id)
		s.setI(k, clampI(s.gInt(k)+n))
	}
	h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		if trackRoot(s.root) == nil || ch == nil {
			return
		}
		switch op {
		case "recv", "selrecv":
			if isTimeChan(ch.typ) {
				wait(e, s, in)
				return
			}
			d := chanOf(ch)
			info(s.root.fn).stops[d] = true
			s.setG("stopped", d)
		case "send", "selsend":
			signal(s, chanOf(ch), 1)
		case "close":
			signal(s, chanOf(ch), 1000)
		}
	}
	h.Spawn = func(e *Engine, s *State, r *Root) {
		if trackRoot(s.root) != nil && r.kind == "go" {
			s.addSet("kids", intern(KFunc, "", nil, r.fn, 0, nil))
			c.inc("goroutines started for tracks")
			n := map[string]*Term{}
			if v := s.g("kids"); !v.isNil() {
				n["older"] = v
			}
			r.data["ghost"] = n
		}
	}
	m.call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		if trackRoot(s.root) == nil {
			return nil, false
		}
		switch {
		case ci.name == "time.Sleep":
			wait(e, s, ci.site)
		case methName(ci) == "ReadRTP" || (methName(ci) == "Read" && recvType(ci) != nil && recvType(ci).Obj().Name() == "TrackRemote"):
			c.inc("reads of tracks")
			info(s.root.fn).reads = true
			for _, d := range s.set("signalled") {
				e.report(s, "early", a.name()+"|"+s.root.fn.Name(), ci.site, "the track is read although the end of its monitoring was already signalled (%s)", d)
			}
		case ci.callee.fn == nil && ci.callee.obj == nil && isFlowCallback(ci.sig):
			c.inc("flow reports")
			switch s.decide(ci.arg(2)) {
			case 1:
				s.setI("closed", clampI(s.gInt("closed")+1))
				if s.g("stopped").isNil() && !info(s.root.fn).reads {
					e.report(s, "closed early", a.name()+"|"+s.root.fn.Name(), ci.site, "the track is reported as closed although its end wasn't signalled")
				}
				if len(ci.args) > 0 && s.decide(ci.arg(0)) != -1 {
					e.report(s, "closed flowing", a.name()+"|"+s.root.fn.Name(), ci.site, "the end of a track is reported as flowing")
				}
			case 0:
				e.report(s, "closed unknown", a.name()+"|"+s.root.fn.Name(), ci.site, "it isn't determined whether the track is reported as closed")
			}
			return []Outcome{{}}, true
		case ci.name == "context.WithCancel" || ci.name == "context.WithTimeout" || ci.name == "context.WithDeadline":
			r := e.freshResult(ci)
			s.setG("~cancel:"+itoa(r.args[1].id), r.args[0])
			return []Outcome{{res: r}}, true
		case ci.callee.clo != nil:
			if d := s.g("~cancel:" + itoa(ci.callee.clo.id)); !d.isNil() {
				signal(s, d, 1000)
				return []Outcome{{}}, true
			}
		}
		return nil, false
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		tr := trackRoot(s.root)
		if tr == nil || kind != "return" {
			return
		}
		x := monExit{sig: map[*Term]int{}, closedN: s.gInt("closed"), kids: s.set("kids"), s: s.clone()}
		if d := s.g("stopped"); !d.isNil() {
			x.stop = d
		}
		for _, d := range s.set("signalled") {
			x.sig[d] = int(s.gInt("sig:" + itoa(d.id)))
		}
		i := info(s.root.fn)
		i.exits = append(i.exits, x)
		c.inc("ends of track activities")
	}
	e := m.run(a, h)
	m.call = nil
	e.viol, e.vkeys = nil, map[string]bool{}
	defer func() {
		for _, v := range e.viol {
			c.add(v)
		}
	}()
	var tracks, fns []*ssa.Function
	reader := map[*ssa.Function]bool{}
	for f, i := range mons {
		fns = append(fns, f)
		if i.reads {
			reader[f] = true
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	if !c.need(len(reader) > 0, a.name()+" reader", "%s never reads a track", a.name()) {
		return
	}
	for _, r := range e.roots {
		if t := trackRoot(r); t == r {
			dup := false
			for _, f := range tracks {
				dup = dup || f == r.fn
			}
			if !dup {
				tracks = append(tracks, r.fn)
			}
		}
	}
	// monitors: what stops them
	stopsOf := map[*ssa.Function]map[*Term]bool{}
	closedOf := map[*ssa.Function]map[int64]bool{}
	for _, f := range fns {
		i := mons[f]
		closedOf[f] = map[int64]bool{}
		for _, x := range i.exits {
			closedOf[f][x.closedN] = true
		}
		if reader[f] || !i.waits {
			continue
		}
		c.inc("monitors")
		if len(i.exits) == 0 {
			c.fail("never stops", a.name()+"|"+f.Name(), "%s: the activity %s started for a track never ends", m.p.pos(f.Pos()), shortName(f.String()))
			continue
		}
		stopsOf[f] = map[*Term]bool{}
		for _, x := range i.exits {
			if x.stop == nil {
				e.report(x.s, "ends early", a.name()+"|"+f.Name(), nil, "the activity %s can end by itself while the track is still being read", shortName(f.String()))
				continue
			}
			stopsOf[f][x.stop] = true
		}
		ds := []string{}
		for d := range stopsOf[f] {
			ds = append(ds, d.String())
		}
		c.sample("%s: ended by %s", m.p.pos(f.Pos()), strings.Join(ds, ", "))
	}
	isMon := func(t *Term) *ssa.Function {
		f := t.ref.(*ssa.Function)
		if stopsOf[f] != nil {
			return f
		}
		return nil
	}
	// on every way out of the reader, each of the monitors is told
	check := func(f *ssa.Function, x monExit, kids []*Term) {
		need := map[*Term]int{}
		for _, k := range kids {
			g := isMon(k)
			if g == nil || g == f {
				continue
			}
			c.inc("stop obligations")
			told := false
			for d := range stopsOf[g] {
				if x.sig[d] > 0 {
					told = true
					need[d]++
				}
			}
			if !told {
				e.report(x.s, "not stopped", a.name()+"|"+g.Name()+"|"+f.Name(), nil, "reading the track ends without telling the activity %s to stop", shortName(g.String()))
			}
		}
		for d, n := range need {
			if x.sig[d] < n {
				e.report(x.s, "not stopped", a.name()+"|"+f.Name()+"|count", nil, "%d activities wait on %s, which is signalled %d times", n, d, x.sig[d])
			}
		}
	}
	for _, tf := range tracks {
		i := mons[tf]
		if i == nil {
			continue
		}
		for _, x := range i.exits {
			if reader[tf] {
				check(tf, x, x.kids)
				if a.flowPerTrack(reader, tracks) {
					lo, hi := x.closedN, x.closedN
					for _, k := range x.kids {
						l, h := minmax(closedOf[k.ref.(*ssa.Function)])
						lo += l
						hi += h
					}
					c.inc("ends of tracks")
					if lo != 1 || hi != 1 {
						e.report(x.s, "closed", a.name()+"|"+tf.Name(), nil, "the end of a track is reported as closed %d to %d times instead of once", lo, hi)
					}
				}
				continue
			}
			rd := false
			mon := false
			for _, k := range x.kids {
				f := k.ref.(*ssa.Function)
				if reader[f] {
					rd = true
					for _, y := range mons[f].exits {
						check(f, y, x.kids)
					}
				}
				mon = mon || isMon(k) != nil
			}
			if mon && !rd {
				check(tf, x, x.kids)
			}
		}
	}
	c.need(len(tracks) > 0, a.name()+" tracks", "%s is not told about tracks", a.name())
	_ = token.NoPos
}

func minmax(m map[int64]bool) (lo, hi int64) {
	first := true
	for v := range m {
		if first || v < lo {
			lo = v
		}
		if first || v > hi {
			hi = v
		}
		first = false
	}
	return
}

// flowPerTrack: the adapter reads in the callback of the track, whose end is
// the end of the session.
func (a *adapter) flowPerTrack(reader map[*ssa.Function]bool, tracks []*ssa.Function) bool {
	for _, t := range tracks {
		if reader[t] {
			return true
		}
	}
	return false
}

// ---- C02 and C06: the transports' half ----

// transportEnds: what a transport opens can be closed, and the loss of its
// connection is reported.
func (c *Ctx) transportEnds(id string) {
	m := newAdModel(c)
	if m == nil {
		return
	}
	for _, a := range m.adapters {
		m.ends(a, id)
	}
}

func isOpen(ci *CallInfo) bool {
	n := methName(ci)
	return (n == "NewPeerConnection" || strings.HasPrefix(n, "ConnectToRoom")) && ci.sig != nil && ci.sig.Results().Len() == 2
}

func isShut(ci *CallInfo) bool {
	switch methName(ci) {
	case "Close", "GracefulClose", "Disconnect":
		return true
	}
	return false
}

func (m *adModel) ends(a *adapter, id string) {
	c := m.c
	kept := map[types.Object]bool{}
	lost := map[*ssa.Function]bool{}
	opened, reports, closes := 0, 0, 0
	h := m.hooks()
	h.Round = func() { opened, reports, closes = 0, 0, 0 }
	fieldVar := func(addr *Term) types.Object {
		if addr.isOp("field") {
			if v, ok := addr.ref.(*types.Var); ok {
				return v
			}
		}
		return nil
	}
	m.call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		switch {
		case isOpen(ci) && m.c.p.isRepoPkg(pkgOfCall(ci)) == false:
			opened++
			c.inc("connections opened")
			r := e.freshResult(ci)
			s.setG("handle", r.args[0])
			s.setG("handleErr", r.args[1])
			s.setB("closed", false)
			s.setB("kept", false)
			for _, x := range ci.args {
				e.findFuncs(s, ci, x, 0)
			}
			return []Outcome{{res: r}}, true
		case isShut(ci):
			v := ci.arg(0)
			s.addSet("shut", v)
			if v == s.g("handle") {
				s.setB("closed", true)
			}
		case ci.callee.fn == nil && ci.callee.obj == nil && ci.callee.builtin == nil && ci.sig != nil:
			s.setG("told", mkOp("told", nil, ci.args...))
			if isFlowCallback(ci.sig) {
				if s.decide(ci.arg(2)) == 1 {
					s.setB("toldClosed", true)
				}
				return []Outcome{{}}, true
			}
			if ci.sig.Params().Len() == 1 && namedOf(ci.sig.Params().At(0).Type()) != nil && strings.HasSuffix(namedOf(ci.sig.Params().At(0).Type()).Obj().Name(), "State") {
				s.setG("toldState", ci.arg(0))
				return []Outcome{{}}, true
			}
		}
		return nil, false
	}
	h.Store = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		f := fieldVar(addr)
		if f == nil {
			return
		}
		if !s.g("recv").isNil() && rootOf(addr) == s.g("recv") {
			if v == s.g("handle") && !v.isNil() {
				s.setB("kept", true)
				kept[f] = true
			}
		}
		if strings.HasPrefix(f.Name(), "OnDisconnected") && !v.isNil() {
			if v.k == KFunc || v.isOp("closure") {
				lost[v.ref.(*ssa.Function)] = true
			}
		}
	}
	h.Load = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		if f := fieldVar(addr); f != nil && kept[f] && rootOf(addr) == s.g("recv") {
			s.setG("loaded", v)
		}
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		r := s.root
		switch {
		case r.kind == "entry" && r.fn == a.init:
			hd := s.g("handle")
			if hd.isNil() || s.decideEq(s.g("handleErr"), tNil) == -1 || kind == "exit" {
				return
			}
			c.inc("ways out of Init with a connection")
			if !s.gBool("kept") && !s.gBool("closed") {
				e.report(s, "leaked", a.name()+"|Init", nil, "%s.Init can end with a connection open that Close doesn't know of", a.name())
			}
		case r.kind == "entry" && r.fn.Name() == "Close" && kind == "return":
			closes++
			c.inc("ways out of Close")
			v := s.g("loaded")
			if v.isNil() && s.ghost["loaded"] == nil {
				e.report(s, "not closed", a.name()+"|Close", nil, "%s.Close can return without looking for the connection", a.name())
				return
			}
			if s.decideEq(v, tNil) != 1 && !s.inSet("shut", v) {
				e.report(s, "not closed", a.name()+"|Close", nil, "%s.Close can return without closing the connection", a.name())
			}
		case r.kind == "callback" && kind == "return" && (strings.HasSuffix(r.lib, "OnICEConnectionStateChange") || strings.HasSuffix(r.lib, ".OnConnectionStateChange")):
			reports++
			c.inc("ways out of the connection state callback")
			if id == "C06" && len(r.args) > 0 && s.g("toldState") != r.args[len(r.args)-1] {
				e.report(s, "silent", a.name()+"|state", nil, "a change of the connection's state is not passed on")
			}
		case r.kind == "callback" && kind == "return" && lost[r.fn]:
			reports++
			c.inc("ways out of the disconnection callback")
			if id == "C06" && !s.gBool("toldClosed") {
				e.report(s, "silent", a.name()+"|disconnected", nil, "the loss of the room is not reported as closed")
			}
		}
	}
	m.run(a, h)
	m.call = nil
	c.need(opened > 0, a.name()+" connection", "%s opens no connection", a.name())
	c.need(closes > 0, a.name()+" Close", "%s has no Close that returns", a.name())
	if id == "C06" {
		c.need(reports > 0, a.name()+" loss", "%s is not told when its connection is lost", a.name())
	}
}
