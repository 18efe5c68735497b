package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which component each setting reaches (C28) and what the listeners serve
// (C29).

func init() {
	checks["C28"] = checkSettings
	checks["C29"] = checkListeners
}

type useModel struct {
	*flow
	c      *Ctx
	all    *special        // everything the program may reach
	margin map[string]bool // what may be more than the setting it comes from
}

func (m *useModel) at(in ssa.Instruction) string { return m.p.pos(instrPos(in)) }

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	return in.Parent().Pos()
}

// calls finds the calls of functions by (a suffix of) their full names.
func (m *useModel) calls(match func(name string, cc *ssa.CallCommon) bool) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, fn := range m.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && match(calledName(c.Common()), c.Common()) && m.all.has(in) {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

func (m *useModel) named(names ...string) []ssa.CallInstruction {
	return m.calls(func(n string, _ *ssa.CallCommon) bool {
		for _, x := range names {
			if n == x {
				return true
			}
		}
		return false
	})
}

// uses: a value must come from a setting and from no other. The value is
// looked at for each way its function may be entered.
func (m *useModel) uses(what string, in ssa.Instruction, want string, v ssa.Value, ctx *fctx) bool {
	o := m.origins(v, ctx)
	m.c.inc("uses of settings")
	if o.only(want) {
		m.c.sample("%s: %s is %s", m.at(in), what, want)
		m.fromLoaded(what, in, o)
		for _, b := range o.arith {
			if !m.cfgOwn(b) && !m.margin[what] {
				m.c.fail("setting", want+" for "+what+" changed", "%s in %s: %s is worked out from %s (%s at %s) instead of being %s", m.at(in), shortName(in.Parent().String()), what, want, b.Op, m.at(b), want)
				return false
			}
		}
		return true
	}
	m.c.fail("setting", want+" for "+what, "%s in %s: %s is %s instead of %s", m.at(in), shortName(in.Parent().String()), what, o.list(), want)
	return false
}

// cfgOwn: arithmetic that is part of what a setting is, or of its unit.
func (m *useModel) cfgOwn(b *ssa.BinOp) bool {
	return b.Parent().Pkg != nil && b.Parent().Pkg.Pkg == m.cfgPkg
}

// fromLoaded: the setting is read from what was loaded, not from a
// configuration that was made up on the spot.
func (m *useModel) fromLoaded(what string, in ssa.Instruction, o *origins) {
	for _, r := range o.reads {
		loaded := false
		var made ssa.Instruction
		m.lineage(r.base, r.ctx, func(v ssa.Value, c *fctx) bool {
			switch v := v.(type) {
			case *settingRead:
				loaded = true
				return false
			case *ssa.Global:
				loaded = true
			case *ssa.Parameter:
				if c == nil && len(m.callersOf(v.Parent())) == 0 {
					loaded = true
				}
			case *ssa.FieldAddr, *ssa.Field:
				// part of a larger one
				var x ssa.Value
				if fa, ok := v.(*ssa.FieldAddr); ok {
					x = fa.X
				} else {
					x = v.(*ssa.Field).X
				}
				if n := namedOf(deref(x.Type())); n != nil && n.Obj().Pkg() == m.cfgPkg {
					loaded = true
					return false
				}
			case *ssa.UnOp:
				if fa, ok := v.X.(*ssa.FieldAddr); ok {
					if n := namedOf(deref(fa.X.Type())); n != nil && n.Obj().Pkg() == m.cfgPkg {
						loaded = true
						return false
					}
				}
			case *ssa.Alloc:
				copied := false
				m.storesTo(v, func(*ssa.Store) { copied = true })
				if m.decodedInto(v) {
					loaded = true
				} else if !copied {
					made = v
				}
			}
			return !loaded
		})
		if !loaded && made != nil {
			m.c.fail("made-up", what, "%s in %s: %s is read from a configuration made up at %s, not from the loaded one", m.at(in), shortName(in.Parent().String()), what, m.at(made))
		}
	}
}

// decodedInto: a variable is handed to a decoder.
func (m *useModel) decodedInto(a ssa.Value) bool {
	var rec func(v ssa.Value, d int) bool
	rec = func(v ssa.Value, d int) bool {
		if v.Referrers() == nil || d > 3 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MakeInterface:
				if rec(r, d+1) {
					return true
				}
			case ssa.CallInstruction:
				if g := r.Common().StaticCallee(); g != nil && g.Blocks == nil {
					for _, x := range r.Common().Args {
						if x == v {
							return true
						}
					}
				}
			case *ssa.Store:
				// a field of the decoder's options
				if r.Val == v {
					if fa, ok := r.Addr.(*ssa.FieldAddr); ok {
						if n := namedOf(deref(fa.X.Type())); n != nil && !m.p.isRepoPkg(n.Obj().Pkg()) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(a, 0)
}

// fieldStores are the stores to a field of a library's struct.
func (m *useModel) fieldStores(pkg, typ, field string) []*ssa.Store {
	var out []*ssa.Store
	for v, ss := range m.stores {
		if v.Name() != field || v.Pkg() == nil || !strings.HasSuffix(v.Pkg().Path(), pkg) {
			continue
		}
		for _, st := range ss {
			if n := namedOf(deref(st.Addr.(*ssa.FieldAddr).X.Type())); n != nil && n.Obj().Name() == typ && m.all.has(st) {
				out = append(out, st)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func newUse(c *Ctx) *useModel {
	m := &useModel{flow: newFlow(c.p), c: c}
	m.all = m.reach(nil)
	if !c.need(m.cfgPkg != nil && len(m.setting) > 10, "configuration", "the configuration package or its settings are missing") {
		return nil
	}
	return m
}

func checkSettings(c *Ctx) {
	m := newUse(c)
	if m == nil {
		return
	}
	c.explain = "every argument of a component that a setting is for is traced back through calls, fields, closures and conversions to the settings and constants it may come from; the choice of a component is decided by what can be reached with the setting on and off"
	c.assume = append(c.assume, "the result of a library function comes from its arguments", "fields are told apart by where their object was made if that's known, and by type otherwise")
	byKey := map[string]bool{}
	for _, k := range m.setting {
		byKey[k] = true
	}
	for _, k := range []string{"webrtc.rtcminport", "webrtc.rtcmaxport", "webrtc.jitterbuffer", "webrtc.jitterbufferpkttimeout", "webrtc.iceservers", "recorder.videopacketqueuesize", "recorder.audiopacketqueuesize",
		"recorder.usecustomsampler", "recorder.writeivfcopy", "recorder.dirfilemode", "recorder.filemode", "pubsub.channels.subscribe", "pubsub.channels.publish", "pubsub.adapter", "redis.address", "redis.network", "redis.password",
		"livekit.host", "livekit.apikey", "livekit.apisecret", "http.port", "prometheus.listenaddress", "log.level"} {
		if !c.need(byKey[k], "setting "+k, "there is no setting %s", k) {
			return
		}
	}
	c.count["settings"] = len(m.setting)

	// each: every call, in every context, that something matches
	each := func(what string, cs []ssa.CallInstruction, do func(ci ssa.CallInstruction, ctx *fctx)) {
		c.need(len(cs) > 0, what, "nothing %s", what)
		for _, ci := range cs {
			for _, ctx := range m.contexts(ci.Parent(), 2) {
				if m.liveIn(ci.Parent(), ctx)[ci.Block()] {
					do(ci, ctx)
				}
			}
		}
	}

	// the muxer waits for some more blocks than are queued
	m.margin = map[string]bool{"the number of blocks that wait to be sorted": true}

	// media transport
	each("sets the range of ports", m.calls(func(n string, _ *ssa.CallCommon) bool {
		return strings.HasSuffix(n, "SettingEngine.SetEphemeralUDPPortRange")
	}), func(ci ssa.CallInstruction, ctx *fctx) {
		as := ci.Common().Args
		m.uses("the lowest port", ci, "webrtc.rtcminport", as[1], ctx)
		m.uses("the highest port", ci, "webrtc.rtcmaxport", as[2], ctx)
	})
	ice := m.fieldStores("pion/webrtc/v3", "Configuration", "ICEServers")
	c.need(len(ice) > 0, "sets the ICE servers", "nothing sets the ICE servers")
	for _, st := range ice {
		for _, ctx := range m.contexts(st.Parent(), 2) {
			m.uses("the list of ICE servers", st, "webrtc.iceservers", st.Val, ctx)
		}
	}
	m.jitterBuffers()

	// recorder
	samples := m.calls(func(n string, _ *ssa.CallCommon) bool { return strings.HasSuffix(n, "/samplebuilder.New") })
	var video []ssa.CallInstruction
	kinds := map[string]int{}
	each("makes a sample builder", samples, func(ci ssa.CallInstruction, ctx *fctx) {
		as := ci.Common().Args
		k := depacketizer(m.origins(as[1], ctx))
		kinds[k]++
		switch k {
		case "audio":
			m.uses("the queue of audio packets", ci, "recorder.audiopacketqueuesize", as[0], ctx)
		case "video":
			video = append(video, ci)
			m.uses("the queue of video packets", ci, "recorder.videopacketqueuesize", as[0], ctx)
		case "both":
			// chosen in some way that can't be told: at least no other setting
			kinds["audio"]++
			kinds["video"]++
			video = append(video, ci)
			o := m.origins(as[0], ctx)
			for s := range o.settings {
				if s != "recorder.audiopacketqueuesize" && s != "recorder.videopacketqueuesize" {
					c.fail("setting", s+" for a queue", "%s: the size of a queue of packets is %s", m.at(ci), o.list())
				}
			}
		default:
			c.fail("anchor", "depacketizer", "%s: it isn't evident for which media this sample builder is", m.at(ci))
		}
	})
	c.need(kinds["audio"] > 0 && kinds["video"] > 0, "sample builders", "there aren't sample builders for audio and video")
	each("limits the packets that wait to be sorted", m.calls(func(n string, _ *ssa.CallCommon) bool { return strings.HasSuffix(n, "mkvcore.WithMaxDelayedPackets") }), func(ci ssa.CallInstruction, ctx *fctx) {
		m.uses("the number of blocks that wait to be sorted", ci, "recorder.videopacketqueuesize", ci.Common().Args[0], ctx)
	})
	m.modes()
	m.sampler(video)
	m.ivfCopy()

	// bus
	dials := m.calls(func(n string, cc *ssa.CallCommon) bool {
		return strings.HasPrefix(n, "github.com/gomodule/redigo/redis.Dial") && cc.Signature().Results().Len() == 2
	})
	each("dials the bus", dials, func(ci ssa.CallInstruction, ctx *fctx) {
		as := ci.Common().Args
		i := 0
		if strings.HasSuffix(calledName(ci.Common()), "Context") {
			i = 1
		}
		m.uses("the network of the bus", ci, "redis.network", as[i], ctx)
		m.uses("the address of the bus", ci, "redis.address", as[i+1], ctx)
		pass := false
		o := m.origins(as[len(as)-1], ctx)
		for n, cs := range o.calls {
			if strings.HasSuffix(n, "/redis.DialPassword") {
				for _, x := range cs {
					pass = true
					m.uses("the password of the bus", x, "redis.password", x.Call.Args[0], o.ctxOf[x])
				}
			}
		}
		if !pass {
			c.fail("setting", "redis.password", "%s in %s: the bus is dialled without its password", m.at(ci), shortName(ci.Parent().String()))
		}
	})
	m.adapter()
	m.channels()

	// livekit
	each("connects to a LiveKit room", m.calls(func(n string, _ *ssa.CallCommon) bool {
		return strings.Contains(n, "livekit/server-sdk-go") && strings.Contains(n, ".ConnectToRoom")
	}), func(ci ssa.CallInstruction, ctx *fctx) {
		m.uses("the LiveKit host", ci, "livekit.host", ci.Common().Args[0], ctx)
	})
	for _, f := range [][2]string{{"APIKey", "livekit.apikey"}, {"APISecret", "livekit.apisecret"}} {
		ss := m.fieldStores("livekit/server-sdk-go/v2", "ConnectInfo", f[0])
		c.need(len(ss) > 0, "LiveKit "+f[0], "nothing sets the LiveKit %s", f[0])
		for _, st := range ss {
			for _, ctx := range m.contexts(st.Parent(), 2) {
				m.uses("the LiveKit "+f[0], st, f[1], st.Val, ctx)
			}
		}
	}

	// listeners
	ls := m.listeners()
	c.need(len(ls) > 0, "listeners", "nothing listens")
	for _, l := range ls {
		if l.addr == nil {
			continue
		}
		switch {
		case l.metrics() && !l.page():
			m.uses("the address metrics are served on", l.in, "prometheus.listenaddress", l.addr, l.actx)
		case l.page():
			m.uses("the port the test page is served on", l.in, "http.port", l.addr, l.actx)
		}
	}

	// log
	levels := m.calls(func(n string, _ *ssa.CallCommon) bool {
		return n == "github.com/sirupsen/logrus.SetLevel" || strings.HasSuffix(n, "logrus.Logger.SetLevel")
	})
	found := map[string]bool{}
	for _, ci := range levels {
		as := ci.Common().Args
		for _, ctx := range m.contexts(ci.Parent(), 2) {
			o := m.origins(as[len(as)-1], ctx)
			if len(o.settings) == 0 {
				continue
			}
			if m.uses("the level of the log", ci, "log.level", as[len(as)-1], ctx) {
				found["start"] = true
			}
		}
	}
	c.need(found["start"], "log.level", "no setting decides the level of the log")
}

func depacketizer(o *origins) string {
	a, v := false, false
	for t := range o.types {
		a = a || strings.HasSuffix(t, ".OpusPacket")
		v = v || strings.HasSuffix(t, ".VP8Packet")
	}
	switch {
	case a && !v:
		return "audio"
	case v && !a:
		return "video"
	case a && v:
		return "both"
	}
	return ""
}

// jitterBuffers: the number of packets the repository's jitter buffer holds,
// and how long it waits.
func (m *useModel) jitterBuffers() {
	c := m.c
	jb := m.p.typ("internal/webrtc/utils", "JitterBuffer")
	if !c.need(jb != nil, "jitter buffer", "there is no jitter buffer") {
		return
	}
	var made []*ssa.Function
	for _, fn := range m.p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg != jb.Obj().Pkg() || fn.Signature.Recv() != nil {
			continue
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if namedOf(fn.Signature.Results().At(i).Type()) == jb {
				made = append(made, fn)
			}
		}
	}
	st := jb.Underlying().(*types.Struct)
	sizes, waits := 0, 0
	for i := 0; i < st.NumFields(); i++ {
		fv := st.Field(i)
		for _, s := range m.stores[fv] {
			for _, ctx := range m.contexts(s.Parent(), 2) {
				if sl, ok := fv.Type().Underlying().(*types.Slice); ok && isPtr(sl.Elem()) {
					size := s.Val
					if ms, ok := s.Val.(*ssa.MakeSlice); ok {
						size = ms.Len
					}
					if o := m.origins(size, ctx); len(o.settings) > 0 || inFuncs(made, s.Parent()) {
						sizes++
						m.uses("the size of the jitter buffer", s, "webrtc.jitterbuffer", size, ctx)
					}
				}
				if n := namedOf(fv.Type()); n != nil && n.Obj().Name() == "Duration" {
					o := m.origins(s.Val, ctx)
					if len(o.settings) == 0 && !inFuncs(made, s.Parent()) {
						continue
					}
					if len(o.settings) == 0 && len(made) > 1 {
						continue
					}
					waits++
					if m.uses("how long the jitter buffer waits", s, "webrtc.jitterbufferpkttimeout", s.Val, ctx) && !o.consts["1000000"] {
						c.fail("setting", "unit", "%s in %s: how long the jitter buffer waits is not in milliseconds", m.at(s), shortName(s.Parent().String()))
					}
				}
			}
		}
	}
	c.need(sizes > 0, "jitter buffer size", "the size of the jitter buffer is not set")
	c.need(waits > 0, "jitter buffer timeout", "the time the jitter buffer waits is not set")
}

func inFuncs(fs []*ssa.Function, f *ssa.Function) bool {
	for _, g := range fs {
		if g == f {
			return true
		}
	}
	return false
}

// modes: directories and files are made with their own modes.
func (m *useModel) modes() {
	c := m.c
	n := 0
	for _, ci := range m.named("os.MkdirAll", "os.Mkdir") {
		for _, ctx := range m.contexts(ci.Parent(), 1) {
			m.uses("the mode of directories", ci, "recorder.dirfilemode", ci.Common().Args[1], ctx)
			n++
		}
	}
	for _, ci := range m.named("os.OpenFile") {
		m.uses("the mode of files", ci, "recorder.filemode", ci.Common().Args[2], nil)
		n++
	}
	c.need(n > 0, "modes", "no files or directories are made")
}

// sampler: with the custom sampler the built-in one gets no video, and the
// other way round.
func (m *useModel) sampler(video []ssa.CallInstruction) {
	c := m.c
	const key = "recorder.usecustomsampler"
	var pushes []ssa.CallInstruction
	for _, ci := range m.calls(func(n string, _ *ssa.CallCommon) bool { return strings.HasSuffix(n, "SampleBuilder.Push") }) {
		o := m.origins(ci.Common().Args[0], nil)
		for n, cs := range o.calls {
			for _, x := range cs {
				if strings.HasSuffix(n, "/samplebuilder.New") && depacketizer(m.origins(x.Call.Args[1], o.ctxOf[x])) == "video" {
					pushes = append(pushes, ci)
				}
			}
		}
	}
	if !c.need(len(pushes) > 0, "sampler", "the built-in sampler gets no video") {
		return
	}
	on, off := m.reach(map[string]bool{key: true}), m.reach(map[string]bool{key: false})
	c.count["functions reachable with the custom sampler"] = len(on.funcs)
	c.count["functions reachable with the built-in sampler"] = len(off.funcs)
	for _, ci := range pushes {
		if on.has(ci) {
			c.fail("setting", "sampler on", "%s in %s: video is given to the built-in sampler although the custom one is configured", m.at(ci), shortName(ci.Parent().String()))
		}
		if !off.has(ci) {
			c.fail("setting", "sampler off", "%s in %s: video is never given to the built-in sampler although it is configured", m.at(ci), shortName(ci.Parent().String()))
		}
	}
	// what is only used with the custom one must be able to write video
	writes := false
	for fn := range on.funcs {
		if !off.funcs[fn] && fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "internal/webrtc/recorder") {
			writes = true
		}
	}
	for _, fn := range m.p.Funcs {
		if on.funcs[fn] && off.funcs[fn] && !writes {
			a, b := on.live(fn), off.live(fn)
			for blk := range a {
				if !b[blk] {
					writes = true
				}
			}
		}
	}
	if !writes {
		c.fail("setting", "sampler custom", "nothing is only done when the custom sampler is configured")
	}
}

// ivfCopy: the copy is made if and only if it is configured.
func (m *useModel) ivfCopy() {
	c := m.c
	const key = "recorder.writeivfcopy"
	ivf := m.p.typ("internal/webrtc/recorder", "IVFWriter")
	if !c.need(ivf != nil, "IVF", "there is no IVF writer") {
		return
	}
	var made []ssa.CallInstruction
	for _, ci := range m.calls(func(n string, cc *ssa.CallCommon) bool {
		g := cc.StaticCallee()
		if g == nil || g.Blocks == nil || g.Signature.Recv() != nil {
			return false
		}
		for i := 0; i < g.Signature.Results().Len(); i++ {
			if namedOf(g.Signature.Results().At(i).Type()) == ivf {
				return true
			}
		}
		return false
	}) {
		made = append(made, ci)
	}
	if !c.need(len(made) > 0, "IVF copy", "no IVF writer is made") {
		return
	}
	off := m.reach(map[string]bool{key: false})
	on := m.reach(map[string]bool{key: true, "recorder.writetodevnull": false})
	any := false
	for _, ci := range made {
		if off.has(ci) {
			c.fail("setting", "ivf off", "%s in %s: a copy is written although none is configured", m.at(ci), shortName(ci.Parent().String()))
		}
		any = any || on.has(ci)
	}
	if !any {
		c.fail("setting", "ivf on", "no copy is written although one is configured")
	}
}

// adapter: the bus's own settings are decoded from those of the adapter.
func (m *useModel) adapter() {
	c := m.c
	n := 0
	for _, fn := range m.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				nm := namedOf(deref(a.Type()))
				if nm == nil || nm.Obj().Pkg() != m.cfgPkg || nm.Obj().Name() != "Redis" || !m.decodedInto(a) {
					continue
				}
				// the call that decodes
				for _, ci := range m.calls(func(string, *ssa.CallCommon) bool { return true }) {
					cc := ci.Common()
					if ci.Parent() != fn || cc.StaticCallee() == nil || cc.StaticCallee().Blocks != nil {
						continue
					}
					into, from := false, false
					for _, x := range cc.Args {
						o := false
						m.trace(x, nil, func(v ssa.Value, _ *fctx) bool {
							if v == a {
								o = true
							}
							if _, isCall := v.(*ssa.Call); isCall {
								return false
							}
							return true
						})
						if o {
							into = true
						} else if m.origins(x, nil).only("pubsub.adapters", "pubsub.adapter") || m.origins(x, nil).only("pubsub.adapters") {
							from = true
						}
					}
					if into && from {
						n++
						c.inc("uses of settings")
					}
				}
			}
		}
	}
	if n == 0 {
		c.fail("setting", "pubsub.adapters", "the settings of the bus are not decoded from those of the configured adapter")
	}
}

// channels: requests go one way, answers the other.
func (m *useModel) channels() {
	c := m.c
	sm := newSrvModel(c)
	if sm == nil {
		return
	}
	server, _ := sm.busHandlers()
	request := map[string]bool{}
	for _, n := range []string{"StartRecording", "StopRecording", "GetRecorderStatus"} {
		if t := m.p.typ("internal/pubsub/events", n); t != nil {
			request[types.TypeString(t, nil)] = true
			request[types.TypeString(types.NewPointer(t), nil)] = true
		}
	}
	isEvent := func(t string) bool { return strings.Contains(t, "internal/pubsub/events.") }
	is := func(cc *ssa.CallCommon, meth string) bool {
		var rt types.Type
		switch {
		case cc.IsInvoke():
			if cc.Method.Name() != meth {
				return false
			}
			rt = cc.Value.Type()
		default:
			g := cc.StaticCallee()
			if g == nil || g.Signature.Recv() == nil || g.Name() != meth {
				return false
			}
			rt = g.Signature.Recv().Type()
		}
		return types.Implements(rt, sm.pubIface.Underlying().(*types.Interface)) || types.IsInterface(rt) && namedOf(rt) == sm.pubIface
	}
	subs, pubs := 0, 0
	for _, ci := range m.calls(func(_ string, cc *ssa.CallCommon) bool { return is(cc, "Subscribe") }) {
		as := ci.Common().Args
		if !ci.Common().IsInvoke() {
			as = as[1:]
		}
		if len(as) < 2 {
			continue
		}
		subs++
		want := "pubsub.channels.publish"
		if funcValue(m.p, as[1]) == server {
			want = "pubsub.channels.subscribe"
		}
		for _, ctx := range m.contexts(ci.Parent(), 2) {
			m.uses("the channel that is listened to", ci, want, as[0], ctx)
		}
	}
	for _, ci := range m.calls(func(_ string, cc *ssa.CallCommon) bool { return is(cc, "Publish") }) {
		as := ci.Common().Args
		if !ci.Common().IsInvoke() {
			as = as[1:]
		}
		if len(as) < 2 {
			continue
		}
		for _, ctx := range m.contexts(ci.Parent(), 2) {
			o := m.origins(as[1], ctx)
			req, other := false, false
			for t := range o.types {
				if request[t] {
					req = true
				} else if isEvent(t) {
					other = true
				}
			}
			if req == other {
				continue
			}
			pubs++
			want := "pubsub.channels.publish"
			if req {
				want = "pubsub.channels.subscribe"
			}
			m.uses("the channel that is published to", ci, want, as[0], ctx)
		}
	}
	c.need(subs > 0, "subscribes", "nothing subscribes to a channel")
	c.need(pubs > 0, "publishes", "nothing publishes to a channel")
}

// ---- listeners ----

type listener struct {
	in     ssa.CallInstruction
	ctx    *fctx
	addr   ssa.Value
	actx   *fctx
	muxes  []*ssa.Call // where its multiplexers are made
	deflt  bool        // serves the default multiplexer
	direct *origins    // a handler without a multiplexer
	routes []*route
}

type route struct {
	in      ssa.CallInstruction
	metrics bool
	reaches *origins
	publish bool
	files   []*ssa.Call // http.Dir and other file systems served
	dirs    []ssa.Value
	public  bool
}

func (l *listener) metrics() bool {
	for _, r := range l.routes {
		if r.metrics {
			return true
		}
	}
	return false
}

func (l *listener) page() bool {
	for _, r := range l.routes {
		if r.publish || r.public || len(r.dirs) > 0 {
			return true
		}
	}
	return false
}

func isMetricsHandler(n string) bool {
	return strings.HasPrefix(n, "github.com/prometheus/client_golang/prometheus/promhttp.")
}

// listeners are the places where something is listened on.
func (m *useModel) listeners() []*listener {
	var out []*listener
	for _, ci := range m.calls(func(n string, _ *ssa.CallCommon) bool {
		switch n {
		case "net/http.ListenAndServe", "net/http.ListenAndServeTLS", "net/http.Serve", "net/http.ServeTLS":
			return true
		}
		return strings.Contains(n, "net/http.Server.") && (strings.HasSuffix(n, "ListenAndServe") || strings.HasSuffix(n, "ListenAndServeTLS") || strings.HasSuffix(n, ".Serve") || strings.HasSuffix(n, ".ServeTLS"))
	}) {
		for _, ctx := range m.contexts(ci.Parent(), 2) {
			l := &listener{in: ci, ctx: ctx}
			n := calledName(ci.Common())
			as := ci.Common().Args
			if strings.Contains(n, "http.Server.") {
				l.server(m, as[0], as)
			} else {
				l.addr, l.actx = as[0], ctx
				l.handler(m, as[len(as)-1], ctx)
			}
			out = append(out, l)
		}
	}
	return out
}

// server: what a server of the http package was made with.
func (l *listener) server(m *useModel, srv ssa.Value, as []ssa.Value) {
	n := 0
	m.lineage(srv, l.ctx, func(v ssa.Value, ctx *fctx) bool {
		a, ok := v.(*ssa.Alloc)
		if !ok {
			return true
		}
		st := structType(a.Type())
		if st == nil || namedOf(deref(a.Type())) == nil || namedOf(deref(a.Type())).Obj().Name() != "Server" {
			return true
		}
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Addr":
				m.directFieldStores(a, i, func(s *ssa.Store) { l.addr, l.actx = s.Val, ctx })
			case "Handler":
				m.directFieldStores(a, i, func(s *ssa.Store) {
					n++
					l.handler(m, s.Val, ctx)
				})
			}
		}
		return true
	})
	if n == 0 {
		l.deflt = true
	}
	if len(as) > 1 && l.addr == nil {
		l.addr, l.actx = as[1], l.ctx
	}
}

// handler finds what a handler serves.
func (l *listener) handler(m *useModel, h ssa.Value, ctx *fctx) {
	if k, ok := h.(*ssa.Const); ok && k.Value == nil {
		l.deflt = true
		return
	}
	o := m.origins(h, ctx)
	for g := range o.globals {
		if g.Name() == "DefaultServeMux" {
			l.deflt = true
		}
	}
	if o.consts["nil"] && len(o.calls) == 0 {
		l.deflt = true
	}
	l.muxes = append(l.muxes, o.calls["net/http.NewServeMux"]...)
	l.direct = o
	// a multiplexer that isn't made by NewServeMux
	made := map[ssa.Value]bool{}
	for _, x := range l.muxes {
		made[x] = true
	}
	m.trace(h, ctx, func(v ssa.Value, _ *fctx) bool {
		if a, ok := v.(*ssa.Alloc); ok {
			if n := namedOf(deref(a.Type())); n != nil && n.Obj().Name() == "ServeMux" {
				made[a] = true
			}
		}
		return true
	})
	if len(made) == 0 {
		if !l.deflt {
			l.routes = append(l.routes, m.route(l.in, h, ctx))
		}
		return
	}
	for _, ci := range m.calls(func(n string, _ *ssa.CallCommon) bool {
		return strings.HasSuffix(n, "net/http.ServeMux.Handle") || strings.HasSuffix(n, "net/http.ServeMux.HandleFunc")
	}) {
		rc := ctx
		if ci.Parent() != l.in.Parent() {
			rc = nil
		}
		on := false
		m.trace(ci.Common().Args[0], rc, func(v ssa.Value, _ *fctx) bool {
			if made[v] {
				on = true
			}
			return !on
		})
		if on {
			as := ci.Common().Args
			l.routes = append(l.routes, m.route(ci, as[len(as)-1], rc))
		}
	}
}

// route finds what one handler does.
func (m *useModel) route(in ssa.CallInstruction, h ssa.Value, ctx *fctx) *route {
	r := &route{in: in}
	r.reaches = m.origins(h, ctx)
	dirs := map[ssa.Value]bool{}
	m.trace(h, ctx, func(v ssa.Value, c *fctx) bool {
		switch v := v.(type) {
		case *ssa.ChangeType:
			if types.TypeString(v.Type(), nil) == "net/http.Dir" && !dirs[v] {
				dirs[v] = true
				r.dirs = append(r.dirs, v)
			}
		case *ssa.Convert:
			if types.TypeString(v.Type(), nil) == "net/http.Dir" && !dirs[v] {
				dirs[v] = true
				r.dirs = append(r.dirs, v)
			}
		case *ssa.Const:
			if types.TypeString(v.Type(), nil) == "net/http.Dir" && !dirs[v] {
				dirs[v] = true
				r.dirs = append(r.dirs, v)
			}
		}
		return true
	})
	for n, cs := range r.reaches.calls {
		r.metrics = r.metrics || isMetricsHandler(n)
		if n == "os.DirFS" {
			for _, x := range cs {
				if !dirs[x] {
					dirs[x] = true
					r.dirs = append(r.dirs, x)
				}
			}
		}
	}
	for g := range r.reaches.globals {
		if strings.HasSuffix(types.TypeString(deref(g.Type()), nil), "embed.FS") || strings.HasSuffix(types.TypeString(deref(g.Type()), nil), "fs.FS") {
			r.public = true
		}
	}
	// what its functions do
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function)
	rec = func(fn *ssa.Function) {
		fn = boundOf(m.p, fn)
		if fn == nil || seen[fn] || fn.Blocks == nil {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				for _, op := range x.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						rec(g)
					}
				}
				ci, ok := x.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if isMetricsHandler(calledName(cc)) {
					r.metrics = true
				}
				if cc.IsInvoke() && cc.Method.Name() == "Publish" {
					r.publish = true
				}
				if !cc.IsInvoke() && cc.StaticCallee() == nil {
					// a function value
					m.trace(cc.Value, nil, func(v ssa.Value, _ *fctx) bool {
						switch v := v.(type) {
						case *ssa.MakeClosure:
							rec(v.Fn.(*ssa.Function))
							return false
						case *ssa.Function:
							rec(v)
							return false
						}
						return true
					})
				}
			}
		}
	}
	m.trace(h, ctx, func(v ssa.Value, _ *fctx) bool {
		switch v := v.(type) {
		case *ssa.MakeClosure:
			rec(v.Fn.(*ssa.Function))
		case *ssa.Function:
			rec(v)
		case *ssa.MakeInterface:
			if n := namedOf(v.X.Type()); n != nil && m.p.isRepoPkg(n.Obj().Pkg()) {
				rec(m.p.method(n, "ServeHTTP"))
			}
		}
		return true
	})
	return r
}

func checkListeners(c *Ctx) {
	m := newUse(c)
	if m == nil {
		return
	}
	c.explain = "every place that listens is found with the multiplexers it serves and the handlers registered there; whether it can be reached is decided with each of the two switches off and on"
	c.assume = append(c.assume, "nothing but the calls of net/http and net that are looked for opens a listener of the program's own")
	ls := m.listeners()
	if !c.need(len(ls) > 0, "listeners", "nothing listens") {
		return
	}
	for _, k := range []string{"http.enable", "prometheus.enable"} {
		found := false
		for _, n := range m.setting {
			found = found || n == k
		}
		if !c.need(found, k, "there is no setting %s", k) {
			return
		}
	}
	httpOff := m.reach(map[string]bool{"http.enable": false})
	promOff := m.reach(map[string]bool{"prometheus.enable": false})
	bothOff := m.reach(map[string]bool{"http.enable": false, "prometheus.enable": false})
	httpOn := m.reach(map[string]bool{"http.enable": true, "prometheus.enable": false})
	promOn := m.reach(map[string]bool{"http.enable": false, "prometheus.enable": true})
	c.count["functions reachable with both switches off"] = len(bothOff.funcs)
	pages, metrics := 0, 0
	where := func(l *listener) string { return m.at(l.in) + " in " + shortName(l.in.Parent().String()) }
	for _, l := range ls {
		c.inc("listeners (by way of being reached)")
		c.count["routes"] += len(l.routes)
		if l.deflt {
			c.fail("default", "mux", "%s: the default multiplexer is served, which shows what any package registers there", where(l))
			continue
		}
		isPage, isMetrics := l.page(), l.metrics()
		switch {
		case isPage && isMetrics:
			var at []string
			for _, r := range l.routes {
				at = append(at, m.at(r.in))
			}
			c.fail("mixed", "routes", "%s: metrics and the test page are served by one listener (%s)", where(l), strings.Join(at, ", "))
		case isMetrics:
			metrics++
			for _, r := range l.routes {
				if !r.metrics {
					c.fail("mixed", "metrics", "%s: the listener for metrics serves something else", m.at(r.in))
				}
			}
			if promOff.has(l.in) || httpOn.has(l.in) {
				c.fail("disabled", "metrics", "%s: metrics are served although that is not enabled", where(l))
			}
			if !promOn.has(l.in) {
				c.fail("enabled", "metrics", "%s: metrics are not served although that is enabled", where(l))
			}
		case isPage:
			pages++
			if httpOff.has(l.in) || promOn.has(l.in) {
				c.fail("disabled", "page", "%s: the test page is served although that is not enabled", where(l))
			}
			if !httpOn.has(l.in) {
				c.fail("enabled", "page", "%s: the test page is not served although that is enabled", where(l))
			}
			signal, media, public := false, false, false
			for _, r := range l.routes {
				signal = signal || r.publish
				public = public || r.public
				for _, d := range r.dirs {
					media = true
					o := m.origins(d, nil)
					if !o.only("recorder.directory") {
						c.fail("directory", "media", "%s: media is served from %s instead of recorder.directory", m.at(r.in), o.list())
					}
					for n := range o.calls {
						if strings.HasSuffix(n, "path.Dir") || strings.HasSuffix(n, "filepath.Dir") {
							c.fail("directory", "media", "%s: media is served from the directory that recorder.directory is in", m.at(r.in))
						}
					}
					for k := range o.consts {
						if strings.Contains(k, "..") {
							c.fail("directory", "media", "%s: media is served from a directory outside recorder.directory", m.at(r.in))
						}
					}
				}
				// what's stripped off a path must be at its start
				as := r.in.Common().Args
				if len(r.dirs) > 0 && len(as) > 1 {
					pat := m.constIn(as[len(as)-2], nil)
					for _, x := range r.reaches.calls["net/http.StripPrefix"] {
						pre := m.constIn(x.Call.Args[0], r.reaches.ctxOf[x])
						if pat == nil || pre == nil || pat.Kind() != constant.String || pre.Kind() != constant.String {
							continue
						}
						pt, pr := constant.StringVal(pat), constant.StringVal(pre)
						if i := strings.Index(pt, "/"); i >= 0 {
							pt = pt[i:]
						}
						if !strings.HasPrefix(pt, pr) {
							c.fail("prefix", "media", "%s: %q is taken off paths that start with %q, so no media is found", m.at(r.in), pr, pt)
						}
					}
				}
			}
			if !signal {
				c.fail("missing", "signalling", "%s: there is no signalling endpoint", where(l))
			}
			if !media {
				c.fail("missing", "media", "%s: no media is served", where(l))
			}
			if !public {
				c.fail("missing", "page", "%s: no page is served", where(l))
			}
		default:
			c.fail("other", "listener", "%s: what this listener serves is neither metrics nor the test page", where(l))
			if bothOff.has(l.in) {
				c.fail("disabled", "other", "%s: something is served although nothing is enabled", where(l))
			}
		}
	}
	c.need(pages > 0, "page", "nothing serves the test page")
	c.need(metrics > 0, "metrics", "nothing serves metrics")
	// other ways to listen
	for _, ci := range m.calls(func(n string, _ *ssa.CallCommon) bool {
		return n == "net.Listen" || n == "net.ListenTCP" || n == "net.ListenUDP" || n == "net.ListenPacket" || n == "crypto/tls.Listen" || strings.HasPrefix(n, "net.ListenConfig.Listen")
	}) {
		c.inc("other listening calls")
		if bothOff.has(ci) {
			c.fail("disabled", "listen", "%s in %s: something listens although nothing is enabled", m.at(ci), shortName(ci.Parent().String()))
		}
	}
}
