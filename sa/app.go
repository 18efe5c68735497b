package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The process as a whole: termination (C35), the loss of the bus (C26) and the
// configuration in use (C27).

func init() {
	checks["C26"] = checkBusLoss
	checks["C27"] = checkConfig
	checks["C35"] = checkTermination
}

// entries are where the program's own code is first entered.
func (p *Prog) entries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Parent() != nil || f.Signature.Recv() != nil || f.Blocks == nil {
			continue
		}
		if strings.HasPrefix(f.Name(), "init#") || (f.Name() == "main" && f.Pkg.Pkg.Name() == "main") {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

type appModel struct {
	c       *Ctx
	p       *Prog
	pub     *types.Named
	cfg     *types.Named
	server  *types.Named
	handler *ssa.Function
	sm      *srvModel
	inline  map[string]bool
	watch   map[*Term]map[string]bool // channel: the signals it gets
}

func newAppModel(c *Ctx, inline ...string) *appModel {
	sm := newSrvModel(c)
	if sm == nil {
		return nil
	}
	m := &appModel{c: c, p: c.p, sm: sm, inline: map[string]bool{}, watch: map[*Term]map[string]bool{}}
	m.pub = sm.pubIface
	m.handler, _ = sm.busHandlers()
	if !c.need(m.handler != nil, "handler", "no method of the server package is given to PubSub.Subscribe") {
		return nil
	}
	m.server = namedOf(m.handler.Signature.Recv().Type())
	m.cfg = c.p.typ("internal/config", "Config")
	if !c.need(m.cfg != nil, "config", "internal/config.Config not found") {
		return nil
	}
	for _, i := range inline {
		if pk := c.p.pkgOf(i); pk != nil {
			m.inline[pk.Pkg.Path()] = true
		}
	}
	return m
}

func (m *appModel) hooks() *Hooks {
	h := &Hooks{KeepArgs: true}
	entryPkgs := map[*types.Package]bool{}
	for _, f := range m.p.entries() {
		entryPkgs[f.Pkg.Pkg] = true
	}
	h.Inline = func(fn *ssa.Function) bool {
		for f := fn; f != nil; f = f.Parent() {
			if f.Pkg != nil && (entryPkgs[f.Pkg.Pkg] || m.inline[f.Pkg.Pkg.Path()]) {
				return true
			}
		}
		return false
	}
	h.KeepFact = func(*Term) bool { return true }
	h.Spawn = func(e *Engine, s *State, r *Root) {
		// what handles messages and requests is analysed elsewhere
		fn := boundOf(m.p, r.fn)
		if r.kind == "callback" && fn.Pkg != nil && relPkg(m.p, fn.Pkg.Pkg) == "internal/server" {
			r.data["skip"] = true
		}
	}
	return h
}

func (m *appModel) roots(e *Engine) []*Root {
	var rs []*Root
	for _, f := range m.p.entries() {
		r := e.NewRoot("start of "+relPkg(m.p, f.Pkg.Pkg), f, nil, nil)
		r.data = map[string]any{"entry": true}
		rs = append(rs, r)
	}
	return rs
}

// signalName is the signal an argument of signal.Notify stands for.
func signalName(t *Term) string {
	t = stripIface(t)
	if n, ok := t.int64(); ok {
		switch n {
		case 1:
			return "HUP"
		case 2:
			return "INT"
		case 15:
			return "TERM"
		}
		return "other"
	}
	if t.find(func(u *Term) bool { return u.k == KGlobal && strings.HasSuffix(u.String(), "os.Interrupt") }) != nil {
		return "INT"
	}
	return "?"
}

// notify remembers the signals a channel gets.
func (m *appModel) notify(s *State, ci *CallInfo) {
	as := s.spread(ci)
	if len(as) < 1 {
		return
	}
	k := chanOf(as[0])
	if m.watch[k] == nil {
		m.watch[k] = map[string]bool{}
	}
	sigs := as[1:]
	if len(sigs) == 0 {
		for _, n := range []string{"INT", "TERM", "HUP"} {
			m.watch[k][n] = true
			s.setB("notified:"+n, true)
		}
	}
	for _, a := range sigs {
		n := signalName(a)
		m.watch[k][n] = true
		s.setB("notified:"+n, true)
		m.c.inc("signals asked for (states)")
	}
}

func (m *appModel) signalOf(ch *Term) map[string]bool { return m.watch[chanOf(ch)] }

// isServer: the value is a pointer to the server.
func (m *appModel) isServer(x *Term) bool {
	if x.typ != nil && namedOf(x.typ) == m.server {
		return true
	}
	if x.k == KSym && strings.HasPrefix(x.op, "atomic.") && len(x.args) > 0 && x.args[0].typ != nil {
		if n := namedOf(x.args[0].typ); n != nil && n.TypeArgs().Len() == 1 {
			return namedOf(n.TypeArgs().At(0)) == m.server
		}
	}
	return false
}

func isSignalCtx(ci *CallInfo) bool { return ci.name == "os/signal.NotifyContext" }

// isSubscribe: the call subscribes to the bus.
func (m *appModel) isSubscribe(ci *CallInfo) bool {
	rn := recvType(ci)
	return rn != nil && methName(ci) == "Subscribe" && (rn == m.pub || types.Implements(types.NewPointer(rn), m.pub.Underlying().(*types.Interface)))
}

// ---- C35 ----

func checkTermination(c *Ctx) {
	m := newAppModel(c)
	if m == nil {
		return
	}
	c.explain = "the start of the program and what it starts are explored as far as signals go: who receives SIGINT and SIGTERM, what runs before the process exits, and that the server is known to it when the subscription starts; then every path of the shutdown over an arbitrary session"
	stops := map[*ssa.Function]bool{}
	for _, f := range m.sm.stoppers(m.server) {
		stops[f] = true
	}
	used := map[*ssa.Function]bool{}
	handled := map[string]bool{}
	srcs := map[*Term]bool{} // cells the server is taken from at termination
	type sub struct {
		s  *State
		in ssa.Instruction
		o  *Term
	}
	var subs []sub
	h := m.hooks()
	h.Round = func() { subs, srcs, handled = nil, map[*Term]bool{}, map[string]bool{} }
	nilServer := func(s *State) bool { return s.gBool("noserver") }
	h.Branch = func(e *Engine, s *State, cond *Term, taken bool, in ssa.Instruction) {
		for cond.isOp("not") {
			cond, taken = cond.args[0], !taken
		}
		if taken && cond.isOp("eq") && ((cond.args[0].isNil() && m.isServer(cond.args[1])) || (cond.args[1].isNil() && m.isServer(cond.args[0]))) {
			s.setB("noserver", true)
		}
	}
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		switch {
		case ci.mode == "probe":
			return nil, m.isSubscribe(ci)
		case ci.name == "os/signal.Notify":
			m.notify(s, ci)
		case ci.name == "os/signal.Ignore" || ci.name == "os/signal.Reset":
			for _, a := range s.spread(ci) {
				if n := signalName(a); n == "INT" || n == "TERM" {
					e.report(s, "signal", "ignored|"+n, ci.site, "SIG%s isn't caught any more", n)
				}
			}
		case m.isSubscribe(ci):
			if fn := e.calleeOf(ci.arg(2), nil); fn != nil && boundOf(m.p, fn.fn) == m.handler {
				var o *Term
				if len(fn.free) > 0 {
					o = fn.free[0]
				}
				subs = append(subs, sub{s.clone(), ci.site, o})
			}
			return []Outcome{{}}, true
		case ci.callee.fn != nil && stops[boundOf(m.p, ci.callee.fn)]:
			used[boundOf(m.p, ci.callee.fn)] = true
			if ci.mode == "call" || ci.mode == "defer" {
				s.setB("shut", true)
			}
			x := stripAssert(ci.arg(0))
			switch {
			case x.k == KSym && strings.HasPrefix(x.op, "atomic.") && len(x.args) > 0:
				srcs[x.args[0]] = true
			case x.isOp("init"):
				srcs[x.args[0]] = true
			case x.k == KObj:
				srcs[x] = true
			}
			c.sample("%s: %s runs the shutdown", e.pos(ci.site), nameOf(s.root))
			return []Outcome{{}}, true
		case strings.HasPrefix(ci.name, "sync/atomic.") && strings.HasSuffix(ci.name, ".Store") && len(ci.args) == 2:
			if v := stripIface(ci.arg(1)); v.typ != nil && namedOf(v.typ) == m.server {
				s.setG("at:"+ci.arg(0).String(), v)
			}
		}
		return nil, false
	}
	h.Store = func(e *Engine, s *State, a, v *Term, in ssa.Instruction) {
		if v.typ != nil && namedOf(v.typ) == m.server {
			s.setG("at:"+a.String(), v)
		}
	}
	h.Result = func(e *Engine, s *State, ci *CallInfo, r *Term) {
		if isSignalCtx(ci) && r != nil && r.isOp("tuple") {
			cp := *ci
			cp.args = append([]*Term{r.args[0]}, s.spread(ci)[1:]...)
			cp.sig = nil
			m.notify(s, &cp)
		}
	}
	got := func(e *Engine, s *State, ch *Term) {
		sig := m.signalOf(ch)
		if !sig["INT"] && !sig["TERM"] {
			return
		}
		c.inc("signals received (states)")
		s.setB("signalled", true)
		delete(s.ghost, "noserver")
		delete(s.ghost, "shut")
		for k := range sig {
			handled[k] = true
		}
	}
	h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		if op == "recv" || op == "selrecv" {
			if s.gBool("signalled") && !s.gBool("shut") && !nilServer(s) {
				e.report(s, "shutdown", "again", in, "the process waits for another signal without having finalised the recordings")
			}
			got(e, s, ch)
		}
	}
	ends := 0
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		entry := s.root != nil && s.root.data["entry"] != nil
		if !s.gBool("signalled") {
			return
		}
		if kind == "exit" || (kind == "return" && entry) {
			ends++
			c.inc("exits on a signal (states)")
			if !s.gBool("shut") && !nilServer(s) {
				e.report(s, "shutdown", "exit", nil, "the process exits on SIGINT or SIGTERM without the recordings having been finalised")
			}
			return
		}
		if kind == "return" && !s.gBool("shut") && !nilServer(s) {
			e.report(s, "shutdown", "return", nil, "the recordings aren't finalised on SIGINT or SIGTERM")
		}
	}
	e := c.engine(h)
	c.explore(e, m.roots(e)...)
	if !c.need(len(subs) > 0, "subscription", "the program doesn't subscribe to the bus") {
		return
	}
	for _, n := range []string{"INT", "TERM"} {
		caught := true
		for _, x := range subs {
			if !x.s.gBool("notified:" + n) {
				caught = false
			}
		}
		if !caught {
			c.fail("signal", "uncaught|"+n, "SIG%s is not caught when the subscription starts: it ends the process at once", n)
		} else if !handled[n] {
			c.fail("signal", "unhandled|"+n, "nothing receives SIG%s", n)
		}
	}
	// the server that serves is the one that is shut down
	for _, x := range subs {
		ok := len(srcs) == 0
		for a := range srcs {
			if a.k == KObj && a == x.o {
				ok = true
			} else if v := x.s.g("at:" + a.String()); !v.isNil() && (x.o == nil || v == x.o) {
				ok = true
			}
		}
		if !ok {
			e.viol, e.vkeys = nil, map[string]bool{}
			e.report(x.s, "shutdown", "server", x.in, "the server that handles messages from here on isn't the one that is shut down at termination")
			for _, v := range e.viol {
				c.add(v)
			}
		}
	}
	if c.need(len(used) > 0, "shutdown", "no activity of the program shuts the server down") {
		c.need(ends > 0, "exit", "the process doesn't exit on SIGINT or SIGTERM")
		for f := range used {
			m.finalises(c, f)
		}
		m.removals(c)
	}
}

// removals: a session that isn't finalised is found in the registry,
// which is where the shutdown looks for it.
func (m *appModel) removals(c *Ctx) {
	h, _ := m.sm.busHandlers()
	if !c.need(h != nil, "handler", "no method of the server package is given to PubSub.Subscribe") {
		return
	}
	sm := newSrvModel(c)
	if sm == nil {
		return
	}
	counts := c.count
	c.count = map[string]int{}
	sm.run(c, "", h)
	c.count = counts
	if !c.need(len(sm.idCand) == 1, "session id", "%d fields of the session equal its key whenever it is registered", len(sm.idCand)) {
		return
	}
	for f := range sm.idCand {
		sm.idField = f
	}
	recs := sm.recorderField()
	if !c.need(recs >= 0, "recorder", "a session has no recorder") {
		return
	}
	removed := 0
	ev := &srvEvents{}
	ev.removed = func(e *Engine, s *State, x, k *Term, in ssa.Instruction) {
		var cand []*Term
		if x != nil {
			cand = append(cand, x)
		} else {
			cand = append(cand, s.set("hit")...)
			if r := s.g("regsess"); !r.isNil() {
				cand = append(cand, r)
			}
		}
		for _, x := range cand {
			if id := sm.sessID(s, x); len(cand) > 1 && id != k && s.decideEq(id, k) != 1 {
				continue
			}
			removed++
			c.inc("removals from the registry (states)")
			if s.inSet("lost", x) || sm.recClosed(s, x, recs) {
				continue
			}
			e.report(s, "registry", "removed", in, "a session is removed from the registry before its recording is finalised: a shutdown at this point would not finalise it")
		}
	}
	e := c.engine(sm.hooks(ev))
	e.unroll = 3
	r := e.NewRoot("bus message", h, nil, nil)
	r.data = map[string]any{"handler": true}
	for _, p := range h.Params {
		r.nonNil[r.init.top().regs[p]] = true
	}
	roots := []*Root{r}
	for _, f := range sm.stoppers(namedOf(h.Signature.Recv().Type())) {
		roots = append(roots, e.NewRoot("shutdown "+f.Name(), f, nil, nil))
	}
	c.explore(e, roots...)
	c.need(removed > 0, "removals", "no session is ever removed from the registry")
}

// finalises: the shutdown finalises every session of the registry before it ends.
func (m *appModel) finalises(c *Ctx, f *ssa.Function) {
	ev := &srvEvents{}
	h := m.sm.hooks(ev)
	ranged := 0
	recs := m.sm.recorderField()
	if !c.need(recs >= 0, "recorder", "a session has no recorder") {
		return
	}
	mp := h.Map
	h.Map = func(e *Engine, s *State, op string, x, k, v *Term, in ssa.Instruction) {
		mp(e, s, op, x, k, v, in)
		if op == "range" && v != nil {
			if o := m.sm.sessOf(v); o != nil {
				s.addSet("ranged", o)
			}
		}
	}
	closed := func(s *State, x *Term) bool { return m.sm.recClosed(s, x, recs) }
	// sessions that are only collected are finalised later
	kept := func(s *State, x *Term) bool {
		for a, v := range s.heap {
			for strings.HasPrefix(v.op, "append") && len(v.args) > 1 {
				for _, y := range v.args[1:] {
					if stripIface(y) == x {
						return true
					}
				}
				v = v.args[0]
			}
			if rootOf(a) != x && stripIface(v) == x {
				return true
			}
		}
		return false
	}
	h.Return = func(e *Engine, s *State, fn *ssa.Function, res *Term, site ssa.Instruction) {
		if fn.Parent() == nil || fn.Signature.Results().Len() != 1 || !isBoolT(fn.Signature.Results().At(0).Type()) || len(s.set("ranged")) == 0 {
			return
		}
		if fn.Signature.Params().Len() == 2 && res != nil && s.decide(res) != 1 {
			e.report(s, "finalise", "stops", site, "the shutdown may stop before it came to every session")
		}
	}
	h.Spawn = func(e *Engine, s *State, r *Root) {
		if r.kind == "go" && len(s.set("ranged")) > 0 {
			s.setB("finaliser", true)
			r.data["ghost"] = map[string]*Term{"ranged": s.ghost["ranged"]}
			r.data["finaliser"] = true
		}
	}
	call := h.Call
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.mode != "probe" && strings.HasPrefix(ci.name, "sync.WaitGroup.") {
			switch methName(ci) {
			case "Done":
				s.setB("done", true)
			case "Wait":
				s.setB("waited", true)
			}
		}
		return call(e, s, ci)
	}
	ev.exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind != "return" {
			return
		}
		for _, x := range s.set("ranged") {
			ranged++
			c.inc("sessions met by the shutdown (states)")
			if closed(s, x) {
				continue
			}
			switch {
			case s.root.data["finaliser"] != nil:
				if s.gBool("done") {
					e.report(s, "finalise", "background", nil, "a session is not finalised by the activity that the shutdown waits for")
				}
			case s.gBool("finaliser") && s.gBool("waited"), kept(s, x):
			default:
				e.report(s, "finalise", "session", nil, "the shutdown ends although the recorder of a session has not been closed")
			}
		}
	}
	e := c.engine(h)
	e.unroll = 3
	r := e.NewRoot("shutdown", f, nil, nil)
	r.data = map[string]any{}
	r.nonNil[r.init.top().regs[f.Params[0]]] = true
	c.explore(e, r)
	c.need(ranged > 0, "sessions", "the shutdown doesn't look at the sessions")
}

// ---- C26 ----

func checkBusLoss(c *Ctx) {
	m := newAppModel(c, "internal/pubsub", "internal/pubsub/redis")
	if m == nil {
		return
	}
	// every package of the repository that implements the bus
	var pubs []*ssa.Function
	for _, f := range m.p.Funcs {
		if f.Pkg == nil || f.Signature.Recv() == nil || f.Parent() != nil || f.Blocks == nil {
			continue
		}
		if n := namedOf(f.Signature.Recv().Type()); n != nil && f.Name() == "Publish" && types.Implements(types.NewPointer(n), m.pub.Underlying().(*types.Interface)) {
			pubs = append(pubs, f)
			m.inline[f.Pkg.Pkg.Path()] = true
		}
	}
	if !c.need(len(pubs) > 0, "publisher", "nothing implements the bus") {
		return
	}
	c.explain = "the start of the program, everything it starts and the publishing of a message are explored with every operation of the bus client library failing or not: where a failure ends, with which status, and whether it was logged"
	c.assume = append(c.assume, "an operation of the bus client library on a dead connection returns an error once the read timeout has passed")
	isBus := func(ci *CallInfo) bool {
		pk := pkgOfCall(ci)
		return pk != nil && strings.HasPrefix(pk.Path(), "github.com/gomodule/redigo")
	}
	type wait struct {
		s     *State
		in    ssa.Instruction
		chans []*Term
		after map[*ssa.Function]bool
		got   []*Term // what it received before
	}
	var waits []wait
	tells := map[*ssa.Function]map[*Term]bool{} // what activities tell the loss of the bus on
	readTO := map[string]int64{}
	noTO := map[string]ssa.Instruction{}
	var pings []int64
	h := m.hooks()
	sent := map[*Term]bool{}
	h.Round = func() {
		sent = map[*Term]bool{}
		waits, tells = nil, map[*ssa.Function]map[*Term]bool{}
	}
	dials := 0
	cancelled := func(s *State) bool {
		return len(s.set("ctxdone")) > 0 || s.gBool("cancelled")
	}
	lose := func(s *State) bool {
		s.setB("lost", true)
		delete(s.ghost, "logged")
		delete(s.ghost, "told")
		return true
	}
	spawn := h.Spawn
	h.Spawn = func(e *Engine, s *State, r *Root) {
		spawn(e, s, r)
		if r.kind == "go" {
			s.setG("spawned:"+r.fn.String(), mkObj(r.fn, nil))
		}
	}
	h.Branch = func(e *Engine, s *State, cond *Term, taken bool, in ssa.Instruction) {
		for cond.isOp("not") {
			cond, taken = cond.args[0], !taken
		}
		if !taken && cond.isOp("eq") {
			for _, x := range cond.args {
				if x.k == KSym && x.op == "ctxerr" {
					s.setB("cancelled", true)
				}
			}
		}
	}
	h.Asserted = func(e *Engine, s *State, x *Term, t types.Type, in ssa.Instruction) {
		if isErrorType(t) && x.find(func(u *Term) bool { return strings.HasPrefix(u.op, "bus.recv") }) != nil {
			lose(s)
			c.inc("failed receives (states)")
		}
	}
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		n := ci.name
		meth := methName(ci)
		switch {
		case ci.mode == "probe":
			return nil, isBus(ci)
		case strings.HasPrefix(n, "github.com/sirupsen/logrus."):
			for _, l := range []string{"Error", "Fatal", "Panic", "Warn"} {
				if strings.HasPrefix(meth, l) {
					s.setB("logged", true)
				}
			}
			return nil, false
		case n == "time.NewTicker" || n == "time.Tick":
			if d, ok := ci.arg(0).int64(); ok {
				fn := ci.site.Parent()
				if fn.Pkg != nil && m.inline[fn.Pkg.Pkg.Path()] {
					pings = append(pings, d)
				}
			}
			return nil, false
		case m.isSubscribe(ci):
			s.setB("bus", true)
			c.inc("subscriptions (states)")
			return nil, false
		case isBus(ci) && strings.HasPrefix(meth, "Dial") && ci.sig.Results().Len() == 2:
			dials++
			c.inc("dials (states)")
			at := e.pos(ci.site)
			if s.root.data["entry"] != nil && s.gBool("bus") && !cancelled(s) {
				if s.inSet("dialled", mkStr(at)) {
					e.report(s, "status", "again", ci.site, "the program connects again instead of ending when the subscription has ended")
				}
				s.addSet("dialled", mkStr(at))
			}
			found := false
			for _, a := range s.spread(ci) {
				if o := a.find(func(u *Term) bool { return strings.HasSuffix(strings.SplitN(u.op, "#", 2)[0], ".DialReadTimeout") }); o != nil && len(o.args) > 0 {
					found = true
					if d, ok := o.args[0].int64(); ok {
						readTO[at] = d
						c.sample("%s: dials with a read timeout of %d s", at, d/1e9)
					} else {
						c.sample("%s: dials with a read timeout of %s", at, o.args[0])
					}
				}
			}
			if !found {
				noTO[at] = ci.site
			}
			return okOrErr(e, ci, shortName(n), nil, func(s *State) bool { return lose(s) }), true
		case isBus(ci) && (meth == "Receive" || meth == "ReceiveWithTimeout" || meth == "ReceiveContext") && ci.sig.Results().Len() == 1 && types.IsInterface(ci.sig.Results().At(0).Type()):
			c.inc("receives (states)")
			if s.gBool("lost") && !s.gBool("told") {
				e.report(s, "deaf", "receives on", ci.site, "after the connection failed it is only read from again: nobody is told")
			}
			return []Outcome{{res: fresh("bus.recv", ci.sig.Results().At(0).Type())}}, true
		case isBus(ci) && meth == "Close":
			return []Outcome{{res: zeroResult(ci)}}, true
		case isBus(ci) && lastIsErr(ci.sig):
			c.inc("operations of the bus client (states)")
			return okOrErr(e, ci, shortName(n), nil, func(s *State) bool { return lose(s) }), true
		}
		return nil, false
	}
	note := func(e *Engine, s *State, chans []*Term, in ssa.Instruction) {
		w := wait{s.clone(), in, nil, map[*ssa.Function]bool{}, s.set("got")}
		for _, ch := range chans {
			w.chans = append(w.chans, chanOf(ch))
		}
		for k, v := range s.ghost {
			if strings.HasPrefix(k, "spawned:") {
				w.after[v.ref.(*ssa.Function)] = true
			}
		}
		if len(w.after) > 0 {
			waits = append(waits, w)
		}
	}
	h.Select = func(e *Engine, s *State, chans []*Term, in *ssa.Select) {
		if in.Blocking {
			note(e, s, chans, in)
		}
	}
	tell := func(s *State, ch *Term) {
		s.setB("told", true)
		if s.root != nil && s.gBool("lost") {
			if tells[s.root.fn] == nil {
				tells[s.root.fn] = map[*Term]bool{}
			}
			tells[s.root.fn][chanOf(ch)] = true
		}
	}
	h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		switch op {
		case "recv":
			note(e, s, []*Term{ch}, in)
			s.addSet("got", chanOf(ch))
		case "selrecv":
			s.addSet("got", chanOf(ch))
		case "send", "close", "selsend":
			tell(s, ch)
			sent[chanOf(ch)] = true
		}
	}
	silent := map[*ssa.Function]*State{} // activities that end on a failure
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if s.root.data["publish"] != nil {
			if kind == "return" {
				c.inc("ends of publishing (states)")
				if s.gBool("lost") && !s.gBool("logged") {
					e.report(s, "unlogged", "publish", nil, "a message that could not be published is lost without a trace")
				}
			}
			return
		}
		entry := s.root.data["entry"] != nil
		switch {
		case kind == "exit" && s.gBool("lost"):
			c.inc("exits on a failure of the bus (states)")
			if n, ok := res.int64(); ok && n == 0 {
				e.report(s, "status", "zero", nil, "the process ends with status 0 after the bus failed")
			}
			if !s.gBool("logged") {
				e.report(s, "unlogged", "exit", nil, "the process ends without saying that the bus failed")
			}
		case kind == "return" && entry && s.gBool("bus"):
			c.inc("ends of the subscription (states)")
			if !cancelled(s) {
				e.report(s, "status", "return", nil, "the program ends as if successful although the subscription has ended")
			}
		case kind == "exit" && entry && s.gBool("bus"):
			c.inc("ends of the subscription (states)")
			if n, ok := res.int64(); ok && n == 0 && !cancelled(s) {
				e.report(s, "status", "zero", nil, "the process ends with status 0 although the subscription has ended")
			}
		case kind == "block" && entry && !cancelled(s):
			e.report(s, "deaf", "blocked", nil, "the program stays up although the subscription has ended")
		case kind == "return" && entry && s.gBool("lost"):
			e.report(s, "status", "start", nil, "the program ends as if successful although the bus can't be reached")
		case kind == "return" && s.root.kind == "go" && s.gBool("lost") && !cancelled(s):
			if !s.gBool("told") {
				silent[s.root.fn] = s.clone()
			}
			c.inc("activities that end on a failure (states)")
		}
	}
	e := c.engine(h)
	rs := m.roots(e)
	for _, f := range pubs {
		r := e.NewRoot("publishing by "+shortName(f.String()), f, nil, nil)
		r.data = map[string]any{"publish": true}
		r.nonNil[r.init.top().regs[f.Params[0]]] = true
		rs = append(rs, r)
	}
	c.explore(e, rs...)
	late := func(s *State, rule, key string, in ssa.Instruction, f string, a ...any) {
		e.viol, e.vkeys = nil, map[string]bool{}
		e.report(s, rule, key, in, f, a...)
		for _, v := range e.viol {
			c.add(v)
		}
	}
	for fn, s := range silent {
		late(s, "deaf", "ends", nil, "%s ends when the bus fails, and nobody is told", shortName(fn.String()))
	}
	nt := 0
	for _, w := range waits {
		for fn := range w.after {
			ds := tells[fn]
			if len(ds) == 0 {
				continue
			}
			nt++
			ok := false
			for _, ch := range w.chans {
				ok = ok || ds[ch]
			}
			if !ok && !cancelled(w.s) {
				late(w.s, "deaf", "waits", w.in, "nobody waits for what %s tells when the bus fails", shortName(fn.String()))
			}
		}
	}
	for _, w := range waits {
		lost, alive := false, false
		for _, ch := range w.got {
			for _, ds := range tells {
				lost = lost || ds[ch]
			}
		}
		for _, ch := range w.chans {
			alive = alive || sent[ch]
		}
		if lost && !alive && !cancelled(w.s) && w.s.root.data["entry"] != nil {
			late(w.s, "deaf", "stays", w.in, "the program stays up although the subscription has ended")
		}
	}
	c.count["waits for a failure"] = nt
	c.need(c.count["subscriptions (states)"] > 0, "subscription", "the program doesn't subscribe to the bus")
	c.need(dials > 0, "dial", "no connection to the bus is made")
	c.need(c.count["failed receives (states)"] > 0, "receive", "no failure to receive is looked for")
	c.need(c.count["ends of publishing (states)"] > 0, "publish", "publishing never ends")
	for at, in := range noTO {
		if _, ok := readTO[at]; !ok {
			c.fail("timeout", "none", "%s: connections are read without a timeout, a dead one is never noticed (%s)", at, in)
		}
	}
	var max int64
	for _, d := range pings {
		if d > max {
			max = d
		}
	}
	for at, d := range readTO {
		c.inc("read timeouts")
		if d <= 0 {
			c.fail("timeout", "none", "%s: connections are read without a timeout, a dead one is never noticed", at)
		} else if d <= max {
			c.fail("timeout", "short", "%s: reading times out after %d ms, although something is only heard every %d ms", at, d/1e6, max/1e6)
		}
	}
}

// zeroResult is what a call that succeeds gives.
func zeroResult(ci *CallInfo) *Term {
	rs := ci.sig.Results()
	switch rs.Len() {
	case 0:
		return tNil
	case 1:
		return zeroOf(rs.At(0).Type())
	}
	as := make([]*Term, rs.Len())
	for i := range as {
		as[i] = zeroOf(rs.At(i).Type())
	}
	return mkOp("tuple", rs, as...)
}

// ---- C27 ----

// configLeaf is a setting: a field of the configuration that sources may give.
type configLeaf struct {
	path string
	addr func(base *Term) *Term
	of   func(v *Term) *Term
	typ  types.Type
}

// configLeaves are the settings of the configuration type.
func (m *appModel) configLeaves() []configLeaf {
	var out []configLeaf
	var rec func(t types.Type, path string, addr, of func(*Term) *Term)
	rec = func(t types.Type, path string, addr, of func(*Term) *Term) {
		st, ok := t.Underlying().(*types.Struct)
		n := namedOf(t)
		if !ok || n == nil || n.Obj().Pkg() != m.cfg.Obj().Pkg() {
			out = append(out, configLeaf{path, addr, of, t})
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			i := i
			if strings.Contains(st.Tag(i), `:"-"`) {
				continue
			}
			rec(st.Field(i).Type(), path+"."+st.Field(i).Name(), func(b *Term) *Term { return fieldAddr(addr(b), st, i) }, func(v *Term) *Term { return fieldOf(of(v), st, i) })
		}
	}
	id := func(t *Term) *Term { return t }
	rec(m.cfg, "", id, id)
	return out
}

// checkConfig: defaults, file, environment; complete or not at all; never in
// place.
func checkConfig(c *Ctx) {
	m := newAppModel(c, "internal/config")
	if m == nil {
		return
	}
	c.explain = "the start of the program and the reload are explored with every source readable or not: what is given to the loaders, in which order, and what reaches the configuration in use"
	c.assume = append(c.assume, "a loader that reports an error may have set any part of what it was given", "the loaders only set what their source has")
	leaves := m.configLeaves()
	if !c.need(len(leaves) > 5, "settings", "the configuration has no settings") {
		return
	}
	h := m.hooks()
	type call struct {
		s    *State
		in   ssa.Instruction
		sets map[string]*Term
	}
	var files []call
	sources := map[string]map[string]map[string]bool{} // activity, what → mentions
	starts, reloads := 0, 0
	h.Round = func() {
		files, sources = nil, map[string]map[string]map[string]bool{}
		starts, reloads = 0, 0
	}
	act := func(s *State) string {
		if s.root.data["entry"] != nil {
			return "start"
		}
		return "reload"
	}
	complete := func(s *State, o *Term) bool {
		return s.inSet("file", o) && s.inSet("env", o) && !s.inSet("bad", o)
	}
	from := func(s *State, v *Term) *Term { // the completely read configuration a value is from
		return v.find(func(u *Term) bool { return u.k == KObj && complete(s, u) })
	}
	early := func(s *State) bool { return s.root.data["entry"] != nil && !s.gBool("applied") }
	inUse := func(s *State, o *Term) bool { return s.inSet("inuse", o) || s.isShared(o) }
	touched := func(s *State, o *Term) bool { return s.inSet("file", o) || s.inSet("env", o) || s.inSet("bad", o) }
	isCfgPtr := func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && namedOf(p.Elem()) == m.cfg
	}
	// whole checks a configuration that is put in use as a whole
	whole := func(e *Engine, s *State, in ssa.Instruction, get func(l configLeaf) *Term, o *Term) {
		switch {
		case o != nil && s.inSet("bad", o):
			e.report(s, "partly", "bad", in, "a configuration that could not be read is put in use")
			return
		case o != nil && !complete(s, o):
			if early(s) && !touched(s, o) {
				return
			}
			w := "the environment"
			if !s.inSet("file", o) {
				w = "the file"
			}
			e.report(s, "partly", "incomplete", in, "a configuration without what %s says is put in use", w)
			return
		}
		for _, l := range leaves {
			v := get(l)
			if from(s, v) == nil {
				if early(s) && v.find(func(u *Term) bool { return u.k == KObj && touched(s, u) }) == nil {
					return
				}
				e.report(s, "override", l.path, in, "%s in use is %s instead of what was loaded", l.path[1:], v)
				return
			}
		}
		s.setB("applied", true)
		c.inc("configurations put in use (states)")
	}
	handed := ""
	publish := func(e *Engine, s *State, p *Term, in ssa.Instruction) {
		p = stripIface(p)
		if p == nil || p.typ == nil || !isCfgPtr(p.typ) {
			return
		}
		if s.gBool("hup") && handed != "" {
			e.report(s, "stale", "pointer", in, "the reloaded configuration is another object than the one that was given to %s", handed)
		}
		whole(e, s, in, func(l configLeaf) *Term { return s.load(l.addr(p), l.typ) }, p)
		if p.k == KObj {
			s.addSet("inuse", p)
		}
	}
	mentions := func(ts ...*Term) map[string]bool {
		out := map[string]bool{}
		for _, t := range ts {
			t.find(func(u *Term) bool {
				if u.isOp("field") && u.args[0].k == KGlobal {
					out[u.String()] = true
				}
				if u.k == KGlobal {
					out[u.String()] = true
				}
				return false
			})
		}
		return out
	}
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		pk := pkgOfCall(ci)
		gonfig := pk != nil && strings.HasSuffix(pk.Path(), "/gonfig")
		if ci.mode == "probe" {
			return nil, gonfig
		}
		meth := methName(ci)
		switch {
		case ci.name == "os/signal.Notify":
			m.notify(s, ci)
			return nil, false
		case strings.HasPrefix(ci.name, "sync/atomic.") && (meth == "Store" || meth == "Swap" || meth == "CompareAndSwap"):
			publish(e, s, ci.args[len(ci.args)-1], ci.site)
			return nil, false
		case pk != nil && m.p.isRepoPkg(pk) && !m.inline[pk.Path()] && ci.mode == "call":
			for _, a := range ci.args {
				if a != nil && a.typ != nil && isCfgPtr(a.typ) {
					handed = shortName(ci.name)
				}
			}
		}
		switch {
		case m.isSubscribe(ci):
			c.inc("subscriptions (states)")
			if !s.gBool("applied") {
				e.report(s, "applied", "start", ci.site, "the program starts to work without having put a configuration in use that was read from file and environment")
			}
			return nil, false
		case gonfig && (meth == "NewFileLoader" || meth == "NewEnvLoader"):
			k := act(s)
			if sources[k] == nil {
				sources[k] = map[string]map[string]bool{}
			}
			if sources[k][meth] == nil {
				sources[k][meth] = map[string]bool{}
			}
			a := ci.arg(0)
			for g := range mentions(a) {
				sources[k][meth][g] = true
			}
			if meth == "NewEnvLoader" {
				sources[k][meth][a.String()] = true
			}
			return nil, false
		case gonfig && meth == "Load" && recvType(ci) != nil && ci.sig.Params().Len() == 1:
			kind := map[string]string{"FileLoader": "file", "EnvLoader": "env"}[recvType(ci).Obj().Name()]
			if kind == "" {
				return nil, false
			}
			o := stripIface(ci.args[len(ci.args)-1])
			c.inc("loads (states)")
			if o == nil || o.typ == nil || !isCfgPtr(o.typ) {
				return nil, false
			}
			if o.k != KObj || inUse(s, o) && !early(s) {
				e.report(s, "in-place", kind, ci.site, "the %s loader writes into the configuration in use", kind)
				return okOrErr(e, ci, "loading", nil, nil), true
			}
			if s.inSet("bad", o) {
				e.report(s, "partly", "again", ci.site, "what could not be read completely is read on into")
			}
			if kind == "file" {
				if s.inSet("env", o) {
					e.report(s, "order", "file", ci.site, "the file is loaded over the environment")
				}
				sets := map[string]*Term{}
				for _, l := range leaves {
					v := s.load(l.addr(o), l.typ)
					if v.k == KZero || v.isNil() || v == tFalse || v.find(func(u *Term) bool { return u.isOp("init") && u.find(func(w *Term) bool { return w == o }) != nil }) != nil {
						continue
					}
					if n, ok := v.int64(); ok && n == 0 {
						continue
					}
					if n, ok := v.str(); ok && n == "" {
						continue
					}
					sets[l.path] = v
				}
				files = append(files, call{s.clone(), ci.site, sets})
				if act(s) == "start" {
					starts++
				} else {
					reloads++
				}
			} else if !s.inSet("file", o) {
				e.report(s, "order", "env", ci.site, "the environment is loaded before the file")
			}
			out := okOrErr(e, ci, "loading the "+kind, func(s *State, r *Term) bool {
				s.havoc(o)
				s.addSet(kind, o)
				if inUse(s, o) && complete(s, o) {
					s.setB("applied", true)
				}
				return true
			}, func(s *State) bool {
				s.havoc(o)
				s.addSet("bad", o)
				s.setB("failed", true)
				return true
			})
			return out, true
		}
		return nil, false
	}
	h.Store = func(e *Engine, s *State, a, v *Term, in ssa.Instruction) {
		// a pointer to a configuration that others can see
		if v != nil && v.typ != nil && isCfgPtr(v.typ) && s.isShared(rootOf(a)) {
			publish(e, s, v, in)
			return
		}
		base := a
		for base != nil && !(base.typ != nil && isCfgPtr(base.typ)) {
			if !base.isOp("field") {
				return
			}
			base = base.args[0]
		}
		if base == nil || (base.k == KObj && !inUse(s, base)) {
			return
		}
		if base.k != KObj && !s.isShared(rootOf(base)) && !base.isOp("init") {
			return
		}
		if a == base {
			whole(e, s, in, func(l configLeaf) *Term { return l.of(v) }, nil)
			return
		}
		// field by field
		n := 0
		for _, l := range leaves {
			la := l.addr(base)
			if la != a && !isUnder(la, a) {
				continue
			}
			n++
			fv := v
			if la != a {
				var path []*Term
				for x := la; x != a; x = x.args[0] {
					path = append(path, x)
				}
				for i := len(path) - 1; i >= 0; i-- {
					fv = fieldOf(fv, structType(path[i].args[0].typ), path[i].n)
				}
			}
			if from(s, fv) == nil {
				if early(s) && fv.find(func(u *Term) bool { return u.k == KObj && touched(s, u) }) == nil {
					continue
				}
				e.report(s, "in-place", "store", in, "%s of the configuration in use becomes %s, which is not what was loaded", l.path[1:], fv)
				return
			}
			s.addSet("applied-fields", mkStr(l.path))
		}
		if n > 0 && len(s.set("applied-fields")) == len(leaves) {
			s.setB("applied", true)
			c.inc("configurations put in use (states)")
		}
	}
	turn := func(e *Engine, s *State, in ssa.Instruction) {
		if s.gBool("hup") {
			c.inc("reloads (states)")
			if !s.gBool("applied") && !s.gBool("failed") {
				e.report(s, "applied", "reload", in, "the signal to reload does not lead to a configuration in use that was read from file and environment")
			}
			for _, k := range []string{"hup", "applied", "failed", "applied-fields", "file", "env", "bad", "inuse"} {
				delete(s.ghost, k)
			}
		}
	}
	h.Select = func(e *Engine, s *State, chans []*Term, in *ssa.Select) { turn(e, s, in) }
	h.Chan = func(e *Engine, s *State, op string, ch, v *Term, in ssa.Instruction) {
		if op == "recv" {
			turn(e, s, in)
		}
		if (op == "recv" || op == "selrecv") && m.signalOf(ch)["HUP"] {
			s.setB("hup", true)
		}
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if kind == "return" {
			turn(e, s, nil)
		}
	}
	e := c.engine(h)
	c.explore(e, m.roots(e)...)
	c.need(starts > 0, "start", "no configuration is loaded from a file when the program starts")
	c.need(reloads > 0, "reload", "no configuration is loaded from a file on the signal to reload")
	c.need(c.count["subscriptions (states)"] > 0, "subscription", "the program doesn't subscribe to the bus")
	c.need(c.count["reloads (states)"] > 0, "reload-signal", "nothing waits for the signal to reload")
	if len(files) == 0 {
		return
	}
	late := func(s *State, rule, key string, in ssa.Instruction, f string, a ...any) {
		e.viol, e.vkeys = nil, map[string]bool{}
		e.report(s, rule, key, in, f, a...)
		for _, v := range e.viol {
			c.add(v)
		}
	}
	all := map[string]*Term{}
	for _, f := range files {
		for p, v := range f.sets {
			if o := all[p]; o == nil || o.k == KConst {
				all[p] = v
			}
		}
	}
	c.count["settings"] = len(leaves)
	c.count["defaults"] = len(all)
	c.need(len(all) >= 5, "defaults", "the configuration given to the file loader has no defaults")
	for _, f := range files {
		for p, v := range all {
			w := f.sets[p]
			switch {
			case w == nil:
				late(f.s, "defaults", p, f.in, "%s has no default here", p[1:])
			case w.k == KConst && v.k == KConst && w != v:
				late(f.s, "defaults", p, f.in, "the default of %s is %s here and %s elsewhere", p[1:], w, v)
			}
		}
	}
	for _, k := range []string{"NewFileLoader", "NewEnvLoader"} {
		a, b := sources["start"][k], sources["reload"][k]
		for g := range a {
			if !b[g] {
				c.fail("source", k, "%s uses %s at the start, but not to reload", k, g)
			}
		}
		for g := range b {
			if !a[g] && k == "NewEnvLoader" {
				c.fail("source", k, "%s uses %s to reload, but not at the start", k, g)
			}
		}
	}
}
