package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The session life cycle: what the handler of bus messages, the callbacks of
// the transports and the shutdown do to the registry of sessions, the gauge,
// the recorders and transports, and what they publish.

const (
	ghReq    = "req"    // message type that was decoded successfully
	ghReqObj = "reqobj" // and the decoded message
)

// anchors of the server-level checks, resolved from types
type srvModel struct {
	p           *Prog
	c           *Ctx
	recIface    *types.Named // recorder.Recorder
	sess        *types.Named // struct with a recorder, stored in the registry
	sessT       types.Type
	recField    int
	transFields []int
	several     bool     // some session has more than one transport
	deferred    []func() // reports if there are such sessions
	transports  map[*types.Named]bool
	inlinePkgs  map[string]bool
	pubIface    *types.Named
	idField     *types.Var // the session's field that equals its registry key
	idCand      map[*types.Var]bool
	nStored     int
	answers     map[string]int
	seenTerm    map[string]bool
}

func newSrvModel(c *Ctx) *srvModel {
	p := c.p
	m := &srvModel{p: p, c: c, transports: map[*types.Named]bool{}, inlinePkgs: map[string]bool{}, answers: map[string]int{}, seenTerm: map[string]bool{}}
	m.recIface = p.typ("internal/webrtc/recorder", "Recorder")
	m.pubIface = p.typ("internal/pubsub", "PubSub")
	if !c.need(m.recIface != nil, "Recorder", "the Recorder interface was not found") ||
		!c.need(m.pubIface != nil, "PubSub", "the PubSub interface was not found") {
		return nil
	}
	for _, n := range p.named {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		rel := relPkg(p, n.Obj().Pkg())
		if strings.HasPrefix(rel, "internal/webrtc") && !strings.HasPrefix(rel, "internal/webrtc/recorder") {
			if i, cl := p.method(n, "Init"), p.method(n, "Close"); i != nil && cl != nil && sigHas(i.Signature, m.recIface) {
				m.transports[n] = true
			}
			continue
		}
		if rel != "internal/server" {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), m.recIface) {
				m.sess, m.recField = n, i
			}
		}
	}
	if !c.need(m.sess != nil, "session", "no struct of the server package has a recorder: the session type was not found") ||
		!c.need(len(m.transports) >= 2, "transports", "expected two transport types with Init(Recorder) and Close, found %d", len(m.transports)) {
		return nil
	}
	st := m.sess.Underlying().(*types.Struct)
	m.idCand = map[*types.Var]bool{}
	for i := 0; i < st.NumFields(); i++ {
		if n := namedOf(st.Field(i).Type()); n != nil && m.transports[n] {
			m.transFields = append(m.transFields, i)
		}
		if isString(st.Field(i).Type()) {
			m.idCand[st.Field(i)] = true
		}
	}
	c.need(len(m.transFields) == len(m.transports), "session transports", "a session holds %d of the %d kinds of transport", len(m.transFields), len(m.transports))
	m.sessT = types.NewPointer(m.sess)
	for path := range p.SPkgs {
		rel := strings.TrimPrefix(path, p.Mod+"/")
		switch rel {
		case "internal/server", "internal/pubsub/events", "internal/webrtc/signal", "internal/config", "internal/prometheus":
			m.inlinePkgs[path] = true
		}
	}
	return m
}

func relPkg(p *Prog, pkg *types.Package) string {
	if pkg == nil {
		return ""
	}
	return strings.TrimPrefix(pkg.Path(), p.Mod+"/")
}

func sigHas(sig *types.Signature, t types.Type) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if types.Identical(sig.Params().At(i).Type(), t) {
			return true
		}
	}
	return false
}

// ---- sets of terms in the client's state ----

func (s *State) addSet(k string, t *Term) {
	o := s.ghost[k]
	var as []*Term
	if o != nil {
		for _, x := range o.args {
			if x == t {
				return
			}
		}
		as = append(as, o.args...)
	}
	as = append(as, t)
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	s.ghost[k] = mkOp("set", nil, as...)
}

func (s *State) delSet(k string, t *Term) {
	o := s.ghost[k]
	if o == nil {
		return
	}
	var as []*Term
	for _, x := range o.args {
		if x != t {
			as = append(as, x)
		}
	}
	if len(as) == 0 {
		delete(s.ghost, k)
		return
	}
	s.ghost[k] = mkOp("set", nil, as...)
}

func (s *State) set(k string) []*Term {
	if o := s.ghost[k]; o != nil {
		return o.args
	}
	return nil
}

func (s *State) inSet(k string, t *Term) bool {
	if t == nil {
		return false
	}
	for _, x := range s.set(k) {
		if x == t || s.decideEq(x, t) == 1 {
			return true
		}
	}
	return false
}

// ---- messages ----

// payload finds the structure whose JSON encoding a byte slice is.
func payload(b *Term) (v *Term, t types.Type) {
	for i := 0; i < 6; i++ {
		switch {
		case b.isOp("call:encoding/json.Marshal") || b.isOp("call:encoding/json.MarshalIndent"):
			x := b.args[0]
			if x.isOp("iface") {
				return x.args[0], x.ref.(types.Type)
			}
			return x, x.typ
		case b.isOp("conv"), b.isOp("slice"):
			b = b.args[0]
			continue
		case b.k == KOp && strings.HasPrefix(b.op, "conv"):
			b = b.args[0]
			continue
		}
		break
	}
	return nil, nil
}

func jsonName(st *types.Struct, i int) string {
	tag := reflectTag(st.Tag(i), "json")
	if j := strings.IndexByte(tag, ','); j >= 0 {
		tag = tag[:j]
	}
	if tag == "" {
		return st.Field(i).Name()
	}
	return tag
}

// wireField is the value of the field with a given JSON name.
func wireField(s *State, v *Term, t types.Type, name string) (*Term, types.Type) {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() && reflectTag(st.Tag(i), "json") == "" {
			// its fields are encoded as if they were of the outer structure
			_, pt := f.Type().Underlying().(*types.Pointer)
			if _, isSt := deref(f.Type()).Underlying().(*types.Struct); isSt {
				var x *Term
				if _, ptr := t.Underlying().(*types.Pointer); ptr {
					x = fieldAddr(v, st, i)
					if pt {
						x = s.load(x, f.Type())
					}
					if r, rt := wireField(s, x, types.NewPointer(deref(f.Type())), name); r != nil {
						return r, rt
					}
				} else if r, rt := wireField(s, fieldOf(v, st, i), f.Type(), name); r != nil {
					return r, rt
				}
				continue
			}
		}
		if jsonName(st, i) != name {
			continue
		}
		if _, ptr := t.Underlying().(*types.Pointer); ptr {
			return s.load(fieldAddr(v, st, i), st.Field(i).Type()), st.Field(i).Type()
		}
		return fieldOf(v, st, i), st.Field(i).Type()
	}
	return nil, nil
}

func constStr(t *Term) string {
	if t == nil {
		return ""
	}
	s, _ := t.str()
	return s
}

// ---- hooks ----

func (m *srvModel) isSess(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n == m.sess
}

func (m *srvModel) sessField(s *State, sess *Term, i int) *Term {
	st := m.sess.Underlying().(*types.Struct)
	return s.load(fieldAddr(sess, st, i), st.Field(i).Type())
}

func (m *srvModel) sessID(s *State, sess *Term) *Term {
	st := m.sess.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == m.idField {
			return m.sessField(s, sess, i)
		}
	}
	return nil
}

// sessOf: the session a value or an address belongs to.
func (m *srvModel) sessOf(t *Term) *Term {
	for t != nil {
		if t.typ != nil {
			if _, ok := t.typ.Underlying().(*types.Pointer); ok && m.isSess(deref(t.typ)) && !t.isOp("iface") {
				return t
			}
		}
		if t.isOp("iface") {
			t = t.args[0]
			continue
		}
		t = parentAddr(t)
	}
	return nil
}

// reqSID is the session id of the decoded request.
func (m *srvModel) reqField(s *State, name string) *Term {
	o := s.g(ghReqObj)
	if o.isNil() {
		return nil
	}
	v, _ := wireField(s, o, o.typ, name)
	return v
}

type srvEvents struct {
	given     func(e *Engine, s *State, ci *CallInfo) // a transport is created, set up or told something
	unmarshal func(e *Engine, s *State, ci *CallInfo)
	publish   func(e *Engine, s *State, id string, v *Term, t types.Type, ci *CallInfo)
	effect    func(e *Engine, s *State, what string, ci *CallInfo)
	exit      func(e *Engine, s *State, kind string, res *Term)
	decoded   func(e *Engine, s *State, typ string, obj *Term)
	undecided func(e *Engine, s *State, what string, ci *CallInfo)
	removed   func(e *Engine, s *State, x, k *Term, in ssa.Instruction) // from the registry
}

func lastIsErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type())
}

// okOrErr are the outcomes of a set-up step.
func okOrErr(e *Engine, ci *CallInfo, what string, ok func(s *State, r *Term) bool, bad func(s *State) bool) []Outcome {
	rs := ci.sig.Results()
	n := rs.Len()
	good, fail := make([]*Term, n), make([]*Term, n)
	for i := 0; i < n-1; i++ {
		t := rs.At(i).Type()
		good[i] = fresh("call:"+ci.name+"#"+itoa(i), t, ci.args...)
		fail[i] = zeroOf(t)
	}
	good[n-1] = tNil
	fail[n-1] = mkIface(errType, fresh("error:"+ci.name, nil), rs.At(n-1).Type())
	mk := func(as []*Term) *Term {
		if n == 1 {
			return as[0]
		}
		return mkOp("tuple", rs, as...)
	}
	return []Outcome{
		{res: mk(good), note: what + " succeeds", eff: func(s *State) bool {
			for _, g := range good[:n-1] {
				if _, isI := g.typ.Underlying().(*types.Interface); isI {
					s.facts[mkEq(g, tNil)] = false
				}
			}
			return ok == nil || ok(s, mk(good))
		}},
		{res: mk(fail), note: what + " fails", eff: bad},
	}
}

// mayPanic: the function, or one it calls in the repository, panics explicitly.
var mayPanicMemo = map[*ssa.Function]bool{}

func mayPanic(p *Prog, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if r, ok := mayPanicMemo[fn]; ok {
		return r
	}
	if seen[fn] || fn == nil || fn.Blocks == nil {
		return false
	}
	seen[fn] = true
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Panic); ok {
				r = true
			}
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Common().StaticCallee(); f != nil {
					if f.Pkg != nil && p.isRepoPkg(f.Pkg.Pkg) && mayPanic(p, f, seen) {
						r = true
					}
					if n := fullName(f); strings.HasPrefix(n, "github.com/sirupsen/logrus.") && strings.HasPrefix(n[strings.LastIndex(n, ".")+1:], "Panic") {
						r = true
					}
				}
			}
		}
	}
	mayPanicMemo[fn] = r
	return r
}

func (m *srvModel) hooks(ev *srvEvents) *Hooks {
	h := &Hooks{KeepArgs: true}
	h.Inline = func(fn *ssa.Function) bool {
		for f := fn; f != nil; f = f.Parent() {
			if f.Pkg != nil && m.inlinePkgs[f.Pkg.Pkg.Path()] {
				return true
			}
		}
		return false
	}
	h.KeepFact = func(f *Term) bool { return true }
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		n := ci.name
		recv := ci.sig != nil && ci.sig.Recv() != nil
		var rn *types.Named
		if ci.callee.fn != nil && ci.callee.fn.Signature.Recv() != nil {
			rn = namedOf(ci.callee.fn.Signature.Recv().Type())
		}
		if ci.callee.obj != nil {
			if sg, ok := ci.callee.obj.Type().(*types.Signature); ok && sg.Recv() != nil {
				rn = namedOf(sg.Recv().Type())
			}
		}
		meth := n[strings.LastIndex(n, ".")+1:]
		_ = recv
		switch {
		case rn != nil && (rn == m.pubIface || types.Implements(types.NewPointer(rn), m.pubIface.Underlying().(*types.Interface))):
			if ci.mode == "probe" {
				return nil, true
			}
			if meth == "Publish" {
				m.published(e, s, ev, ci)
				return []Outcome{{}}, true
			}
			return nil, false
		case rn != nil && rn == m.recIface:
			if ci.mode == "probe" {
				return nil, true
			}
			return m.recorderCall(e, s, ev, meth, ci)
		case ci.mode == "probe":
			return nil, false
		case rn != nil && m.transports[rn]:
			return m.transportCall(e, s, ev, meth, ci)
		case ci.callee.fn != nil && ci.callee.fn.Pkg != nil && rn == nil && strings.HasPrefix(relPkg(m.p, ci.callee.fn.Pkg.Pkg), "internal/webrtc") && ci.callee.fn.Parent() == nil &&
			!h.Inline(ci.callee.fn):
			if relPkg(m.p, ci.callee.fn.Pkg.Pkg) == "internal/webrtc/recorder" || (rsHas(ci.sig, m.recIface)) {
				ev.do(e, s, "creates a recorder ("+shortName(n)+")", ci)
				s.setB("recmade", true)
				if lastIsErr(ci.sig) {
					return okOrErr(e, ci, shortName(n), func(s *State, r *Term) bool {
						x := r
						if r.isOp("tuple") {
							x = r.args[0]
						}
						if types.Identical(x.typ, m.recIface) {
							s.setG("rec", x)
						}
						return true
					}, func(s *State) bool { s.setB("failed", true); return true }), true
				}
			}
			for tn := range m.transports {
				if ci.sig.Results().Len() == 1 && namedOf(ci.sig.Results().At(0).Type()) == tn {
					ev.do(e, s, "creates a transport ("+shortName(n)+")", ci)
					if ev.given != nil {
						ev.given(e, s, ci)
					}
					o := mkObj(ci.site, ci.sig.Results().At(0).Type())
					return []Outcome{{res: o}}, true
				}
			}
			return nil, false
		}
		if ev.unmarshal != nil && meth == "Unmarshal" {
			ev.unmarshal(e, s, ci)
		}
		if strings.HasPrefix(n, "github.com/prometheus/client_golang/prometheus.Gauge.") || strings.HasPrefix(n, "github.com/prometheus/client_golang/prometheus.gauge.") {
			d := int64(0)
			switch meth {
			case "Inc":
				d = 1
			case "Dec":
				d = -1
			case "Add", "Sub":
				if c, ok := constFloat(ci.arg(1)); ok {
					d = c
					if meth == "Sub" {
						d = -c
					}
				} else {
					d = 1000
				}
			default:
				d = 1000
			}
			ev.do(e, s, "changes the session gauge", ci)
			s.setI("gauge", clampI(s.gInt("gauge")+d))
			m.c.inc("gauge operations")
			return []Outcome{{}}, true
		}
		return nil, false
	}
	h.Result = func(e *Engine, s *State, ci *CallInfo, r *Term) {
		n := ci.name
		switch {
		case strings.HasSuffix(n, ".CompareAndSwap") && strings.HasPrefix(n, "sync/atomic."), strings.HasPrefix(n, "sync/atomic.CompareAndSwap"):
			if o := m.sessOf(ci.arg(0)); o != nil {
				if r == tTrue {
					m.win(s, o)
				} else if r == tFalse {
					m.lose(s, o)
				}
			}
		case strings.HasPrefix(n, "sync/atomic.") && strings.HasSuffix(n, ".Swap"):
			if o := m.sessOf(ci.arg(0)); o != nil && len(ci.args) > 1 && ci.arg(1) == tTrue {
				if s.decide(r) == -1 {
					m.win(s, o)
				} else if s.decide(r) == 1 {
					m.lose(s, o)
				}
			}
		case decodes(n) && r.isNil():
			for _, a := range ci.args {
				if a.isOp("iface") {
					t := a.ref.(types.Type)
					if nn := namedOf(t); nn != nil && relPkg(m.p, nn.Obj().Pkg()) == "internal/pubsub/events" {
						s.setS(ghReq, nn.Obj().Name())
						s.setG(ghReqObj, a.args[0])
						s.setG("state", tNil)
						if ev.decoded != nil {
							ev.decoded(e, s, nn.Obj().Name(), a.args[0])
						}
					}
				}
			}
		}
	}
	h.Lock = func(e *Engine, s *State, l *Term, op string, in ssa.Instruction) {
		if o := m.sessOf(l); o != nil {
			switch op {
			case "once.first":
				m.win(s, o)
			case "once.again":
				m.lose(s, o)
			}
		}
	}
	h.Store = func(e *Engine, s *State, a, v *Term, in ssa.Instruction) {
		// a flag set under a lock
		if v == tTrue && a.isOp("field") && isBoolT(deref(a.typ)) && len(s.locks) > 0 {
			if o := m.sessOf(a); o != nil && s.isShared(rootOf(o)) {
				if cur := s.load(a, deref(a.typ)); s.decide(cur) == -1 {
					m.win(s, o)
				}
			}
		}
	}
	h.Branch = func(e *Engine, s *State, c *Term, taken bool, in ssa.Instruction) {
		if taken && c.isOp("init") && len(s.locks) > 0 {
			if o := m.sessOf(c.args[0]); o != nil && s.isShared(rootOf(o)) {
				m.lose(s, o)
			}
		}
	}
	h.Map = func(e *Engine, s *State, op string, mp, k, v *Term, in ssa.Instruction) {
		m.registry(e, s, ev, op, mp, k, v, in)
	}
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if ev.exit != nil {
			ev.exit(e, s, kind, res)
		}
	}
	return h
}

func (ev *srvEvents) do(e *Engine, s *State, what string, ci *CallInfo) {
	if ev.effect != nil {
		ev.effect(e, s, what, ci)
	}
}

func rsHas(sig *types.Signature, t types.Type) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if types.Identical(sig.Results().At(i).Type(), t) {
			return true
		}
	}
	return false
}

func clampI(i int64) int64 {
	if i > 5 {
		return 5
	}
	if i < -5 {
		return -5
	}
	return i
}

// recorderField is the field of a session that is its recorder.
func (m *srvModel) recorderField() int {
	st := m.sess.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), m.recIface) {
			return i
		}
	}
	return -1
}

func (m *srvModel) recClosed(s *State, x *Term, field int) bool {
	r := m.sessField(s, x, field)
	for _, k := range s.set("closed") {
		if k == r || s.decideEq(k, r) == 1 {
			return true
		}
	}
	return false
}

func (m *srvModel) win(s *State, o *Term) {
	s.note("the session %s is ended here", o)
	if s.inSet("won", o) {
		s.addSet("wontwice", o)
	}
	s.addSet("won", o)
	s.addSet("tried", o)
}
func (m *srvModel) lose(s *State, o *Term) {
	s.note("the session %s was already ended", o)
	s.addSet("lost", o)
	s.addSet("tried", o)
}

func (m *srvModel) recorderCall(e *Engine, s *State, ev *srvEvents, meth string, ci *CallInfo) ([]Outcome, bool) {
	switch meth {
	case "Close":
		ev.do(e, s, "closes a recorder", ci)
		s.addSet("closed", ci.arg(0))
		return nil, false
	case "GetFilePath":
		return []Outcome{{res: mkOpRef("filepath", ci.sig.Results().At(0).Type(), nil, 0, ci.arg(0))}}, true
	}
	return nil, false
}

func (m *srvModel) transportCall(e *Engine, s *State, ev *srvEvents, meth string, ci *CallInfo) ([]Outcome, bool) {
	recv := ci.arg(0)
	switch {
	case meth == "Close":
		ev.do(e, s, "closes a transport", ci)
		s.addSet("tclosed", recv)
		return nil, false
	case meth == "Init" || lastIsErr(ci.sig):
		ev.do(e, s, "uses a transport ("+meth+")", ci)
		if ev.given != nil {
			ev.given(e, s, ci)
		}
		if meth == "Init" {
			s.addSet("opened", recv)
		}
		outs := okOrErr(e, ci, shortName(ci.name), func(s *State, r *Term) bool {
			if meth == "Init" {
				s.addSet("inited", recv)
				if r.isOp("tuple") {
					s.setG("answer", r.args[0])
				} else {
					s.setG("answer", tNil)
				}
			}
			return true
		}, func(s *State) bool { s.setB("failed", true); return true })
		if mayPanic(m.p, ci.callee.fn, map[*ssa.Function]bool{}) {
			outs = append(outs, Outcome{panic: fresh("panic", nil), note: shortName(ci.name) + " panics", eff: func(s *State) bool { s.setB("failed", true); return true }})
		}
		// callbacks given to it
		for _, a := range ci.args[1:] {
			e.findFuncs(s, ci, a, 0)
		}
		return outs, true
	}
	if ev.given != nil {
		ev.given(e, s, ci)
	}
	return nil, false
}

func (m *srvModel) published(e *Engine, s *State, ev *srvEvents, ci *CallInfo) {
	v, t := payload(ci.arg(2))
	if v == nil {
		if ev.undecided != nil {
			ev.undecided(e, s, "what is published", ci)
		}
		return
	}
	idt, _ := wireField(s, v, t, "id")
	id := constStr(idt)
	if id == "" {
		if ev.undecided != nil {
			ev.undecided(e, s, "the kind of message that is published", ci)
		}
		return
	}
	m.c.inc("published " + id)
	if ev.publish != nil {
		ev.publish(e, s, id, v, t, ci)
	}
}

// registry: the active sessions, kept in a sync.Map or a map.
func (m *srvModel) registry(e *Engine, s *State, ev *srvEvents, op string, mp, k, v *Term, in ssa.Instruction) {
	sync := strings.HasPrefix(op, "sync")
	var ci *CallInfo
	if c, ok := in.(ssa.CallInstruction); ok {
		ci = &CallInfo{site: c}
	}
	if !sync {
		// a plain map of sessions
		mt, ok := deref(mp.typ).Underlying().(*types.Map)
		if !ok {
			if mt, ok = mp.typ.Underlying().(*types.Map); !ok {
				return
			}
		}
		if !m.isSess(deref(mt.Elem())) {
			return
		}
	}
	var x *Term
	if v != nil {
		x = m.sessOf(v)
	}
	k = unwrapIface(k)
	switch op {
	case "sync:stored", "update":
		if x == nil {
			return
		}
		m.nStored++
		m.c.inc("sessions registered")
		if ev.effect != nil {
			ev.effect(e, s, "registers a session", ci)
		}
		st := m.sess.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if m.idCand[f] && m.sessField(s, x, i) != k && s.decideEq(m.sessField(s, x, i), k) != 1 {
				delete(m.idCand, f)
			}
		}
		n := 0
		for _, i := range m.transFields {
			if s.decideEq(m.sessField(s, x, i), tNil) != 1 {
				n++
			}
		}
		if n > 1 {
			m.several = true
		}
		s.setG("reg", k)
		s.setG("regsess", x)
		s.setB("stored", true)
	case "sync:hit", "lookuphit", "sync:range":
		if x == nil {
			return
		}
		if op == "sync:range" {
			s.addSet("ranged", x)
		} else {
			s.setG("hitkey", k)
			s.addSet("hit", x)
		}
		m.assumeSess(s, x, k)
	case "sync:miss", "lookupmiss":
		s.addSet("miss", k)
	case "sync:deleted", "delete":
		if ev.effect != nil {
			ev.effect(e, s, "removes a session", ci)
		}
		if ev.removed != nil {
			ev.removed(e, s, x, k, in)
		}
		if x != nil && v != nil && op == "sync:deleted" && ci != nil && strings.HasSuffix(calleeName(ci.site), "LoadAndDelete") {
			m.assumeSess(s, x, k)
			m.win(s, x)
		}
		s.addSet("deleted", k)
		if r := s.g("reg"); !r.isNil() && s.decideEq(r, k) == 1 {
			delete(s.ghost, "reg")
		}
	case "sync:notdeleted":
		// only if another one with the same id replaced it
		s.addSet("deleted", k)
		if r := s.g("reg"); !r.isNil() && s.decideEq(r, k) == 1 {
			delete(s.ghost, "reg")
		}
	}
}

func calleeName(c ssa.CallInstruction) string {
	if f := c.Common().StaticCallee(); f != nil {
		return fullName(f)
	}
	return ""
}

// assumeSess: what is known of every session in the registry.
func (m *srvModel) assumeSess(s *State, x, k *Term) {
	st := m.sess.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == m.idField {
			s.heap[fieldAddr(x, st, i)] = k
		}
	}
	rec := m.sessField(s, x, m.recField)
	s.facts[mkEq(rec, tNil)] = false
}

func constFloat(t *Term) (int64, bool) {
	if t != nil && t.k == KConst {
		if i, ok := t.int64(); ok {
			return i, true
		}
		f := t.c.String()
		if f == "1" {
			return 1, true
		}
	}
	return 0, false
}

func reflectTag(tag, key string) string {
	for tag != "" {
		i := 0
		for i < len(tag) && tag[i] == ' ' {
			i++
		}
		tag = tag[i:]
		i = strings.Index(tag, ":\"")
		if i < 0 {
			return ""
		}
		name := tag[:i]
		tag = tag[i+2:]
		j := strings.IndexByte(tag, '"')
		if j < 0 {
			return ""
		}
		if name == key {
			return tag[:j]
		}
		tag = tag[j+1:]
	}
	return ""
}
