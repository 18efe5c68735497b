package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Units of time: durations are nanoseconds wherever they are kept or handed
// on, RTP timestamps are ticks of the track's clock, and what's published is
// milliseconds (C09).

// monomial is a product of a constant, unknown values and their inverses.
type monomial struct {
	c        *big.Rat
	num, den []*Term
	min      *big.Rat // the smallest scale an integer went through on the way
	div      *big.Rat // and at which integers were divided by something unknown
	ok       bool
}

func ratOf(t *Term) *big.Rat {
	if t.k != KConst {
		return nil
	}
	r := new(big.Rat)
	if _, ok := r.SetString(t.c.ExactString()); ok {
		return r
	}
	return nil
}

func isFloatT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func monomialOf(t *Term) *monomial {
	one := func() *big.Rat { return big.NewRat(1, 1) }
	if r := ratOf(t); r != nil {
		return &monomial{c: r, min: one(), ok: true}
	}
	low := func(m *monomial, integer bool) *monomial {
		if integer && m.c.Sign() != 0 {
			a := new(big.Rat).Abs(m.c)
			if a.Cmp(m.min) < 0 {
				m.min = a
			}
		}
		return m
	}
	scale := func(x *Term, n, d int64) *monomial {
		m := monomialOf(x)
		m.c = new(big.Rat).Mul(m.c, big.NewRat(n, d))
		return low(m, true)
	}
	switch {
	case t.isOp("conv"):
		return low(monomialOf(t.args[0]), !isFloatT(t.typ))
	case t.isOp("*"):
		a, b := monomialOf(t.args[0]), monomialOf(t.args[1])
		mn := a.min
		if b.min.Cmp(mn) < 0 {
			mn = b.min
		}
		return low(&monomial{div: a.div, c: new(big.Rat).Mul(a.c, b.c), num: append(append([]*Term(nil), a.num...), b.num...), den: append(append([]*Term(nil), a.den...), b.den...), min: mn, ok: a.ok && b.ok}, !isFloatT(t.typ))
	case t.isOp("/"):
		a, b := monomialOf(t.args[0]), monomialOf(t.args[1])
		if b.c.Sign() == 0 {
			break
		}
		mn := a.min
		dv := a.div
		if q := new(big.Rat).Abs(new(big.Rat).Quo(a.c, b.c)); !isFloatT(t.typ) && len(b.num) > 0 && (dv == nil || q.Cmp(dv) < 0) {
			dv = q
		}
		return low(&monomial{div: dv, c: new(big.Rat).Quo(a.c, b.c), num: append(append([]*Term(nil), a.num...), b.den...), den: append(append([]*Term(nil), a.den...), b.num...), min: mn, ok: a.ok && b.ok}, !isFloatT(t.typ))
	case strings.HasPrefix(t.op, "call:time.Duration."):
		switch strings.TrimPrefix(t.op, "call:time.Duration.") {
		case "Milliseconds":
			return scale(t.args[0], 1, 1_000_000)
		case "Microseconds":
			return scale(t.args[0], 1, 1_000)
		case "Nanoseconds", "Abs":
			return scale(t.args[0], 1, 1)
		case "Seconds":
			m := monomialOf(t.args[0])
			m.c = new(big.Rat).Mul(m.c, big.NewRat(1, 1_000_000_000))
			return m
		case "Truncate", "Round":
			m := monomialOf(t.args[0])
			if r := ratOf(t.args[1]); r != nil && r.Sign() > 0 {
				x := new(big.Rat).Quo(new(big.Rat).Abs(m.c), r)
				if x.Cmp(m.min) < 0 {
					m.min = x
				}
			}
			return m
		}
	}
	return &monomial{c: one(), min: one(), num: []*Term{t}, ok: true}
}

func isDuration(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Duration" && !isPtr(t)
}

// fromClock: was the value taken from the wall clock?
func fromClock(t *Term) bool {
	return t.find(func(u *Term) bool {
		return strings.HasPrefix(u.op, "call:time.") && (strings.Contains(u.op, "Since") || strings.Contains(u.op, "Sub") || strings.Contains(u.op, "Now") || strings.Contains(u.op, "Until"))
	}) != nil
}

// rtpTicks: is the value an RTP timestamp, or the difference of two?
func rtpTicks(t *Term) bool {
	return t.find(func(u *Term) bool {
		if v, ok := u.ref.(*types.Var); ok && v.Name() == "Timestamp" && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), "github.com/pion/rtp") {
			return true
		}
		return false
	}) != nil
}

func clockRate(t *Term) bool {
	return t.find(func(u *Term) bool {
		v, ok := u.ref.(*types.Var)
		return ok && v.Name() == "ClockRate"
	}) != nil
}

// thousands: is a factor some number of thousands, as in a mix-up of units?
func thousands(r *big.Rat) bool {
	x := new(big.Rat).Abs(r)
	if x.Sign() == 0 {
		return false
	}
	if x.Cmp(big.NewRat(1, 1)) < 0 {
		x.Inv(x)
	}
	return x.Cmp(big.NewRat(100, 1)) >= 0
}

const nsPerMs = 1_000_000

// inMillis says why a published time isn't a media time in whole milliseconds.
func (m *wireModel) inMillis(s *State, t *Term) string {
	mo := monomialOf(t)
	switch {
	case !mo.ok || len(mo.den) > 0 || len(mo.num) != 1:
		if len(mo.num) == 0 {
			return "a constant"
		}
		return "not a media time in milliseconds"
	case !isDuration(mo.num[0].typ):
		return "computed from a " + types.TypeString(mo.num[0].typ, shortQual) + ", not from a media time"
	case fromClock(mo.num[0]):
		return "wall clock time, not media time"
	case mo.c.Cmp(big.NewRat(1, nsPerMs)) != 0:
		return "in units of " + new(big.Rat).Inv(mo.c).RatString() + " ns"
	case mo.min.Cmp(mo.c) < 0:
		return "rounded to less than milliseconds"
	}
	x := mo.num[0]
	if x.isOp("+") || x.isOp("-") {
		return "not just a media time"
	}
	return ""
}

func (m *wireModel) millis(c *Ctx, e *Engine, ev *srvEvents) {
	c.explain = "the time of every published message as a product of a constant and one unknown: the unknown must be a media time (the result of closing the recorder, or what a transport's callback was given) and the constant one over a million; in the transports and the recorder every duration that is kept or handed on must be in nanoseconds, with RTP ticks divided by the clock rate"
	n := map[string]int{}
	e.h.Round = func() { n = map[string]int{} }
	ev.publish = func(e *Engine, s *State, id string, v *Term, t types.Type, ci *CallInfo) {
		if id != "recordingStopped" && id != "recordingRtpStatusChanged" {
			return
		}
		x, _ := wireField(s, v, t, "timestampHR")
		if x == nil {
			e.report(s, "unit", id+"|none|"+s.root.role(), ci.site, "%s is published without a timestampHR", id)
			return
		}
		n[id]++
		s.note("%s: %s is published", e.pos(ci.site), id)
		if why := m.inMillis(s, x); why != "" {
			e.report(s, "unit", id+"|"+s.root.role(), ci.site, "the timestampHR of %s, %s, is %s", id, x, why)
		}
	}
	m.explore(c, e)
	for id, k := range n {
		c.count["published "+id+" (states)"] = k
	}
	c.need(n["recordingStopped"] > 0, "recordingStopped", "no path publishes recordingStopped")
	c.need(n["recordingRtpStatusChanged"] > 0, "recordingRtpStatusChanged", "no path publishes recordingRtpStatusChanged")
}

// locKey identifies a variable or field across activities.
func locKey(a *Term) any {
	for a != nil {
		switch {
		case a.k == KObj:
			return a.ref
		case a.isOp("field"):
			return a.ref
		case a.k == KGlobal:
			return a.ref
		}
		if len(a.args) == 0 {
			return a
		}
		a = a.args[0]
	}
	return nil
}

// loadedFrom is the location an integer was read from.
func loadedFrom(t *Term) any {
	if t.isOp("init") && len(t.args) > 0 {
		return locKey(t.args[0])
	}
	if strings.HasPrefix(t.op, "atomic.Load") || (strings.Contains(t.op, "atomic") && strings.HasSuffix(t.op, ".Load")) {
		if len(t.args) > 0 {
			return locKey(t.args[0])
		}
	}
	return nil
}

// mediaTimes checks the durations of the transports and of the recorder.
func (c *Ctx) mediaTimes() {
	m := newAdModel(c)
	if m == nil {
		return
	}
	for _, a := range m.adapters {
		m.units(a)
	}
	c.recorderTimes()
}

func (m *adModel) units(a *adapter) {
	c := m.c
	scale := map[any]map[string]*big.Rat{}
	flows, kept := 0, 0
	type use struct {
		loc any
		c   *big.Rat
		v   *Violation
	}
	var uses []use
	h := m.hooks()
	h.Round = func() { flows, kept, uses = 0, 0, nil }
	// check reports a duration that isn't in nanoseconds.
	check := func(e *Engine, s *State, what string, t *Term, in ssa.Instruction) {
		rep := func(f string, as ...any) {
			e.report(s, "unit", a.name()+"|"+what+"|"+shortName(in.Parent().String()), in, f, as...)
		}
		mo := monomialOf(t)
		if len(mo.num) == 0 || !mo.ok {
			return
		}
		ticks := false
		for _, x := range mo.num {
			ticks = ticks || rtpTicks(x)
		}
		if ticks {
			c.inc("RTP times converted (states)")
			if len(mo.num) != 1 {
				rep("the RTP time %s is multiplied by unknowns", t)
				return
			}
			switch len(mo.den) {
			case 1:
				if !clockRate(mo.den[0]) {
					rep("the RTP time %s is not divided by the clock rate of its track", t)
				} else if mo.c.Cmp(big.NewRat(1_000_000_000, 1)) != 0 {
					rep("the RTP time %s is converted to units of 1/%s s instead of nanoseconds", t, mo.c.RatString())
				} else if mo.min.Cmp(big.NewRat(1, 1)) < 0 || mo.div != nil && mo.div.Cmp(big.NewRat(1000, 1)) < 0 {
					rep("the RTP time %s is rounded on the way", t)
				}
			case 0:
				au, vi := m.kinds(s, func(*Term) bool { return true })
				rate := int64(0)
				if au == 1 {
					rate = 48000
				} else if vi == 1 {
					rate = 90000
				}
				if rate == 0 || mo.c.Cmp(big.NewRat(1_000_000_000, rate)) != 0 {
					rep("the RTP time %s is not divided by the clock rate of its track", t)
				}
			default:
				rep("the RTP time %s is divided by several unknowns", t)
			}
			return
		}
		if len(mo.num) != 1 || len(mo.den) != 0 {
			return
		}
		x := mo.num[0]
		if isDuration(x.typ) {
			if thousands(mo.c) {
				rep("the duration %s is %s times a duration", t, mo.c.RatString())
			}
			return
		}
		if l := loadedFrom(x); l != nil {
			before := len(e.viol)
			k := e.vkeys
			e.vkeys = map[string]bool{}
			rep("the duration %s is in another unit than what is kept there", t)
			e.vkeys = k
			v := e.viol[before]
			e.viol = e.viol[:before]
			uses = append(uses, use{l, mo.c, v})
		}
	}
	keep := func(addr, v *Term) {
		mo := monomialOf(v)
		if len(mo.num) != 1 || len(mo.den) != 0 || !isDuration(mo.num[0].typ) {
			return
		}
		if l := locKey(addr); l != nil {
			kept++
			if scale[l] == nil {
				scale[l] = map[string]*big.Rat{}
			}
			scale[l][mo.c.String()] = mo.c
		}
	}
	m.call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.callee.fn == nil && ci.callee.builtin == nil && ci.sig != nil && isFlowCallback(ci.sig) {
			flows++
			if fromClock(ci.arg(1)) {
				e.report(s, "clock", a.name(), ci.site, "%s is told wall clock time, not media time", ci.arg(1))
			}
			check(e, s, "flow", ci.arg(1), ci.site)
			return []Outcome{{}}, true
		}
		if strings.HasSuffix(methName(ci), "Store") && strings.HasPrefix(ci.name, "sync/atomic.") && len(ci.args) > 1 {
			keep(ci.arg(0), ci.arg(1))
		}
		if strings.HasPrefix(methName(ci), "Swap") && strings.HasPrefix(ci.name, "sync/atomic.") && len(ci.args) > 1 {
			keep(ci.arg(0), ci.arg(1))
		}
		if fn := ci.callee.fn; fn != nil && fn.Pkg != nil && c.p.isRepoPkg(fn.Pkg.Pkg) {
			for i, p := range fn.Params {
				if isDuration(p.Type()) && i < len(ci.args) {
					check(e, s, "argument", ci.arg(i), ci.site)
				}
			}
		}
		return nil, false
	}
	h.Store = func(e *Engine, s *State, addr, v *Term, in ssa.Instruction) {
		switch {
		case addr.typ == nil:
		case isDuration(deref(addr.typ)):
			check(e, s, "kept", v, in)
		case isInteger(deref(addr.typ)):
			keep(addr, v)
		}
	}
	m.run(a, h)
	m.call = nil
	seen := map[string]bool{}
	for _, u := range uses {
		for _, k := range scale[u.loc] {
			if p := new(big.Rat).Mul(k, u.c); p.Cmp(big.NewRat(1, 1)) != 0 && !seen[u.v.key] {
				seen[u.v.key] = true
				c.add(u.v)
			}
		}
	}
	c.count[a.name()+": flow reports (states)"] = flows
	c.need(flows > 0, a.name()+" flow", "%s never reports the flow of media", a.name())
}

// recorderTimes: what the recorder adds to its media times.
func (c *Ctx) recorderTimes() {
	m := c.recorder()
	if m == nil {
		return
	}
	stores, builders := 0, 0
	m.needs("ts", "noivf")
	m.run(&recEvents{
		call: func(e *Engine, s *State, ci *CallInfo) {
			if methName(ci) != "New" || !strings.HasSuffix(ci.name, "samplebuilder.New") || len(ci.args) < 3 {
				return
			}
			builders++
			want := int64(0)
			if d := ci.arg(1); d.isOp("iface") {
				switch n := namedOf(d.ref.(types.Type)); {
				case n == nil:
				case n.Obj().Name() == "OpusPacket":
					want = 48000
				case n.Obj().Name() == "VP8Packet":
					want = 90000
				}
			}
			if r, ok := ci.arg(2).int64(); want != 0 && (!ok || r != want) {
				e.report(s, "rate", itoa(int(want)), ci.site, "samples are assembled with a clock rate of %s instead of %d", ci.arg(2), want)
			}
		},
		store: func(e *Engine, s *State, f *recField, val *Term, in ssa.Instruction) {
			for role, v := range m.lastTs {
				if v != f.v || inCtor(s) {
					continue
				}
				stores++
				old := s.load(f.addr, f.typ)
				for _, d := range summands(val) {
					if d == old {
						continue
					}
					mo := monomialOf(d)
					if len(mo.num) == 0 {
						continue
					}
					rate := map[string]int64{"video": 90000, "audio": 48000}[role]
					switch {
					case len(mo.num) == 1 && len(mo.den) == 0 && isDuration(mo.num[0].typ) && mo.c.Cmp(big.NewRat(1, 1)) == 0 && !fromClock(mo.num[0]):
					case len(mo.num) == 1 && len(mo.den) == 0 && rtpTicks(mo.num[0]) && mo.c.Cmp(big.NewRat(1_000_000_000, rate)) == 0:
						if mo.min.Cmp(big.NewRat(1, 1)) < 0 {
							e.report(s, "rate", "rounded|"+role, in, "the %s time advances by %s, rounded on the way", role, d)
						}
					case m.tickField(s, mo) && mo.c.Cmp(big.NewRat(1_000_000_000, rate)) == 0:
					default:
						e.report(s, "rate", m.where(s)+"|"+role, in, "the %s time advances by %s, which isn't a media time at %d ticks per second", role, d, rate)
					}
				}
			}
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {
			if kind != "return" || inCtor(s) {
				return
			}
			role := map[string]string{"VideoTimestamp": "video", "AudioTimestamp": "audio"}[m.rootMeth(s)]
			if role == "" {
				return
			}
			for _, f := range m.fields(s) {
				if m.entry(s, f) == res && res.isOp("init") {
					if m.lastTs[role] != f.v {
						m.lastTs[role] = f.v
						m.gen++
					}
					return
				}
			}
		},
	})
	c.count["advances of a media time (states)"], c.count["sample builders (states)"] = stores, builders
	c.need(stores >= 2, "media times", "%d advances of a media time of the recorder found", stores)
}

func (m *recModel) tickField(s *State, mo *monomial) bool {
	return len(mo.num) == 1 && len(mo.den) == 0 && mo.num[0].isOp("-") && rtpTicks(mo.num[0])
}

// summands of a sum.
func summands(t *Term) []*Term {
	if t.isOp("+") {
		var out []*Term
		for _, a := range t.args {
			out = append(out, summands(a)...)
		}
		return out
	}
	return []*Term{t}
}
