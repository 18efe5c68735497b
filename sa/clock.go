package main

import (
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C38: the media time of a track follows the RTP clock.

func init() { checks["C38"] = checkClock }

// num is a number of a Go type, as far as arithmetic on constants needs it.
type num struct {
	f     float64
	i     int64
	u     uint64
	float bool
}

func toType(n num, t types.Type) (num, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n, false
	}
	if b.Info()&types.IsFloat != 0 {
		x := n.f
		if !n.float {
			x = float64(n.i)
			if n.u != 0 && n.i < 0 {
				x = float64(n.u)
			}
		}
		if b.Kind() == types.Float32 {
			x = float64(float32(x))
		}
		return num{f: x, float: true}, true
	}
	if b.Info()&types.IsInteger == 0 {
		return n, false
	}
	i := n.i
	if n.float {
		if math.Abs(n.f) > 9e18 {
			return n, false
		}
		i = int64(n.f)
	}
	switch b.Kind() {
	case types.Int8:
		i = int64(int8(i))
	case types.Int16:
		i = int64(int16(i))
	case types.Int32:
		i = int64(int32(i))
	case types.Uint8:
		i = int64(uint8(i))
	case types.Uint16:
		i = int64(uint16(i))
	case types.Uint32:
		i = int64(uint32(i))
	case types.Uint64, types.Uint, types.Uintptr:
		return num{i: i, u: uint64(i)}, true
	}
	return num{i: i}, true
}

// evalWith folds a term of which one subterm is given a value.
func evalWith(t, x *Term, v num) (num, bool) {
	if t == x {
		return v, true
	}
	if t.k == KConst {
		switch t.c.Kind() {
		case constant.Int:
			if i, ok := constant.Int64Val(t.c); ok {
				return toType(num{i: i}, t.typ)
			}
		case constant.Float:
			f, _ := constant.Float64Val(t.c)
			return toType(num{f: f, float: true}, t.typ)
		}
		return v, false
	}
	if t.typ == nil {
		return v, false
	}
	switch {
	case t.isOp("conv"):
		a, ok := evalWith(t.args[0], x, v)
		if !ok {
			return v, false
		}
		return toType(a, t.typ)
	case callTo(t, "time.Duration.Truncate", "time.Duration.Round") && len(t.args) == 2:
		a, ok := evalWith(t.args[0], x, v)
		b, ok2 := evalWith(t.args[1], x, v)
		if !ok || !ok2 || b.i > 1_000_000 {
			return v, false
		}
		return a, true // up to a millisecond
	case callTo(t, "math.Round", "math.Floor", "math.Trunc", "math.Ceil") && len(t.args) == 1:
		a, ok := evalWith(t.args[0], x, v)
		if !ok || !a.float {
			return v, false
		}
		return num{f: math.Round(a.f), float: true}, true
	}
	if t.k != KOp || len(t.args) != 2 {
		return v, false
	}
	a, ok := evalWith(t.args[0], x, v)
	b, ok2 := evalWith(t.args[1], x, v)
	if !ok || !ok2 || a.float != b.float {
		return v, false
	}
	var r num
	switch t.op {
	case "+":
		r = num{f: a.f + b.f, i: a.i + b.i, float: a.float}
	case "-":
		r = num{f: a.f - b.f, i: a.i - b.i, float: a.float}
	case "*":
		r = num{f: a.f * b.f, i: a.i * b.i, float: a.float}
		if !a.float && b.i != 0 && r.i/b.i != a.i {
			return v, false // overflows
		}
	case "/":
		if a.float {
			r = num{f: a.f / b.f, float: true}
		} else if b.i == 0 {
			return v, false
		} else {
			r = num{i: a.i / b.i}
		}
	default:
		return v, false
	}
	return toType(r, t.typ)
}

// addends of a sum.
func addends(t *Term) []*Term {
	if t.isOp("+") {
		return append(addends(t.args[0]), addends(t.args[1])...)
	}
	return []*Term{t}
}

func rtpTimestamp(t *Term) bool {
	if !t.isOp("init") || !t.args[0].isOp("field") {
		return false
	}
	v := t.args[0].ref.(*types.Var)
	return v.Name() == "Timestamp" && v.Pkg() != nil && strings.HasSuffix(v.Pkg().Path(), "pion/rtp")
}

// sampleField: t is the named field of a sample of the samplebuilder; the sample it is of.
func sampleField(t *Term, name string) *Term {
	if !t.isOp("init") || !t.args[0].isOp("field") || t.args[0].ref.(*types.Var).Name() != name {
		return nil
	}
	o := t.args[0].args[0]
	if n := namedOf(o.typ); n == nil || n.Obj().Name() != "Sample" {
		return nil
	}
	return o
}

func checkClock(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "at each write of a block the track's media time has grown by either the duration of the very sample written, or by the difference between the RTP timestamp of the packet at hand and a kept one, converted at 90 kHz; the kept one is replaced by the packet's exactly when the time grows - and else only once, at the beginning; the samplebuilders are made with the clock rate of their codec"
	for _, o := range []string{"VideoTimestamp", "AudioTimestamp"} {
		c.need(hasMethod(m.iface, o), o, "method %s not found in the Recorder interface", o)
	}
	m.needs("ts", "noivf", "clock")
	kept := map[types.Object]bool{} // fields a timestamp is kept in
	writes, diffs, samples, rebased, zeros := 0, 0, 0, 0, 0
	const rate = 90000
	ev := &recEvents{
		enter: func(e *Engine, s *State) {
			for k := range s.ghost {
				if strings.HasPrefix(k, "ck:") {
					delete(s.ghost, k)
				}
			}
			for _, f := range m.fields(s) {
				if kept[f.v] || f.v == m.lastTs["audio"] || f.v == m.lastTs["video"] {
					s.setG("ck:was:"+f.name, s.load(f.addr, f.typ))
				}
			}
		},
		store: func(e *Engine, s *State, f *recField, val *Term, in ssa.Instruction) {
			if inCtor(s) {
				return
			}
			for role, v := range m.lastTs {
				if v != f.v {
					continue
				}
				old := s.load(f.addr, f.typ)
				if s.gBool("ck:adv:" + role) {
					// one sample or frame after the other
					delete(s.ghost, "ck:diff:"+role)
					delete(s.ghost, "ck:sample:"+role)
				}
				s.setB("ck:adv:"+role, true)
				if val == old {
					// no time has passed if the packet has the timestamp kept
					none := false
					for _, x := range m.fields(s) {
						none = none || kept[x.v] && rtpTimestamp(s.load(x.addr, x.typ))
					}
					if none {
						s.setB("ck:zero:"+role, true)
						continue
					}
				}
				inc := addends(val)
				for _, a := range addends(old) {
					for i := range inc {
						if inc[i] == a {
							inc = append(inc[:i:i], inc[i+1:]...)
							break
						}
					}
				}
				if len(inc) != 1 || len(addends(val)) != len(addends(old))+1 {
					e.report(s, "clock", m.where(s)+"|"+role+"|step", in, "the %s time does not grow by the time that passed since the block before: it becomes %s", role, val)
					continue
				}
				if smp := sampleField(inc[0], "Duration"); smp != nil {
					s.setG("ck:sample:"+role, smp)
					continue
				}
				d := inc[0].find(func(t *Term) bool {
					return t.isOp("-") && rtpTimestamp(t.args[0]) && t.args[1].typ != nil && isInteger(t.args[1].typ)
				})
				if d == nil {
					e.report(s, "clock", m.where(s)+"|"+role+"|step", in, "the %s time grows by %s, which is neither the duration of a sample nor a difference of RTP timestamps", role, inc[0])
					continue
				}
				var kf *recField
				for _, x := range m.fields(s) {
					if isInteger(x.typ) && !m.opaque(x.v) && (s.g("ck:was:"+x.name) == d.args[1] || s.load(x.addr, x.typ) == d.args[1]) {
						kf = x
					}
				}
				if kf == nil {
					e.report(s, "clock", m.where(s)+"|"+role+"|since", in, "the %s time grows by the time since %s, which is no RTP timestamp kept by the recorder", role, d.args[1])
					continue
				}
				if !kept[kf.v] {
					kept[kf.v] = true
					m.gen++
				}
				for _, n := range []int64{1, 90, 3000, 3003, rate, 5 * rate, 1 << 31, 3_000_000_019, 1<<32 - 1} {
					r, ok := evalWith(inc[0], d, num{i: n})
					want := float64(n) * 1e9 / rate
					if !ok || math.Abs(float64(r.i)-want) > 1e6 {
						e.report(s, "clock", m.where(s)+"|"+role+"|rate", in, "a difference of %d between RTP timestamps makes the %s time grow by %d ns (%s) instead of %.0f", n, role, r.i, inc[0], want)
						break
					}
				}
				s.setG("ck:diff:"+role, d)
			}
			if kept[f.v] && val != s.load(f.addr, f.typ) {
				if !rtpTimestamp(val) {
					e.report(s, "clock", m.where(s)+"|kept", in, "the timestamp kept becomes %s, which is not that of the packet", val)
				}
				s.setG("ck:kept", val)
			}
		},
		write: func(e *Engine, s *State, role string, f types.Object, ci *CallInfo) {
			if role == "" {
				return // C20
			}
			writes++
			if !s.gBool("ck:adv:" + role) {
				// nothing has passed, e.g. at the first block of a frame
				e.report(s, "clock", m.where(s)+"|"+role+"|still", ci.site, "a block of %s is written without its time having been advanced", role)
				return
			}
			if smp := s.g("ck:sample:" + role); !smp.isNil() {
				samples++
				if d := sampleField(ci.arg(3), "Data"); d != smp {
					e.report(s, "clock", m.where(s)+"|"+role+"|sample", ci.site, "what is written, %s, is not the sample whose duration the %s time grew by", ci.arg(3), role)
				}
				delete(s.ghost, "ck:sample:"+role)
				delete(s.ghost, "ck:adv:"+role)
				return
			}
			if d := s.g("ck:diff:" + role); !d.isNil() || s.gBool("ck:zero:"+role) {
				if !d.isNil() {
					diffs++
				}
				for _, w := range m.fields(s) {
					if m.roles[w.v] != role || !isBlockWriter(w.typ) {
						continue
					}
					if d.isNil() {
						zeros++
					} else if s.decideEq(m.entry(s, w), tNil) == 1 {
						e.report(s, "clock", m.where(s)+"|"+role+"|first", ci.site, "the first block of %s is not written at time zero but %s later", role, d)
					}
				}
				s.setG("ck:wrote", d)
			}
		},
		leave: func(e *Engine, s *State) {
			if inCtor(s) || s.top() != nil && s.top().panicking {
				return
			}
			for role := range m.lastTs {
				if s.g("ck:sample:" + role).isNil() {
					continue
				}
				for _, w := range m.fields(s) {
					if m.roles[w.v] == role && isBlockWriter(w.typ) && s.decideEq(s.load(w.addr, w.typ), tNil) == 1 {
						e.report(s, "clock", m.where(s)+"|"+role+"|before", nil, "the time of %s grows although its track has not begun", role)
					}
				}
			}
			d, k := s.g("ck:wrote"), s.g("ck:kept")
			switch {
			case !d.isNil():
				ok := false
				for _, f := range m.fields(s) {
					if kept[f.v] && s.load(f.addr, f.typ) == d.args[0] {
						ok = true
					}
				}
				if !ok {
					e.report(s, "clock", m.where(s)+"|forgotten", nil, "the timestamp of the frame written is not kept: the time up to it would be counted again for the next frame")
				}
			case !k.isNil():
				rebased++
				if !m.firstTime(s) {
					e.report(s, "clock", m.where(s)+"|rebased", nil, "the timestamp kept changes without the media time advancing, more than once per recording: time passes that is not counted, and the tracks lose step")
				}
			}
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {
			role := map[string]string{"VideoTimestamp": "video", "AudioTimestamp": "audio"}[m.rootMeth(s)]
			if kind != "return" || inCtor(s) || role == "" {
				return
			}
			for _, f := range m.fields(s) {
				if m.entry(s, f) == res && res.isOp("init") && m.lastTs[role] != f.v {
					m.lastTs[role] = f.v
					m.gen++
				}
			}
		},
	}
	m.run(ev)
	c.count["writes"], c.count["steps by timestamp"], c.count["steps by sample"], c.count["first timestamps"], c.count["steps of none"] = writes, diffs, samples, rebased, zeros
	c.need(writes >= 2 && diffs > 0 && samples > 0, "instances", "%d writes, %d steps by timestamp and %d by sample found", writes, diffs, samples)

	// the clock rates of the samplebuilders
	n := 0
	for _, fn := range m.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok || cl.Common().StaticCallee() == nil || !strings.HasSuffix(fullName(cl.Common().StaticCallee()), "samplebuilder.New") || len(cl.Common().Args) < 3 {
					continue
				}
				n++
				want := map[string]int64{"OpusPacket": 48000, "VP8Packet": rate}
				a := cl.Common().Args[1]
				for {
					if x, ok := a.(*ssa.MakeInterface); ok {
						a = x.X
					} else if x, ok := a.(*ssa.ChangeInterface); ok {
						a = x.X
					} else {
						break
					}
				}
				k, isK := cl.Common().Args[2].(*ssa.Const)
				nm := namedOf(a.Type())
				switch {
				case nm == nil || want[nm.Obj().Name()] == 0:
					c.fail("rate", "codec", "%s: samples of unknown codec %s", m.p.pos(in.Pos()), a.Type())
				case !isK || k.Int64() != want[nm.Obj().Name()]:
					c.fail("rate", nm.Obj().Name(), "%s: the samples of %s are timed at %s Hz instead of %d", m.p.pos(in.Pos()), nm.Obj().Name(), cl.Common().Args[2], want[nm.Obj().Name()])
				}
			}
		}
	}
	c.count["samplebuilders"] = n
	c.need(n >= 2, "samplebuilders", "only %d samplebuilders found", n)
}

// firstTime: what happens on this path happens once per recording.
func (m *recModel) firstTime(s *State) bool {
	for _, f := range m.fields(s) {
		if isBoolT(f.typ) && !m.notMono[f.v] && s.decide(m.entry(s, f)) == -1 && s.decide(s.load(f.addr, f.typ)) == 1 {
			return true
		}
		if isBlockWriter(f.typ) && m.lastTs["video"] != nil && m.roles[f.v] == "video" && s.decideEq(m.entry(s, f), tNil) == 1 {
			return true
		}
	}
	return false
}
