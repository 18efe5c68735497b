package main

// Linear inequalities over the integers of a path: a small domain of
// polyhedra, decided by eliminating variables.

type lin struct {
	c map[*Term]int64
	k int64
}

func (l lin) add(m lin, f int64) lin {
	r := lin{c: map[*Term]int64{}, k: l.k + f*m.k}
	for t, v := range l.c {
		r.c[t] = v
	}
	for t, v := range m.c {
		if r.c[t] += f * v; r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	return r
}

func linOf(t *Term) lin {
	if v, ok := t.int64(); ok && (t.k == KConst) {
		return lin{c: map[*Term]int64{}, k: v}
	}
	if t.k == KZero && isInteger(t.typ) {
		return lin{c: map[*Term]int64{}}
	}
	switch {
	case t.isOp("+") && t.ref == nil && len(t.args) == 2:
		return linOf(t.args[0]).add(linOf(t.args[1]), 1)
	case t.isOp("-") && t.ref == nil && len(t.args) == 2:
		return linOf(t.args[0]).add(linOf(t.args[1]), -1)
	case t.isOp("-") && t.ref == nil && len(t.args) == 1:
		return lin{c: map[*Term]int64{}}.add(linOf(t.args[0]), -1)
	case t.isOp("*") && t.ref == nil && len(t.args) == 2:
		a, b := linOf(t.args[0]), linOf(t.args[1])
		if len(a.c) == 0 {
			return lin{c: map[*Term]int64{}}.add(b, a.k)
		}
		if len(b.c) == 0 {
			return lin{c: map[*Term]int64{}}.add(a, b.k)
		}
	case t.isOp("conv") && isInteger(t.typ) && t.args[0].typ != nil && isInteger(t.args[0].typ) && intBits(t.typ) >= intBits(t.args[0].typ):
		// numbers that fit both (signed and unsigned values don't overflow)
		return linOf(t.args[0])
	}
	return lin{c: map[*Term]int64{t: 1}}
}

// linFacts are the facts of the path as inequalities l >= 0.
func (s *State) linFacts() []lin {
	var out []lin
	atoms := map[*Term]bool{}
	for f, v := range s.facts {
		if f.k != KOp || len(f.args) != 2 || f.args[0].typ == nil || !isInteger(f.args[0].typ) {
			continue
		}
		a, b := linOf(f.args[0]), linOf(f.args[1])
		switch {
		case f.isOp("lt") && v: // a < b
			d := b.add(a, -1)
			d.k--
			out = append(out, d)
		case f.isOp("lt"): // b <= a
			out = append(out, a.add(b, -1))
		case f.isOp("eq") && v:
			out = append(out, a.add(b, -1), b.add(a, -1))
		}
	}
	for _, l := range out {
		for t := range l.c {
			atoms[t] = true
		}
	}
	for t := range atoms {
		lo, hi := s.bounds(t)
		if lo > -inf {
			out = append(out, lin{c: map[*Term]int64{t: 1}, k: -lo})
		}
		if hi < inf {
			out = append(out, lin{c: map[*Term]int64{t: -1}, k: hi})
		}
	}
	return out
}

// infeasible: no integers satisfy all of l >= 0.
func infeasible(ls []lin) bool {
	for round := 0; round < 40; round++ {
		count := map[*Term][2]int{}
		for _, l := range ls {
			if len(l.c) == 0 {
				if l.k < 0 {
					return true
				}
				continue
			}
			for t, v := range l.c {
				n := count[t]
				if v > 0 {
					n[0]++
				} else {
					n[1]++
				}
				count[t] = n
			}
		}
		var best *Term
		cost := 0
		for t, n := range count {
			k := n[0]*n[1] - n[0] - n[1]
			if best == nil || k < cost || (k == cost && t.id < best.id) {
				best, cost = t, k
			}
		}
		if best == nil {
			return false
		}
		var pos, neg, rest []lin
		for _, l := range ls {
			switch v := l.c[best]; {
			case v > 0:
				pos = append(pos, l)
			case v < 0:
				neg = append(neg, l)
			case len(l.c) > 0 || l.k < 0:
				rest = append(rest, l)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.c[best], -n.c[best]
				if a > 1<<20 || b > 1<<20 {
					continue
				}
				rest = append(rest, lin{c: map[*Term]int64{}}.add(p, b).add(n, a))
			}
		}
		if len(rest) > 600 {
			return false
		}
		ls = rest
	}
	return false
}

// linked keeps the inequalities connected to l.
func linked(ls []lin, l lin) []lin {
	in := map[*Term]bool{}
	for t := range l.c {
		in[t] = true
	}
	for {
		n := len(in)
		for _, x := range ls {
			hit := false
			for t := range x.c {
				hit = hit || in[t]
			}
			if hit {
				for t := range x.c {
					in[t] = true
				}
			}
		}
		if len(in) == n {
			break
		}
	}
	var out []lin
	for _, x := range ls {
		for t := range x.c {
			if in[t] {
				out = append(out, x)
				break
			}
		}
	}
	return out
}

// proveGE: a - b >= k follows from the facts of the path.
func (s *State) proveGE(a, b *Term, k int64) bool {
	l := linOf(a).add(linOf(b), -1)
	l.k -= k
	if len(l.c) == 0 {
		return l.k >= 0
	}
	neg := lin{c: map[*Term]int64{}, k: -1}.add(l, -1)
	fs := s.linFacts()
	for t := range l.c {
		lo, hi := s.bounds(t)
		if lo > -inf {
			fs = append(fs, lin{c: map[*Term]int64{t: 1}, k: -lo})
		}
		if hi < inf {
			fs = append(fs, lin{c: map[*Term]int64{t: -1}, k: hi})
		}
	}
	fs = linked(fs, l)
	return infeasible(append(fs, neg))
}

// possible: the facts of the path don't contradict each other.
func (s *State) possible() bool { return !infeasible(s.linFacts()) }
