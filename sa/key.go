package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- liveness ----

type liveInfo struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	after map[ssa.Instruction]map[ssa.Value]bool
	order map[ssa.Value]int
}

var liveCache = map[*ssa.Function]*liveInfo{}

func liveness(f *ssa.Function) *liveInfo {
	if l, ok := liveCache[f]; ok {
		return l
	}
	l := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}, order: map[ssa.Value]int{}}
	liveCache[f] = l
	for _, p := range f.Params {
		l.order[p] = len(l.order)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				l.order[v] = len(l.order)
			}
		}
		l.in[b] = map[ssa.Value]bool{}
	}
	local := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		_, ok := l.order[v]
		return ok
	}
	var ops []*ssa.Value
	transfer := func(b *ssa.BasicBlock, record bool) map[ssa.Value]bool {
		live := map[ssa.Value]bool{}
		succs := b.Succs
		for _, s := range succs {
			for v := range l.in[s] {
				live[v] = true
			}
			for pi, p := range s.Preds {
				if p != b {
					continue
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if v := phi.Edges[pi]; local(v) {
						live[v] = true
					}
				}
			}
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if record {
				c := make(map[ssa.Value]bool, len(live))
				for v := range live {
					c[v] = true
				}
				l.after[in] = c
			}
			if v, ok := in.(ssa.Value); ok {
				delete(live, v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil && local(*o) {
					live[*o] = true
				}
			}
		}
		return live
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			n := transfer(b, false)
			// phis of this block are defined at its entry
			if len(n) != len(l.in[b]) {
				l.in[b] = n
				ch = true
			}
		}
	}
	for _, b := range f.Blocks {
		transfer(b, true)
	}
	// named results are read by the recover block
	if f.Recover != nil {
		for v := range l.in[f.Recover] {
			for b := range l.in {
				l.in[b][v] = true
			}
			for i := range l.after {
				l.after[i][v] = true
			}
		}
	}
	return l
}

// ---- canonical form of a state ----

type canon struct {
	s     *State
	names map[*Term]string // objects, symbols, epochs
	memo  map[*Term]string
	roots []*Term
}

func (c *canon) term(t *Term) string {
	if t == nil {
		return "_"
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	var r string
	switch t.k {
	case KObj:
		r = "o" + strconv.Itoa(len(c.names))
		c.names[t] = r
		c.roots = append(c.roots, t)
		r += ":" + strconv.Itoa(refID(t.ref))
		if c.s.shared[t] {
			r += "s"
		}
		if c.s.snap[t] {
			r += "t"
		}
	case KSym:
		r = "s" + strconv.Itoa(len(c.names))
		c.names[t] = r
		c.roots = append(c.roots, t)
		r += ":" + t.op
	case KConst, KNil, KFunc, KGlobal, KZero:
		r = "c" + strconv.Itoa(t.id)
		if t.k == KGlobal {
			if _, ok := c.names[t]; !ok {
				c.names[t] = r
				c.roots = append(c.roots, t)
			}
		}
	default:
		var b strings.Builder
		b.WriteString(t.op)
		if t.ref != nil {
			b.WriteByte('#')
			b.WriteString(strconv.Itoa(refID(t.ref)))
		}
		if t.op != "init" && t.n != 0 {
			b.WriteByte('.')
			b.WriteString(strconv.Itoa(t.n))
		}
		b.WriteByte('(')
		for _, a := range t.args {
			b.WriteString(c.term(a))
			b.WriteByte(',')
		}
		b.WriteByte(')')
		r = b.String()
		if t.op == "init" {
			if t.n != 0 && c.s.epochOf(t.args[0]) != t.n {
				r += "@" + strconv.Itoa(len(c.names))
			} else if t.n != 0 {
				r += "@" // what it would be read as now
			}
			c.names[t] = r
			c.roots = append(c.roots, t)
		}
	}
	if len(r) > 80 {
		// keep it short: number it
		h := sha256.Sum256([]byte(r))
		r = fmt.Sprintf("h%x", h[:8])
	}
	c.memo[t] = r
	return r
}

// known tells whether all objects and symbols in a term have been named.
func (c *canon) known(t *Term) bool {
	switch t.k {
	case KObj, KSym:
		_, ok := c.names[t]
		return ok
	case KOp:
		if t.op == "init" && t.n != 0 {
			if _, ok := c.names[t]; ok {
				return true
			}
			return c.s.epochOf(t.args[0]) == t.n && c.known(t.args[0]) && !c.s.overwritten(t.args[0])
		}
		if t.op == "init" {
			if _, ok := c.names[t]; ok {
				return true
			}
			if c.s.overwritten(t.args[0]) {
				return false
			}
		}
		for _, a := range t.args {
			if !c.known(a) {
				return false
			}
		}
	}
	return true
}

// overwritten: the value the address had at first can't be read anymore.
func (s *State) overwritten(a *Term) bool {
	for p := a; p != nil; p = parentAddr(p) {
		if _, ok := s.heap[p]; ok {
			return true
		}
	}
	return false
}

// canonical returns a string that is the same for states that are equal up to
// the names of objects and symbols, after dropping what can't matter anymore.
func (s *State) canonical() string {
	c := &canon{s: s, names: map[*Term]string{}, memo: map[*Term]string{}}
	var b strings.Builder
	w := func(x string) { b.WriteString(x); b.WriteByte(' ') }
	for fi, f := range s.stack {
		lv := liveness(f.fn)
		top := fi == len(s.stack)-1
		var live map[ssa.Value]bool
		if top && f.idx == 0 {
			live = map[ssa.Value]bool{}
			for v := range lv.in[f.block] {
				live[v] = true
			}
			for _, in := range f.block.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					live[phi] = true
				} else {
					break
				}
			}
		} else if f.idx > 0 {
			// callers: the instruction before idx is in progress
			live = lv.after[f.block.Instrs[f.idx-1]]
			if !top && f.idx <= len(f.block.Instrs) {
				// operands of an instruction that will be run again (RunDefers)
				live = lv.after[f.block.Instrs[f.idx-1]]
			}
		} else {
			live = lv.in[f.block]
		}
		w("F" + strconv.Itoa(refID(f.fn)) + "b" + strconv.Itoa(f.block.Index) + "i" + strconv.Itoa(f.idx))
		if f.deferred {
			w("d")
		}
		if f.panicking {
			w("p")
			if f.recovered {
				w("r")
			}
			w(c.term(f.panicVal))
		}
		type rv struct {
			n int
			v ssa.Value
		}
		var rs []rv
		for v := range f.regs {
			if live[v] {
				rs = append(rs, rv{lv.order[v], v})
			} else {
				delete(f.regs, v)
			}
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].n < rs[j].n })
		for _, r := range rs {
			w(strconv.Itoa(r.n) + "=" + c.term(f.regs[r.v]))
		}
		for _, t := range f.free {
			w(c.term(t))
		}
		for _, d := range f.defers {
			w("D" + strconv.Itoa(refID(d.site)))
			if d.call.clo != nil {
				w(c.term(d.call.clo))
			}
			for _, a := range d.args {
				w(c.term(a))
			}
		}
	}
	var gk []string
	for k := range s.ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		if k[0] == '~' {
			// only while something else refers to it
			continue
		}
		w(k + ":" + c.term(s.ghost[k]))
	}
	// memory reachable from there
	byRoot := map[*Term][]*Term{}
	for a := range s.heap {
		byRoot[rootOf(a)] = append(byRoot[rootOf(a)], a)
	}
	var globals []*Term
	for r := range byRoot {
		if r.k == KGlobal {
			globals = append(globals, r)
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i].id < globals[j].id })
	for _, r := range globals {
		c.term(r)
	}
	var heapLines []string
	for i := 0; i < len(c.roots); i++ {
		cells := byRoot[c.roots[i]]
		if len(cells) == 0 {
			continue
		}
		type ce struct {
			k string
			a *Term
		}
		var cs []ce
		for _, a := range cells {
			if c.knownAddr(a) {
				cs = append(cs, ce{c.term(a), a})
			} else {
				s.havocUnknown(a)
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].k < cs[j].k })
		for _, x := range cs {
			heapLines = append(heapLines, x.k+"="+c.term(s.heap[x.a]))
		}
	}
	for _, l := range heapLines {
		w(l)
	}
	// drop what's unreachable
	for r, cells := range byRoot {
		if _, ok := c.names[r]; !ok {
			for _, a := range cells {
				delete(s.heap, a)
			}
		}
	}
	var ls []string
	for l, n := range s.locks {
		ls = append(ls, "L"+c.term(l)+strconv.Itoa(n))
	}
	sort.Strings(ls)
	for _, l := range ls {
		w(l)
	}
	for _, k := range gk {
		// only while something else refers to it
		if k[0] == '~' {
			if c.known(s.ghost[k]) {
				w(k + ":" + c.term(s.ghost[k]))
			} else {
				delete(s.ghost, k)
			}
		}
	}
	var fs []string
	for f, v := range s.facts {
		if !c.known(f) {
			delete(s.facts, f)
			continue
		}
		if v {
			fs = append(fs, c.term(f))
		} else {
			fs = append(fs, "!"+c.term(f))
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		w(f)
	}
	var es []string
	for a := range s.epochs {
		if c.known(a) {
			es = append(es, "E"+c.term(a))
		} else {
			delete(s.epochs, a)
		}
	}
	sort.Strings(es)
	for _, e := range es {
		w(e)
	}
	for o := range s.shared {
		if _, ok := c.names[o]; !ok {
			delete(s.shared, o)
			delete(s.snap, o)
		}
	}
	if dumpFn != "" {
		lastCanon = b.String()
	}
	h := sha256.Sum256([]byte(b.String()))
	return string(h[:])
}

// knownAddr: the address can still be named.
func (c *canon) knownAddr(a *Term) bool {
	for a.k == KOp {
		switch a.op {
		case "field":
			a = a.args[0]
			continue
		case "index", "mapcell":
			if !c.known(a.args[1]) {
				return false
			}
			a = a.args[0]
			continue
		case "slice":
			a = a.args[0]
			continue
		}
		break
	}
	return true
}

// havocUnknown forgets a cell nobody can address anymore; other addresses of
// the same collection may be the same one.
func (s *State) havocUnknown(a *Term) {
	delete(s.heap, a)
	for p := a; p != nil && p.k == KOp; p = p.args[0] {
		if p.op == "index" || p.op == "mapcell" {
			if s.epochs[p.args[0]] == 0 {
				freshCount++
				s.epochs[p.args[0]] = freshCount
			}
		}
		if p.op != "field" && p.op != "index" && p.op != "mapcell" {
			break
		}
	}
}

var _ = types.Typ
