package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// model handles library functions whose meaning matters. ok is false if there
// is no model; outs is nil if the call continues by itself.
func (e *Engine) model(s *State, ci *CallInfo, res ssa.Value) (outs []Outcome, ok bool) {
	one := func(r *Term) ([]Outcome, bool) { return []Outcome{{res: r}}, true }
	n := ci.name
	switch {
	case strings.HasPrefix(n, "github.com/sirupsen/logrus."):
		m := n[strings.LastIndex(n, ".")+1:]
		switch {
		case strings.HasPrefix(m, "Fatal"), m == "Exit":
			e.exit(s, "exit", mkInt(1), ci)
			return []Outcome{{stop: true}}, true
		case strings.HasPrefix(m, "Panic"):
			return []Outcome{{panic: fresh("logpanic", nil)}}, true
		}
		if ci.sig.Results().Len() == 1 {
			return one(intern(KSym, "nonnil", ci.sig.Results().At(0).Type(), nil, 0, nil))
		}
		return []Outcome{{res: e.freshResult(ci)}}, true
	case strings.HasPrefix(n, "log.Fatal"):
		e.exit(s, "exit", mkInt(1), ci)
		return []Outcome{{stop: true}}, true
	case n == "os.Exit":
		e.exit(s, "exit", ci.arg(0), ci)
		return []Outcome{{stop: true}}, true
	case n == "runtime.Goexit":
		e.exit(s, "goexit", tNil, ci)
		return []Outcome{{stop: true}}, true
	case n == "context.WithValue":
		return one(mkIface(ctxType, mkOp("ctxval", ctxType, ci.arg(0), ci.arg(1), ci.arg(2)), ci.sig.Results().At(0).Type()))
	case n == "context.Context.Err":
		r := fresh("ctxerr", types.Universe.Lookup("error").Type(), ci.arg(0))
		if s.inSet("ctxdone", ci.arg(0)) {
			if !s.assume(mkEq(r, tNil), false) {
				return nil, true
			}
		}
		return one(r)
	case n == "context.Context.Value" || n == "context.valueCtx.Value":
		c, k := ci.arg(0), ci.arg(1)
		for {
			if c.isOp("iface") {
				c = c.args[0]
			}
			if !c.isOp("ctxval") {
				break
			}
			if c.args[1] == k {
				return one(c.args[2])
			}
			c = c.args[0]
		}
		return one(mkOp("ctxvalue", ci.sig.Results().At(0).Type(), c, k))
	case n == "context.Background", n == "context.TODO":
		return one(intern(KSym, "nonnil", ci.sig.Results().At(0).Type(), nil, 0, nil))
	case n == "errors.New", n == "fmt.Errorf", n == "github.com/pkg/errors.New", n == "github.com/pkg/errors.Errorf":
		return one(mkIface(errType, fresh("error", nil, ci.args...), ci.sig.Results().At(0).Type()))
	case n == "github.com/AlekSi/pointer.ToString" || n == "github.com/AlekSi/pointer.To":
		o := mkObj(ci.site, ci.sig.Results().At(0).Type())
		s.heap[o] = ci.arg(0)
		return one(o)
	}
	if strings.HasPrefix(n, "sync.Mutex.") || strings.HasPrefix(n, "sync.RWMutex.") || n == "sync.Locker.Lock" || n == "sync.Locker.Unlock" {
		return e.lockModel(s, ci)
	}
	if strings.HasPrefix(n, "sync/atomic.") {
		return e.atomicModel(s, ci)
	}
	if strings.HasPrefix(n, "sync.Map.") {
		return e.syncMapModel(s, ci, res)
	}
	if strings.HasPrefix(n, "sync.Once.") || n == "sync.OnceFunc" {
		return e.onceModel(s, ci, res)
	}
	switch n {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.ContainsFunc", "slices.IndexFunc", "strings.Map", "strings.FieldsFunc", "slices.DeleteFunc":
		return e.callSync(s, ci, res)
	}
	return nil, false
}

var (
	ctxType = types.NewNamed(types.NewTypeName(0, nil, "valueCtx", nil), types.NewStruct(nil, nil), nil)
	errType = types.NewNamed(types.NewTypeName(0, nil, "errorString", nil), types.NewStruct(nil, nil), nil)
)

func (e *Engine) exit(s *State, kind string, code *Term, ci *CallInfo) {
	s.note("%s: %s", e.pos(ci.site), shortName(ci.name))
	if e.h.Exit != nil {
		e.h.Exit(e, s, kind, code)
	}
}

func (e *Engine) lockModel(s *State, ci *CallInfo) ([]Outcome, bool) {
	m := ci.arg(0)
	if m.isOp("iface") {
		m = m.args[0]
	}
	op := ci.name[strings.LastIndex(ci.name, ".")+1:]
	if e.h.Lock != nil {
		e.h.Lock(e, s, m, op, ci.site)
	}
	switch op {
	case "Lock":
		s.locks[m]++
		e.interfere(s, m)
	case "RLock":
		s.locks[m] -= 1000
		e.interfere(s, m)
	case "Unlock":
		if s.locks[m]--; s.locks[m] <= 0 {
			delete(s.locks, m)
		}
		e.interfere(s, m)
	case "RUnlock":
		if s.locks[m] += 1000; s.locks[m] >= 0 {
			delete(s.locks, m)
		}
		e.interfere(s, m)
	case "TryLock", "TryRLock":
		return []Outcome{{res: tTrue, eff: func(s *State) bool {
			if op == "TryLock" {
				s.locks[m]++
			} else {
				s.locks[m] -= 1000
			}
			e.interfere(s, m)
			return true
		}}, {res: tFalse}}, true
	}
	return []Outcome{{res: tNil}}, true
}

// interfere: other activities may have changed what is shared and guarded by m.
func (e *Engine) interfere(s *State, m *Term) {
	r := rootOf(m)
	if !s.isShared(r) {
		return
	}
	owner := parentAddr(m)
	changed := false
	for c := range s.heap {
		if c == m {
			continue
		}
		if rootOf(c) == r && (owner == nil || isUnder(c, owner)) && e.isMutableIn(c, r) {
			delete(s.heap, c)
			changed = true
		}
	}
	_ = changed
	// what is read from now on isn't what was read before
	freshCount++
	if owner != nil {
		if st := structType(owner.typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				fa := fieldAddr(owner, st, i)
				if e.isMutableIn(fa, r) {
					s.epochs[fa] = freshCount
				}
			}
			return
		}
	}
	if r.k != KObj || e.mutable[class(r)] {
		if r.k != KGlobal {
			s.epochs[r] = freshCount
		}
	}
}

func (e *Engine) isMutableIn(c, r *Term) bool {
	return e.mutable[class(c)]
}

func (e *Engine) atomicModel(s *State, ci *CallInfo) ([]Outcome, bool) {
	n := ci.name
	op := n[strings.LastIndex(n, ".")+1:]
	a := ci.arg(0)
	rest := ci.args
	if len(rest) > 0 {
		rest = rest[1:]
	}
	for _, p := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
		if strings.HasPrefix(op, p) {
			op = p
			break
		}
	}
	var t types.Type = types.Typ[types.Int64]
	if ci.sig.Results().Len() == 1 && op != "CompareAndSwap" {
		t = ci.sig.Results().At(0).Type()
	} else if ci.sig.Params().Len() > 0 {
		t = ci.sig.Params().At(ci.sig.Params().Len() - 1).Type()
	}
	cell := mkOp("atomic", types.NewPointer(t), a)
	_ = cell
	key := atomicCell(a, t)
	shared := s.isShared(rootOf(a))
	cur := func(s *State) *Term {
		if v, ok := s.heap[key]; ok {
			return v
		}
		if rootOf(a).k == KObj && s.epochOf(a) == 0 {
			return zeroOf(t)
		}
		return fresh("atomic", t, a)
	}
	if e.h.Lock != nil {
		e.h.Lock(e, s, a, "atomic."+op, ci.site)
	}
	put := func(s *State, v *Term) {
		if shared {
			if r := rootOf(a); r.k != KObj || s.snap[r] {
				e.markMutable(class(a))
			}
			s.markShared(v)
		}
		s.heap[key] = v
	}
	shd := func(s *State) bool { return shared && e.mutable[class(a)] || rootOf(a).k != KObj }
	switch op {
	case "Load":
		if shd(s) {
			return []Outcome{{res: fresh("atomic.Load", t, a)}}, true
		}
		return []Outcome{{res: cur(s)}}, true
	case "Store":
		v := rest[0]
		return []Outcome{{res: tNil, eff: func(s *State) bool { put(s, v); return true }}}, true
	case "Swap":
		v := rest[0]
		o := cur(s)
		if shd(s) {
			o = fresh("atomic.Swap", t, a)
			if isBoolT(t) {
				return []Outcome{{res: tFalse, eff: func(s *State) bool { put(s, v); return true }},
					{res: tTrue, eff: func(s *State) bool { put(s, v); return true }}}, true
			}
		}
		return []Outcome{{res: o, eff: func(s *State) bool { put(s, v); return true }}}, true
	case "Add":
		o := cur(s)
		if shd(s) {
			o = fresh("atomic.Add", t, a)
		}
		r := binopAdd(o, rest[0], t)
		return []Outcome{{res: r, eff: func(s *State) bool { put(s, r); return true }}}, true
	case "CompareAndSwap":
		old, nw := rest[0], rest[1]
		win := Outcome{res: tTrue, note: "compare-and-swap succeeds", eff: func(s *State) bool { put(s, nw); return true }}
		lose := Outcome{res: tFalse, note: "compare-and-swap fails"}
		if !shd(s) {
			switch s.decide(mkEq(cur(s), old)) {
			case 1:
				return []Outcome{win}, true
			case -1:
				return []Outcome{lose}, true
			}
		}
		return []Outcome{win, lose}, true
	}
	return []Outcome{{}}, true
}

func atomicCell(a *Term, t types.Type) *Term {
	return mkOp("mapcell", types.NewPointer(t), a, tNil)
}

// storedTypes are the dynamic types stored in the sync.Maps of the repository.
var storedTypesCache map[string][]types.Type

func (e *Engine) storedTypes() []types.Type {
	if storedTypesCache != nil {
		return storedTypesCache["*"]
	}
	storedTypesCache = map[string][]types.Type{}
	var out []types.Type
	add := func(v ssa.Value) {
		seen := map[ssa.Value]bool{}
		var rec func(v ssa.Value)
		rec = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch v := v.(type) {
			case *ssa.MakeInterface:
				for _, t := range out {
					if types.Identical(t, v.X.Type()) {
						return
					}
				}
				out = append(out, v.X.Type())
			case *ssa.Phi:
				for _, x := range v.Edges {
					rec(x)
				}
			case *ssa.ChangeInterface:
				rec(v.X)
			case *ssa.Parameter:
				// passed on by a helper: look at its callers
				for _, f := range e.p.Funcs {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == v.Parent() {
								for i, p := range v.Parent().Params {
									if p == v && i < len(c.Common().Args) {
										rec(c.Common().Args[i])
									}
								}
							}
						}
					}
				}
			}
		}
		rec(v)
	}
	for _, f := range e.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				as := c.Common().Args
				switch fullName(c.Common().StaticCallee()) {
				case "sync.Map.Store", "sync.Map.LoadOrStore", "sync.Map.Swap":
					add(as[2])
				case "sync.Map.CompareAndSwap":
					add(as[3])
				}
			}
		}
	}
	storedTypesCache["*"] = out
	return out
}

func (e *Engine) mapValue(m, k *Term, op string) []*Term {
	ts := e.storedTypes()
	var out []*Term
	for _, t := range ts {
		if namedOf(t) == nil {
			out = append(out, mkIface(t, fresh("syncmap."+op, t, m, k), nil))
			continue
		}
		v := fresh("syncmap."+op, t, m, k)
		out = append(out, mkIface(t, v, nil))
	}
	if len(out) == 0 {
		out = append(out, fresh("syncmap."+op, nil, m, k))
	}
	return out
}

func unwrapIface(k *Term) *Term {
	if k.isOp("iface") {
		return k.args[0]
	}
	return k
}

func (e *Engine) syncMapModel(s *State, ci *CallInfo, res ssa.Value) ([]Outcome, bool) {
	op := ci.name[strings.LastIndex(ci.name, ".")+1:]
	m, k := ci.arg(0), ci.arg(1)
	k = unwrapIface(k)
	if e.h.Map != nil {
		e.h.Map(e, s, "sync."+op, m, k, ci.arg(2), ci.site)
	}
	tup := func(v *Term, ok bool) *Term { return mkOp("tuple", ci.sig.Results(), v, mkBool(ok)) }
	switch op {
	case "Load":
		var outs []Outcome
		for _, v := range e.mapValue(m, k, "Load") {
			v := v
			outs = append(outs, Outcome{res: tup(v, true), note: "found in the sync.Map", eff: func(s *State) bool {
				if v.isOp("iface") {
					s.facts[mkEq(v.args[0], tNil)] = false
				}
				return e.mapRes(s, ci, "hit", m, k, v)
			}})
		}
		return append(outs, Outcome{res: tup(tNil, false), note: "not found in the sync.Map", eff: func(s *State) bool {
			return e.mapRes(s, ci, "miss", m, k, nil)
		}}), true
	case "LoadOrStore":
		v := ci.arg(2)
		s.markShared(v)
		var outs []Outcome
		for _, x := range e.mapValue(m, k, "Load") {
			x := x
			outs = append(outs, Outcome{res: tup(x, true), note: "already in the sync.Map", eff: func(s *State) bool {
				return e.mapRes(s, ci, "hit", m, k, x)
			}})
		}
		return append(outs, Outcome{res: tup(v, false), note: "stored in the sync.Map", eff: func(s *State) bool {
			return e.mapRes(s, ci, "stored", m, k, v)
		}}), true
	case "LoadAndDelete":
		var outs []Outcome
		for _, x := range e.mapValue(m, k, "Load") {
			x := x
			outs = append(outs, Outcome{res: tup(x, true), note: "taken from the sync.Map", eff: func(s *State) bool {
				return e.mapRes(s, ci, "deleted", m, k, x)
			}})
		}
		return append(outs, Outcome{res: tup(tNil, false), note: "not found in the sync.Map", eff: func(s *State) bool {
			return e.mapRes(s, ci, "miss", m, k, nil)
		}}), true
	case "Store":
		s.markShared(ci.arg(2))
		return []Outcome{{res: tNil, eff: func(s *State) bool { return e.mapRes(s, ci, "stored", m, k, ci.arg(2)) }}}, true
	case "Swap":
		s.markShared(ci.arg(2))
		var outs []Outcome
		for _, x := range e.mapValue(m, k, "Load") {
			x := x
			outs = append(outs, Outcome{res: tup(x, true), eff: func(s *State) bool { return e.mapRes(s, ci, "stored", m, k, ci.arg(2)) }})
		}
		return append(outs, Outcome{res: tup(tNil, false), eff: func(s *State) bool { return e.mapRes(s, ci, "stored", m, k, ci.arg(2)) }}), true
	case "Delete":
		return []Outcome{{res: tNil, eff: func(s *State) bool { return e.mapRes(s, ci, "deleted", m, k, nil) }}}, true
	case "CompareAndDelete":
		return []Outcome{{res: tTrue, note: "deleted from the sync.Map", eff: func(s *State) bool { return e.mapRes(s, ci, "deleted", m, k, ci.arg(2)) }},
			{res: tFalse, note: "was not in the sync.Map", eff: func(s *State) bool { return e.mapRes(s, ci, "notdeleted", m, k, ci.arg(2)) }}}, true
	case "Range":
		fn := e.calleeOf(ci.arg(1), nil)
		if fn.fn == nil {
			return []Outcome{{}}, true
		}
		e.fork(s, func(s *State) bool {
			key := fresh("rangekey", nil, m)
			v := e.mapValue(m, key, "Range")[0]
			if v.isOp("iface") {
				s.facts[mkEq(v.args[0], tNil)] = false
			}
			kv := mkIface(types.Typ[types.String], key, nil)
			s.note("%s: an entry of the sync.Map", e.pos(ci.site))
			e.mapRes(s, ci, "range", m, key, v)
			e.pushFrame(s, fn, []*Term{kv, v}, nil)
			return true
		}, func(s *State) bool {
			s.note("%s: no more entries in the sync.Map", e.pos(ci.site))
			return e.mapRes(s, ci, "rangeend", m, tNil, nil)
		})
		return nil, true
	}
	return []Outcome{{}}, true
}

// mapRes tells the client how an operation on a sync.Map ended.
func (e *Engine) mapRes(s *State, ci *CallInfo, how string, m, k, v *Term) bool {
	if e.h.Map != nil {
		e.h.Map(e, s, "sync:"+how, m, k, v, ci.site)
	}
	return true
}

func (e *Engine) onceModel(s *State, ci *CallInfo, res ssa.Value) ([]Outcome, bool) {
	if !strings.HasSuffix(ci.name, ".Do") {
		return nil, false
	}
	o := ci.arg(0)
	fn := e.calleeOf(ci.arg(1), nil)
	key := atomicCell(o, types.Typ[types.Bool])
	run := func(s *State) bool {
		s.note("%s: first call of sync.Once.Do", e.pos(ci.site))
		s.heap[key] = tTrue
		if e.h.Lock != nil {
			e.h.Lock(e, s, o, "once.first", ci.site)
		}
		if fn.fn != nil && fn.fn.Blocks != nil {
			e.pushFrame(s, fn, nil, nil)
		}
		return true
	}
	skip := func(s *State) bool {
		s.note("%s: sync.Once.Do was already called", e.pos(ci.site))
		if e.h.Lock != nil {
			e.h.Lock(e, s, o, "once.again", ci.site)
		}
		return true
	}
	if !s.isShared(rootOf(o)) {
		if s.heap[key] == tTrue {
			skip(s)
		} else {
			run(s)
		}
		return nil, true
	}
	e.fork(s, run, skip)
	return nil, true
}

// callSync: a library function that calls its function argument before it returns.
func (e *Engine) callSync(s *State, ci *CallInfo, res ssa.Value) ([]Outcome, bool) {
	r := e.freshResult(ci)
	if res != nil {
		s.top().regs[res] = r
	}
	for _, a := range ci.args {
		if a.k == KFunc || a.isOp("closure") {
			fn := e.calleeOf(a, nil)
			if fn.fn == nil || fn.fn.Blocks == nil {
				continue
			}
			e.fork(s, func(s *State) bool {
				e.pushFrame(s, fn, nil, nil)
				return true
			}, func(s *State) bool { return true })
			return nil, true
		}
	}
	return []Outcome{{res: r}}, true
}
