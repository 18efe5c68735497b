package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

// recModel analyses the recorder: its constructor, then each method of the
// Recorder interface from every state a constructor leaves the recorder in.
type recModel struct {
	rel   map[*ssa.Function]int
	c     *Ctx
	p     *Prog
	iface *types.Named
	cfgT  *types.Named
	ctors []*ssa.Function
	init  []*recInit

	boolArg map[string]*Term // methods all of whose callers pass the same constant

	// found out on the way, used from the next round on
	roles      map[types.Object]string // writer fields: "video", "audio"
	frame      map[types.Object]bool   // fields holding the frame that is written
	pids       map[*types.Var]bool     // fields that hold picture ids, where followed
	throttle   map[types.Object]bool   // time fields that limit keyframe requests
	notMono    map[types.Object]bool   // flags that are no one-way flags
	notClosed  map[types.Object]bool   // flags not set by every finalisation
	guards     map[types.Object]map[any]bool
	dead       map[string]bool // candidate invariants found not to hold
	badVal     map[string]bool
	lastTs     map[string]types.Object // role -> field the getter returns
	written    map[types.Object]bool   // flags set when something was written
	gen        int
	extra      func(e *Engine, s *State, rep recRep)
	customOnly bool
	keep       map[*Term]bool // facts to be kept // only recorders using the default assembler
	layouts    map[*Term]*recLayout
	frames     map[*types.Var]bool
	swing      map[*types.Var]int
	// what the check at hand has to follow through the recorder:
	//  slices (fields that are slices), frames (fields of structs of plain
	//  data), ts (timestamps that getters return), ints (all numbers), req
	//  (keyframe requests), tracks (the container's tracks), resv (names
	//  taken), lens (facts on lengths), bits (facts on numbers)
	follow map[string]bool
}

type recInit struct {
	st  *State
	obj *Term
	typ types.Type
	cfg *Term
}

type recRep func(e *Engine, s *State, rule, key string, in ssa.Instruction, format string, a ...any)

// recEvents is what a check wants to see.
type recEvents struct {
	sink   func(e *Engine, s *State, k *sink)
	write  func(e *Engine, s *State, role string, field types.Object, ci *CallInfo)
	wrote  func(e *Engine, s *State, role string, ok bool, ci *CallInfo)
	close  func(e *Engine, s *State, x *Term, ci *CallInfo)
	enter  func(e *Engine, s *State) // the lock was taken
	leave  func(e *Engine, s *State) // the lock is about to be released
	exit   func(e *Engine, s *State, kind string, res *Term)
	store  func(e *Engine, s *State, f *recField, val *Term, in ssa.Instruction)
	index  func(e *Engine, s *State, base, idx *Term, in ssa.Instruction, slice bool)
	deref  func(e *Engine, s *State, ptr *Term, in ssa.Instruction)
	call   func(e *Engine, s *State, ci *CallInfo)
	result func(e *Engine, s *State, ci *CallInfo, res *Term)
	branch func(e *Engine, s *State, cond *Term, taken bool, in ssa.Instruction)
}

// sink is a call that creates, opens, changes or removes a file.
type sink struct {
	kind  string // "open", "mkdir", "remove", "rename", "link", "chmod", "temp", "read"
	path  *Term
	flags int64
	perm  *Term
	name  string
	ci    *CallInfo
	known bool // flags are known
}

func (k *sink) creates() bool { return k.kind == "mkdir" || k.flags&syscall.O_CREAT != 0 }

type recField struct {
	name string
	v    *types.Var
	addr *Term
	typ  types.Type
	ekey string
	gone *Term
}

type recLayout struct {
	fields []*recField
	at     map[*Term]*recField
	invs   []*recInv
	gen    int
}

func newRecModel(c *Ctx) *recModel {
	m := &recModel{c: c, p: c.p, boolArg: map[string]*Term{}, roles: map[types.Object]string{}, frame: map[types.Object]bool{},
		throttle: map[types.Object]bool{}, follow: map[string]bool{}, notMono: map[types.Object]bool{}, notClosed: map[types.Object]bool{},
		guards: map[types.Object]map[any]bool{}, dead: map[string]bool{}, badVal: map[string]bool{}, lastTs: map[string]types.Object{},
		written: map[types.Object]bool{}}
	m.iface = c.p.typ("internal/webrtc/recorder", "Recorder")
	m.cfgT = c.p.typ("internal/config", "Recorder")
	if !c.need(m.iface != nil && types.IsInterface(m.iface), "Recorder", "interface Recorder not found in internal/webrtc/recorder") ||
		!c.need(m.cfgT != nil, "config.Recorder", "type Recorder not found in internal/config") {
		return nil
	}
	for _, f := range c.p.Funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Pkg == nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 2 || namedOf(rs.At(0).Type()) != m.iface || !isErrorType(rs.At(1).Type()) {
			continue
		}
		has := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if namedOf(f.Signature.Params().At(i).Type()) == m.cfgT {
				has = true
			}
		}
		if has {
			m.ctors = append(m.ctors, f)
		}
	}
	sort.Slice(m.ctors, func(i, j int) bool { return m.ctors[i].String() < m.ctors[j].String() })
	if !c.need(len(m.ctors) > 0, "constructor", "no exported function takes a config.Recorder and returns (Recorder, error)") {
		return nil
	}
	m.callers()
	return m
}

// callers finds the methods that are only ever called with one constant.
func (m *recModel) callers() {
	it := m.iface.Underlying().(*types.Interface)
	vals := map[string]map[*Term]bool{}
	for _, f := range m.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				name := ""
				as := cc.Args
				if cc.IsInvoke() {
					if types.Identical(cc.Value.Type().Underlying(), it) {
						name = cc.Method.Name()
					}
				} else if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && types.Implements(g.Signature.Recv().Type(), it) {
					name = g.Name()
					if len(as) > 0 {
						as = as[1:]
					}
				}
				if name == "" || len(as) != 1 || !isBoolT(as[0].Type()) {
					continue
				}
				if vals[name] == nil {
					vals[name] = map[*Term]bool{}
				}
				if k, ok := as[0].(*ssa.Const); ok {
					vals[name][mkConst(k.Value, k.Type())] = true
				} else {
					vals[name][tNil] = true
				}
			}
		}
	}
	for n, vs := range vals {
		if len(vs) == 1 {
			for v := range vs {
				if v.isConst() {
					m.boolArg[n] = v
				}
			}
		}
	}
}

// cfgField is the name of the recorder setting a term is, or "".
func (m *recModel) cfgField(t *Term) string {
	if t == nil {
		return ""
	}
	if t.isOp("conv") && len(t.args) == 1 {
		return m.cfgField(t.args[0])
	}
	if t.isOp("fieldval") && t.args[0].typ != nil && namedOf(t.args[0].typ) == m.cfgT {
		return t.ref.(*types.Var).Name()
	}
	if t.isOp("init") && t.args[0].isOp("field") {
		if b := t.args[0].args[0]; b.typ != nil && namedOf(b.typ) == m.cfgT {
			return t.args[0].ref.(*types.Var).Name()
		}
	}
	return ""
}

// cfgTerm is the term of a setting in the configuration a recorder was made with.
func (m *recModel) cfgTerm(s *State, name string) *Term {
	cfg := s.g("cfg")
	if cfg.isNil() {
		return nil
	}
	st := m.cfgT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			if _, ptr := cfg.typ.Underlying().(*types.Pointer); ptr {
				a := fieldAddr(cfg, st, i)
				return intern(KOp, "init", st.Field(i).Type(), nil, 0, nil, a)
			}
			return fieldOf(cfg, st, i)
		}
	}
	return nil
}

// fields are the fields of the recorder, with those of structs inside of it.
func (m *recModel) fields(s *State) []*recField {
	if l := m.layout(s); l != nil {
		return l.fields
	}
	return nil
}

func (m *recModel) layout(s *State) *recLayout {
	recv := s.g("recv")
	if recv.isNil() {
		return nil
	}
	if l, ok := m.layouts[recv]; ok {
		return l
	}
	if m.layouts == nil {
		m.layouts = map[*Term]*recLayout{}
	}
	var out []*recField
	var rec func(base *Term, st *types.Struct, pre string, d int)
	rec = func(base *Term, st *types.Struct, pre string, d int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			a := fieldAddr(base, st, i)
			if sub, ok := f.Type().Underlying().(*types.Struct); ok && d < 3 {
				n := namedOf(f.Type())
				if n == nil || m.p.isRepoPkg(n.Obj().Pkg()) {
					rec(a, sub, pre+f.Name()+".", d+1)
					continue
				}
			}
			out = append(out, &recField{name: pre + f.Name(), v: f, addr: a, typ: f.Type(), ekey: "~e:" + pre + f.Name(), gone: intern(KSym, "gone", f.Type(), f, 0, nil)})
		}
	}
	if st := structType(recv.typ); st != nil {
		rec(recv, st, "", 0)
	}
	l := &recLayout{fields: out, at: map[*Term]*recField{}, gen: -1}
	for _, f := range out {
		l.at[f.addr] = f
	}
	m.layouts[recv] = l
	return l
}

func (m *recModel) fieldAt(s *State, addr *Term) *recField {
	if l := m.layout(s); l != nil {
		return l.at[addr]
	}
	return nil
}

func isMutex(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// entry is the value of a field when the recorder's lock was taken.
func (m *recModel) entry(s *State, f *recField) *Term {
	if v, ok := s.ghost["e:"+f.name]; ok {
		return v
	}
	if v, ok := s.ghost[f.ekey]; ok {
		return v
	}
	if m.snapped(s) && !m.opaque(f.v) {
		return f.gone // overwritten, and of no interest anymore
	}
	return s.load(f.addr, f.typ)
}

// held tells whether one of the recorder's locks is held (exclusively).
func (m *recModel) held(s *State) []*Term {
	recv := s.g("recv")
	var out []*Term
	for l, n := range s.locks {
		if n > 0 && rootOf(l) == recv {
			out = append(out, l)
		}
	}
	return out
}

// isWriter: a type with the methods of a block writer.
func isBlockWriter(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	w, cl := false, false
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Write":
			w = blockWrite(it.Method(i).Type().(*types.Signature))
		case "Close":
			cl = true
		}
	}
	return w && cl
}

func blockWrite(sg *types.Signature) bool {
	return sg.Params().Len() == 3 && isBoolT(sg.Params().At(0).Type()) && isInteger(sg.Params().At(1).Type())
}

func methName(ci *CallInfo) string { return ci.name[strings.LastIndex(ci.name, ".")+1:] }

// role is which of the media a writer belongs to, found from the method that
// writes to it.
func (m *recModel) rootMeth(s *State) string {
	for r := s.root; r != nil; r = r.parent {
		if n, ok := r.data["method"].(string); ok {
			return n
		}
	}
	return ""
}

func rootRole(meth string) string {
	switch meth {
	case "PushVideo":
		return "video"
	case "PushAudio":
		return "audio"
	}
	return ""
}

// sinkOf recognises calls that touch the file system by name.
func sinkOf(s *State, ci *CallInfo) []*sink {
	n := strings.TrimPrefix(ci.name, "io/")
	n = strings.Replace(n, "ioutil.", "os.", 1)
	one := func(kind string, path int, flags int64, perm int) []*sink {
		k := &sink{kind: kind, path: ci.arg(path), flags: flags, name: ci.name, ci: ci, known: true}
		if perm >= 0 {
			k.perm = ci.arg(perm)
		}
		return []*sink{k}
	}
	switch n {
	case "os.OpenFile":
		k := one("open", 0, 0, 2)
		k[0].flags, k[0].known = ci.arg(1).int64()
		return k
	case "os.Create":
		return one("open", 0, syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC, -1)
	case "os.WriteFile":
		return one("open", 0, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, 2)
	case "os.Open", "os.ReadFile":
		return one("read", 0, 0, -1)
	case "os.Truncate":
		return one("open", 0, syscall.O_WRONLY|syscall.O_TRUNC, -1)
	case "os.Mkdir", "os.MkdirAll":
		return one("mkdir", 0, 0, 1)
	case "os.CreateTemp", "os.MkdirTemp", "os.TempFile", "os.TempDir":
		if n != "os.TempDir" {
			return one("temp", 0, syscall.O_CREAT, -1)
		}
	case "os.Remove", "os.RemoveAll":
		return one("remove", 0, 0, -1)
	case "os.Chmod":
		return one("chmod", 0, 0, 1)
	case "os.Rename":
		a, b := one("remove", 0, 0, -1), one("rename", 1, syscall.O_CREAT|syscall.O_TRUNC, -1)
		return append(a, b...)
	case "os.Symlink", "os.Link":
		return one("link", 1, syscall.O_CREAT|syscall.O_EXCL, -1)
	}
	for _, p := range []string{"syscall.", "golang.org/x/sys/unix."} {
		if strings.HasPrefix(n, p) {
			switch n[len(p):] {
			case "Open", "Openat", "Creat", "Mkdir", "Mkdirat", "Rename", "Renameat", "Unlink", "Rmdir", "Link", "Symlink", "Truncate":
				return []*sink{{kind: "open", path: ci.arg(0), name: ci.name, ci: ci, flags: syscall.O_CREAT | syscall.O_TRUNC}}
			}
		}
	}
	return nil
}

func isOSFile(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File"
}

// fileWrite: the call writes to a file that is open.
func fileWrite(ci *CallInfo) bool {
	if strings.HasPrefix(ci.name, "os.File.") {
		switch methName(ci) {
		case "Write", "WriteString", "WriteAt", "ReadFrom", "Truncate":
			return true
		}
		return false
	}
	if ci.callee.fn != nil && ci.callee.fn.Pkg == nil {
		return false
	}
	if strings.HasPrefix(ci.name, "io.") || strings.HasPrefix(ci.name, "encoding/") || strings.HasPrefix(ci.name, "fmt.Fp") || strings.HasPrefix(ci.name, "bufio.") {
		for _, a := range ci.args {
			if a.isOp("iface") && isOSFile(a.ref.(types.Type)) {
				return true
			}
		}
	}
	return false
}

// ours: methods that are implemented by the recorder's packages.
func (m *recModel) inlinable(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil && m.p.isRepoPkg(f.Pkg.Pkg) {
			return relPkg(m.p, f.Pkg.Pkg) != "internal/config"
		}
	}
	return false
}

func (m *recModel) mark(set map[types.Object]bool, o types.Object) {
	if !set[o] {
		set[o] = true
		m.gen++
	}
}

func (m *recModel) kill(k string) {
	if !m.dead[k] {
		m.dead[k] = true
		m.gen++
	}
}

func isKeyframeReq(ci *CallInfo) bool {
	return methName(ci) == "RequestKeyframe" && ci.callee.obj != nil
}

// containsReq: functions that ask the publisher for a keyframe themselves.
func containsReq(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "RequestKeyframe" {
				return true
			}
		}
	}
	return false
}

func (m *recModel) hooks(ev *recEvents) *Hooks {
	h := &Hooks{}
	h.KeepFact = func(f *Term) bool { return true }
	h.Weak = m.weak
	h.Opaque = func(s *State, a *Term, t types.Type) bool {
		if !a.isOp("field") {
			return false
		}
		v := a.ref.(*types.Var)
		return v.Pkg() != nil && m.p.isRepoPkg(v.Pkg()) && m.opaque(v)
	}
	h.Inline = m.inlinable
	h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
		if m.follow["gate"] && ci.callee.fn != nil && m.rootMeth(s) != "" && m.inlinable(ci.callee.fn) && !tells(ci.callee.fn) && !m.relevant(ci.callee.fn) {
			if ci.mode == "probe" {
				return nil, true
			}
			return []Outcome{{res: e.freshResult(ci)}}, true
		}
		if isKeyframeReq(ci) {
			if ci.mode == "probe" {
				return nil, true
			}
			if m.follow["req"] {
				s.setB("req", true)
			}
			s.note("%s: keyframe requested", e.pos(ci.site))
			return []Outcome{{res: tNil}}, true
		}
		if ci.callee.obj != nil && ci.callee.sig != nil && methName(ci) == "Write" && blockWrite(ci.callee.sig) {
			if ci.mode == "probe" {
				return nil, true
			}
			f, role := m.writerOf(s, ci.arg(0))
			if r := rootRole(m.rootMeth(s)); f != nil && r != "" {
				if old, ok := m.roles[f.v]; !ok {
					m.roles[f.v] = r
					m.gen++
					role = r
				} else {
					role = old
				}
			}
			var fv types.Object
			if f != nil {
				fv = f.v
			} else if m.follow["gate"] {
				role = rootRole(m.rootMeth(s))
			}
			if role == "video" {
				for _, x := range m.fields(s) {
					if _, ok := x.typ.Underlying().(*types.Slice); ok && s.load(x.addr, x.typ) == ci.arg(3) {
						m.mark(m.frame, x.v)
					}
				}
			}
			if ev.write != nil {
				ev.write(e, s, role, fv, ci)
			}
			return okOrErr(e, ci, "writing a block", func(s *State, r *Term) bool {
				if ev.wrote != nil {
					ev.wrote(e, s, role, true, ci)
				}
				return true
			}, func(s *State) bool {
				if ev.wrote != nil {
					ev.wrote(e, s, role, false, ci)
				}
				return true
			}), true
		}
		if ci.mode == "probe" {
			return nil, false
		}
		if ev.call != nil {
			ev.call(e, s, ci)
			if s.dead {
				return nil, false
			}
		}
		if (ci.callee.obj != nil && methName(ci) == "Close" || ci.name == "os.File.Close") && ev.close != nil {
			ev.close(e, s, ci.arg(0), ci)
		}
		if ks := sinkOf(s, ci); len(ks) > 0 {
			for _, k := range ks {
				if ev.sink != nil {
					ev.sink(e, s, k)
				}
			}
			k := ks[0]
			if lastIsErr(ci.sig) {
				return okOrErr(e, ci, shortName(ci.name), func(s *State, r *Term) bool {
					if k.kind == "open" {
						s.facts[mkEq(tupleAt(r, 0, nil), tNil)] = false
						if m.follow["resv"] && k.known && k.flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
							s.addSet("resv", k.path)
						}
					}
					if k.kind == "open" && m.follow["leaks"] {
						if old := s.set("openf"); len(old) < 3 {
							s.addSet("openf", tupleAt(r, 0, nil))
						}
					}
					if k.kind == "remove" {
						s.delSet("resv", k.path)
					}
					return true
				}, nil), true
			}
			return nil, false
		}
		if methName(ci) == "NewSimpleBlockWriter" {
			return okOrErr(e, ci, "starting the container", func(s *State, r *Term) bool {
				ws := tupleAt(r, 0, nil)
				s.facts[mkEq(mkLen(ws), mkLen(ci.arg(1)))] = true
				s.facts[mkEq(ws, tNil)] = false
				s.setG("~writers", ws)
				if m.follow["leaks"] {
					// the container closes it
					for _, f := range s.set("openf") {
						if s.holds(ci.arg(0), f) {
							s.delSet("openf", f)
						}
					}
				}
				if m.follow["tracks"] {
					s.setG("writers", ws)
					s.setG("tracks", ci.arg(1))
				}
				return true
			}, nil), true
		}
		if fileWrite(ci) {
			if ev.sink != nil {
				ev.sink(e, s, &sink{kind: "write", name: ci.name, ci: ci, path: tNil, known: true})
			}
		}
		switch ci.name {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
			if rootOf(ci.arg(0)) == s.g("recv") {
				return []Outcome{{res: tNil, eff: func(s *State) bool {
					if h.Lock != nil {
						h.Lock(e, s, ci.arg(0), methName(ci), ci.site)
					}
					if methName(ci) == "RLock" {
						s.locks[ci.arg(0)] -= 1000
					} else {
						s.locks[ci.arg(0)]++
					}
					s.setB("locked", true)
					if s.g("gapframe").isNil() {
						e.interfere(s, ci.arg(0))
					}
					m.snapshot(s)
					m.saturate(s)
					if ev.enter != nil {
						ev.enter(e, s)
					}
					return !s.dead
				}}}, true
			}
		}
		return nil, false
	}
	h.Lock = func(e *Engine, s *State, l *Term, op string, in ssa.Instruction) {
		if rootOf(l) != s.g("recv") || s.g("recv").isNil() {
			return
		}
		if op == "Unlock" || op == "RUnlock" {
			m.checkInv(e, s)
			if ev.leave != nil {
				ev.leave(e, s)
			}
		}
	}
	h.Result = func(e *Engine, s *State, ci *CallInfo, res *Term) {
		if strings.HasSuffix(ci.name, "codecs.VP8Packet.Unmarshal") {
			m.vp8(s, ci.arg(0))
		}
		if ev.result != nil {
			ev.result(e, s, ci, res)
		}
	}
	h.Load = func(e *Engine, s *State, a, v *Term, in ssa.Instruction) {
		// elements of the result of NewSimpleBlockWriter are writers
		if a.isOp("index") && a.args[0] == s.g("~writers") && !a.args[0].isNil() {
			s.facts[mkEq(v, tNil)] = false
		}
		if v.isOp("init") && a.isOp("field") && !m.dead["ne:"+fieldKey(a)] {
			if _, ok := v.typ.Underlying().(*types.Slice); ok && m.neField(a) {
				s.assume(mkLt(mkInt(0), mkLen(v)), true)
			}
		}
	}
	h.Store = func(e *Engine, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.isOp("field") && m.neField(addr) {
			if lo, _ := s.bounds(mkLen(val)); lo < 1 {
				m.kill("ne:" + fieldKey(addr))
			}
		}
		if val.k == KObj && s.isShared(rootOf(addr)) {
			m.published(s, val)
		}
		if f := m.fieldAt(s, addr); f != nil {
			if isBoolT(f.typ) && m.rootMeth(s) != "" {
				if val != tTrue {
					m.mark(m.notMono, f.v)
				}
			}
			if t := namedOf(f.typ); t != nil && t.Obj().Name() == "Time" && in.Parent() != nil && containsReq(in.Parent()) {
				m.mark(m.throttle, f.v)
			}
			if ev.store != nil {
				ev.store(e, s, f, val, in)
			}
		}
	}
	h.Branch = func(e *Engine, s *State, c *Term, taken bool, in ssa.Instruction) {
		m.throttled(s, c, taken)
		if r := s.g("recv"); !r.isNil() && c.contains(r) {
			m.saturate(s)
		}
		if ev.branch != nil {
			ev.branch(e, s, c, taken, in)
		}
	}
	h.Index = ev.index
	h.Deref = ev.deref
	h.Exit = func(e *Engine, s *State, kind string, res *Term) {
		if s.root.data["ctor"] != nil && kind == "return" {
			m.ctorDone(e, s, res)
		}
		if m.rootMeth(s) != "" && !s.gBool("locked") {
			// a method that doesn't use the lock at all
			m.checkInv(e, s)
			if ev.leave != nil {
				ev.leave(e, s)
			}
		}
		if ev.exit != nil {
			ev.exit(e, s, kind, res)
		}
	}
	return h
}

// relevant: a function, or one it calls, may change a field the check follows,
// write a frame, ask for a keyframe, use a lock or start something.
func (m *recModel) relevant(fn *ssa.Function) bool {
	if m.rel == nil {
		m.rel = map[*ssa.Function]int{}
	}
	switch m.rel[fn] {
	case 1, 2:
		return m.rel[fn] == 1
	}
	m.rel[fn] = 2 // recursion
	if m.relevant1(fn) {
		m.rel[fn] = 1
		return true
	}
	return false
}

// tells: the function returns something the check may have to know.
func tells(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if res.At(i).Type().String() != "error" {
			return true
		}
	}
	return false
}

func (m *recModel) relevant1(fn *ssa.Function) bool {
	if fn.Blocks == nil || len(fn.AnonFuncs) > 0 {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if m.touches(x.Addr) {
					m.why(in)
					return true
				}
			case *ssa.MapUpdate:
				if _, ok := x.Map.(*ssa.MakeMap); !ok {
					return true
				}
			case *ssa.Go, *ssa.Send, *ssa.Select:
				return true
			case *ssa.Call:
				if m.relevantCall(x.Common()) {
					m.why(in)
					return true
				}
			case *ssa.Defer:
				if m.relevantCall(x.Common()) {
					m.why(in)
					return true
				}
			}
		}
	}
	return false
}

func (m *recModel) why(in ssa.Instruction) {
	if os.Getenv("SA_DEBUG") != "" {
		fmt.Println("RELEVANT", in.Parent(), m.p.pos(in.Pos()), in)
	}
}

func (m *recModel) relevantCall(cc *ssa.CallCommon) bool {
	for _, a := range cc.Args {
		if _, ok := a.(*ssa.FieldAddr); ok && m.touches(a) {
			return true
		}
	}
	if cc.IsInvoke() {
		return cc.Method.Name() == "RequestKeyframe" || cc.Method.Name() == "Write" || cc.Method.Name() == "Lock" || cc.Method.Name() == "Unlock"
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name() == "copy" && m.touches(cc.Args[0])
	}
	fn := cc.StaticCallee()
	if fn == nil {
		return true
	}
	if fn.Pkg != nil && m.p.isRepoPkg(fn.Pkg.Pkg) {
		return m.relevant(fn)
	}
	if strings.HasPrefix(fullName(fn), "sync.") && len(cc.Args) > 0 {
		// the lock of something else says nothing about the recorder
		fa, ok := cc.Args[0].(*ssa.FieldAddr)
		return !ok || types.Implements(fa.X.Type(), m.iface.Underlying().(*types.Interface))
	}
	return false
}

// touches: storing through the address may change a field the check follows.
func (m *recModel) touches(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.Alloc:
			return false
		case *ssa.FieldAddr:
			if t := structType(x.X.Type()); t != nil {
				v := t.Field(x.Field)
				if v.Pkg() == nil || !m.p.isRepoPkg(v.Pkg()) || m.opaque(v) {
					if _, ok := v.Type().Underlying().(*types.Struct); !ok {
						return false
					}
				}
			}
			if n := namedOf(x.X.Type()); n != nil && !types.Implements(types.NewPointer(n), m.iface.Underlying().(*types.Interface)) {
				// fields of the other structs aren't followed
				if _, ok := x.X.(*ssa.FieldAddr); !ok {
					return false
				}
			}
			if _, ok := x.X.(*ssa.FieldAddr); ok {
				a = x.X
				continue
			}
			if _, ok := x.X.(*ssa.Alloc); ok {
				return false
			}
			return true
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.MakeSlice:
			return false
		case *ssa.UnOp:
			a = x.X
		default:
			return true
		}
	}
}

// opaque fields hold what the check at hand doesn't need.
func (m *recModel) opaque(v *types.Var) bool {
	if m.follow["ints"] || namedOf(v.Type()) == m.cfgT {
		return false
	}
	if n := namedOf(v.Type()); n != nil && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "time.Time":
			return !(m.follow["req"] && m.throttle[v])
		case "time.Duration":
			return !(m.follow["ts"] && m.tsField(v))
		case "io/fs.FileMode":
			return false
		}
	}
	if _, ok := v.Type().Underlying().(*types.Slice); ok {
		return !m.follow["slices"]
	}
	if !m.follow["frames"] && m.isFrame(v) {
		return true
	}
	if m.pids[v] {
		return false
	}
	if !m.follow["gate"] && m.swings(v) {
		return true
	}
	if m.follow["noivf"] {
		if p, ok := v.Type().Underlying().(*types.Pointer); ok && namedOf(p) != nil && m.p.isRepoPkg(namedOf(p).Obj().Pkg()) && m.fileField(p) != nil {
			return true
		}
	}
	if m.follow["gate"] {
		if isBoolT(v.Type()) && m.swings1(v) == 1 && m.notClosed[v] {
			return true
		}
		switch v.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			return !(m.follow["req"] && takesReq(v.Type()))
		}
	}
	if !m.follow["req"] {
		if takesReq(v.Type()) {
			return true
		}
		if p, ok := v.Type().Underlying().(*types.Pointer); ok {
			if n := namedOf(p); n != nil && n.Obj().Pkg() != nil && !m.p.isRepoPkg(n.Obj().Pkg()) && !isOSFile(p) {
				return true
			}
		}
	}
	if m.follow["seq"] {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint16 {
			return m.isFrame(v)
		}
	}
	if m.follow["clock"] {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint32 || b.Kind() == types.Uint64 || b.Kind() == types.Int64) {
			return m.isFrame(v)
		}
	}
	return isInteger(v.Type())
}

// swings: a flag the methods set and unset on their own account.
func (m *recModel) swings(v *types.Var) bool { return m.swings1(v) == 3 }

// swings1: 1 set, 2 unset, 4 stored otherwise.
func (m *recModel) swings1(v *types.Var) int {
	if m.swing == nil {
		m.swing = map[*types.Var]int{}
		for _, fn := range m.p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || !isBoolT(st.Val.Type()) {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); fresh || structType(fa.X.Type()) == nil {
						continue
					}
					f := structType(fa.X.Type()).Field(fa.Field)
					k, ok := st.Val.(*ssa.Const)
					if !ok {
						m.swing[f] |= 4
					} else if mkConst(k.Value, k.Type()) == tTrue {
						m.swing[f] |= 1
					} else {
						m.swing[f] |= 2
					}
				}
			}
		}
	}
	return m.swing[v]
}

// isFrame: the field is, or is inside of, a struct of plain data.
func (m *recModel) isFrame(v *types.Var) bool {
	if r, ok := m.frames[v]; ok {
		return r
	}
	if m.frames == nil {
		m.frames = map[*types.Var]bool{}
	}
	plain := func(t types.Type) bool {
		n := namedOf(t)
		st := structType(types.NewPointer(deref(t)))
		if st == nil || n == nil || n.Obj().Pkg() == nil || !m.p.isRepoPkg(n.Obj().Pkg()) {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			switch u := st.Field(i).Type().Underlying().(type) {
			case *types.Basic, *types.Slice:
			case *types.Struct:
				if x := namedOf(st.Field(i).Type()); x == nil || x.Obj().Name() != "Time" {
					return false
				}
			default:
				_ = u
				return false
			}
		}
		return true
	}
	r := plain(v.Type())
	if !r {
		// the struct that declares it
		sc := v.Pkg().Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok && tn.Type() != m.cfgT {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == v {
						r = plain(tn.Type())
					}
				}
			}
		}
	}
	m.frames[v] = r
	return r
}

// tsField: a getter of the recorder returns it.
func (m *recModel) tsField(v *types.Var) bool {
	for _, o := range m.lastTs {
		if o == v {
			return true
		}
	}
	return m.lastTs["video"] == nil
}

// weak facts are not needed once paths join.
func (m *recModel) weak(f *Term) bool {
	if m.keep[f] {
		return false
	}
	if f.k == KSym || f.isOp("init") || f.isOp("fieldval") {
		return false
	}
	if f.isOp("eq") {
		x, y := f.args[0], f.args[1]
		if x.isNil() || y.isNil() || x.k == KZero || y.k == KZero {
			return false
		}
		if hasLen(f) {
			return m.weakLen(f)
		}
		if x.typ != nil && !isInteger(x.typ) {
			return false
		}
		return !(m.follow["bits"] && bitFact(f)) && !(m.follow["slices"] && startBit(f))
	}
	if f.isOp("lt") {
		if hasLen(f) {
			return m.weakLen(f)
		}
		return !(m.follow["bits"] && bitFact(f)) && !(m.follow["slices"] && startBit(f))
	}
	return false
}

func (m *recModel) weakLen(f *Term) bool {
	if m.follow["lens"] {
		return false
	}
	if m.follow["slices"] {
		// empty or not
		a, b := f.args[0], f.args[1]
		if f.isOp("eq") && b.isOp("len") {
			a, b = b, a
		}
		if i, ok := a.int64(); ok && f.isOp("lt") && i == 0 && b.isOp("len") {
			return false
		}
		if i, ok := b.int64(); ok && f.isOp("eq") && i == 0 && a.isOp("len") {
			return false
		}
	}
	return true
}

// bitFact: the fact is on the start of a partition or the keyframe bit.
func bitFact(f *Term) bool {
	for _, a := range f.args {
		for a.isOp("conv") {
			a = a.args[0]
		}
		if a.isOp("init") && a.args[0].isOp("field") {
			if v := a.args[0].ref.(*types.Var); (v.Name() == "S" || v.Name() == "PID") && v.Pkg() != nil && strings.HasSuffix(v.Pkg().Path(), "rtp/codecs") {
				return true
			}
		}
		if a.isOp("&") || a.isOp("%") {
			if i, ok := a.args[1].int64(); ok && (i == 1 || i == 2) {
				return true
			}
			if i, ok := a.args[0].int64(); ok && i == 1 {
				return true
			}
		}
	}
	return false
}

// startBit: the fact is on the bit that marks the start of a VP8 partition.
func startBit(f *Term) bool {
	for _, a := range f.args {
		if a.isOp("init") && a.args[0].isOp("field") {
			if v := a.args[0].ref.(*types.Var); v.Name() == "S" && v.Pkg() != nil && strings.HasSuffix(v.Pkg().Path(), "rtp/codecs") {
				return true
			}
		}
	}
	return false
}

func hasCall(f *Term) bool {
	return f.find(func(t *Term) bool { return strings.HasPrefix(t.op, "call:") }) != nil
}

func hasLen(f *Term) bool {
	return f.find(func(t *Term) bool { return t.isOp("len") }) != nil
}

// throttled: a keyframe request isn't due, or nobody takes them.
func (m *recModel) throttled(s *State, c *Term, taken bool) {
	if s.gBool("req") || !m.follow["req"] {
		return
	}
	if x := c.find(func(t *Term) bool { return t.k == KSym && (strings.HasPrefix(t.op, "call:time.")) }); x != nil {
		for _, f := range m.fields(s) {
			if m.throttle[f.v] {
				v := s.load(f.addr, f.typ)
				if x.contains(v) || c.contains(v) {
					s.setB("throttled", true)
				}
			}
		}
	}
}

// reqMade: on this path a keyframe was requested, or could not or need not be.
func (m *recModel) reqMade(s *State) bool {
	if s.gBool("req") || s.gBool("throttled") {
		return true
	}
	for _, f := range m.fields(s) {
		if takesReq(f.typ) && !m.opaque(f.v) && s.decideEq(s.load(f.addr, f.typ), tNil) == 1 {
			return true
		}
	}
	return false
}

// takesReq: keyframes are requested by means of a value of the type.
func takesReq(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "RequestKeyframe" {
			return true
		}
	}
	return false
}

// vp8 states what the header of a VP8 payload can contain.
func (m *recModel) vp8(s *State, pk *Term) {
	st := structType(pk.typ)
	if st == nil {
		return
	}
	lim := map[string]int64{"X": 2, "N": 2, "S": 2, "PID": 8, "I": 2, "L": 2, "T": 2, "K": 2, "PictureID": 1 << 15, "TID": 4, "Y": 2, "KEYIDX": 32}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if n, ok := lim[f.Name()]; ok {
			v := s.load(fieldAddr(pk, st, i), f.Type())
			s.assume(mkLt(v, mkConst(mkInt(n).c, f.Type())), true)
		}
		if !m.follow["bits"] {
			continue
		}
		s.setB("parsed", true)
		if f.Name() == "Payload" {
			s.setG("payload", s.load(fieldAddr(pk, st, i), f.Type()))
		}
		if f.Name() == "S" {
			s.setG("vp8S", s.load(fieldAddr(pk, st, i), f.Type()))
		}
		if f.Name() == "PID" {
			s.setG("vp8PID", s.load(fieldAddr(pk, st, i), f.Type()))
		}
	}
}

// holds: what is reachable from v includes x.
func (s *State) holds(v, x *Term) bool {
	if v.contains(x) {
		return true
	}
	found := false
	s.reach(v, func(o *Term) bool {
		for k, y := range s.heap {
			if rootOf(k) == o && y.contains(x) {
				found = true
			}
		}
		return !found
	})
	return found
}

// ---- invariants ----

func fieldKey(a *Term) string {
	v := a.ref.(*types.Var)
	return fmt.Sprintf("%s.%s@%d", v.Pkg().Name(), v.Name(), v.Pos())
}

// neField: a slice field of a struct of the recorder that might never be empty.
func (m *recModel) neField(a *Term) bool {
	v, ok := a.ref.(*types.Var)
	if !ok || v.Pkg() == nil || !m.p.isRepoPkg(v.Pkg()) || m.dead["ne:"+fieldKey(a)] {
		return false
	}
	_, ok = v.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return a.args[0].typ == nil || namedOf(a.args[0].typ) != nil && !types.Implements(a.args[0].typ, m.iface.Underlying().(*types.Interface))
}

// published: an object becomes reachable for others; its slices must not be empty.
func (m *recModel) published(s *State, o *Term) {
	st := structType(o.typ)
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		a := fieldAddr(o, st, i)
		if m.neField(a) {
			if lo, _ := s.bounds(mkLen(s.load(a, st.Field(i).Type()))); lo < 1 {
				m.kill("ne:" + fieldKey(a))
			}
		}
	}
}

// snapshot remembers the values of the fields when the lock is taken.
func (m *recModel) snapshot(s *State) {
	for _, f := range m.fields(s) {
		if isMutex(f.typ) || m.opaque(f.v) {
			continue
		}
		switch f.typ.Underlying().(type) {
		case *types.Struct, *types.Array:
			continue
		}
		k := f.ekey
		_, slice := f.typ.Underlying().(*types.Slice)
		if m.follow["entry"] || !m.follow["gate"] && (m.isClosable(f) || isBoolT(f.typ) && !m.notMono[f.v]) ||
			m.follow["gate"] && (isBoolT(f.typ) || slice) {
			k = k[1:]
		}
		s.setG(k, s.load(f.addr, f.typ))
	}
	s.setB("snapped", true)
	delete(s.ghost, "req")
	delete(s.ghost, "throttled")
	delete(s.ghost, "parsed")
	delete(s.ghost, "payload")
}

type recInv struct {
	key  string
	lits []invLit // one of which holds
}

type invLit func(s *State, get func(*recField) *Term) *Term // boolean term

// invariants are the candidates: implications between simple conditions.
func (m *recModel) invariants(s *State) []*recInv {
	l := m.layout(s)
	if l == nil {
		return nil
	}
	if l.gen == m.gen {
		return l.invs
	}
	var ptrs, sls, bools []*recField
	for _, f := range m.fields(s) {
		if m.opaque(f.v) {
			continue
		}
		switch f.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
			ptrs = append(ptrs, f)
		}
		if _, ok := f.typ.Underlying().(*types.Slice); ok {
			sls = append(sls, f)
		}
		if isBoolT(f.typ) {
			bools = append(bools, f)
		}
	}
	var out []*recInv
	add := func(key string, a, c invLit) {
		if !m.dead[key] {
			out = append(out, &recInv{key, []invLit{notLit(a), c}})
		}
	}
	var writers []*recField
	for _, f := range ptrs {
		if isBlockWriter(f.typ) {
			writers = append(writers, f)
		}
	}
	nn := func(f *recField) func(s *State, get func(*recField) *Term) *Term {
		return func(s *State, get func(*recField) *Term) *Term { return mkNot(mkEq(get(f), tNil)) }
	}
	bt := func(f *recField) func(s *State, get func(*recField) *Term) *Term {
		return func(s *State, get func(*recField) *Term) *Term { return get(f) }
	}
	for _, f := range sls {
		f := f
		add("len:"+f.name, nn(f), func(s *State, get func(*recField) *Term) *Term { return mkLt(mkInt(0), mkLen(get(f))) })
	}
	for _, p := range ptrs {
		for _, q := range ptrs {
			if p != q {
				add("pp:"+p.name+":"+q.name, nn(p), nn(q))
			}
		}
		for _, b := range bools {
			add("pb:"+p.name+":"+b.name, nn(p), bt(b))
			add("bp:"+b.name+":"+p.name, bt(b), nn(p))
		}
	}
	// a flag that tells that one of the writers is there
	for _, b := range bools {
		if len(writers) > 1 && len(writers) < 4 && !m.dead["bws:"+b.name] {
			cl := []invLit{notLit(bt(b))}
			for _, w := range writers {
				cl = append(cl, nn(w))
			}
			out = append(out, &recInv{"bws:" + b.name, cl})
		}
	}
	l.invs, l.gen = out, m.gen
	return out
}

func notLit(l invLit) invLit {
	return func(s *State, get func(*recField) *Term) *Term { return mkNot(l(s, get)) }
}

// saturate adds what follows from the invariants and the facts about the
// values the fields had when the lock was taken.
func (m *recModel) saturate(s *State) {
	if s.g("recv").isNil() {
		return
	}
	get := func(f *recField) *Term { return m.entry(s, f) }
	if !m.snapped(s) {
		return
	}
	for changed, n := true, 0; changed && n < 4; n++ {
		changed = false
		for _, iv := range m.invariants(s) {
			var open *Term
			k := 0
			for _, l := range iv.lits {
				t := l(s, get)
				d := s.decide(t)
				if d == 1 {
					k = -1
					break
				}
				if d == 0 {
					open = t
					k++
				}
			}
			switch {
			case k == 0:
				s.dead = true
				return
			case k == 1:
				if !s.assume(open, true) {
					s.dead = true
					return
				}
				changed = true
			}
		}
	}
}

func (m *recModel) snapped(s *State) bool {
	return s.gBool("snapped")
}

// checkInv kills the candidates that do not hold when the lock is released.
func (m *recModel) checkInv(e *Engine, s *State) {
	get := func(f *recField) *Term { return s.load(f.addr, f.typ) }
	for _, iv := range m.invariants(s) {
		var open []*Term
		holds := false
		for _, l := range iv.lits {
			t := l(s, get)
			if d := s.decide(t); d == 1 {
				holds = true
				break
			} else if d == 0 {
				open = append(open, t)
			}
		}
		if holds {
			continue
		}
		if len(open) > 0 {
			n := s.clone()
			for _, t := range open[:len(open)-1] {
				if !n.assume(t, false) {
					n = nil
					break
				}
			}
			if n == nil {
				continue
			}
			m.saturate(n)
			if n.dead || n.decide(open[len(open)-1]) == 1 {
				continue
			}
		}
		{
			if e.debug && !m.dead[iv.key] {
				fmt.Println("dead", iv.key, m.rootMeth(s))
			}
			m.kill(iv.key)
		}
	}
}

// ---- roots ----

// ctorDone collects what a constructor returned.
func (m *recModel) ctorDone(e *Engine, s *State, res *Term) {
	v := tupleAt(res, 0, nil)
	err := tupleAt(res, 1, nil)
	if s.decideEq(err, tNil) == -1 || !v.isOp("iface") || v.args[0].k != KObj {
		return
	}
	n := s.clone()
	n.stack = nil
	obj := v.args[0]
	n.setG("recv", obj)
	m.checkInv(e, n)
	m.init = append(m.init, &recInit{st: n, obj: obj, typ: v.ref.(types.Type), cfg: s.g("cfg")})
}

func (m *recModel) ctorRoots(e *Engine) []*Root {
	var roots []*Root
	for _, f := range m.ctors {
		st := e.newState()
		var args []*Term
		for _, p := range f.Params {
			a := fresh("param:"+p.Name(), p.Type())
			if namedOf(p.Type()) == m.cfgT {
				st.setG("cfg", a)
			}
			args = append(args, a)
		}
		r := e.NewRoot(shortName(f.String()), f, args, st)
		r.data = map[string]any{"ctor": true}
		for _, a := range args {
			r.nonNil[a] = true
		}
		roots = append(roots, r)
	}
	return roots
}

func (m *recModel) methodRoots(e *Engine, ev *recEvents) []*Root {
	it := m.iface.Underlying().(*types.Interface)
	seen := map[string]bool{}
	var roots []*Root
	for _, in := range m.init {
		base := e.newState()
		for k, v := range in.st.heap {
			if !e.mutable[class(k)] {
				base.heap[k] = v
			} else {
				freshCount++
				base.epochs[k] = freshCount
			}
		}
		in.st.reach(in.obj, func(o *Term) bool {
			base.shared[o] = true
			base.snap[o] = true
			e.forget(base, o)
			return true
		})
		for k, v := range in.st.facts {
			if !e.mentionsMutable(k) && (m.follow["paths"] || !hasCall(k)) {
				base.facts[k] = v
			}
		}
		for k, v := range in.st.ghost {
			base.ghost[k] = v
		}
		key := base.clone().canonical() + in.typ.String()
		if e.debug {
			fmt.Println("BASE", lastCanon)
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		for i := 0; i < it.NumMethods(); i++ {
			fn := e.lookupMethod(in.typ, it.Method(i))
			if fn == nil {
				continue
			}
			fn = boundOf(m.p, fn)
			st := base.clone()
			if m.customOnly {
				if w := m.cfgTerm(st, "UseCustomSampler"); w != nil && !st.assume(w, true) {
					continue
				}
			}
			m.snapshot(st)
			m.saturate(st)
			if ev.enter != nil {
				ev.enter(e, st)
			}
			args := []*Term{in.obj}
			nn := map[*Term]bool{}
			for _, p := range fn.Params[1:] {
				a := fresh("param:"+p.Name(), p.Type())
				if c, ok := m.boolArg[it.Method(i).Name()]; ok && isBoolT(p.Type()) {
					a = c
				}
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					nn[a] = true
				}
				if t, ok := p.Type().Underlying().(*types.Interface); ok && t.NumMethods() > 0 {
					if p.Type().String() == "context.Context" {
						nn[a] = true
					}
				}
				args = append(args, a)
			}
			r := e.NewRoot(it.Method(i).Name(), fn, args, st)
			r.data = map[string]any{"method": it.Method(i).Name()}
			for a := range nn {
				r.nonNil[a] = true
			}
			roots = append(roots, r)
		}
	}
	return roots
}

// premark tells the engine which fields change after construction, to save rounds.
func (m *recModel) premark(e *Engine) {
	for _, fn := range m.p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg != m.iface.Obj().Pkg() {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if _, ok := fa.X.(*ssa.Alloc); !ok {
						if t := structType(fa.X.Type()); t != nil && !m.opaque(t.Field(fa.Field)) {
							e.mutable[t.Field(fa.Field)] = true
						}
					}
				}
			}
		}
	}
}

// run explores constructors and methods until nothing new is found out.
func (m *recModel) run(ev *recEvents) *Engine {
	e := m.c.engine(m.hooks(ev))
	e.locLimit = 4000
	e.h.NoRoots = false
	m.premark(e)
	viol, count, samples := append([]*Violation(nil), m.c.viol...), map[string]int{}, append([]string(nil), m.c.samples...)
	for k, n := range m.c.count {
		count[k] = n
	}
	for round := 0; round < 14; round++ {
		m.init = nil
		gen, mut := m.gen, len(e.mutable)
		e.Explore(m.ctorRoots(e))
		ctorViol := e.viol
		roots := e.roots
		e.Explore(m.methodRoots(e, ev))
		e.viol = append(ctorViol, e.viol...)
		e.roots = append(roots, e.roots...)
		if m.gen == gen && len(e.mutable) == mut {
			e.topLocs()
			for _, v := range e.viol {
				m.c.add(v)
			}
			if e.truncated {
				m.c.fail("bound", "analysis", "the analysis did not reach a fixpoint within its bounds")
			}
			m.c.need(len(m.init) > 0, "recorder", "no constructor returns a recorder")
			return e
		}
		m.c.viol = nil
		m.c.vseen = map[string]bool{}
		for _, v := range viol {
			m.c.add(v)
		}
		m.c.count = map[string]int{}
		for k, n := range count {
			m.c.count[k] = n
		}
		m.c.samples = append([]string(nil), samples...)
	}
	m.c.fail("bound", "analysis", "the invariants of the recorder were not stable after 14 rounds")
	return e
}

// writerOf is the field of the recorder a writer is kept in.
func (m *recModel) writerOf(s *State, w *Term) (*recField, string) {
	for _, f := range m.fields(s) {
		if isBlockWriter(f.typ) && s.load(f.addr, f.typ) == w {
			return f, m.roles[f.v]
		}
	}
	for _, f := range m.fields(s) {
		if isBlockWriter(f.typ) && m.entry(s, f) == w {
			return f, m.roles[f.v]
		}
	}
	return nil, ""
}
