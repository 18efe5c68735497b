package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = checkContained
	checks["C11"] = checkExclusive
	checks["C12"] = checkPerms
	checks["C13"] = checkDevNull
	checks["C14"] = checkTruncated
	checks["C15"] = checkAfterClose
	checks["C16"] = checkFinalise
	checks["C17"] = checkPayloads
	checks["C18"] = checkKeyframeGate
	checks["C36"] = checkDiskErrors
	checks["C19"] = checkKeyframeFlag
	checks["C20"] = checkForward
	checks["C22"] = checkTracks
}

func (c *Ctx) recorder() *recModel { return newRecModel(c) }

// inCtor: the activity is a constructor.
func inCtor(s *State) bool { return s.root.data["ctor"] != nil }

func (m *recModel) where(s *State) string {
	if inCtor(s) {
		return "constructor"
	}
	return m.rootMeth(s)
}

// ---- C10 ----

func isDevNull(t *Term) bool { x, ok := t.str(); return ok && x == os.DevNull }

func callTo(t *Term, names ...string) bool {
	if t.k != KOp || !strings.HasPrefix(t.op, "call:") {
		return false
	}
	for _, n := range names {
		if t.op == "call:"+n {
			return true
		}
	}
	return false
}

// cats flattens a concatenation.
func cats(t *Term) []*Term {
	if t.isOp("cat") {
		return append(cats(t.args[0]), cats(t.args[1])...)
	}
	return []*Term{t}
}

func (m *recModel) isDir(t *Term) bool {
	if callTo(t, "path.Clean", "path/filepath.Clean", "path/filepath.Abs", "path/filepath.FromSlash", "path/filepath.ToSlash") {
		return m.isDir(t.args[0])
	}
	if callTo(t, "path.Join", "path/filepath.Join") && len(t.args) == 1 {
		return m.isDir(t.args[0])
	}
	return m.cfgField(t) == "Directory"
}

// rooted: a name without parent-directory components at its beginning.
func (m *recModel) rooted(s *State, t *Term) bool {
	if callTo(t, "path.Clean", "path/filepath.Clean", "path.Join", "path/filepath.Join") {
		ps := cats(t.args[0])
		if x, ok := ps[0].str(); ok && strings.HasPrefix(x, "/") {
			return true
		}
		return false
	}
	if callTo(t, "path.Base", "path/filepath.Base") {
		return m.rooted(s, t.args[0]) // the last component of a cleaned rooted path is a name or the separator
	}
	if callTo(t, "strings.TrimPrefix", "strings.TrimLeft") {
		return m.rooted(s, t.args[0])
	}
	return false
}

func (m *recModel) safeRel(s *State, t *Term) bool {
	if m.rooted(s, t) {
		return true
	}
	if x, ok := t.str(); ok {
		return !strings.Contains(x, "..")
	}
	for f, v := range s.facts {
		if v && callTo(f, "path/filepath.IsLocal") && f.args[0] == t {
			return true
		}
		if !v && callTo(f, "strings.Contains") && f.args[0] == t {
			if x, ok := f.args[1].str(); ok && x == ".." {
				return true
			}
		}
	}
	return false
}

// contained tells whether a path lies inside the recording directory.
func (m *recModel) contained(s *State, t *Term) bool { return m.containedD(s, t, 0) }

func (m *recModel) containedD(s *State, t *Term, ups int) bool {
	if isDevNull(t) {
		return true
	}
	if callTo(t, "path.Clean", "path/filepath.Clean", "path/filepath.Abs") {
		return m.containedD(s, t.args[0], ups)
	}
	if callTo(t, "path.Join", "path/filepath.Join") {
		if len(t.args) >= 1 && (m.isDir(t.args[0]) || (ups == 0 && m.containedD(s, t.args[0], ups))) {
			ok := true
			for _, a := range t.args[1:] {
				if !m.safeRel(s, a) {
					ok = false
				}
			}
			if ok && len(t.args) > 1 {
				return true
			}
		}
	}
	// dir + "/" + name
	if ps := cats(t); len(ps) >= 2 {
		if m.isDir(ps[0]) {
			sep := false
			ok := true
			for i, p := range ps[1:] {
				if x, isC := p.str(); isC && i == 0 && strings.HasPrefix(x, "/") {
					sep = true
					if strings.Contains(x, "..") {
						ok = false
					}
					continue
				}
				if i == 0 && m.rooted(s, p) {
					sep = true
					continue
				}
				if !m.safeRel(s, p) {
					ok = false
				}
			}
			if sep && ok {
				return true
			}
		}
		// same name with another ending
		last := ps[len(ps)-1]
		if x, ok := last.str(); ok && !strings.ContainsAny(x, "/\\") {
			head := ps[0]
			for _, p := range ps[1 : len(ps)-1] {
				head = mkOp("cat", head.typ, head, p)
			}
			if b := m.withoutExt(s, head); b != nil && m.containedD(s, b, ups) {
				return true
			}
			if m.containedD(s, head, ups) {
				return true
			}
		}
	}
	if b := m.withoutExt(s, t); b != nil && m.containedD(s, b, ups) {
		return true
	}
	if callTo(t, "path.Dir", "path/filepath.Dir") && ups == 0 {
		return m.containedD(s, t.args[0], 1)
	}
	if m.isDir(t) && ups == 0 {
		return true
	}
	// tested to be inside
	for f, v := range s.facts {
		if v && callTo(f, "strings.HasPrefix") && f.args[0] == t {
			ps := cats(f.args[1])
			if len(ps) == 2 && m.isDir(ps[0]) && callTo(ps[0], "path.Clean", "path/filepath.Clean", "path/filepath.Abs") {
				if x, ok := ps[1].str(); ok && x == "/" && callTo(t, "path.Join", "path/filepath.Join", "path.Clean", "path/filepath.Clean", "path/filepath.Abs") {
					return true
				}
			}
		}
		if !v && callTo(f, "strings.HasPrefix") && callTo(f.args[0], "path/filepath.Rel") && m.isDir(f.args[0].args[0]) && f.args[0].args[1] == t {
			if x, ok := f.args[1].str(); ok && x == ".." {
				return true
			}
		}
	}
	return false
}

// withoutExt: t is b with its extension cut off.
func (m *recModel) withoutExt(s *State, t *Term) *Term {
	if t.isOp("slice") && isString(t.typ) {
		b := t.args[0]
		if l, ok := t.args[1].int64(); ok && l == 0 && t.args[2].contains(mkLen(b)) {
			if x := t.args[2].find(func(u *Term) bool { return callTo(u, "path.Ext", "path/filepath.Ext") && u.args[0] == b }); x != nil &&
				t.args[2] == subInt(mkLen(b), mkLen(x)) {
				return b
			}
		}
	}
	if callTo(t, "strings.TrimSuffix") {
		if x, ok := t.args[1].str(); ok && !strings.Contains(x, "/") {
			return t.args[0]
		}
		if callTo(t.args[1], "path.Ext", "path/filepath.Ext") {
			return t.args[0]
		}
	}
	return nil
}

func checkContained(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "abstract interpretation of the recorder's constructor and of every method from every state the constructor leaves; at each call that creates, opens, renames or removes a file or directory the path term must be derived from the configured directory by operations that cannot leave it"
	n := 0
	m.needs("paths")
	m.run(&recEvents{sink: func(e *Engine, s *State, k *sink) {
		if k.kind == "write" {
			return
		}
		n++
		c.sample("%s in %s: %s", shortName(k.name), m.where(s), k.path)
		if k.kind == "temp" {
			if !m.isDir(k.path) && !m.contained(s, k.path) {
				e.report(s, "contained", k.name+"|"+m.where(s), k.ci.site, "a temporary file is created outside of the recording directory")
			}
			return
		}
		if !m.contained(s, k.path) {
			e.report(s, "contained", k.name+"|"+m.where(s), k.ci.site, "the path %s of %s is not known to lie inside the recording directory", k.path, shortName(k.name))
		}
	}})
	c.count["file system calls checked"] = n
	c.need(n >= 2, "sinks", "no call creating files found in the recorder")
}

// ---- C11 ----

func checkExclusive(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "the constructor only succeeds after it has created the file with O_CREATE|O_EXCL (so an existing or reserved file refuses the request atomically); every later open that creates or truncates is of exactly that path or exclusive itself"
	opens, oks := 0, 0
	m.needs("resv")
	m.run(&recEvents{
		sink: func(e *Engine, s *State, k *sink) {
			key := k.name + "|" + m.where(s)
			switch k.kind {
			case "write", "read", "mkdir", "chmod", "temp":
				return
			}
			opens++
			if isDevNull(k.path) {
				return
			}
			if k.kind == "open" {
				if !k.known {
					e.report(s, "flags", key, k.ci.site, "the flags of %s are not a constant", shortName(k.name))
					return
				}
				excl := k.flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL
				writes := k.flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 || k.flags&syscall.O_TRUNC != 0
				if excl || (!writes && k.flags&syscall.O_CREAT == 0) {
					return
				}
			}
			if !s.inSet("resv", k.path) {
				what := "opened without O_EXCL"
				switch k.kind {
				case "remove":
					what = "removed"
				case "rename", "link":
					what = "replaced"
				}
				e.report(s, "exclusive", key, k.ci.site, "%s is %s although this recording did not create it itself", k.path, what)
			}
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {
			if !inCtor(s) || kind != "return" {
				return
			}
			v, err := tupleAt(res, 0, nil), tupleAt(res, 1, nil)
			if s.decideEq(err, tNil) == -1 || v.isNil() {
				return
			}
			oks++
			if w := m.cfgTerm(s, "WriteToDevNull"); w != nil && s.decide(w) == 1 {
				return
			}
			if len(s.set("resv")) == 0 {
				e.report(s, "reserved", "constructor", nil, "a recording can be accepted without its file having been created exclusively: two requests can be accepted for the same file")
			}
		},
	})
	c.count["opens checked"], c.count["accepting paths"] = opens, oks
	c.need(oks > 0, "accept", "no accepting path of the constructor found")
}

// ---- C12 ----

func (m *recModel) modeOK(s *State, t *Term, setting string) (string, bool) {
	for t != nil && (t.isOp("conv") || t.isOp("&") && func() bool { x, ok := t.args[1].int64(); return ok && x&0o777 == 0o777 }()) {
		t = t.args[0]
	}
	if t == nil {
		return "has a fixed mode", false
	}
	if !callTo(t, "strconv.ParseUint", "strconv.ParseInt") || t.n != 0 {
		return fmt.Sprintf("mode %s", t), false
	}
	if f := m.cfgField(t.args[0]); f != setting {
		return fmt.Sprintf("mode from the setting %q instead of %q", f, setting), false
	}
	if b, ok := t.args[1].int64(); !ok || (b != 0 && b != 8) {
		return "mode is not parsed as octal", false
	}
	errT := mkOpRef(t.op, nil, nil, 1, t.args...)
	_ = errT
	for f, v := range s.facts {
		if v && f.isOp("eq") && f.args[1].isNil() && callTo(f.args[0], strings.TrimPrefix(t.op, "call:")) && f.args[0].n == 1 && sameArgs(f.args[0], t) {
			return "", true
		}
	}
	return "mode used although it may not have parsed", false
}

func sameArgs(a, b *Term) bool {
	if len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	return true
}

func checkPerms(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "at each call that creates a file (directory) the mode argument must be the value parsed from the configured file (directory) mode, on a path where parsing succeeded; the constructor must not succeed if the file mode does not parse"
	files, dirs, oks := 0, 0, 0
	m.needs("paths")
	m.run(&recEvents{
		sink: func(e *Engine, s *State, k *sink) {
			key := k.name + "|" + m.where(s)
			want := "FileMode"
			switch {
			case k.kind == "mkdir":
				want = "DirFileMode"
				dirs++
			case k.kind == "chmod":
			case k.kind == "temp" || k.kind == "link" || k.kind == "rename":
				if k.kind == "temp" {
					e.report(s, "mode", key, k.ci.site, "%s creates a file with a mode of its own", shortName(k.name))
				}
				return
			case k.kind == "open" && (!k.known || k.flags&syscall.O_CREAT != 0):
				files++
			default:
				return
			}
			if isDevNull(k.path) {
				return
			}
			if why, ok := m.modeOK(s, k.perm, want); !ok {
				e.report(s, "mode", key, k.ci.site, "%s: %s, not the configured %s", shortName(k.name), why, want)
			}
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {
			if !inCtor(s) || kind != "return" {
				return
			}
			if s.decideEq(tupleAt(res, 1, nil), tNil) == -1 {
				return
			}
			oks++
			for f, v := range s.facts {
				if v && f.isOp("eq") && f.args[1].isNil() && f.args[0].n == 1 && callTo(f.args[0], "strconv.ParseUint", "strconv.ParseInt") && m.cfgField(f.args[0].args[0]) == "FileMode" {
					return
				}
			}
			e.report(s, "refused", "constructor", nil, "a recording is accepted on a path where the configured file mode was not parsed successfully")
		},
	})
	c.count["files"], c.count["directories"], c.count["accepting paths"] = files, dirs, oks
	c.need(files > 0 && dirs > 0, "creations", "found %d file and %d directory creations", files, dirs)
}

// ---- C13 ----

func checkDevNull(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "at each call that creates or opens anything but the null device, the facts of the path must include that writing to the null device is not configured"
	n := 0
	null := 0
	m.run(&recEvents{sink: func(e *Engine, s *State, k *sink) {
		if k.kind == "write" || k.kind == "read" {
			return
		}
		n++
		if isDevNull(k.path) {
			null++
			if k.kind == "remove" || k.kind == "rename" || k.kind == "chmod" {
				e.report(s, "devnull", k.name+"|"+m.where(s), k.ci.site, "%s is applied to the null device", shortName(k.name))
			}
			return
		}
		w := m.cfgTerm(s, "WriteToDevNull")
		if w == nil || s.decide(w) != -1 {
			e.report(s, "devnull", k.name+"|"+m.where(s), k.ci.site, "%s touches %s although writing to the null device may be configured", shortName(k.name), k.path)
		}
	}})
	c.count["calls checked"], c.count["on the null device"] = n, null
	c.need(n > 0 && null > 0, "sinks", "%d calls found, %d on the null device", n, null)
}

// ---- C14 ----

// witness fields tell that nothing has been opened yet.
func (m *recModel) unopened(s *State) bool {
	for _, f := range m.fields(s) {
		if m.badVal["w:"+f.name] {
			continue
		}
		v := m.entry(s, f)
		switch f.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if s.decideEq(v, tNil) == 1 {
				return true
			}
		case *types.Basic:
			if isBoolT(f.typ) && s.decide(v) == -1 {
				return true
			}
		}
	}
	return false
}

func (m *recModel) noWitness(f *recField) {
	if !m.badVal["w:"+f.name] {
		m.badVal["w:"+f.name] = true
		m.gen++
	}
}

// writersKnown describes what the path knows of the block writers.
func (m *recModel) writersKnown(s *State) string {
	var ps []string
	for _, f := range m.fields(s) {
		if r := m.roles[f.v]; r != "" {
			st := "?"
			switch s.decideEq(m.entry(s, f), tNil) {
			case 1:
				st = "none"
			case -1:
				st = "open"
			}
			ps = append(ps, r+"="+st)
		}
	}
	sort.Strings(ps)
	return strings.Join(ps, ",")
}

func checkTruncated(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "at each truncating open (and each removal) in a method of the recorder the path must know that nothing has been opened before: a field that is set whenever something was opened is still unset; block writers in use are not replaced"
	opens, removes, repl := 0, 0, 0
	m.needs("lens")
	var initial = map[string]bool{}
	m.run(&recEvents{
		sink: func(e *Engine, s *State, k *sink) {
			if inCtor(s) {
				return
			}
			switch {
			case k.kind == "open" && (!k.known || k.flags&syscall.O_TRUNC != 0):
				opens++
				if !m.unopened(s) {
					e.report(s, "reopened", m.where(s)+"|"+m.writersKnown(s), k.ci.site, "%s is opened with truncation in %s although it may have been opened and written before (%s)", k.path, m.where(s), m.writersKnown(s))
				}
				s.setB("o:open", true)
			case k.kind == "remove", k.kind == "rename":
				removes++
				if !m.unopened(s) || s.gBool("o:any") {
					e.report(s, "removed", m.where(s)+"|"+m.writersKnown(s), k.ci.site, "%s is removed although it may have been opened and written before", k.path)
				}
			case k.kind == "open" && k.flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 && k.flags&syscall.O_EXCL == 0:
				s.setB("o:open", true)
			case k.kind == "write":
				s.setB("o:any", true)
			}
		},
		store: func(e *Engine, s *State, f *recField, val *Term, in ssa.Instruction) {
			if inCtor(s) || !isBlockWriter(f.typ) {
				return
			}
			repl++
			if s.gBool("o:open") && s.decideEq(val, tNil) != 1 {
				s.setB("o:any", true)
			}
			if cur := s.load(f.addr, f.typ); s.decideEq(cur, tNil) != 1 && val != cur && !m.unopened(s) {
				e.report(s, "replaced", m.where(s)+"|"+m.writersKnown(s), in, "the writer %s is replaced although it may be in use (%s)", f.name, m.writersKnown(s))
			}
		},
		leave: func(e *Engine, s *State) {
			if inCtor(s) {
				return
			}
			for _, f := range m.fields(s) {
				v, old := s.load(f.addr, f.typ), m.entry(s, f)
				switch f.typ.Underlying().(type) {
				case *types.Pointer, *types.Interface:
					// set whenever something was opened, never unset
					if s.gBool("o:any") && !s.top().panicking && s.decideEq(v, tNil) != -1 {
						m.noWitness(f)
					}
					if v != old && s.decideEq(v, tNil) != -1 {
						m.noWitness(f)
					}
				case *types.Basic:
					if isBoolT(f.typ) {
						if s.gBool("o:any") && !s.top().panicking && s.decide(v) != 1 {
							m.noWitness(f)
						}
						if v != old && s.decide(v) != 1 {
							m.noWitness(f)
						}
					}
				}
			}
			delete(s.ghost, "o:any")
			delete(s.ghost, "o:open")
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {
			if inCtor(s) && kind == "return" {
				// must be unset in a new recorder
				v := tupleAt(res, 0, nil)
				if v.isOp("iface") && v.args[0].k == KObj {
					n := s.clone()
					n.setG("recv", v.args[0])
					for _, f := range m.fields(n) {
						x := n.load(f.addr, f.typ)
						initial[f.name] = true
						if x != tFalse && !x.isNil() {
							m.noWitness(f)
						}
					}
				}
			}
		},
	})
	c.count["truncating opens"], c.count["removals"], c.count["writer assignments"] = opens, removes, repl
	var wit []string
	for f := range initial {
		if !m.badVal["w:"+f] {
			wit = append(wit, f)
		}
	}
	sort.Strings(wit)
	c.cov["witness_fields"] = wit
	c.need(opens+repl > 0, "opens", "no truncating open found in the recorder's methods")
}

// ---- C15 ----

// closedFlags are one-way flags that every finalisation leaves set.
func (m *recModel) closedFlags(s *State) []*recField {
	var out []*recField
	for _, f := range m.fields(s) {
		if isBoolT(f.typ) && !m.notMono[f.v] && !m.notClosed[f.v] && m.swings1(f.v) != 0 {
			out = append(out, f)
		}
	}
	return out
}

// notClosedYet: the path knows, under the lock, that the recording is not finalised.
func (m *recModel) notClosedYet(s *State) (string, bool) {
	locks := m.held(s)
	if len(locks) == 0 {
		return "without the recorder's lock", false
	}
	for _, f := range m.closedFlags(s) {
		if s.decide(m.entry(s, f)) == -1 {
			for _, l := range locks {
				if g := m.guards[f.v]; g != nil && g[class(l)] {
					return "", true
				}
			}
		}
	}
	return "without having tested under the lock that it is not finalised", false
}

// closing notes which flags Close leaves set, and the locks it holds then.
func (m *recModel) closing(e *Engine, s *State) {
	if m.rootMeth(s) != "Close" {
		return
	}
	for _, f := range m.fields(s) {
		if !isBoolT(f.typ) {
			continue
		}
		v := s.load(f.addr, f.typ)
		if s.decide(v) != 1 {
			m.mark(m.notClosed, f.v)
			continue
		}
		if m.guards[f.v] == nil {
			m.guards[f.v] = map[any]bool{}
		}
		for _, l := range m.held(s) {
			if !m.guards[f.v][class(l)] {
				m.guards[f.v][class(l)] = true
				m.gen++
			}
		}
	}
}

func checkAfterClose(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "at every open and every write of a method of the recorder, a one-way flag that each finalisation sets is known to be unset, and was read under the same lock that finalisation holds while it sets it"
	n := 0
	guard := func(e *Engine, s *State, what string, in ssa.Instruction) {
		if inCtor(s) {
			return
		}
		n++
		c.sample("%s in %s", what, m.where(s))
		if why, ok := m.notClosedYet(s); !ok {
			e.report(s, "closed", m.where(s)+"|"+what, in, "%s in %s %s", what, m.where(s), why)
		}
	}
	m.run(&recEvents{
		leave: func(e *Engine, s *State) { m.closing(e, s) },
		sink: func(e *Engine, s *State, k *sink) {
			if k.kind != "read" {
				guard(e, s, shortName(k.name), k.ci.site)
			}
		},
		write: func(e *Engine, s *State, role string, f types.Object, ci *CallInfo) {
			guard(e, s, "writing a block", ci.site)
		},
	})
	c.count["writes and opens"] = n
	c.need(n >= 3, "sinks", "only %d writes found in the recorder's methods", n)
}

func (m *recModel) needs(ks ...string) {
	for _, k := range ks {
		m.follow[k] = true
	}
}

// ---- C16 ----

// closable are the fields of the recorder that have to be closed.
func (m *recModel) closable(s *State) []*recField {
	var out []*recField
	for _, f := range m.fields(s) {
		if m.isClosable(f) {
			out = append(out, f)
		}
	}
	return out
}

func (m *recModel) isClosable(f *recField) bool {
	if isBlockWriter(f.typ) || isOSFile(f.typ) {
		return true
	}
	if p, ok := f.typ.Underlying().(*types.Pointer); ok {
		if n := namedOf(p); n != nil && n.Obj().Pkg() != nil && m.p.isRepoPkg(n.Obj().Pkg()) && m.fileField(p) != nil {
			return true
		}
	}
	return false
}

// fileField is the file inside of a struct of the repository.
func (m *recModel) fileField(ptr types.Type) *types.Var {
	st := structType(ptr)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if isOSFile(st.Field(i).Type()) {
			return st.Field(i)
		}
	}
	return nil
}

func checkFinalise(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "all paths through Close, with every outcome of every call: each writer that may be open is closed once, a finalised recorder touches nothing, the result is the video time, no path panics and the lock is free at every exit"
	firsts, again, fieldsN := 0, 0, 0
	m.needs("ts", "entry", "leaks")
	opened := 0
	sinks := map[types.Type]ssa.Instruction{}
	m.run(&recEvents{
		leave: func(e *Engine, s *State) {
			m.closing(e, s)
			for _, f := range s.set("openf") {
				opened++
				if !s.holds(s.g("recv"), f) {
					e.report(s, "leak", m.rootMeth(s), nil, "%s may leave a file open that nothing refers to afterwards, so it is never closed", m.rootMeth(s))
				}
			}
		},
		call: func(e *Engine, s *State, ci *CallInfo) {
			if methName(ci) == "NewSimpleBlockWriter" && len(ci.args) > 0 && ci.arg(0).isOp("iface") {
				opened++
				sinks[ci.arg(0).ref.(types.Type)] = ci.site
			}
		},
		close: func(e *Engine, s *State, x *Term, ci *CallInfo) {
			s.delSet("openf", x)
			if m.rootMeth(s) != "Close" {
				return
			}
			if s.inSet("closedw", x) {
				e.report(s, "twice", calleeName(ci.site), ci.site, "%s is closed twice", x)
			}
			s.addSet("closedw", x)
			if _, ok := m.notClosedYet(s); !ok {
				e.report(s, "again", calleeName(ci.site), ci.site, "%s is closed although the recording may have been finalised before", x)
			}
		},
		sink: func(e *Engine, s *State, k *sink) {
			if m.rootMeth(s) == "Close" {
				if _, ok := m.notClosedYet(s); !ok {
					e.report(s, "again", k.name, k.ci.site, "%s is called although the recording may have been finalised before", shortName(k.name))
				}
			}
		},
		enter: func(e *Engine, s *State) {
			delete(s.ghost, "openf")
			if m.rootMeth(s) == "Close" {
				s.setB("locked", true)
			}
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {
			if inCtor(s) {
				return
			}
			meth := m.rootMeth(s)
			if meth == "VideoTimestamp" && kind == "return" {
				for _, f := range m.fields(s) {
					if m.entry(s, f) == res && res.isOp("init") {
						if m.lastTs["video"] != f.v {
							m.lastTs["video"] = f.v
							m.gen++
						}
					}
				}
			}
			if len(m.held(s)) > 0 && (kind == "return" || kind == "panic") {
				e.report(s, "lock", meth, nil, "%s leaves the recorder's lock taken", meth)
			}
			if meth != "Close" {
				return
			}
			if kind == "panic" {
				e.report(s, "panic", "Close", nil, "finalising can panic")
				return
			}
			if kind != "return" {
				return
			}
			isAgain := false
			for _, f := range m.closedFlags(s) {
				if s.decide(m.entry(s, f)) == 1 {
					isAgain = true
				}
			}
			for _, f := range m.fields(s) {
				if m.lastTs["video"] == f.v && m.entry(s, f) != res {
					e.report(s, "result", "Close", nil, "finalising returns %s, not the last video time", res)
				}
			}
			if isAgain {
				again++
				return
			}
			firsts++
			for _, f := range m.closable(s) {
				fieldsN++
				v := m.entry(s, f)
				if s.decideEq(v, tNil) == 1 || s.inSet("closedw", v) {
					continue
				}
				if m.innerClosed(s, f, v) {
					continue
				}
				e.report(s, "unclosed", f.name, nil, "finalising leaves %s open on some path", f.name)
			}
		},
	})
	c.count["first finalisations (paths)"], c.count["repeated finalisations (paths)"], c.count["writers checked"] = firsts, again, fieldsN
	c.need(firsts > 0 && again > 0, "paths", "found %d paths of first and %d of repeated finalisations", firsts, again)
	c.need(fieldsN > 0, "writers", "no writers found in the recorder")
	c.need(m.lastTs["video"] != nil, "time", "the field behind VideoTimestamp was not found")
	c.count["files opened (paths)"] = opened
	c.need(opened > 0, "opened", "no file is opened")
	m.closesFile(sinks)
}

// closesFile: closing what the container library writes to closes the file in it.
func (m *recModel) closesFile(sinks map[types.Type]ssa.Instruction) {
	c := m.c
	c.need(len(sinks) > 0, "container", "no container is opened")
	for t, site := range sinks {
		if isOSFile(t) {
			continue
		}
		sel := m.p.SSA.MethodSets.MethodSet(t).Lookup(nil, "Close")
		var fn *ssa.Function
		if sel != nil {
			fn = m.p.SSA.MethodValue(sel)
		}
		if fn == nil || fn.Blocks == nil || namedOf(t) == nil || !m.p.isRepoPkg(namedOf(t).Obj().Pkg()) {
			c.fail("container", "close", "%s: the container is written to a %s, which is not known to close the file", m.p.pos(site.Pos()), t)
			continue
		}
		fn = boundOf(m.p, fn)
		n := 0
		e := c.engine(&Hooks{Inline: m.inlinable})
		e.h.Call = func(e *Engine, s *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.mode != "probe" && ci.name == "os.File.Close" {
				s.setB("fileclosed", true)
			}
			return nil, false
		}
		e.h.Exit = func(e *Engine, s *State, kind string, res *Term) {
			n++
			if kind != "return" || !s.gBool("fileclosed") {
				e.report(s, "container", "close|"+kind, nil, "the container library closes what it writes to at the end, which may not close the file")
			}
		}
		st := e.newState()
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, fresh("param:"+p.Name(), p.Type()))
		}
		r := e.NewRoot("Close of the container's output", fn, args, st)
		r.nonNil[args[0]] = true
		e.Explore([]*Root{r})
		for _, v := range e.viol {
			c.add(v)
		}
		c.need(n > 0, "close", "no end of %s found", fn)
	}
}

// innerClosed: the file inside of an object was closed, or it has none open.
func (m *recModel) innerClosed(s *State, f *recField, v *Term) bool {
	fv := m.fileField(f.typ)
	if fv == nil {
		return false
	}
	st := structType(f.typ)
	for i := 0; i < st.NumFields(); i++ {
		a := fieldAddr(v, st, i)
		if st.Field(i) == fv {
			for _, x := range s.set("closedw") {
				if x.isOp("init") && x.args[0] == a || s.heap[a] == x {
					return true
				}
				if x.contains(a) {
					return true
				}
			}
			if s.decideEq(s.load(a, fv.Type()), tNil) == 1 {
				return true
			}
		}
	}
	// flags saying there is no open file
	for i := 0; i < st.NumFields(); i++ {
		if !isBoolT(st.Field(i).Type()) {
			continue
		}
		a := fieldAddr(v, st, i)
		for _, x := range s.factsOn(a) {
			if m.flagMeansClosed(st, st.Field(i), x) {
				return true
			}
		}
	}
	return false
}

// factsOn are the known values of what was read from an address.
func (s *State) factsOn(a *Term) []bool {
	var out []bool
	for f, v := range s.facts {
		if f.isOp("init") && f.args[0] == a {
			out = append(out, v)
		}
	}
	return out
}

// flagMeansClosed: no allocation that has a file sets the flag to that value,
// and it is stored only by functions that close the file.
func (m *recModel) flagMeansClosed(st *types.Struct, fv *types.Var, val bool) bool {
	type use struct {
		file   bool
		stores []bool
	}
	for _, fn := range m.p.Funcs {
		closes := false
		uses := map[ssa.Value]*use{}
		at := func(v ssa.Value) *use {
			if uses[v] == nil {
				uses[v] = &use{}
			}
			return uses[v]
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok && cl.Common().StaticCallee() != nil && fullName(cl.Common().StaticCallee()) == "os.File.Close" {
					closes = true
				}
				x, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || structType(fa.X.Type()) == nil {
					continue
				}
				f := structType(fa.X.Type()).Field(fa.Field)
				if f == fv {
					k, ok := x.Val.(*ssa.Const)
					if !ok {
						return false
					}
					u := at(fa.X)
					u.stores = append(u.stores, mkConst(k.Value, k.Type()) == tTrue)
				} else if structType(fa.X.Type()) == st && isOSFile(f.Type()) {
					if k, ok := x.Val.(*ssa.Const); !ok || k.Value != nil {
						at(fa.X).file = true
					}
				}
			}
		}
		for v, u := range uses {
			_, alloc := v.(*ssa.Alloc)
			if u.file && len(u.stores) == 0 && !val {
				return false // made with the flag unset, and a file
			}
			for _, x := range u.stores {
				if x == val && (u.file || !alloc && !closes) {
					return false
				}
			}
		}
	}
	return true
}

// ---- C17 ----

func checkPayloads(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "each index, slice and dereference in the methods that take media packets, with unknown payload bytes: the length facts of the path must imply it is in range; invariants of the recorder's fields (checked at every release of the lock) supply what earlier packets established"
	n, d := 0, 0
	media := func(s *State) bool {
		switch m.rootMeth(s) {
		case "PushVideo", "PushAudio", "NotifySkippedPacket":
			return true
		}
		return false
	}
	m.needs("slices", "frames", "lens")
	m.run(&recEvents{
		index: func(e *Engine, s *State, base, idx *Term, in ssa.Instruction, slice bool) {
			if !media(s) {
				return
			}
			if base.k == KObj && base.n != 0 {
				if _, ok := deref(base.typ).Underlying().(*types.Array); ok {
					if i, ok := idx.int64(); ok && i >= 0 {
						return // checked by the compiler
					}
				}
			}
			n++
			l := mkLen(base)
			lo, _ := s.bounds(idx)
			ok := lo >= 0
			if !ok && s.decideLt(idx, mkInt(0)) == -1 {
				ok = true
			}
			if slice {
				ok = ok && s.decideLt(l, idx) == -1
				if x, isS := in.(*ssa.Slice); ok && isS && x.Low != nil && x.High != nil {
					lw := e.val(s, s.top(), x.Low)
					ok = s.decideLt(idx, lw) == -1
				}
			} else {
				ok = ok && s.decideLt(idx, l) == 1
			}
			if !ok {
				e.report(s, "index", shortName(in.Parent().String())+"|"+m.rootMeth(s)+"|"+base.String(), in, "index %s of %s may be out of range", idx, base)
			}
		},
		deref: func(e *Engine, s *State, p *Term, in ssa.Instruction) {
			if !media(s) {
				return
			}
			d++
			if p.isNil() {
				e.report(s, "nil", shortName(in.Parent().String())+"|"+m.rootMeth(s), in, "nil is dereferenced")
				return
			}
			if s.nonNil(p) || s.decideEq(p, tNil) == -1 {
				return
			}
			// fields holding per-frame state
			if p.isOp("init") && p.args[0].isOp("field") && rootOf(p.args[0]) == s.g("recv") {
				if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
					if nm := namedOf(pt); nm != nil && nm.Obj().Pkg() != nil && m.p.isRepoPkg(nm.Obj().Pkg()) {
						e.report(s, "nil", shortName(in.Parent().String())+"|"+m.rootMeth(s)+"|"+p.String(), in, "%s may be nil", p)
					}
				}
			}
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {},
	})
	c.count["index operations"], c.count["dereferences"] = n, d
	c.need(n > 0, "index", "no index operations found in the packet handling")
	c.cov["invariants_refuted"] = len(m.dead)
}

// ---- C18 ----

type gateCand struct {
	f    *types.Var
	name string
	open bool
	viol []func()
	n    int
	bad  bool

	kinds  map[string]int
	writes int // at which the gate was looked at

	pictures bool // closed because a picture id tells that pictures are missing
}

// rank orders the flags by how much like the gate they are: a flag that's seldom known when
// frames are written or that a new recorder has open isn't meant to be one.
func (g *gateCand) rank() int {
	r := g.n
	if r > 1e6 {
		r = 1e6
	}
	if g.kinds["initial"] > 0 {
		r += 1e7
	}
	if w := g.kinds["write"]; w*2 > g.writes {
		r += 4e7
	} else if w > 0 {
		r += 1e6
	}
	return r
}

// payloadOnly: t is exactly the current packet's payload (a fresh frame).
func (m *recModel) payloadOnly(s *State, t *Term) bool {
	pl := s.g("payload")
	if pl.isNil() || t == nil {
		return false
	}
	if t == pl {
		return true
	}
	if t.isOp("appendv") && t.args[1] == pl {
		b := t.args[0]
		if b.isNil() || isZeroLen(b) || s.decideEq(mkLen(b), mkInt(0)) == 1 || s.decideEq(b, tNil) == 1 {
			return true
		}
	}
	return false
}

// keyframeStart: the current packet is the start of a keyframe.
func (m *recModel) keyframeStart(s *State) bool {
	pl, sb, pid := s.g("payload"), s.g("vp8S"), s.g("vp8PID")
	if pl.isNil() || sb.isNil() || pid.isNil() {
		return false
	}
	if s.decideEq(sb, zeroOf(sb.typ)) != -1 || s.decideEq(pid, zeroOf(pid.typ)) != 1 {
		return false
	}
	return m.keyBit(s, pl) == 1
}

// keyBit: what is known of the inverse keyframe bit of a frame: 1 keyframe, -1 not, 0 unknown.
func (m *recModel) keyBit(s *State, frame *Term) int {
	bt := types.Typ[types.Byte]
	first := s.load(indexAddr(frame, mkInt(0), bt), bt)
	one := mkOp("&", bt, first, mkConst(mkInt(1).c, bt))
	if d := s.decideEq(one, mkConst(mkInt(0).c, bt)); d != 0 {
		return d
	}
	if d := s.decideEq(one, mkConst(mkInt(1).c, bt)); d != 0 {
		return -d
	}
	rem := binop(token.REM, first, mkConst(mkInt(2).c, bt), bt, bt)
	if d := s.decideEq(rem, mkConst(mkInt(0).c, bt)); d != 0 {
		return d
	}
	// the first bytes of a longer frame
	if frame.isOp("appendv") && s.decideLt(mkInt(0), mkLen(frame.args[0])) == 1 {
		return m.keyBit(s, frame.args[0])
	}
	if frame.isOp("appendv") && (frame.args[0].isNil() || isZeroLen(frame.args[0])) {
		return m.keyBit(s, frame.args[1])
	}
	return 0
}

func checkKeyframeGate(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	m.keyframeGate()
	if len(c.viol) == 0 {
		c.recorder().gaps()
	}
}

func (m *recModel) keyframeGate() {
	c := m.c
	c.explain = "for the default assembler, a gate flag must exist such that on every path: frames are written only with the gate open; the gate opens only at the first packet of a keyframe starting a fresh frame; whenever bytes of a frame in progress or of a packet are lost the gate is closed; and closing it requests a keyframe"
	custom := func(s *State) bool {
		w := m.cfgTerm(s, "UseCustomSampler")
		return w == nil || s.decide(w) != -1
	}
	cands := map[string]*gateCand{}
	get := func(f *recField, open bool) *gateCand {
		k := fmt.Sprintf("%s=%v", f.name, open)
		if cands[k] == nil {
			cands[k] = &gateCand{f: f.v, name: k, open: open}
		}
		return cands[k]
	}
	each := func(s *State, fn func(f *recField, g *gateCand, isOpen func(v *Term) int)) {
		for _, f := range m.fields(s) {
			if !isBoolT(f.typ) || m.opaque(f.v) {
				continue
			}
			for _, o := range []bool{true, false} {
				g := get(f, o)
				o := o
				fn(f, g, func(v *Term) int {
					d := s.decide(v)
					if !o {
						d = -d
					}
					return d
				})
			}
		}
	}
	writes, losses, opensN := 0, 0, 0
	var final []func()
	rep := func(g *gateCand, e *Engine, s *State, key string, in ssa.Instruction, format string, a ...any) {
		g.bad = true
		g.n++
		if g.kinds == nil {
			g.kinds = map[string]int{}
		}
		g.kinds[key]++
		if len(g.viol) > 6 {
			return
		}
		n := s.clone()
		g.viol = append(g.viol, func() { e.report(n, "gate", key, in, format, a...) })
	}
	lastGen := -1
	reset := func() {
		if m.gen != lastGen {
			lastGen = m.gen
			for _, g := range cands {
				g.viol, g.n, g.bad, g.writes, g.kinds, g.pictures = nil, 0, false, 0, nil, false
			}
			writes, losses, opensN = 0, 0, 0
		}
	}
	frameOf := func(s *State) *recField {
		for _, f := range m.fields(s) {
			if m.frame[f.v] {
				return f
			}
		}
		return nil
	}
	done := func(e *Engine, s *State) {
		if inCtor(s) || !custom(s) || !m.snapped(s) {
			return
		}
		meth := m.rootMeth(s)
		if meth != "PushVideo" && meth != "NotifySkippedPacket" {
			each(s, func(f *recField, g *gateCand, isOpen func(*Term) int) {
				v, old := s.load(f.addr, f.typ), m.entry(s, f)
				if v != old && isOpen(v) != -1 {
					rep(g, e, s, meth+"|opened", nil, "%s opens the gate %s", meth, g.name)
				}
			})
			return
		}
		fr := frameOf(s)
		if fr == nil {
			return
		}
		// finalised, or not recording video: nothing is lost
		for _, f := range m.closedFlags(s) {
			if s.decide(m.entry(s, f)) == 1 {
				return
			}
		}
		f0, f1 := m.entry(s, fr), s.load(fr.addr, fr.typ)
		done := s.set("wrote")
		kept := func(x *Term) bool {
			if f1.contains(x) {
				return true
			}
			for _, w := range done {
				if w.contains(x) {
					return true
				}
			}
			return false
		}
		lost := ""
		if s.decideEq(f0, tNil) != 1 && s.decideEq(mkLen(f0), mkInt(0)) != 1 && !kept(f0) {
			lost = "a frame in progress is dropped"
		}
		if pl := s.g("payload"); !pl.isNil() && !kept(pl) && s.gBool("parsed") && lost == "" {
			lost = "a packet's payload is dropped"
		}
		starts := false
		if sb, pid := s.g("vp8S"), s.g("vp8PID"); !sb.isNil() && !pid.isNil() {
			starts = s.decideEq(sb, zeroOf(sb.typ)) == -1 && s.decideEq(pid, zeroOf(pid.typ)) != -1
		}
		fresh := (m.payloadOnly(s, f1) || len(done) == 1 && m.payloadOnly(s, done[0])) && m.keyframeStart(s)
		if lost != "" {
			losses++
		}
		for _, w := range done {
			if f1.contains(w) && s.decideEq(f1, tNil) != 1 {
				e.report(s, "frame", meth+"|leftover", nil, "the memory of a frame that has been written, which the container library still uses, remains in use for the next frame")
			}
		}
		if sb := s.g("vp8S"); !sb.isNil() && s.decideEq(sb, zeroOf(sb.typ)) != -1 &&
			(m.payloadOnly(s, f1) || len(done) == 1 && m.payloadOnly(s, done[0])) {
			e.report(s, "frame", meth+"|headless", nil, "a frame begins with a packet that need not be the first one of a frame")
		}
		each(s, func(f *recField, g *gateCand, isOpen func(*Term) int) {
			v, old := s.load(f.addr, f.typ), m.entry(s, f)
			o1, o0 := isOpen(v), isOpen(old)
			if lost != "" && o1 != -1 && !fresh {
				rep(g, e, s, meth+"|"+lost, nil, "%s in %s, and the gate (%s) may stay open: later frames would be written without a new keyframe", lost, meth, g.name)
			}
			if starts && len(done) <= 1 && o1 != -1 && !m.keyframeStart(s) && (m.payloadOnly(s, f1) || len(done) == 1 && m.payloadOnly(s, done[0])) && !s.gBool("pid") {
				rep(g, e, s, meth+"|pictures", nil, "a frame is started with the gate (%s) open without looking at its picture id, which tells whether pictures before it are missing", g.name)
			}
			if starts && len(done) <= 1 && o0 == 1 && o1 != -1 && !m.keyframeStart(s) && (m.payloadOnly(s, f1) || len(done) == 1 && m.payloadOnly(s, done[0])) {
				if from, to, ok := m.gapAccepted(s, m.pids); ok {
					rep(g, e, s, meth+"|picture gap", nil, "a frame with picture id %d is started with the gate (%s) open when the one before it had %d: pictures in between are missing", to, g.name, from)
				}
			}
			if starts && o0 != -1 && o1 == -1 && lost != "" && s.gBool("pidgap") && !s.gBool("appended") && (s.decideEq(f0, tNil) == 1 || s.decideEq(mkLen(f0), mkInt(0)) == 1) && m.keyBit(s, s.g("payload")) == -1 {
				g.pictures = true
			}
			if o1 != -1 && o0 != 1 && v != old {
				opensN++
				if !fresh {
					rep(g, e, s, meth+"|opened", nil, "the gate (%s) opens although no keyframe starts a fresh frame here", g.name)
				}
			}
			if o1 == -1 && o0 != -1 && v != old && !m.reqMade(s) {
				rep(g, e, s, meth+"|request", nil, "the gate (%s) closes without a keyframe being requested", g.name)
			}
		})
	}
	pids := m.pictureIDs()
	m.pids = pids.kept
	defer func() { m.pids = nil }()
	ev := &recEvents{
		enter: func(e *Engine, s *State) {
			for k := range s.ghost {
				switch {
				case k == "wrote", k == "pid", k == "pidgap", k == "appended", strings.HasPrefix(k, "pc:"):
					delete(s.ghost, k)
				}
			}
		},
		branch: func(e *Engine, s *State, cond *Term, taken bool, in ssa.Instruction) {
			switch pids.ifs[in] {
			case 2:
				s.setB("pidgap", true)
				s.setB("pid", true)
			case 1:
				s.setB("pid", true)
			}
			if s.gBool("appended") {
				return
			}
			about := cond.find(isPictureID) != nil
			for _, f := range m.fields(s) {
				about = about || pids.kept[f.v] && cond.contains(m.entry(s, f))
			}
			if about {
				if !taken {
					cond = mkNot(cond)
				}
				s.setG("pc:"+strconv.Itoa(cond.id), cond)
			}
		},
		store: func(e *Engine, s *State, f *recField, val *Term, in ssa.Instruction) {
			if pl := s.g("payload"); m.frame[f.v] && !pl.isNil() && val.contains(pl) {
				s.setB("appended", true)
				if m.keyBit(s, pl) == 1 {
					for k := range s.ghost {
						if strings.HasPrefix(k, "pc:") {
							delete(s.ghost, k)
						}
					}
				}
			}
		},
		leave: func(e *Engine, s *State) {
			reset()
			m.closing(e, s)
			done(e, s)
		},
		write: func(e *Engine, s *State, role string, f types.Object, ci *CallInfo) {
			reset()
			if role != "video" || !custom(s) {
				return
			}
			// only the assembler that uses the frame field
			fr := frameOf(s)
			if fr == nil || s.load(fr.addr, fr.typ) != ci.arg(3) {
				if fr != nil && m.cfgTerm(s, "UseCustomSampler") != nil && s.decide(m.cfgTerm(s, "UseCustomSampler")) == 1 {
					e.report(s, "frame", m.where(s), ci.site, "what is written, %s, is not the assembled frame", ci.arg(3))
				}
				return
			}
			writes++
			each(s, func(f *recField, g *gateCand, isOpen func(*Term) int) {
				g.writes++
				if isOpen(s.load(f.addr, f.typ)) != 1 {
					rep(g, e, s, "write", ci.site, "a frame is written although the gate (%s) may be closed", g.name)
				}
			})
		},
		wrote: func(e *Engine, s *State, role string, ok bool, ci *CallInfo) {
			if role == "video" && ok {
				s.addSet("wrote", ci.arg(3))
			}
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {
			if !inCtor(s) || kind != "return" {
				return
			}
			v := tupleAt(res, 0, nil)
			if !v.isOp("iface") || v.args[0].k != KObj {
				return
			}
			n := s.clone()
			n.setG("recv", v.args[0])
			for _, f := range m.fields(n) {
				if isBoolT(f.typ) && !m.opaque(f.v) {
					x := n.load(f.addr, f.typ)
					for _, o := range []bool{true, false} {
						if n.decide(x) != -b2i(o) {
							g := get(f, o)
							rep(g, e, n, "initial", nil, "the gate (%s) is open in a new recorder", g.name)
						}
					}
				}
			}
		},
	}
	m.needs("slices", "bits", "req", "gate", "noivf")
	m.customOnly = true
	m.run(ev)
	m.pids = nil
	_ = final
	c.count["frames written"], c.count["losses"], c.count["candidate gates"] = writes, losses, len(cands)
	if !c.need(writes > 0 && losses > 0, "instances", "found %d writes of assembled frames and %d losses", writes, losses) {
		return
	}
	var best *gateCand
	var names []string
	for n := range cands {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		g := cands[n]
		if g.writes == 0 || m.opaque(g.f) {
			continue
		}
		if !g.bad {
			if !g.pictures {
				c.fail("gate", "pictures", "no frame is refused (gate %s) because its picture id tells that pictures before it are missing", g.name)
			}
			c.cov["gate"] = g.name
			return
		}
		c.cov["candidate "+g.name] = g.kinds
		if best == nil || g.rank() < best.rank() {
			best = g
		}
	}
	if best == nil {
		c.fail("gate", "none", "the recorder has no flag that could be a gate")
		return
	}
	e := c.engines[len(c.engines)-1]
	e.viol, e.vkeys = nil, map[string]bool{}
	for _, v := range best.viol {
		v()
	}
	for _, v := range e.viol {
		c.add(v)
	}
}

// ---- C19 ----

func checkKeyframeFlag(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "at each write of a video block, on every path, the flag is known true exactly if the lowest bit of the frame's first byte (the bytes written) is known to be zero"
	n := 0
	m.needs("slices", "bits", "noivf")
	m.run(&recEvents{write: func(e *Engine, s *State, role string, f types.Object, ci *CallInfo) {
		if role != "video" {
			return
		}
		n++
		kf, data := ci.arg(1), ci.arg(3)
		d := s.decide(kf)
		k := m.keyBit(s, data)
		c.sample("%s: flag %s frame %s", m.where(s), kf, data)
		if d != 0 && d == k {
			return
		}
		if d == 0 {
			// the flag is the condition itself
			a, b := s.clone(), s.clone()
			if (!a.assume(kf, true) || m.keyBit(a, data) == 1) && (!b.assume(kf, false) || m.keyBit(b, data) == -1 || s.decideEq(mkLen(data), mkInt(0)) == 1) {
				return
			}
		}
		if d == -1 && s.decideEq(mkLen(data), mkInt(0)) == 1 {
			return
		}
		w := map[int]string{1: "set", 0: "of unknown value", -1: "not set"}
		e.report(s, "flag", m.where(s)+"|"+w[d], ci.site, "a video block is written with the keyframe flag %s, but the frame's first byte is not known to say so (flag %s, frame %s)", w[d], kf, data)
	}})
	c.count["video writes"] = n
	c.need(n > 0, "writes", "no write of a video block found")
}

// pictureIDs finds the branches that depend on the picture id of a packet (2), and those
// that decide whether such a branch is reached (1).
type picIDs struct {
	ifs  map[ssa.Instruction]int
	kept map[*types.Var]bool // the recorder's fields that hold an earlier one
}

// picGaps are pairs of the picture id before and at a gap: ids have 15 bits, and wrap around.
var picGaps = [][2]int64{{100, 102}, {1, 4}, {500, 600}, {0x7ffe, 1}, {0x7fff, 2}, {0x7ff0, 0x10}, {0x7ffd, 0x7fff}, {255, 257}, {127, 140}, {1000, 1129}}

// folded replaces terms by constants.
func folded(t *Term, env map[*Term]*Term) *Term {
	if c := env[t]; c != nil {
		return c
	}
	if t.k == KConst || t == tTrue || t == tFalse {
		return t
	}
	if t.k == KZero && isInteger(t.typ) {
		return mkConst(constant.MakeInt64(0), t.typ)
	}
	if t.k != KOp || t.typ == nil {
		return nil
	}
	var as []*Term
	for _, a := range t.args {
		x := folded(a, env)
		if x == nil {
			return nil
		}
		as = append(as, x)
	}
	toks := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT}
	var r *Term
	switch {
	case len(as) == 1 && t.op == "not":
		r = mkNot(as[0])
	case len(as) == 1 && t.op == "conv" && isInteger(t.typ) && as[0].k == KConst && as[0].c.Kind() == constant.Int:
		r = mkConst(wrapInt(as[0].c, t.typ), t.typ)
	case len(as) == 2 && t.op == "eq":
		r = mkEq(as[0], as[1])
	case len(as) == 2 && t.op == "lt":
		r = mkLt(as[0], as[1])
	case len(as) == 2 && toks[t.op] != 0:
		r = binop(toks[t.op], as[0], as[1], t.typ, as[0].typ)
	}
	if r == nil || r.k != KConst && r != tTrue && r != tFalse {
		return nil
	}
	return r
}

// gapAccepted: the conditions on the picture id that hold on this path also hold at a gap.
func (m *recModel) gapAccepted(s *State, kept map[*types.Var]bool) (from, to int64, ok bool) {
	var conds []*Term
	var id *Term
	for k, v := range s.ghost {
		if strings.HasPrefix(k, "pc:") {
			conds = append(conds, v)
			if x := v.find(isPictureID); x != nil {
				if id != nil && id != x {
					return 0, 0, false
				}
				id = x
			}
		}
	}
	if id == nil {
		return 0, 0, false
	}
	for _, g := range picGaps {
		env := map[*Term]*Term{id: mkConst(constant.MakeInt64(g[1]), id.typ)}
		for _, f := range m.fields(s) {
			if kept[f.v] {
				env[m.entry(s, f)] = mkConst(constant.MakeInt64(g[0]), f.typ)
			}
		}
		all := true
		for _, c := range conds {
			all = all && folded(c, env) == tTrue
		}
		if all {
			return g[0], g[1], true
		}
	}
	return 0, 0, false
}

func isPictureID(t *Term) bool {
	if !t.isOp("init") || !t.args[0].isOp("field") {
		return false
	}
	f := t.args[0].ref.(*types.Var)
	return f.Name() == "PictureID" && f.Pkg() != nil && strings.HasSuffix(f.Pkg().Path(), "rtp/codecs")
}

func (m *recModel) pictureIDs() *picIDs {
	out := &picIDs{map[ssa.Instruction]int{}, map[*types.Var]bool{}}
	isPID := func(t types.Type, i int) bool {
		st := structType(t)
		if st == nil {
			if u, ok := t.Underlying().(*types.Struct); ok {
				st = u
			}
		}
		if st == nil {
			return false
		}
		f := st.Field(i)
		return f.Name() == "PictureID" && f.Pkg() != nil && strings.HasSuffix(f.Pkg().Path(), "rtp/codecs")
	}
	// fields that hold picture ids, parameters and results that do: 1 of the packet at hand,
	// 2 of an earlier one, kept by the recorder
	from := map[*types.Var]int{}
	params := map[*ssa.Parameter]int{}
	var dep func(v ssa.Value, seen map[ssa.Value]bool) int
	dep = func(v ssa.Value, seen map[ssa.Value]bool) int {
		if v == nil || seen[v] {
			return 0
		}
		seen[v] = true
		r := 0
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if isPID(x.X.Type(), x.Field) {
				return 1
			}
			if st := structType(x.X.Type()); st != nil {
				return from[st.Field(x.Field)]
			}
			return 0
		case *ssa.Field:
			if isPID(x.X.Type(), x.Field) {
				return 1
			}
			return 0
		case *ssa.Parameter:
			return params[x]
		case *ssa.Alloc:
			for _, y := range *x.Referrers() {
				if st, ok := y.(*ssa.Store); ok && st.Addr == x {
					r |= dep(st.Val, seen)
				}
			}
			return r
		case *ssa.Call:
			if g := x.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && m.p.isRepoFn(g) {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, o := range ret.Results {
							r |= dep(o, seen)
						}
					}
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				r |= dep(*o, seen)
			}
		}
		return r
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range m.p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok || !isInteger(x.Val.Type()) {
							continue
						}
						if d := dep(x.Val, map[ssa.Value]bool{}); d != 0 {
							d = 1
							if n := namedOf(fa.X.Type()); n != nil && types.Implements(types.NewPointer(n), m.iface.Underlying().(*types.Interface)) {
								d = 2
							}
							if f := structType(fa.X.Type()).Field(fa.Field); from[f]|d != from[f] {
								from[f] |= d
								changed = true
							}
						}
					case ssa.CallInstruction:
						if g := x.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && m.p.isRepoFn(g) {
							for i, a := range x.Common().Args {
								if i < len(g.Params) && isInteger(a.Type()) {
									if d := dep(a, map[ssa.Value]bool{}); params[g.Params[i]]|d != params[g.Params[i]] {
										params[g.Params[i]] |= d
										changed = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for v, d := range from {
		out.kept[v] = d&2 != 0
	}
	for _, fn := range m.p.Funcs {
		for _, b := range fn.Blocks {
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && dep(br.Cond, map[ssa.Value]bool{}) == 3 {
				out.ifs[br] = 2
			}
		}
	}
	for in := range out.ifs {
		if out.ifs[in] != 2 {
			continue
		}
		for b := in.Block().Idom(); b != nil; b = b.Idom() {
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if out.ifs[br] == 0 {
					out.ifs[br] = 1
				}
				break
			}
		}
	}
	return out
}

// gaps explores histories: a packet, the notice of a gap, and packets after the gap. The
// frame the gap is in must not be continued.
func (m *recModel) gaps() {
	c := m.c
	type step struct {
		st *State
		p0 *Term // the number of the packet before the gap
		f  *Term // the frame in progress then
		fr *recField
	}
	var next []*step
	cur := "0"
	seen := map[string]bool{}
	var seqOf func(s *State, p *Term) *Term
	seqOf = func(s *State, p *Term) *Term {
		st := structType(p.typ)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			f := st.Field(i)
			a := fieldAddr(p, st, i)
			if f.Name() == "SequenceNumber" {
				return s.load(a, f.Type())
			}
			if f.Embedded() {
				hs, _ := f.Type().Underlying().(*types.Struct)
				for j := 0; hs != nil && j < hs.NumFields(); j++ {
					if hs.Field(j).Name() == "SequenceNumber" {
						return s.load(fieldAddr(a, hs, j), hs.Field(j).Type())
					}
				}
			}
		}
		return nil
	}
	frameOf := func(s *State) *recField {
		for _, f := range m.fields(s) {
			if m.frame[f.v] {
				return f
			}
		}
		return nil
	}
	nonEmpty := func(s *State, f *Term) bool {
		return s.decideEq(f, tNil) != 1 && s.decideEq(mkLen(f), mkInt(0)) != 1
	}
	held := func(s *State) *Term { return s.g("gapframe") }
	gen := -1
	kept, dropped := 0, 0
	ev := &recEvents{
		store: func(e *Engine, s *State, f *recField, val *Term, in ssa.Instruction) {
			if h := held(s); !h.isNil() && m.frame[f.v] && !val.contains(h) {
				dropped++
				s.dead = true
			}
		},
		write: func(e *Engine, s *State, role string, f types.Object, ci *CallInfo) {
			if h := held(s); !h.isNil() && cur != "2" && cur != "c" && ci.arg(3).contains(h) {
				e.report(s, "gate", "gap|written", ci.site, "a frame is written although packets in the middle of it were lost, which the recorder has been told of")
			}
		},
		leave: func(e *Engine, s *State) {
			if inCtor(s) || s.root.data["method"] == nil || !m.snapped(s) {
				return
			}
			fr := frameOf(s)
			if fr == nil {
				return
			}
			if m.gen != gen {
				gen, next, seen = m.gen, nil, map[string]bool{}
			}
			f := s.load(fr.addr, fr.typ)
			if !nonEmpty(s, f) {
				return
			}
			n := s.clone()
			n.stack = nil
			n.locks = map[*Term]int{}
			for k := range n.ghost {
				if k == "locked" || k == "req" || k == "throttled" {
					delete(n.ghost, k)
				}
			}
			add := func(p0, h *Term) {
				n.setG("gapframe", h)
				for _, f := range []*Term{mkEq(h, tNil), mkEq(mkLen(h), mkInt(0)), mkNot(mkLt(mkInt(0), mkLen(h)))} {
					if !n.assume(f, false) {
						return
					}
					m.keep[f] = true
				}
				m.keep[mkLt(mkInt(0), mkLen(h))] = true
				n.setG("gapseq", p0)
				if k := n.canonical(); !seen[k] {
					seen[k] = true
					next = append(next, &step{st: n, p0: p0, f: h, fr: fr})
				}
			}
			switch cur {
			case "0":
				if s.root.data["method"] == "PushVideo" {
					if q := seqOf(s, s.root.args[1]); q != nil && f != m.entry(s, fr) {
						add(q, f)
					}
				}
			case "2":
				add(s.g("gapseq"), held(s))
			case "c":
				if f != held(s) {
					add(s.g("gapseq"), f)
				}
			default:
				if f != held(s) {
					e.report(s, "gate", "gap|continued", nil, "a frame is continued although packets in the middle of it were lost, which the recorder has been told of")
					return
				}
				kept++
				add(s.g("gapseq"), f)
			}
		},
	}
	m.needs("slices", "gate", "noivf", "seq")
	m.customOnly = true
	m.keep = map[*Term]bool{}
	e := m.run(ev)
	if !c.need(len(next) > 0, "frames in progress", "no way to have a frame in progress was found") {
		return
	}
	it := m.iface.Underlying().(*types.Interface)
	// the notice of the gap, a packet after the gap, or rather one before it, and another one after it
	var noticed, after []*step
	for _, k := range []string{"2", "3", "c", "4"} {
		cur = k
		steps := next
		switch k {
		case "3":
			noticed = next
		case "c":
			steps, after = noticed, next
		case "4":
			steps = append(after, next...)
		}
		next, seen = nil, map[string]bool{}
		var roots []*Root
		for _, x := range steps {
			name := "PushVideo"
			if k == "2" {
				name = "NotifySkippedPacket"
			}
			for _, in := range m.init {
				if in.obj != x.st.g("recv") {
					continue
				}
				for i := 0; i < it.NumMethods(); i++ {
					if it.Method(i).Name() != name {
						continue
					}
					fn := e.lookupMethod(in.typ, it.Method(i))
					if fn == nil {
						continue
					}
					fn = boundOf(m.p, fn)
					st := x.st.clone()
					a := fresh("param:"+fn.Params[1].Name(), fn.Params[1].Type())
					one := mkConst(mkInt(1).c, x.p0.typ)
					var q *Term
					if k == "2" {
						q = a
						st.assume(mkEq(q, x.p0), false)
						m.keep[mkEq(q, x.p0)] = true
						st.setG("gaplost", q)
					} else if q = seqOf(st, a); k == "c" && q != nil {
						t := x.p0.typ
						if !st.assume(mkEq(q, binop(token.ADD, x.p0, one, t, t)), true) {
							continue
						}
						for _, f := range []*Term{
							mkEq(q, binop(token.ADD, one, x.p0, t, t)), mkEq(binop(token.SUB, q, one, t, t), x.p0), mkEq(binop(token.SUB, q, x.p0, t, t), one),
						} {
							st.assume(f, true)
							m.keep[f] = true
						}
						m.keep[mkEq(q, binop(token.ADD, x.p0, one, t, t))] = true
						st.setG("gapseq", q)
					} else if q != nil {
						// not the one after the last one
						t := x.p0.typ
						for _, f := range []*Term{
							mkEq(q, binop(token.ADD, x.p0, one, t, t)), mkEq(q, binop(token.ADD, one, x.p0, t, t)),
							mkEq(binop(token.SUB, q, one, t, t), x.p0), mkEq(binop(token.SUB, q, x.p0, t, t), one),
						} {
							st.assume(f, false)
							m.keep[f] = true
						}
					}
					r := e.NewRoot(name, fn, []*Term{in.obj, a}, st)
					r.data = map[string]any{"method": name}
					r.nonNil[a] = true
					roots = append(roots, r)
				}
				break
			}
		}
		e.Explore(roots)
		if e.debug {
			fmt.Println("STEP", k, len(steps), len(roots), len(next), dropped)
		}
		for _, v := range e.viol {
			c.add(v)
		}
		c.count["histories, step "+k] = len(roots)
		if len(roots) == 0 {
			break
		}
	}
	c.count["frames dropped after a gap"] = dropped
	if e.truncated {
		c.fail("bound", "analysis", "the analysis of histories did not finish within its bounds")
	}
}

// ---- C20 ----

// nonNegative: the term cannot be negative.
func (m *recModel) nonNegative(s *State, t *Term, d int) bool {
	if t == nil || d > 12 {
		return false
	}
	if i, ok := t.int64(); ok {
		return i >= 0
	}
	if t.isConst() {
		return (t.c.Kind() == constant.Float || t.c.Kind() == constant.Int) && constant.Sign(t.c) >= 0
	}
	if t.typ != nil && isUnsigned(t.typ) {
		return true
	}
	if isInteger2(t.typ) {
		if lo, _ := s.bounds(t); lo >= 0 {
			return true
		}
	}
	switch t.op {
	case "conv":
		if t.args[0].typ != nil && isInteger(t.args[0].typ) && t.typ != nil && isInteger(t.typ) && isUnsigned(t.args[0].typ) && intBits(t.args[0].typ) >= intBits(t.typ) {
			return false // may wrap to negative
		}
		return m.nonNegative(s, t.args[0], d+1)
	case "*", "/", "+":
		return m.nonNegative(s, t.args[0], d+1) && m.nonNegative(s, t.args[1], d+1)
	case "%", "&", ">>":
		return m.nonNegative(s, t.args[0], d+1)
	case "max":
		return m.nonNegative(s, t.args[0], d+1) || m.nonNegative(s, t.args[1], d+1)
	case "init":
		// the duration of a sample is the time since the one before it
		if a := t.args[0]; a.isOp("field") && a.ref.(*types.Var).Name() == "Duration" && a.args[0].typ != nil {
			if n := namedOf(a.args[0].typ); n != nil && n.Obj().Name() == "Sample" {
				return true
			}
		}
	}
	if callTo(t, "time.Duration.Truncate", "time.Duration.Round", "math.Round", "math.Floor", "math.Trunc", "time.Duration.Abs") {
		return m.nonNegative(s, t.args[0], d+1)
	}
	return false
}

func isInteger2(t types.Type) bool { return t != nil && isInteger(t) }

// advanced: n is old plus something that is not negative.
func (m *recModel) advanced(s *State, n, old *Term) bool {
	if n == old {
		return true
	}
	if n.isOp("+") {
		for i := 0; i < 2; i++ {
			if m.advanced(s, n.args[i], old) && m.nonNegative(s, n.args[1-i], 0) {
				return true
			}
		}
	}
	if n.isOp("max") && (m.advanced(s, n.args[0], old) || m.advanced(s, n.args[1], old)) {
		return true
	}
	if isInteger2(n.typ) && s.decideLt(n, old) == -1 {
		return true
	}
	return false
}

// millis: t is x in whole milliseconds.
func millis(t *Term) *Term {
	for t.isOp("conv") {
		t = t.args[0]
	}
	if t.isOp("/") {
		if i, ok := t.args[1].int64(); ok && i == 1_000_000 {
			return t.args[0]
		}
	}
	if callTo(t, "time.Duration.Milliseconds") {
		return t.args[0]
	}
	return nil
}

func checkForward(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "at each write of a block the time argument is the track's stored media time in milliseconds; every store to that field adds something that cannot be negative to what it held, and happens only on paths that write; the getters return it"
	writes, stores, getters := 0, 0, 0
	for _, o := range []string{"VideoTimestamp", "AudioTimestamp"} {
		c.need(hasMethod(m.iface, o), o, "method %s not found in the Recorder interface", o)
	}
	m.needs("ts", "noivf")
	m.run(&recEvents{
		enter: func(e *Engine, s *State) {
			for k := range s.ghost {
				if strings.HasPrefix(k, "ts:") {
					delete(s.ghost, k)
				}
			}
		},
		write: func(e *Engine, s *State, role string, f types.Object, ci *CallInfo) {
			if role == "" {
				e.report(s, "role", m.where(s), ci.site, "a block is written to a writer that is neither the audio nor the video writer")
				return
			}
			writes++
			x := millis(ci.arg(2))
			if x == nil {
				e.report(s, "unit", m.where(s), ci.site, "the time of the block, %s, is not a duration in milliseconds", ci.arg(2))
				return
			}
			for _, f := range m.fields(s) {
				if f.v == m.lastTs[role] {
					if s.load(f.addr, f.typ) != x {
						e.report(s, "stored", m.where(s), ci.site, "the block is written with %s, but the %s time reported is %s", x, role, s.load(f.addr, f.typ))
					}
					s.setB("ts:w"+role, true)
				}
			}
		},
		store: func(e *Engine, s *State, f *recField, val *Term, in ssa.Instruction) {
			for role, v := range m.lastTs {
				if v != f.v || inCtor(s) {
					continue
				}
				stores++
				old := s.load(f.addr, f.typ)
				if !m.advanced(s, val, old) {
					e.report(s, "forward", m.where(s)+"|"+role, in, "the %s time becomes %s, which may be smaller than it was (%s)", role, val, old)
				}
				if old != val {
					s.setB("ts:s"+role, true)
				}
			}
		},
		leave: func(e *Engine, s *State) {
			if inCtor(s) || s.top().panicking {
				return
			}
			for role := range m.lastTs {
				if s.gBool("ts:s"+role) && !s.gBool("ts:w"+role) {
					e.report(s, "unwritten", m.where(s)+"|"+role, nil, "the %s time advances in %s without a block being written", role, m.where(s))
				}
			}
		},
		exit: func(e *Engine, s *State, kind string, res *Term) {
			if kind != "return" || inCtor(s) {
				return
			}
			role := map[string]string{"VideoTimestamp": "video", "AudioTimestamp": "audio"}[m.rootMeth(s)]
			if role == "" {
				return
			}
			getters++
			for _, f := range m.fields(s) {
				if m.entry(s, f) == res && res.isOp("init") {
					if m.lastTs[role] != f.v {
						m.lastTs[role] = f.v
						m.gen++
					}
					return
				}
			}
			e.report(s, "getter", m.rootMeth(s), nil, "%s returns %s, which is no field of the recorder", m.rootMeth(s), res)
		},
	})
	c.assume = append(c.assume, "the duration of a sample of the samplebuilder library is not negative")
	c.count["writes"], c.count["stores"], c.count["getters"] = writes, stores, getters
	c.need(writes >= 2 && stores >= 2 && getters >= 2, "instances", "%d writes, %d stores and %d getters found", writes, stores, getters)
	c.need(m.lastTs["audio"] != m.lastTs["video"], "fields", "audio and video time are the same field")
}

func hasMethod(n *types.Named, name string) bool {
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

// ---- C22 ----

func checkTracks(c *Ctx) {
	c.adapterTracks()
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "the writer fields written by PushVideo and PushAudio are disjoint; where the container is opened, each of them is given the writer of the track entry declared with its codec"
	want := map[string]string{"video": "V_VP8", "audio": "A_OPUS"}
	writes, sets := 0, 0
	m.needs("tracks", "noivf")
	m.run(&recEvents{
		write: func(e *Engine, s *State, role string, f types.Object, ci *CallInfo) {
			writes++
			if r := rootRole(m.rootMeth(s)); role != r {
				e.report(s, "sink", m.rootMeth(s), ci.site, "%s writes to the %s writer", m.rootMeth(s), role)
			}
		},
		store: func(e *Engine, s *State, f *recField, val *Term, in ssa.Instruction) {
			if !isBlockWriter(f.typ) || inCtor(s) || val.isNil() {
				return
			}
			role := m.roles[f.v]
			if role == "" {
				return
			}
			sets++
			i, ok := int64(-1), false
			if val.isOp("init") && val.args[0].isOp("index") && val.args[0].args[0] == s.g("writers") {
				i, ok = val.args[0].args[1].int64()
			}
			if !ok {
				e.report(s, "writer", role, in, "the %s writer becomes %s, which is not known to be the writer of a declared track", role, val)
				return
			}
			tr := s.g("tracks")
			el := elemOf(tr, mkInt(i))
			if el == nil && tr.typ != nil {
				if sl, ok := tr.typ.Underlying().(*types.Slice); ok {
					el = s.load(indexAddr(tr, mkInt(i), sl.Elem()), sl.Elem())
				}
			}
			codec := "?"
			if el != nil && el.typ != nil {
				if st, ok := el.typ.Underlying().(*types.Struct); ok {
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j).Name() == "CodecID" {
							if x, ok := fieldOf(el, st, j).str(); ok {
								codec = x
							}
						}
					}
				}
			}
			c.sample("%s writer is track %d (%s)", role, i, codec)
			if codec != want[role] {
				e.report(s, "codec", role, in, "the %s writer is that of the track declared as %s", role, codec)
			}
		},
	})
	c.count["block writes"], c.count["writer assignments"] = writes, sets
	roles := map[string]bool{}
	for _, r := range m.roles {
		roles[r] = true
	}
	c.need(roles["audio"] && roles["video"] && sets >= 2, "writers", "found writers for %v and %d assignments", roles, sets)
}

// ---- C36 ----

func checkDiskErrors(c *Ctx) {
	m := c.recorder()
	if m == nil {
		return
	}
	c.explain = "no method of the recorder ends in a panic or the end of the process on any path, whichever library calls fail; what the container library is given to write to never returns an error from Write, since the library panics on one in a goroutine of its own"
	ends, containers, uses := 0, 0, 0
	missing := func(e *Engine, s *State, w *Term, ci *CallInfo) {
		uses++
		if s.decideEq(w, tNil) != -1 {
			e.report(s, "panic", m.rootMeth(s)+"|missing", ci.site, "%s uses a writer of the container that there may be none of, e.g. because the container could not be started: it panics", m.rootMeth(s))
		}
	}
	sinks := map[types.Type]ssa.Instruction{}
	m.run(&recEvents{
		exit: func(e *Engine, s *State, kind string, res *Term) {
			if inCtor(s) {
				return
			}
			ends++
			switch kind {
			case "panic":
				e.report(s, "panic", m.rootMeth(s), nil, "%s can end in a panic with %s", m.rootMeth(s), res)
			case "exit", "goexit":
				e.report(s, "exit", m.rootMeth(s), nil, "%s ends the process or the goroutine", m.rootMeth(s))
			}
		},
		call: func(e *Engine, s *State, ci *CallInfo) {
			if methName(ci) != "NewSimpleBlockWriter" || len(ci.args) == 0 {
				return
			}
			containers++
			w := ci.arg(0)
			if !w.isOp("iface") {
				e.report(s, "container", m.where(s), ci.site, "what the container is written to is not known: its errors may end the process")
				return
			}
			sinks[w.ref.(types.Type)] = ci.site
		},
		write: func(e *Engine, s *State, role string, f types.Object, ci *CallInfo) { missing(e, s, ci.arg(0), ci) },
		close: func(e *Engine, s *State, x *Term, ci *CallInfo) {
			if x.typ != nil && isBlockWriter(x.typ) {
				missing(e, s, x, ci)
			}
		},
		index: func(e *Engine, s *State, base, idx *Term, in ssa.Instruction, slice bool) {
			if !inCtor(s) && !slice && s.decideEq(base, tNil) == 1 {
				e.report(s, "panic", m.rootMeth(s)+"|index", in, "%s looks into the results of a call that failed, which panics", m.rootMeth(s))
			}
		},
	})
	c.count["ends of methods"], c.count["containers opened"], c.count["uses of writers"] = ends, containers, uses
	c.need(uses > 0, "writers", "the writers of the container are not used")
	if !c.need(containers > 0, "container", "no container is opened") {
		return
	}
	for t, site := range sinks {
		sel := m.p.SSA.MethodSets.MethodSet(t).Lookup(nil, "Write")
		var fn *ssa.Function
		if sel != nil {
			fn = m.p.SSA.MethodValue(sel)
		}
		if fn == nil || fn.Blocks == nil || namedOf(t) == nil || !m.p.isRepoPkg(namedOf(t).Obj().Pkg()) {
			c.fail("container", "raw", "%s: the container is written to a %s, whose errors make the container library panic in a goroutine of its own", m.p.pos(site.Pos()), t)
			continue
		}
		n := 0
		e := c.engine(&Hooks{Inline: m.inlinable})
		e.h.Exit = func(e *Engine, s *State, kind string, res *Term) {
			n++
			if kind != "return" {
				e.report(s, "container", "write|"+kind, nil, "writing the container ends with %s", kind)
			} else if s.decideEq(tupleAt(res, 1, nil), tNil) != 1 {
				e.report(s, "container", "write|error", nil, "writing the container may return the error %s, which makes the container library panic in a goroutine of its own", tupleAt(res, 1, nil))
			}
		}
		st := e.newState()
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, fresh("param:"+p.Name(), p.Type()))
		}
		r := e.NewRoot("Write", fn, args, st)
		r.nonNil[args[0]] = true
		e.Explore([]*Root{r})
		for _, v := range e.viol {
			c.add(v)
		}
		c.need(n > 0, "write", "no end of %s found", fn)
		c.count["ends of the container's Write"] = n
	}
}
