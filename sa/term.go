package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KConst Kind = iota
	KNil
	KZero   // zero value of a composite type
	KObj    // an allocated object (the term is its address)
	KSym    // an unknown value
	KOp     // operator applied to arguments
	KFunc   // function value
	KGlobal // address of a package variable
)

// Term is a value number: an interned description of a value.
type Term struct {
	id    int
	k     Kind
	op    string
	typ   types.Type
	args  []*Term
	c     constant.Value
	ref   any
	n     int // instance (objects, symbols), epoch (init), field index
	depth int
	root  *Term
}

var (
	internTab  = map[string]*Term{}
	refIDs     = map[any]int{}
	typeIDs    typeutil.Map
	nTypeIDs   int
	freshCount int
)

func refID(r any) int {
	if r == nil {
		return 0
	}
	if t, ok := r.(types.Type); ok {
		return typeID(t)
	}
	if id, ok := refIDs[r]; ok {
		return id
	}
	id := len(refIDs) + 1
	refIDs[r] = id
	return id
}

func typeID(t types.Type) int {
	if v := typeIDs.At(t); v != nil {
		return v.(int)
	}
	nTypeIDs++
	typeIDs.Set(t, nTypeIDs)
	return nTypeIDs
}

func intern(k Kind, op string, typ types.Type, ref any, n int, c constant.Value, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('a' + k))
	b.WriteString(op)
	b.WriteByte('|')
	if ref != nil {
		if _, ok := ref.(types.Type); ok {
			b.WriteByte('t')
		}
		b.WriteString(strconv.Itoa(refID(ref)))
	}
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(n))
	if c != nil {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(int(c.Kind())))
		b.WriteByte(':')
		b.WriteString(c.ExactString())
	}
	d := 0
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if a.depth > d {
			d = a.depth
		}
	}
	key := b.String()
	if t, ok := internTab[key]; ok {
		return t
	}
	t := &Term{id: len(internTab) + 1, k: k, op: op, typ: typ, ref: ref, n: n, c: c, args: args, depth: d + 1}
	internTab[key] = t
	return t
}

func mkConst(c constant.Value, t types.Type) *Term {
	if c == nil {
		return tNil
	}
	if c.Kind() == constant.Float {
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				c = i
			}
		}
	}
	return intern(KConst, "", t, nil, 0, c)
}

var (
	tNil   = intern(KNil, "nil", nil, nil, 0, nil)
	tTrue  = intern(KConst, "", types.Typ[types.Bool], nil, 0, constant.MakeBool(true))
	tFalse = intern(KConst, "", types.Typ[types.Bool], nil, 0, constant.MakeBool(false))
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkInt(i int64) *Term {
	return intern(KConst, "", types.Typ[types.Int], nil, 0, constant.MakeInt64(i))
}
func mkStr(s string) *Term {
	return intern(KConst, "", types.Typ[types.String], nil, 0, constant.MakeString(s))
}

// fresh makes a new unknown value; args are what it was computed from.
func fresh(op string, t types.Type, args ...*Term) *Term {
	freshCount++
	// arguments are provenance only: keep them shallow
	var as []*Term
	for _, a := range args {
		if a != nil && a.depth <= 10 {
			as = append(as, a)
		} else {
			as = append(as, intern(KSym, "deep", nil, nil, 0, nil))
		}
	}
	return intern(KSym, op, t, nil, freshCount, nil, as...)
}

func mkObj(site any, t types.Type) *Term {
	freshCount++
	return intern(KObj, "", t, site, freshCount, nil)
}

const maxDepth = 16

func mkOp(op string, t types.Type, args ...*Term) *Term {
	return mkOpRef(op, t, nil, 0, args...)
}

func mkOpRef(op string, t types.Type, ref any, n int, args ...*Term) *Term {
	for _, a := range args {
		if a.depth > maxDepth {
			return fresh("deep:"+op, t)
		}
	}
	return intern(KOp, op, t, ref, n, nil, args...)
}

func (t *Term) isOp(op string) bool { return t.k == KOp && t.op == op }
func (t *Term) isConst() bool       { return t.k == KConst }
func (t *Term) isNil() bool         { return t.k == KNil }

func (t *Term) int64() (int64, bool) {
	if t.k == KConst && t.c.Kind() == constant.Int {
		return constant.Int64Val(t.c)
	}
	return 0, false
}

func (t *Term) str() (string, bool) {
	if t.k == KConst && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}

// rootOf is the object an address belongs to.
func rootOf(a *Term) *Term {
	for a.k == KOp {
		switch a.op {
		case "field", "index", "mapcell", "slice":
			a = a.args[0]
			continue
		}
		break
	}
	return a
}

func zeroOf(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return tNil
	case *types.Struct, *types.Array:
		return intern(KZero, "zero", t, t, 0, nil)
	case *types.Tuple:
		var as []*Term
		for i := 0; i < u.Len(); i++ {
			as = append(as, zeroOf(u.At(i).Type()))
		}
		return mkOp("tuple", t, as...)
	}
	return tNil
}

// fieldAddr is the address of field i of the struct at base.
func fieldAddr(base *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	return mkOpRef("field", types.NewPointer(f.Type()), f, i, base)
}

func indexAddr(base, idx *Term, elem types.Type) *Term {
	// &x[lo:hi][i] is &x[lo+i]
	if base.isOp("slice") {
		if lo, ok := base.args[1].int64(); ok {
			if i, ok := idx.int64(); ok {
				return indexAddr(base.args[0], mkInt(lo+i), elem)
			}
			if lo == 0 {
				return indexAddr(base.args[0], idx, elem)
			}
		}
	}
	return mkOp("index", types.NewPointer(elem), base, idx)
}

// fieldOf is field i of a struct value.
func fieldOf(v *Term, st *types.Struct, i int) *Term {
	ft := st.Field(i).Type()
	switch {
	case v.isOp("struct"):
		return v.args[i]
	case v.k == KZero:
		return zeroOf(ft)
	case v.isOp("init"):
		return intern(KOp, "init", ft, nil, v.n, nil, fieldAddr(v.args[0], st, i))
	}
	return mkOpRef("fieldval", ft, st.Field(i), i, v)
}

// tupleAt is component i of a tuple.
func tupleAt(v *Term, i int, t types.Type) *Term {
	if v.isOp("tuple") && i < len(v.args) {
		return v.args[i]
	}
	return mkOpRef("extract", t, nil, i, v)
}

func mkIface(dyn types.Type, v *Term, t types.Type) *Term {
	return mkOpRef("iface", t, dyn, 0, v)
}

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 6 {
		return "…"
	}
	arg := func(i int) string { return t.args[i].show(d + 1) }
	switch t.k {
	case KConst:
		return t.c.String()
	case KNil:
		return "nil"
	case KZero:
		return "zero(" + types.TypeString(t.typ, shortQual) + ")"
	case KObj:
		n := "obj"
		if t.typ != nil {
			n = "&" + types.TypeString(deref(t.typ), shortQual)
		}
		return fmt.Sprintf("%s#%d", n, t.n)
	case KSym:
		s := shortName(t.op)
		if len(t.args) > 0 && d < 4 {
			var as []string
			for i := range t.args {
				as = append(as, arg(i))
			}
			s += "(" + strings.Join(as, ", ") + ")"
		}
		return fmt.Sprintf("%s~%d", s, t.n)
	case KFunc:
		return shortName(t.ref.(*ssa.Function).String())
	case KGlobal:
		return "&" + shortName(t.ref.(*ssa.Global).String())
	}
	switch t.op {
	case "field":
		return arg(0) + "." + t.ref.(*types.Var).Name()
	case "fieldval":
		return arg(0) + "." + t.ref.(*types.Var).Name()
	case "index", "indexval":
		return arg(0) + "[" + arg(1) + "]"
	case "init":
		if t.n != 0 {
			return fmt.Sprintf("*%s@%d", arg(0), t.n)
		}
		return "*" + arg(0)
	case "iface":
		return fmt.Sprintf("%s(%s)", types.TypeString(t.ref.(types.Type), shortQual), arg(0))
	case "closure":
		return "closure " + shortName(t.ref.(*ssa.Function).String())
	}
	var as []string
	for i := range t.args {
		as = append(as, arg(i))
	}
	op := t.op
	if t.ref != nil {
		if ty, ok := t.ref.(types.Type); ok {
			op += "<" + types.TypeString(ty, shortQual) + ">"
		}
	}
	return op + "(" + strings.Join(as, ", ") + ")"
}

func shortQual(p *types.Package) string { return p.Name() }

// contains tells whether x occurs in t.
func (t *Term) contains(x *Term) bool { return t.find(func(u *Term) bool { return u == x }) != nil }

func (t *Term) find(pred func(*Term) bool) *Term {
	seen := map[*Term]bool{}
	var rec func(u *Term) *Term
	rec = func(u *Term) *Term {
		if seen[u] {
			return nil
		}
		seen[u] = true
		if pred(u) {
			return u
		}
		for _, a := range u.args {
			if r := rec(a); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t)
}

// ---- arithmetic ----

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// binop folds and normalises a binary operation. Comparisons are reduced to
// "eq" and "lt" possibly under "not".
func binop(op token.Token, x, y *Term, t types.Type, opnd types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(x, y)
	case token.NEQ:
		return mkNot(mkEq(x, y))
	case token.LSS:
		return mkLt(x, y)
	case token.GTR:
		return mkLt(y, x)
	case token.LEQ:
		return mkNot(mkLt(y, x))
	case token.GEQ:
		return mkNot(mkLt(x, y))
	}
	if x.k == KConst && y.k == KConst {
		if r := foldConst(op, x, y, t); r != nil {
			return r
		}
	}
	switch op {
	case token.ADD:
		if isString(t) {
			if s, ok := x.str(); ok && s == "" {
				return y
			}
			if s, ok := y.str(); ok && s == "" {
				return x
			}
			return mkOp("cat", t, x, y)
		}
		if isInteger(t) {
			if i, ok := y.int64(); ok && i == 0 {
				return x
			}
			if i, ok := x.int64(); ok {
				if i == 0 {
					return y
				}
				x, y = y, x // constants to the right
			}
			// (a + c1) + c2
			if c2, ok := y.int64(); ok && x.isOp("+") && x.ref == nil && arithRef(t) == nil {
				if c1, ok := x.args[1].int64(); ok {
					return binop(token.ADD, x.args[0], mkConst(constant.MakeInt64(c1+c2), t), t, t)
				}
			}
			if !y.isConst() && x.id > y.id {
				x, y = y, x
			}
		}
		return mkOpRef("+", t, arithRef(t), 0, x, y)
	case token.SUB:
		if isInteger(t) {
			if i, ok := y.int64(); ok {
				if i == 0 {
					return x
				}
				if arithRef(t) == nil {
					return binop(token.ADD, x, mkConst(constant.MakeInt64(-i), t), t, t)
				}
			}
			if x == y {
				return mkConst(constant.MakeInt64(0), t)
			}
		}
		return mkOpRef("-", t, arithRef(t), 0, x, y)
	case token.MUL:
		if isInteger(t) {
			if i, ok := x.int64(); ok {
				if i == 1 {
					return y
				}
				x, y = y, x
			} else if i, ok := y.int64(); ok && i == 1 {
				return x
			} else if x.id > y.id && !y.isConst() {
				x, y = y, x
			}
		}
		return mkOpRef("*", t, arithRef(t), 0, x, y)
	case token.QUO:
		return mkOpRef("/", t, arithRef(t), 0, x, y)
	case token.REM:
		return mkOpRef("%", t, arithRef(t), 0, x, y)
	case token.AND:
		if x.isConst() && !y.isConst() {
			x, y = y, x
		}
		return mkOp("&", t, x, y)
	}
	return mkOpRef(op.String(), t, arithRef(t), 0, x, y)
}

// arithRef distinguishes arithmetic of different widths: nil for 64 bit signed
// integers and everything that isn't a number.
func arithRef(t types.Type) any {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
		if b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 && intBits(t) == 64 {
			return nil
		}
		return types.Type(types.Typ[b.Kind()])
	}
	return nil
}

func foldConst(op token.Token, x, y *Term, t types.Type) (r *Term) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	var v constant.Value
	switch op {
	case token.SHL, token.SHR:
		n, ok := y.int64()
		if !ok || n < 0 || n > 200 {
			return nil
		}
		v = constant.Shift(x.c, op, uint(n))
	case token.QUO:
		if isInteger(t) {
			if n, ok := y.int64(); ok && n == 0 {
				return nil
			}
			v = constant.BinaryOp(x.c, token.QUO_ASSIGN, y.c)
		} else {
			v = constant.BinaryOp(x.c, op, y.c)
		}
	case token.REM:
		if n, ok := y.int64(); ok && n == 0 {
			return nil
		}
		v = constant.BinaryOp(x.c, op, y.c)
	default:
		v = constant.BinaryOp(x.c, op, y.c)
	}
	if v.Kind() == constant.Unknown {
		return nil
	}
	if isInteger(t) {
		v = wrapInt(v, t)
	}
	return mkConst(v, t)
}

func wrapInt(v constant.Value, t types.Type) constant.Value {
	bits := intBits(t)
	if v.Kind() != constant.Int {
		return v
	}
	m := constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits)), token.SUB, constant.MakeInt64(1))
	if isUnsigned(t) {
		if constant.Sign(v) < 0 || constant.Compare(v, token.GTR, m) {
			v = constant.BinaryOp(v, token.AND, m)
		}
		return v
	}
	if _, ok := constant.Int64Val(v); !ok || bits < 64 {
		h := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
		v = constant.BinaryOp(v, token.AND, m)
		if constant.Compare(v, token.GEQ, h) {
			v = constant.BinaryOp(v, token.SUB, constant.BinaryOp(h, token.ADD, h))
		}
	}
	return v
}

func mkNot(x *Term) *Term {
	switch {
	case x == tTrue:
		return tFalse
	case x == tFalse:
		return tTrue
	case x.isOp("not"):
		return x.args[0]
	}
	return mkOp("not", types.Typ[types.Bool], x)
}

func rank(t *Term) int {
	switch t.k {
	case KConst:
		return 3
	case KNil:
		return 2
	case KZero:
		return 1
	}
	return 0
}

func mkEq(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.k == KConst && y.k == KConst {
		if x.c.Kind() == y.c.Kind() {
			return mkBool(constant.Compare(x.c, token.EQL, y.c))
		}
		return tFalse
	}
	if rank(x) > rank(y) || (rank(x) == rank(y) && x.id > y.id) {
		x, y = y, x
	}
	if y.k == KConst && x.typ != nil && y.typ != nil && !types.Identical(x.typ, y.typ) {
		if _, ok := x.typ.Underlying().(*types.Basic); ok {
			y = mkConst(y.c, x.typ)
		}
	}
	if y.k == KConst && y.c.Kind() == constant.Bool {
		y = mkBool(constant.BoolVal(y.c))
	}
	if y == tTrue {
		return x
	}
	if y == tFalse {
		return mkNot(x)
	}
	return mkOp("eq", types.Typ[types.Bool], x, y)
}

func mkLt(x, y *Term) *Term {
	if x == y {
		return tFalse
	}
	if x.k == KConst && y.k == KConst {
		return mkBool(constant.Compare(x.c, token.LSS, y.c))
	}
	return mkOp("lt", types.Typ[types.Bool], x, y)
}

func (t *Term) Type() types.Type { return t.typ }

func binopAdd(x, y *Term, t types.Type) *Term { return binop(token.ADD, x, y, t, t) }
func subInt(x, y *Term) *Term {
	return binop(token.SUB, x, y, types.Typ[types.Int], types.Typ[types.Int])
}
