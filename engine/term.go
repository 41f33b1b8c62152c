package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term operator. Width 0 means Bool, otherwise a bit-vector of that width.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OExtract // val = lo
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr"}

// Term is a hash-consed SMT term.
type Term struct {
	op   Op
	w    uint8
	val  uint64
	a    [3]*Term
	name string
	id   int
	vars []*Term // sorted by id, distinct variables below this term
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int
	name    string
}

var termTab = map[termKey]*Term{}
var termCount int

func mk(op Op, w uint8, val uint64, name string, a, b, c *Term) *Term {
	k := termKey{op: op, w: w, val: val, name: name}
	if a != nil {
		k.a = a.id
	}
	if b != nil {
		k.b = b.id
	}
	if c != nil {
		k.c = c.id
	}
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{op: op, w: w, val: val, name: name, id: termCount, a: [3]*Term{a, b, c}}
	if op == OVar {
		t.vars = []*Term{t}
	} else {
		for _, x := range t.a {
			if x != nil {
				t.vars = mergeVars(t.vars, x.vars)
			}
		}
	}
	termTab[k] = t
	return t
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 || &a[0] == &b[0] && len(a) == len(b) {
		return a
	}
	r := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].id < b[j].id:
			r = append(r, a[i])
			i++
		case a[i].id > b[j].id:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}
func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

var tTrue = mk(OConst, 0, 1, "", nil, nil, nil)
var tFalse = mk(OConst, 0, 0, "", nil, nil, nil)

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func tConst(v uint64, w uint8) *Term { return mk(OConst, w, v&mask(w), "", nil, nil, nil) }
func tVar(name string, w uint8) *Term {
	return mk(OVar, w, 0, name, nil, nil, nil)
}
func (t *Term) isConst() bool { return t.op == OConst }

func tNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return tBool(a.val == 0)
	case ONot:
		return a.a[0]
	case OUlt:
		return tUle(a.a[1], a.a[0])
	case OUle:
		return tUlt(a.a[1], a.a[0])
	case OSlt:
		return tSle(a.a[1], a.a[0])
	case OSle:
		return tSlt(a.a[1], a.a[0])
	}
	return mk(ONot, 0, 0, "", a, nil, nil)
}
func tAnd(a, b *Term) *Term {
	if a == tFalse || b == tFalse {
		return tFalse
	}
	if a == tTrue {
		return b
	}
	if b == tTrue || a == b {
		return a
	}
	if a == tNot(b) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OAnd, 0, 0, "", a, b, nil)
}
func tOr(a, b *Term) *Term {
	if a == tTrue || b == tTrue {
		return tTrue
	}
	if a == tFalse {
		return b
	}
	if b == tFalse || a == b {
		return a
	}
	if a == tNot(b) {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OOr, 0, 0, "", a, b, nil)
}
func tIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.w == 0 {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
	}
	if c.op == ONot {
		return tIte(c.a[0], b, a)
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.w, 0, "", c, a, b)
}
func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tBool(a.val == b.val)
	}
	if a.w == 0 {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.val > mask(a.a[0].w) {
				return tFalse
			}
			return tEq(a.a[0], tConst(b.val, a.a[0].w))
		case OSExt:
			x := tConst(b.val, a.a[0].w)
			if uint64(sx(x.val, x.w))&mask(a.w) != b.val {
				return tFalse
			}
			return tEq(a.a[0], x)
		case OIte:
			if a.a[1].isConst() && a.a[2].isConst() {
				return tIte(a.a[0], tBool(a.a[1].val == b.val), tBool(a.a[2].val == b.val))
			}
			if a.a[1].isConst() || a.a[2].isConst() {
				return tIte(a.a[0], tEq(a.a[1], b), tEq(a.a[2], b))
			}
		case OAdd:
			if a.a[1].isConst() {
				return tEq(a.a[0], tConst(b.val-a.a[1].val, a.w))
			}
		case OSub:
			if a.a[1].isConst() {
				return tEq(a.a[0], tConst(b.val+a.a[1].val, a.w))
			}
		}
		return mk(OEq, 0, 0, "", a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, 0, 0, "", a, b, nil)
}

func tUlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tBool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		if a.op == OZExt {
			if b.val > mask(a.a[0].w) {
				return tTrue
			}
			return tUlt(a.a[0], tConst(b.val, a.a[0].w))
		}
	}
	if a.isConst() {
		if a.val == mask(a.w) {
			return tFalse
		}
		if b.op == OZExt {
			if a.val >= mask(b.a[0].w) {
				return tFalse
			}
			return tUlt(tConst(a.val, b.a[0].w), b.a[0])
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return tUlt(a.a[0], b.a[0])
	}
	return mk(OUlt, 0, 0, "", a, b, nil)
}
func tUle(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tBool(a.val <= b.val)
	}
	if b.isConst() {
		if b.val == mask(a.w) {
			return tTrue
		}
		if a.op == OZExt {
			if b.val >= mask(a.a[0].w) {
				return tTrue
			}
			return tUle(a.a[0], tConst(b.val, a.a[0].w))
		}
	}
	if a.isConst() {
		if a.val == 0 {
			return tTrue
		}
		if b.op == OZExt {
			if a.val > mask(b.a[0].w) {
				return tFalse
			}
			return tUle(tConst(a.val, b.a[0].w), b.a[0])
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return tUle(a.a[0], b.a[0])
	}
	return mk(OUle, 0, 0, "", a, b, nil)
}
func nonNeg(t *Term) bool {
	if t.op == OConst {
		return sx(t.val, t.w) >= 0
	}
	if t.op == OZExt && t.a[0].w < t.w {
		return true
	}
	if t.op == OIte {
		return nonNeg(t.a[1]) && nonNeg(t.a[2])
	}
	return false
}
func tSlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tBool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if nonNeg(a) && nonNeg(b) {
		return tUlt(a, b)
	}
	if nonNeg(a) && b.isConst() { // b negative
		return tFalse
	}
	if nonNeg(b) && a.isConst() {
		return tTrue
	}
	return mk(OSlt, 0, 0, "", a, b, nil)
}
func tSle(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tBool(sx(a.val, a.w) <= sx(b.val, b.w))
	}
	if nonNeg(a) && nonNeg(b) {
		return tUle(a, b)
	}
	if nonNeg(a) && b.isConst() {
		return tFalse
	}
	if nonNeg(b) && a.isConst() {
		return tTrue
	}
	return mk(OSle, 0, 0, "", a, b, nil)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("evalBin")
}

func tBin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("tBin width %v %v %v", op, a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tConst(evalBin(op, w, a.val, b.val), w)
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OAdd:
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return tBin(OAdd, a.a[0], tConst(a.a[1].val+b.val, w))
			}
		case OSub:
			if b.val == 0 {
				return a
			}
			return tBin(OAdd, a, tConst(-b.val, w))
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if bits.OnesCount64(b.val) == 1 {
				return tBin(OShl, a, tConst(uint64(bits.TrailingZeros64(b.val)), w))
			}
		case OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZExt && b.val&mask(a.a[0].w) == mask(a.a[0].w) {
				return a
			}
		case OBOr, OBXor, OShl, OLShr, OAShr:
			if b.val == 0 {
				return a
			}
			if (op == OShl || op == OLShr) && b.val >= uint64(w) {
				return tConst(0, w)
			}
			if op == OLShr && a.op == OZExt && b.val >= uint64(a.a[0].w) {
				return tConst(0, w)
			}
		}
	}
	if a.isConst() && a.val == 0 {
		switch op {
		case OShl, OLShr, OAShr:
			return a
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return tConst(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	return mk(op, w, 0, "", a, b, nil)
}
func tNeg(a *Term) *Term {
	if a.isConst() {
		return tConst(-a.val, a.w)
	}
	return mk(ONeg, a.w, 0, "", a, nil, nil)
}
func tBNot(a *Term) *Term {
	if a.isConst() {
		return tConst(^a.val, a.w)
	}
	return mk(OBNot, a.w, 0, "", a, nil, nil)
}
func tZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tExtract(a, w)
	}
	if a.isConst() {
		return tConst(a.val, w)
	}
	if a.op == OZExt {
		return tZExt(a.a[0], w)
	}
	if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
		return tIte(a.a[0], tZExt(a.a[1], w), tZExt(a.a[2], w))
	}
	return mk(OZExt, w, 0, "", a, nil, nil)
}
func tSExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tExtract(a, w)
	}
	if a.isConst() {
		return tConst(uint64(sx(a.val, a.w)), w)
	}
	if a.op == OZExt {
		return tZExt(a.a[0], w)
	}
	return mk(OSExt, w, 0, "", a, nil, nil)
}

// tExtract takes the low w bits.
func tExtract(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tConst(a.val, w)
	}
	switch a.op {
	case OZExt, OSExt:
		if a.a[0].w == w {
			return a.a[0]
		}
		if a.a[0].w > w {
			return tExtract(a.a[0], w)
		}
		if a.op == OZExt {
			return tZExt(a.a[0], w)
		}
		return tSExt(a.a[0], w)
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
		return tBin(a.op, tExtract(a.a[0], w), tExtract(a.a[1], w))
	case OIte:
		return tIte(a.a[0], tExtract(a.a[1], w), tExtract(a.a[2], w))
	}
	return mk(OExtract, w, 0, "", a, nil, nil)
}

// Model maps variables to values; missing variables are 0.
type Model map[*Term]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func (t *Term) eval(m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	e := evaluator{m: m}
	return e.ev(t)
}
func (e *evaluator) ev(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m[t]
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	var r uint64
	a := t.a
	switch t.op {
	case ONot:
		r = 1 - e.ev(a[0])
	case OAnd:
		if e.ev(a[0]) != 0 {
			r = e.ev(a[1])
		}
	case OOr:
		if e.ev(a[0]) != 0 {
			r = 1
		} else {
			r = e.ev(a[1])
		}
	case OIte:
		if e.ev(a[0]) != 0 {
			r = e.ev(a[1])
		} else {
			r = e.ev(a[2])
		}
	case OEq:
		r = b2u(e.ev(a[0]) == e.ev(a[1]))
	case OUlt:
		r = b2u(e.ev(a[0]) < e.ev(a[1]))
	case OUle:
		r = b2u(e.ev(a[0]) <= e.ev(a[1]))
	case OSlt:
		r = b2u(sx(e.ev(a[0]), a[0].w) < sx(e.ev(a[1]), a[1].w))
	case OSle:
		r = b2u(sx(e.ev(a[0]), a[0].w) <= sx(e.ev(a[1]), a[1].w))
	case OBNot:
		r = ^e.ev(a[0]) & mask(t.w)
	case ONeg:
		r = -e.ev(a[0]) & mask(t.w)
	case OZExt:
		r = e.ev(a[0])
	case OSExt:
		r = uint64(sx(e.ev(a[0]), a[0].w)) & mask(t.w)
	case OExtract:
		r = e.ev(a[0]) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, e.ev(a[0]), e.ev(a[1]))
	}
	if e.memo == nil {
		e.memo = map[*Term]uint64{}
	}
	e.memo[t] = r
	return r
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref is the SMT-LIB text that refers to a term, given that non-leaf terms have been defined as t<id>.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}
func (t *Term) def() string {
	switch t.op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a[0].ref())
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	for _, x := range t.a {
		if x != nil {
			sb.WriteString(" " + x.ref())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return t.ref()
		}
		return fmt.Sprintf("%d", t.val)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var sb strings.Builder
	n := opNames[t.op]
	switch t.op {
	case OZExt:
		n = fmt.Sprintf("zx%d", t.w)
	case OSExt:
		n = fmt.Sprintf("sx%d", t.w)
	case OExtract:
		n = fmt.Sprintf("ex%d", t.w)
	}
	sb.WriteString("(" + n)
	for _, x := range t.a {
		if x != nil {
			sb.WriteString(" " + x.str(d-1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
