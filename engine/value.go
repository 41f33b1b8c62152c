package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is the content of a register or of a memory cell.
//
//	uint64        integer (masked to its width)
//	bool          bool
//	*Term         symbolic integer or bool
//	float64       float32/float64
//	string        concrete string
//	*SymStr       string with symbolic bytes and concrete length
//	Ptr, *SymPtr  pointers
//	Slice, Iface, Agg (struct/array), MapV, ChanV, *Closure, Tuple
//	*RVal         payload of reflect.Value, *RType payload of reflect.Type
type Value = interface{}

type Ptr struct{ id, off int32 }

// SymPtr points at element idx of the n elements (one cell each) starting at id/off.
type SymPtr struct {
	id, off, n int32
	idx        *Term
}
type Slice struct{ id, off, len, cap int32 }
type Iface struct {
	rt *RType
	v  Value
}
type Agg []Value
type Tuple []Value
type MapV int32
type ChanV int32
type SymStr struct{ b []Value }

// Closure is a func value. Exactly one of fn and nat is set.
type Closure struct {
	fn   *ssa.Function
	bind []Value
	nat  *NatFn
}

// NatFn is a function implemented by the engine.
type NatFn struct {
	name string
	f    func(x *X) Value
	sig  *types.Signature
	// target, when set, is the function to call with pre before the arguments
	target *ssa.Function
	pre    []Value
}

// Poison marks values whose package initialiser could not be executed.
type Poison struct{ why string }

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KIface
	KMap
	KChan
	KFunc
	KStruct
	KArray
	KTuple
	KUnsafePtr
)

type RType struct {
	id     int
	t      types.Type
	u      types.Type
	kind   Kind
	w      uint8
	signed bool
	size   int32
	zero   []Value
	elem   *RType
	key    *RType
	fields []*RType
	foff   []int32
	n      int32 // array length
	str    string
	mcache map[string]*ssa.Function
	ptrTo  *RType
	exp    []*types.Selection // exported methods, sorted
	expSet bool
	impl   map[*RType]bool
}

func (r *RType) String() string { return r.str }

func (r *RType) isAgg() bool { return r.kind == KStruct || r.kind == KArray }

type typeTab struct {
	byPtr map[types.Type]*RType
	canon typeutil.Map
	all   []*RType
}

func (e *Engine) rt(t types.Type) *RType {
	if r, ok := e.tt.byPtr[t]; ok {
		return r
	}
	at := types.Unalias(t)
	if v := e.tt.canon.At(at); v != nil {
		r := v.(*RType)
		e.tt.byPtr[t] = r
		return r
	}
	r := &RType{id: len(e.tt.all) + 1, t: at, u: at.Underlying()}
	e.tt.all = append(e.tt.all, r)
	e.tt.byPtr[t] = r
	e.tt.canon.Set(at, r)
	r.str = types.TypeString(at, nil)
	r.size = 1
	switch u := r.u.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			r.kind = KUnsafePtr
			r.zero = []Value{Ptr{}}
		case u.Info()&types.IsBoolean != 0:
			r.kind = KBool
			r.zero = []Value{false}
		case u.Info()&types.IsInteger != 0:
			r.kind = KInt
			r.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.w = 8
			case types.Int16, types.Uint16:
				r.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.w = 32
			default:
				r.w = 64
			}
			r.zero = []Value{uint64(0)}
		case u.Info()&types.IsFloat != 0:
			r.kind = KFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
			r.zero = []Value{float64(0)}
		case u.Info()&types.IsComplex != 0:
			r.kind = KComplex
			r.zero = []Value{complex128(0)}
		case u.Info()&types.IsString != 0:
			r.kind = KString
			r.zero = []Value{""}
		default: // untyped nil, invalid
			r.kind = KInvalid
			r.zero = []Value{Ptr{}}
		}
	case *types.Pointer:
		r.kind = KPtr
		r.zero = []Value{Ptr{}}
	case *types.Slice:
		r.kind = KSlice
		r.zero = []Value{Slice{}}
		r.elem = e.rt(u.Elem())
	case *types.Interface:
		r.kind = KIface
		r.zero = []Value{Iface{}}
	case *types.Map:
		r.kind = KMap
		r.zero = []Value{MapV(0)}
		r.key = e.rt(u.Key())
		r.elem = e.rt(u.Elem())
	case *types.Chan:
		r.kind = KChan
		r.zero = []Value{ChanV(0)}
		r.elem = e.rt(u.Elem())
	case *types.Signature:
		r.kind = KFunc
		r.zero = []Value{(*Closure)(nil)}
	case *types.Struct:
		r.kind = KStruct
		r.size = 0
		for i := 0; i < u.NumFields(); i++ {
			f := e.rt(u.Field(i).Type())
			r.fields = append(r.fields, f)
			r.foff = append(r.foff, r.size)
			r.size += f.size
			r.zero = append(r.zero, f.zero...)
		}
	case *types.Array:
		r.kind = KArray
		r.elem = e.rt(u.Elem())
		r.n = int32(u.Len())
		r.size = r.n * r.elem.size
		r.zero = make([]Value, 0, r.size)
		for i := int32(0); i < r.n; i++ {
			r.zero = append(r.zero, r.elem.zero...)
		}
	case *types.Tuple:
		r.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, e.rt(u.At(i).Type()))
		}
	default:
		panic(unsupported{fmt.Sprintf("type %v", t)})
	}
	return r
}

func (e *Engine) elemOf(r *RType) *RType {
	if r.elem == nil {
		if p, ok := r.u.(*types.Pointer); ok {
			r.elem = e.rt(p.Elem())
		}
	}
	return r.elem
}

func (e *Engine) ptrTo(r *RType) *RType {
	if r.ptrTo == nil {
		r.ptrTo = e.rt(types.NewPointer(r.t))
	}
	return r.ptrTo
}

func (r *RType) zeroVal() Value {
	if r.isAgg() {
		return append(Agg(nil), r.zero...)
	}
	if r.kind == KTuple {
		t := make(Tuple, len(r.fields))
		for i, f := range r.fields {
			t[i] = f.zeroVal()
		}
		return t
	}
	return r.zero[0]
}

// cellsOf flattens a register value of type r.
func cellsOf(r *RType, v Value) []Value {
	if r.isAgg() {
		return v.(Agg)
	}
	return []Value{v}
}
func fromCells(r *RType, c []Value) Value {
	if r.isAgg() {
		return Agg(c)
	}
	return c[0]
}

func isNilPtr(v Value) bool {
	p, ok := v.(Ptr)
	return ok && p.id == 0
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}
func strByte(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic(fmt.Sprintf("strByte %T", v))
}
func strSub(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic(fmt.Sprintf("strSub %T", v))
}
func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

// mkStr makes a string value out of byte cells.
func mkStr(b []Value) Value {
	for _, c := range b {
		if _, ok := c.(uint64); !ok {
			for _, c := range b {
				switch c.(type) {
				case uint64, *Term:
				default:
					panic(unsupported{fmt.Sprintf("string of %T", c)})
				}
			}
			return &SymStr{append([]Value(nil), b...)}
		}
	}
	r := make([]byte, len(b))
	for i, c := range b {
		r[i] = byte(c.(uint64))
	}
	return string(r)
}
func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	return &SymStr{append(append([]Value(nil), strBytes(a)...), strBytes(b)...)}
}

// toTerm turns an integer or bool value into a term of width w.
func toTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return tConst(x, w)
	case bool:
		return tBool(x)
	}
	panic(unsupported{fmt.Sprintf("toTerm %T", v)})
}
func fromTerm(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.val != 0
		}
		return t.val
	}
	return t
}

func vNot(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return fromTerm(tNot(x))
	}
	panic(fmt.Sprintf("vNot %T", v))
}
func vAnd(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if x {
			return b
		}
		return false
	}
	if y, ok := b.(bool); ok {
		if y {
			return a
		}
		return false
	}
	return fromTerm(tAnd(a.(*Term), b.(*Term)))
}

func (v Iface) String() string {
	if v.rt == nil {
		return "nil"
	}
	return fmt.Sprintf("(%s)%v", v.rt.str, v.v)
}
func (s *SymStr) String() string {
	var sb strings.Builder
	sb.WriteString("sym\"")
	for _, b := range s.b {
		if c, ok := b.(uint64); ok {
			sb.WriteByte(byte(c))
		} else {
			sb.WriteString("{" + b.(*Term).str(3) + "}")
		}
	}
	sb.WriteString("\"")
	return sb.String()
}
func (c *Closure) String() string {
	if c == nil {
		return "nilfunc"
	}
	if c.fn != nil {
		return c.fn.String()
	}
	return c.nat.name
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }
