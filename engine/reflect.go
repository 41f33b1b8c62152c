package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RVal is the payload of a modelled reflect.Value. It is immutable.
type RVal struct {
	rt   *RType
	v    Value // when not addressable
	addr bool
	p    Ptr // when addressable
	ro   bool
	meth *ssa.Function // method value: fn with receiver recv
	recv Value
}

func rvalOf(v Value) *RVal {
	switch a := v.(type) {
	case Agg:
		if r, ok := a[0].(*RVal); ok {
			return r
		}
		return nil
	case *RVal:
		return a
	}
	return nil
}

func mkRV(r *RVal) Value {
	if r == nil {
		return Agg{Ptr{}, Ptr{}, uint64(0)}
	}
	return Agg{r, Ptr{}, uint64(0)}
}

func (x *X) rget(r *RVal) Value {
	if r.meth != nil {
		return &Closure{nat: &NatFn{name: r.meth.String(), target: r.meth, pre: []Value{r.recv}}}
	}
	if r.addr {
		return x.load(r.p, r.rt)
	}
	return r.v
}

// rassign gives the value of r converted to type t as by assignment.
func (x *X) rassign(r *RVal, t *RType) Value {
	if r == nil {
		panic(goPanic{x.e.plainError("reflect: call of reflect.Value.Set on zero Value")})
	}
	v := x.rget(r)
	if t.kind == KIface {
		if r.rt.kind == KIface {
			iv := v.(Iface)
			if iv.rt != nil && !x.e.implements(iv.rt, t) {
				x.reflPanic("reflect.Set: value of type " + r.rt.str + " is not assignable to type " + t.str)
			}
			return v
		}
		if !x.e.implements(r.rt, t) {
			x.reflPanic("reflect.Set: value of type " + r.rt.str + " is not assignable to type " + t.str)
		}
		return Iface{r.rt, v}
	}
	if r.rt != t && !types.AssignableTo(r.rt.t, t.t) {
		x.reflPanic("reflect.Set: value of type " + x.e.typeString(r.rt) + " is not assignable to type " + x.e.typeString(t))
	}
	return v
}

func (x *X) reflPanic(msg string) {
	panic(goPanic{Iface{x.e.rt(types.Typ[types.String]), msg}})
}

func (x *X) valueError(method string, r *RVal) {
	k := "zero Value"
	if r != nil {
		k = reflect.Kind(kindOf(r.rt)).String() + " Value"
	}
	x.reflPanic("reflect: call of " + method + " on " + k)
}

func kindOf(rt *RType) uint64 {
	switch u := rt.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return uint64(reflect.Bool)
		case types.Int, types.UntypedInt:
			return uint64(reflect.Int)
		case types.Int8:
			return uint64(reflect.Int8)
		case types.Int16:
			return uint64(reflect.Int16)
		case types.Int32, types.UntypedRune:
			return uint64(reflect.Int32)
		case types.Int64:
			return uint64(reflect.Int64)
		case types.Uint:
			return uint64(reflect.Uint)
		case types.Uint8:
			return uint64(reflect.Uint8)
		case types.Uint16:
			return uint64(reflect.Uint16)
		case types.Uint32:
			return uint64(reflect.Uint32)
		case types.Uint64:
			return uint64(reflect.Uint64)
		case types.Uintptr:
			return uint64(reflect.Uintptr)
		case types.Float32:
			return uint64(reflect.Float32)
		case types.Float64, types.UntypedFloat:
			return uint64(reflect.Float64)
		case types.Complex64:
			return uint64(reflect.Complex64)
		case types.Complex128:
			return uint64(reflect.Complex128)
		case types.String, types.UntypedString:
			return uint64(reflect.String)
		case types.UnsafePointer:
			return uint64(reflect.UnsafePointer)
		}
	case *types.Pointer:
		return uint64(reflect.Ptr)
	case *types.Slice:
		return uint64(reflect.Slice)
	case *types.Array:
		return uint64(reflect.Array)
	case *types.Map:
		return uint64(reflect.Map)
	case *types.Chan:
		return uint64(reflect.Chan)
	case *types.Struct:
		return uint64(reflect.Struct)
	case *types.Signature:
		return uint64(reflect.Func)
	case *types.Interface:
		return uint64(reflect.Interface)
	}
	return 0
}

func (e *Engine) typeString(rt *RType) string {
	return strings.ReplaceAll(types.TypeString(rt.t, func(p *types.Package) string { return p.Name() }), "interface{}", "interface {}")
}

// mkType makes a reflect.Type (or reflectlite.Type) value.
func (e *Engine) mkType(rt *RType, lite bool) Value {
	if rt == nil {
		return Iface{}
	}
	if lite {
		return Iface{e.liteRT(), Agg{rt}}
	}
	return Iface{e.reflRT(), rt}
}

func (e *Engine) reflRT() *RType {
	if e.rtypeRT == nil {
		t := e.prog.ImportedPackage("reflect").Members["rtype"].(*ssa.Type)
		e.rtypeRT = e.rt(types.NewPointer(t.Type()))
	}
	return e.rtypeRT
}
func (e *Engine) liteRT() *RType {
	if e.ltypeRT == nil {
		t := e.prog.ImportedPackage("internal/reflectlite").Members["rtype"].(*ssa.Type)
		e.ltypeRT = e.rt(t.Type())
	}
	return e.ltypeRT
}

func typeArg(v Value) *RType {
	switch t := v.(type) {
	case *RType:
		return t
	case Agg:
		if r, ok := t[0].(*RType); ok {
			return r
		}
	case Iface:
		if t.rt == nil {
			return nil
		}
		return typeArg(t.v)
	}
	panic(unsupported{fmt.Sprintf("reflect type is %T", v)})
}

// exported methods of a type sorted by name
func (e *Engine) methods(rt *RType) []*types.Selection {
	if !rt.expSet {
		rt.expSet = true
		ms := e.prog.MethodSets.MethodSet(rt.t)
		for i := 0; i < ms.Len(); i++ {
			if m := ms.At(i); m.Obj().Exported() {
				rt.exp = append(rt.exp, m)
			}
		}
		sort.Slice(rt.exp, func(i, j int) bool { return rt.exp[i].Obj().Name() < rt.exp[j].Obj().Name() })
	}
	return rt.exp
}

func (x *X) structField(rt *RType, i int, index []int, lite bool) Value {
	st := rt.u.(*types.Struct)
	f := st.Field(i)
	pp := ""
	if !f.Exported() {
		pp = f.Pkg().Path()
	}
	var idx []Value
	if index == nil {
		index = []int{i}
	}
	for _, k := range index {
		idx = append(idx, uint64(k))
	}
	is := x.st.newSlice(x.e.tInt, idx)
	return Agg{f.Name(), pp, x.e.mkType(rt.fields[i], lite), st.Tag(i), uint64(rt.foff[i]), is, f.Anonymous()}
}

func sigNoRecv(e *Engine, s *types.Signature) *RType {
	return e.rt(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()))
}

func (x *X) fieldRV(r *RVal, i int) *RVal {
	f := r.rt.fields[i]
	ro := r.ro || !r.rt.u.(*types.Struct).Field(i).Exported()
	if r.rt.u.(*types.Struct).Field(i).Anonymous() && !r.ro {
		// embedded unexported struct: fields are reachable but the value itself is read-only
		ro = !r.rt.u.(*types.Struct).Field(i).Exported()
	}
	if r.addr {
		return &RVal{rt: f, addr: true, p: Ptr{r.p.id, r.p.off + r.rt.foff[i]}, ro: ro}
	}
	a := r.v.(Agg)
	return &RVal{rt: f, v: fromCells(f, append([]Value(nil), a[r.rt.foff[i]:r.rt.foff[i]+f.size]...)), ro: ro}
}

func (x *X) elemRV(r *RVal, method string) *RVal {
	switch r.rt.kind {
	case KPtr:
		v := x.rget(r)
		if isNilPtr(v) {
			return nil
		}
		if _, ok := v.(*RType); ok {
			panic(unsupported{"reflect on reflect.rtype"})
		}
		p := x.ptr(v)
		return &RVal{rt: x.e.elemOf(r.rt), addr: true, p: p, ro: r.ro}
	case KIface:
		iv := x.rget(r).(Iface)
		if iv.rt == nil {
			return nil
		}
		return &RVal{rt: iv.rt, v: iv.v, ro: r.ro}
	}
	x.valueError("reflect.Value.Elem", r)
	return nil
}

func (x *X) boolTerm(v Value) bool { return x.decideV(v) }

func (x *X) isZero(rt *RType, v Value) Value {
	switch w := v.(type) {
	case Agg:
		var r Value = true
		z := rt.zero
		for i, c := range w {
			if isNilVal(z[i]) {
				r = vAnd(r, isNilVal(c))
				continue
			}
			r = vAnd(r, x.eq(nil, c, z[i]))
		}
		return r
	}
	z := rt.zero[0]
	if isNilVal(z) {
		return isNilVal(v)
	}
	return x.eq(rt, v, z)
}

type rfn func(x *X, lite bool) Value

var reflFns map[string]rfn

func rv0(x *X) *RVal { return rvalOf(x.args[0]) }

func mustRV(x *X, m string) *RVal {
	r := rvalOf(x.args[0])
	if r == nil {
		x.valueError("reflect.Value."+m, nil)
	}
	return r
}

func (x *X) argInt(i int) int { return int(x.intArg(x.args[i], x.e.tInt)) }

func mustSet(x *X, r *RVal, m string) {
	if r == nil {
		x.valueError("reflect.Value."+m, nil)
	}
	if r.ro {
		x.reflPanic("reflect: reflect.Value." + m + " using value obtained using unexported field")
	}
	if !r.addr {
		x.reflPanic("reflect: reflect.Value." + m + " using unaddressable value")
	}
}

func (x *X) rset(r *RVal, v Value) { x.store(r.p, v, r.rt) }

func init() {
	reflFns = map[string]rfn{
		"TypeOf": func(x *X, lite bool) Value {
			return x.e.mkType(x.args[0].(Iface).rt, lite)
		},
		"TypeFor": func(x *X, lite bool) Value {
			return x.e.mkType(x.e.rt(x.fn.TypeArgs()[0]), lite)
		},
		"ValueOf": func(x *X, lite bool) Value {
			iv := x.args[0].(Iface)
			if iv.rt == nil {
				return mkRV(nil)
			}
			return mkRV(&RVal{rt: iv.rt, v: iv.v})
		},
		"New": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			if t == nil {
				x.reflPanic("reflect: New(nil)")
			}
			id := x.st.alloc(t, 1)
			return mkRV(&RVal{rt: x.e.ptrTo(t), v: Ptr{id, 0}})
		},
		"Zero": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			return mkRV(&RVal{rt: t, v: t.zeroVal()})
		},
		"MakeSlice": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			n, c := x.argInt(1), x.argInt(2)
			if n < 0 || c < n {
				x.reflPanic("reflect.MakeSlice: bad len/cap")
			}
			if c > 1<<24 {
				panic(unsupported{"reflect.MakeSlice huge"})
			}
			id := x.st.alloc(t.elem, int32(c))
			return mkRV(&RVal{rt: t, v: Slice{id, 0, int32(n), int32(c)}})
		},
		"MakeMap":         func(x *X, lite bool) Value { t := typeArg(x.args[0]); return mkRV(&RVal{rt: t, v: x.st.newMap(t)}) },
		"MakeMapWithSize": func(x *X, lite bool) Value { t := typeArg(x.args[0]); return mkRV(&RVal{rt: t, v: x.st.newMap(t)}) },
		"MakeChan": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			if t.kind != KChan {
				x.reflPanic("reflect.MakeChan of non-chan type")
			}
			if t.u.(*types.Chan).Dir() != types.SendRecv {
				x.reflPanic("reflect.MakeChan: unidirectional channel type")
			}
			n := x.argInt(1)
			if n < 0 {
				x.reflPanic("reflect.MakeChan: negative buffer size")
			}
			return mkRV(&RVal{rt: t, v: x.st.newChan(t, n)})
		},
		"ChanOf": func(x *X, lite bool) Value {
			d := types.SendRecv
			switch x.argInt(0) {
			case int(reflect.RecvDir):
				d = types.RecvOnly
			case int(reflect.SendDir):
				d = types.SendOnly
			}
			return x.e.mkType(x.e.rt(types.NewChan(d, typeArg(x.args[1]).t)), lite)
		},
		"PtrTo":     func(x *X, lite bool) Value { return x.e.mkType(x.e.ptrTo(typeArg(x.args[0])), lite) },
		"PointerTo": func(x *X, lite bool) Value { return x.e.mkType(x.e.ptrTo(typeArg(x.args[0])), lite) },
		"SliceOf": func(x *X, lite bool) Value {
			return x.e.mkType(x.e.rt(types.NewSlice(typeArg(x.args[0]).t)), lite)
		},
		"MapOf": func(x *X, lite bool) Value {
			return x.e.mkType(x.e.rt(types.NewMap(typeArg(x.args[0]).t, typeArg(x.args[1]).t)), lite)
		},
		"Indirect": func(x *X, lite bool) Value {
			r := rv0(x)
			if r == nil || r.rt.kind != KPtr {
				return x.args[0]
			}
			return mkRV(x.elemRV(r, "Elem"))
		},
		"Append": func(x *X, lite bool) Value {
			r := rv0(x)
			s := x.rget(r).(Slice)
			more := x.args[1].(Slice)
			for i := int32(0); i < more.len; i++ {
				a := rvalOf(Agg(x.st.readCells(more.id, more.off+i*3, 3)))
				v := x.rassign(a, r.rt.elem)
				s = x.appendCells(s, r.rt.elem, cellsOf(r.rt.elem, v), 1)
			}
			return mkRV(&RVal{rt: r.rt, v: s})
		},
		"AppendSlice": func(x *X, lite bool) Value {
			r := rv0(x)
			s := x.rget(r).(Slice)
			t := x.rget(rvalOf(x.args[1])).(Slice)
			if t.len > 0 {
				s = x.appendCells(s, r.rt.elem, x.st.readCells(t.id, t.off, t.len*r.rt.elem.size), t.len)
			}
			return mkRV(&RVal{rt: r.rt, v: s})
		},
		"Copy": func(x *X, lite bool) Value {
			d := rv0(x)
			s := rvalOf(x.args[1])
			var ds Slice
			if d.rt.kind == KArray {
				ds = Slice{d.p.id, d.p.off, d.rt.n, d.rt.n}
			} else {
				ds = x.rget(d).(Slice)
			}
			var cells []Value
			es := d.rt.elem.size
			switch sv := x.rget(s).(type) {
			case Slice:
				n := sv.len
				if ds.len < n {
					n = ds.len
				}
				if n > 0 {
					cells = x.st.readCells(sv.id, sv.off, n*es)
				}
			case Agg:
				cells = sv
				if int(ds.len*es) < len(cells) {
					cells = cells[:ds.len*es]
				}
			case string, *SymStr:
				cells = strBytes(sv)
				if int(ds.len) < len(cells) {
					cells = cells[:ds.len]
				}
			}
			if len(cells) > 0 {
				x.st.writeCells(ds.id, ds.off, cells)
			}
			return uint64(len(cells) / int(es))
		},
		"DeepEqual": func(x *X, lite bool) Value {
			return x.deepEq(x.args[0], x.args[1], 0)
		},
		"Swapper": func(x *X, lite bool) Value {
			iv := x.args[0].(Iface)
			s := iv.v.(Slice)
			es := iv.rt.elem.size
			return &Closure{nat: &NatFn{name: "reflect.Swapper", f: func(x *X) Value {
				i, j := int32(x.argInt(0)), int32(x.argInt(1))
				a := x.st.readCells(s.id, s.off+i*es, es)
				b := x.st.readCells(s.id, s.off+j*es, es)
				x.st.writeCells(s.id, s.off+i*es, b)
				x.st.writeCells(s.id, s.off+j*es, a)
				return nil
			}}}
		},
		"VisibleFields": nil,

		// ---- Type
		"T.Kind": func(x *X, lite bool) Value { return kindOf(typeArg(x.args[0])) },
		"T.String": func(x *X, lite bool) Value {
			return x.e.typeString(typeArg(x.args[0]))
		},
		"T.Name": func(x *X, lite bool) Value {
			switch t := typeArg(x.args[0]).t.(type) {
			case *types.Named:
				return t.Obj().Name()
			case *types.Basic:
				return t.Name()
			}
			return ""
		},
		"T.PkgPath": func(x *X, lite bool) Value {
			if t, ok := typeArg(x.args[0]).t.(*types.Named); ok && t.Obj().Pkg() != nil {
				return t.Obj().Pkg().Path()
			}
			return ""
		},
		"T.Size": func(x *X, lite bool) Value {
			return uint64(x.e.sizes.Sizeof(typeArg(x.args[0]).t))
		},
		"T.Bits": func(x *X, lite bool) Value {
			return uint64(x.e.sizes.Sizeof(typeArg(x.args[0]).t) * 8)
		},
		"T.Align": func(x *X, lite bool) Value { return uint64(8) },
		"T.Elem": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			switch t.kind {
			case KPtr, KSlice, KArray, KMap, KChan:
				return x.e.mkType(x.e.elemOf(t), lite)
			}
			x.reflPanic("reflect: Elem of invalid type " + x.e.typeString(t))
			return nil
		},
		"T.Key": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			if t.kind != KMap {
				x.reflPanic("reflect: Key of non-map type " + x.e.typeString(t))
			}
			return x.e.mkType(t.key, lite)
		},
		"T.Len": func(x *X, lite bool) Value { return uint64(typeArg(x.args[0]).n) },
		"T.ChanDir": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			c, ok := t.u.(*types.Chan)
			if !ok {
				x.reflPanic("reflect: ChanDir of non-chan type " + x.e.typeString(t))
			}
			switch c.Dir() {
			case types.SendOnly:
				return uint64(reflect.SendDir)
			case types.RecvOnly:
				return uint64(reflect.RecvDir)
			}
			return uint64(reflect.BothDir)
		},
		"T.Comparable": func(x *X, lite bool) Value { return types.Comparable(typeArg(x.args[0]).t) },
		"T.Implements": func(x *X, lite bool) Value {
			u := typeArg(x.args[1])
			if u == nil || u.kind != KIface {
				x.reflPanic("reflect: non-interface type passed to Type.Implements")
			}
			return x.e.implements(typeArg(x.args[0]), u)
		},
		"T.AssignableTo":  func(x *X, lite bool) Value { return types.AssignableTo(typeArg(x.args[0]).t, typeArg(x.args[1]).t) },
		"T.ConvertibleTo": func(x *X, lite bool) Value { return types.ConvertibleTo(typeArg(x.args[0]).t, typeArg(x.args[1]).t) },
		"T.NumMethod": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			if t.kind == KIface {
				return uint64(t.u.(*types.Interface).NumMethods())
			}
			return uint64(len(x.e.methods(t)))
		},
		"T.Method": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			i := x.argInt(1)
			if t.kind == KIface {
				m := t.u.(*types.Interface).Method(i)
				return Agg{m.Name(), "", x.e.mkType(sigNoRecv(x.e, m.Type().(*types.Signature)), false), Ptr{}, Ptr{}, uint64(0), uint64(i)}
			}
			ms := x.e.methods(t)
			if i < 0 || i >= len(ms) {
				x.reflPanic("reflect: Method index out of range")
			}
			return x.methodVal(t, ms[i], i)
		},
		"T.MethodByName": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			name := x.concreteStr(x.args[1])
			for i, m := range x.e.methods(t) {
				if m.Obj().Name() == name {
					return Tuple{x.methodVal(t, m, i), true}
				}
			}
			return Tuple{Agg{"", "", Iface{}, Ptr{}, Ptr{}, uint64(0), uint64(0)}, false}
		},
		"T.NumField": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			if t.kind != KStruct {
				x.reflPanic("reflect: NumField of non-struct type " + x.e.typeString(t))
			}
			return uint64(len(t.fields))
		},
		"T.Field": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			i := x.argInt(1)
			if t.kind != KStruct || i < 0 || i >= len(t.fields) {
				x.reflPanic("reflect: Field index out of bounds")
			}
			return x.structField(t, i, nil, lite)
		},
		"T.FieldByName": func(x *X, lite bool) Value {
			t := typeArg(x.args[0])
			name := x.concreteStr(x.args[1])
			obj, index, _ := types.LookupFieldOrMethod(t.t, true, nil, name)
			if _, ok := obj.(*types.Var); !ok {
				return Tuple{Agg{"", "", Iface{}, "", uint64(0), Slice{}, false}, false}
			}
			ct := t
			for _, k := range index[:len(index)-1] {
				ct = ct.fields[k]
				if ct.kind == KPtr {
					ct = x.e.elemOf(ct)
				}
			}
			return Tuple{x.structField(ct, index[len(index)-1], index, lite), true}
		},
		"T.NumIn":  func(x *X, lite bool) Value { return uint64(typeArg(x.args[0]).u.(*types.Signature).Params().Len()) },
		"T.NumOut": func(x *X, lite bool) Value { return uint64(typeArg(x.args[0]).u.(*types.Signature).Results().Len()) },
		"T.In": func(x *X, lite bool) Value {
			p := typeArg(x.args[0]).u.(*types.Signature).Params()
			i := x.argInt(1)
			if i < 0 || i >= p.Len() {
				x.rtPanic("runtime error: index out of range")
			}
			return x.e.mkType(x.e.rt(p.At(i).Type()), lite)
		},
		"T.Out": func(x *X, lite bool) Value {
			p := typeArg(x.args[0]).u.(*types.Signature).Results()
			i := x.argInt(1)
			if i < 0 || i >= p.Len() {
				x.rtPanic("runtime error: index out of range")
			}
			return x.e.mkType(x.e.rt(p.At(i).Type()), lite)
		},
		"T.IsVariadic": func(x *X, lite bool) Value { return typeArg(x.args[0]).u.(*types.Signature).Variadic() },
		"T.common":     nil,
		"T.CanSeq":     func(x *X, lite bool) Value { return false },

		// ---- Value
		"V.Kind": func(x *X, lite bool) Value {
			r := rv0(x)
			if r == nil {
				return uint64(0)
			}
			return kindOf(r.rt)
		},
		"V.Type": func(x *X, lite bool) Value {
			return x.e.mkType(mustRV(x, "Type").rt, lite)
		},
		"V.IsValid": func(x *X, lite bool) Value { return rv0(x) != nil },
		"V.IsNil": func(x *X, lite bool) Value {
			r := mustRV(x, "IsNil")
			if r.meth != nil {
				return false
			}
			switch r.rt.kind {
			case KPtr, KSlice, KMap, KChan, KFunc, KIface, KUnsafePtr:
				return isNilVal(x.rget(r))
			}
			x.valueError("reflect.Value.IsNil", r)
			return nil
		},
		"V.IsZero": func(x *X, lite bool) Value {
			r := mustRV(x, "IsZero")
			return x.isZero(r.rt, x.rget(r))
		},
		"V.CanAddr":      func(x *X, lite bool) Value { r := rv0(x); return r != nil && r.addr },
		"V.CanSet":       func(x *X, lite bool) Value { r := rv0(x); return r != nil && r.addr && !r.ro },
		"V.CanInterface": func(x *X, lite bool) Value { return !mustRV(x, "CanInterface").ro },
		"V.CanInt":       func(x *X, lite bool) Value { r := rv0(x); return r != nil && r.rt.kind == KInt && r.rt.signed },
		"V.CanUint":      func(x *X, lite bool) Value { r := rv0(x); return r != nil && r.rt.kind == KInt && !r.rt.signed },
		"V.CanFloat":     func(x *X, lite bool) Value { r := rv0(x); return r != nil && r.rt.kind == KFloat },
		"V.CanComplex":   func(x *X, lite bool) Value { return false },
		"V.Addr": func(x *X, lite bool) Value {
			r := mustRV(x, "Addr")
			if !r.addr {
				x.reflPanic("reflect.Value.Addr of unaddressable value")
			}
			return mkRV(&RVal{rt: x.e.ptrTo(r.rt), v: r.p, ro: r.ro})
		},
		"V.Elem": func(x *X, lite bool) Value {
			r := mustRV(x, "Elem")
			return mkRV(x.elemRV(r, "Elem"))
		},
		"V.NumField": func(x *X, lite bool) Value {
			r := mustRV(x, "NumField")
			if r.rt.kind != KStruct {
				x.valueError("reflect.Value.NumField", r)
			}
			return uint64(len(r.rt.fields))
		},
		"V.Field": func(x *X, lite bool) Value {
			r := mustRV(x, "Field")
			i := x.argInt(1)
			if r.rt.kind != KStruct {
				x.valueError("reflect.Value.Field", r)
			}
			if i < 0 || i >= len(r.rt.fields) {
				x.reflPanic("reflect: Field index out of range")
			}
			return mkRV(x.fieldRV(r, i))
		},
		"V.FieldByIndex": func(x *X, lite bool) Value {
			r := mustRV(x, "FieldByIndex")
			for k, c := range x.st.bytesOf(x.args[1].(Slice)) {
				if k > 0 && r.rt.kind == KPtr {
					r = x.elemRV(r, "Elem")
					if r == nil {
						x.reflPanic("reflect: indirection through nil pointer to embedded struct")
					}
				}
				r = x.fieldRV(r, int(c.(uint64)))
			}
			return mkRV(r)
		},
		"V.FieldByName": func(x *X, lite bool) Value {
			r := mustRV(x, "FieldByName")
			name := x.concreteStr(x.args[1])
			obj, index, _ := types.LookupFieldOrMethod(r.rt.t, true, nil, name)
			if _, ok := obj.(*types.Var); !ok {
				return mkRV(nil)
			}
			for k, i := range index {
				if k > 0 && r.rt.kind == KPtr {
					r = x.elemRV(r, "Elem")
				}
				r = x.fieldRV(r, i)
			}
			return mkRV(r)
		},
		"V.Index": func(x *X, lite bool) Value {
			r := mustRV(x, "Index")
			i := x.argInt(1)
			switch r.rt.kind {
			case KSlice:
				s := x.rget(r).(Slice)
				if i < 0 || i >= int(s.len) {
					x.reflPanic("reflect: slice index out of range")
				}
				return mkRV(&RVal{rt: r.rt.elem, addr: true, p: Ptr{s.id, s.off + int32(i)*r.rt.elem.size}, ro: r.ro})
			case KArray:
				if i < 0 || i >= int(r.rt.n) {
					x.reflPanic("reflect: array index out of range")
				}
				es := r.rt.elem.size
				if r.addr {
					return mkRV(&RVal{rt: r.rt.elem, addr: true, p: Ptr{r.p.id, r.p.off + int32(i)*es}, ro: r.ro})
				}
				return mkRV(&RVal{rt: r.rt.elem, v: fromCells(r.rt.elem, append([]Value(nil), r.v.(Agg)[int32(i)*es:int32(i+1)*es]...)), ro: r.ro})
			case KString:
				s := x.rget(r)
				if i < 0 || i >= strLen(s) {
					x.reflPanic("reflect: string index out of range")
				}
				return mkRV(&RVal{rt: x.e.tByte, v: strByte(s, i), ro: r.ro})
			}
			x.valueError("reflect.Value.Index", r)
			return nil
		},
		"V.Len": func(x *X, lite bool) Value {
			r := mustRV(x, "Len")
			switch v := x.rget(r).(type) {
			case Slice:
				return uint64(v.len)
			case string, *SymStr:
				return uint64(strLen(v))
			case Agg:
				if r.rt.kind == KArray {
					return uint64(r.rt.n)
				}
			case MapV:
				if v == 0 {
					return uint64(0)
				}
				return uint64(x.st.robj(int32(v)).m.n)
			case ChanV:
				if v == 0 {
					return uint64(0)
				}
				return uint64(len(x.st.robj(int32(v)).ch.buf))
			}
			x.valueError("reflect.Value.Len", r)
			return nil
		},
		"V.Cap": func(x *X, lite bool) Value {
			r := mustRV(x, "Cap")
			switch v := x.rget(r).(type) {
			case Slice:
				return uint64(v.cap)
			case Agg:
				return uint64(r.rt.n)
			case ChanV:
				if v == 0 {
					return uint64(0)
				}
				return uint64(x.st.robj(int32(v)).ch.cap)
			}
			x.valueError("reflect.Value.Cap", r)
			return nil
		},
		"V.Int": func(x *X, lite bool) Value {
			r := mustRV(x, "Int")
			if r.rt.kind != KInt || !r.rt.signed {
				x.valueError("reflect.Value.Int", r)
			}
			return x.convert(r.rt, x.e.tInt, x.rget(r))
		},
		"V.Uint": func(x *X, lite bool) Value {
			r := mustRV(x, "Uint")
			if r.rt.kind != KInt || r.rt.signed {
				x.valueError("reflect.Value.Uint", r)
			}
			return x.convert(r.rt, x.e.rt(types.Typ[types.Uint64]), x.rget(r))
		},
		"V.Float": func(x *X, lite bool) Value {
			r := mustRV(x, "Float")
			if r.rt.kind != KFloat {
				x.valueError("reflect.Value.Float", r)
			}
			return x.rget(r)
		},
		"V.Bool": func(x *X, lite bool) Value {
			r := mustRV(x, "Bool")
			if r.rt.kind != KBool {
				x.valueError("reflect.Value.Bool", r)
			}
			return x.rget(r)
		},
		"V.Complex": func(x *X, lite bool) Value { return x.rget(mustRV(x, "Complex")) },
		"V.String": func(x *X, lite bool) Value {
			r := rv0(x)
			if r == nil {
				return "<invalid Value>"
			}
			if r.rt.kind == KString {
				return x.rget(r)
			}
			return "<" + x.e.typeString(r.rt) + " Value>"
		},
		"V.Bytes": func(x *X, lite bool) Value {
			r := mustRV(x, "Bytes")
			switch {
			case r.rt.kind == KSlice && r.rt.elem.kind == KInt && r.rt.elem.w == 8:
				return x.rget(r)
			case r.rt.kind == KArray && r.addr:
				return Slice{r.p.id, r.p.off, r.rt.n, r.rt.n}
			}
			x.valueError("reflect.Value.Bytes", r)
			return nil
		},
		"V.Interface": func(x *X, lite bool) Value {
			r := mustRV(x, "Interface")
			if r.ro {
				x.reflPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
			}
			v := x.rget(r)
			if r.rt.kind == KIface {
				return v
			}
			return Iface{r.rt, v}
		},
		"V.Set": func(x *X, lite bool) Value {
			r := rv0(x)
			mustSet(x, r, "Set")
			x.rset(r, x.rassign(rvalOf(x.args[1]), r.rt))
			return nil
		},
		"V.SetZero": func(x *X, lite bool) Value {
			r := rv0(x)
			mustSet(x, r, "SetZero")
			x.rset(r, r.rt.zeroVal())
			return nil
		},
		"V.SetInt": func(x *X, lite bool) Value {
			r := rv0(x)
			mustSet(x, r, "SetInt")
			if r.rt.kind != KInt {
				x.valueError("reflect.Value.SetInt", r)
			}
			x.rset(r, x.convert(x.e.tInt, r.rt, x.args[1]))
			return nil
		},
		"V.SetUint": func(x *X, lite bool) Value {
			r := rv0(x)
			mustSet(x, r, "SetUint")
			if r.rt.kind != KInt {
				x.valueError("reflect.Value.SetUint", r)
			}
			x.rset(r, x.convert(x.e.rt(types.Typ[types.Uint64]), r.rt, x.args[1]))
			return nil
		},
		"V.SetFloat": func(x *X, lite bool) Value {
			r := rv0(x)
			mustSet(x, r, "SetFloat")
			x.rset(r, f32(r.rt, x.args[1].(float64)))
			return nil
		},
		"V.SetBool":   func(x *X, lite bool) Value { r := rv0(x); mustSet(x, r, "SetBool"); x.rset(r, x.args[1]); return nil },
		"V.SetString": func(x *X, lite bool) Value { r := rv0(x); mustSet(x, r, "SetString"); x.rset(r, x.args[1]); return nil },
		"V.SetBytes":  func(x *X, lite bool) Value { r := rv0(x); mustSet(x, r, "SetBytes"); x.rset(r, x.args[1]); return nil },
		"V.SetLen": func(x *X, lite bool) Value {
			r := rv0(x)
			mustSet(x, r, "SetLen")
			s := x.rget(r).(Slice)
			n := x.argInt(1)
			if n < 0 || n > int(s.cap) {
				x.reflPanic("reflect: slice length out of range in SetLen")
			}
			s.len = int32(n)
			x.rset(r, s)
			return nil
		},
		"V.SetCap": func(x *X, lite bool) Value {
			r := rv0(x)
			mustSet(x, r, "SetCap")
			s := x.rget(r).(Slice)
			s.cap = int32(x.argInt(1))
			x.rset(r, s)
			return nil
		},
		"V.Grow": func(x *X, lite bool) Value {
			r := rv0(x)
			mustSet(x, r, "Grow")
			s := x.rget(r).(Slice)
			n := int32(x.argInt(1))
			if s.len+n > s.cap {
				t := x.appendCells(s, r.rt.elem, func() []Value {
					var z []Value
					for i := int32(0); i < n; i++ {
						z = append(z, r.rt.elem.zero...)
					}
					return z
				}(), n)
				t.len = s.len
				x.rset(r, t)
			}
			return nil
		},
		"V.Slice": func(x *X, lite bool) Value {
			r := mustRV(x, "Slice")
			i, j := int32(x.argInt(1)), int32(x.argInt(2))
			switch r.rt.kind {
			case KString:
				s := x.rget(r)
				if i < 0 || j < i || int(j) > strLen(s) {
					x.reflPanic("reflect.Value.Slice: string slice index out of bounds")
				}
				return mkRV(&RVal{rt: r.rt, v: strSub(s, int(i), int(j)), ro: r.ro})
			case KSlice, KArray:
				var s Slice
				t := r.rt
				if r.rt.kind == KArray {
					s = Slice{r.p.id, r.p.off, r.rt.n, r.rt.n}
					t = x.e.rt(types.NewSlice(r.rt.elem.t))
				} else {
					s = x.rget(r).(Slice)
				}
				if i < 0 || j < i || j > s.cap {
					x.reflPanic("reflect.Value.Slice: slice index out of bounds")
				}
				return mkRV(&RVal{rt: t, v: Slice{s.id, s.off + i*r.rt.elem.size, j - i, s.cap - i}, ro: r.ro})
			}
			x.valueError("reflect.Value.Slice", r)
			return nil
		},
		"V.MapIndex": func(x *X, lite bool) Value {
			r := mustRV(x, "MapIndex")
			mv := x.rget(r).(MapV)
			if mv == 0 {
				return mkRV(nil)
			}
			k := x.rassign(rvalOf(x.args[1]), r.rt.key)
			m := x.st.robj(int32(mv)).m
			i := x.mapFind(m, r.rt.key, k)
			if i < 0 {
				return mkRV(nil)
			}
			return mkRV(&RVal{rt: r.rt.elem, v: m.ents[i].v, ro: r.ro})
		},
		"V.SetMapIndex": func(x *X, lite bool) Value {
			r := mustRV(x, "SetMapIndex")
			mv := x.rget(r).(MapV)
			k := x.rassign(rvalOf(x.args[1]), r.rt.key)
			e := rvalOf(x.args[2])
			if e == nil {
				if mv != 0 {
					if i := x.mapFind(x.st.robj(int32(mv)).m, r.rt.key, k); i >= 0 {
						x.st.mapDel(mv, i)
					}
				}
				return nil
			}
			if mv == 0 {
				panic(goPanic{x.e.plainError("assignment to entry in nil map")})
			}
			v := x.rassign(e, r.rt.elem)
			i := x.mapFind(x.st.robj(int32(mv)).m, r.rt.key, k)
			x.st.mapSet(mv, i, k, v)
			return nil
		},
		"V.MapKeys": func(x *X, lite bool) Value {
			r := mustRV(x, "MapKeys")
			mv := x.rget(r).(MapV)
			var ks []Value
			if mv != 0 {
				for _, e := range x.st.robj(int32(mv)).m.ents {
					if !e.dead {
						ks = append(ks, mkRV(&RVal{rt: r.rt.key, v: e.k, ro: r.ro}))
					}
				}
			}
			return x.st.newSlice(x.e.valueRT(), ks)
		},
		"V.MapRange": func(x *X, lite bool) Value {
			// MapIter{m Value; hiter hiter}: m in cells 0..2, position in cell 3
			r := mustRV(x, "MapRange")
			rt := x.e.namedRT("reflect", "MapIter")
			id := x.st.alloc(rt, 1)
			x.st.writeCells(id, 0, mkRV(r).(Agg))
			x.st.set1(Ptr{id, 3}, uint64(0))
			return Ptr{id, 0}
		},
		"I.Next": func(x *X, lite bool) Value {
			p := x.ptr(x.args[0])
			r := rvalOf(Agg(x.st.readCells(p.id, p.off, 3)))
			mv := x.rget(r).(MapV)
			pos := uint64(0)
			if u, ok := x.st.get1(Ptr{p.id, p.off + 3}).(uint64); ok {
				pos = u
			}
			if mv == 0 {
				return false
			}
			m := x.st.robj(int32(mv)).m
			for int(pos) < len(m.ents) && m.ents[pos].dead {
				pos++
			}
			ok := int(pos) < len(m.ents)
			x.st.set1(Ptr{p.id, p.off + 3}, pos+1)
			return ok
		},
		"I.Key":   func(x *X, lite bool) Value { return x.iterKV(true) },
		"I.Value": func(x *X, lite bool) Value { return x.iterKV(false) },
		"V.SetIterKey": func(x *X, lite bool) Value {
			r := rv0(x)
			x.args = x.args[1:]
			x.rset(r, x.rassign(rvalOf(x.iterKV(true)), r.rt))
			return nil
		},
		"V.SetIterValue": func(x *X, lite bool) Value {
			r := rv0(x)
			x.args = x.args[1:]
			x.rset(r, x.rassign(rvalOf(x.iterKV(false)), r.rt))
			return nil
		},
		"V.NumMethod": func(x *X, lite bool) Value {
			r := mustRV(x, "NumMethod")
			if r.rt.kind == KIface {
				return uint64(r.rt.u.(*types.Interface).NumMethods())
			}
			return uint64(len(x.e.methods(r.rt)))
		},
		"V.Method": func(x *X, lite bool) Value {
			r := mustRV(x, "Method")
			i := x.argInt(1)
			if r.rt.kind == KIface {
				panic(unsupported{"reflect Method on interface value"})
			}
			ms := x.e.methods(r.rt)
			if i < 0 || i >= len(ms) {
				x.reflPanic("reflect: Method index out of range")
			}
			return mkRV(x.methodRV(r, ms[i]))
		},
		"V.MethodByName": func(x *X, lite bool) Value {
			r := mustRV(x, "MethodByName")
			name := x.concreteStr(x.args[1])
			for _, m := range x.e.methods(r.rt) {
				if m.Obj().Name() == name {
					return mkRV(x.methodRV(r, m))
				}
			}
			return mkRV(nil)
		},
		"V.Call":      func(x *X, lite bool) Value { return x.reflCall(false) },
		"V.CallSlice": func(x *X, lite bool) Value { return x.reflCall(true) },
		"V.Convert": func(x *X, lite bool) Value {
			r := mustRV(x, "Convert")
			t := typeArg(x.args[1])
			v := x.rget(r)
			if !types.ConvertibleTo(r.rt.t, t.t) && !(t.kind == KIface && x.e.implements(r.rt, t)) {
				x.reflPanic("reflect.Value.Convert: value of type " + x.e.typeString(r.rt) + " cannot be converted to type " + x.e.typeString(t))
			}
			if t.kind == KIface {
				return mkRV(&RVal{rt: t, v: x.rassign(r, t)})
			}
			return mkRV(&RVal{rt: t, v: x.convert(r.rt, t, v), ro: r.ro})
		},
		"V.CanConvert": func(x *X, lite bool) Value {
			return types.ConvertibleTo(mustRV(x, "CanConvert").rt.t, typeArg(x.args[1]).t)
		},
		"V.OverflowInt": func(x *X, lite bool) Value {
			r := mustRV(x, "OverflowInt")
			if r.rt.w == 64 {
				return false
			}
			t := toTerm(x.args[1], 64)
			return fromTerm(tNot(tEq(tSExt(tExtract(t, r.rt.w), 64), t)))
		},
		"V.OverflowUint": func(x *X, lite bool) Value {
			r := mustRV(x, "OverflowUint")
			if r.rt.w == 64 {
				return false
			}
			t := toTerm(x.args[1], 64)
			return fromTerm(tNot(tEq(tZExt(tExtract(t, r.rt.w), 64), t)))
		},
		"V.OverflowFloat": func(x *X, lite bool) Value {
			r := mustRV(x, "OverflowFloat")
			f := x.args[1].(float64)
			if r.rt.w == 32 {
				if f < 0 {
					f = -f
				}
				return math.MaxFloat32 < f && f <= math.MaxFloat64
			}
			return false
		},
		"V.Pointer":       func(x *X, lite bool) Value { return x.rptr() },
		"V.UnsafePointer": func(x *X, lite bool) Value { return x.rget(mustRV(x, "UnsafePointer")) },
		"V.UnsafeAddr":    func(x *X, lite bool) Value { r := rv0(x); return uint64(r.p.id)<<24 | uint64(r.p.off) },
		"V.Close": func(x *X, lite bool) Value {
			r := mustRV(x, "Close")
			x.closeChan(x.rget(r))
			return nil
		},
		"V.Recv": func(x *X, lite bool) Value {
			r := mustRV(x, "Recv")
			if r.rt.u.(*types.Chan).Dir() == types.SendOnly {
				x.reflPanic("reflect: recv on send-only channel")
			}
			ch := chanOf(x.rget(r))
			if ch == 0 {
				x.block("reflect recv on nil chan")
				return nil
			}
			v, ok, done := x.tryRecv(ch)
			if !done {
				x.block("reflect recv")
				return nil
			}
			if !ok {
				return Tuple{mkRV(&RVal{rt: r.rt.elem, v: r.rt.elem.zeroVal()}), false}
			}
			return Tuple{mkRV(&RVal{rt: r.rt.elem, v: v}), ok}
		},
		"V.TryRecv": func(x *X, lite bool) Value {
			r := mustRV(x, "TryRecv")
			ch := chanOf(x.rget(r))
			v, ok, done := x.tryRecv(ch)
			if !done {
				return Tuple{mkRV(nil), false}
			}
			return Tuple{mkRV(&RVal{rt: r.rt.elem, v: v}), ok}
		},
		"V.Send": func(x *X, lite bool) Value {
			r := mustRV(x, "Send")
			v := x.rassign(rvalOf(x.args[1]), r.rt.elem)
			ch := chanOf(x.rget(r))
			if ch == 0 || !x.trySend(ch, v) {
				x.block("reflect send")
			}
			return nil
		},
		"V.TrySend": func(x *X, lite bool) Value {
			r := mustRV(x, "TrySend")
			v := x.rassign(rvalOf(x.args[1]), r.rt.elem)
			return x.trySend(chanOf(x.rget(r)), v)
		},
		"V.Comparable": func(x *X, lite bool) Value { r := rv0(x); return r == nil || types.Comparable(r.rt.t) },
		"V.Equal": func(x *X, lite bool) Value {
			a, b := rv0(x), rvalOf(x.args[1])
			if a == nil || b == nil {
				return a == b
			}
			if a.rt != b.rt {
				return false
			}
			return x.eq(a.rt, x.rget(a), x.rget(b))
		},
	}
}

func (x *X) rptr() Value {
	r := mustRV(x, "Pointer")
	switch v := x.rget(r).(type) {
	case Ptr:
		return uint64(uint32(v.id))<<24 + uint64(v.off)
	case Slice:
		return uint64(uint32(v.id))<<24 + uint64(v.off)
	case MapV:
		return uint64(v) << 24
	case ChanV:
		return uint64(v) << 24
	case *Closure:
		if v == nil {
			return uint64(0)
		}
		return uint64(1) << 50
	}
	return uint64(0)
}

func (x *X) iterKV(key bool) Value {
	p := x.ptr(x.args[0])
	r := rvalOf(Agg(x.st.readCells(p.id, p.off, 3)))
	mv := x.rget(r).(MapV)
	pos := x.st.get1(Ptr{p.id, p.off + 3}).(uint64)
	e := x.st.robj(int32(mv)).m.ents[pos-1]
	if key {
		return mkRV(&RVal{rt: r.rt.key, v: e.k, ro: r.ro})
	}
	return mkRV(&RVal{rt: r.rt.elem, v: e.v, ro: r.ro})
}

func (e *Engine) valueRT() *RType { return e.namedRT("reflect", "Value") }

func (e *Engine) namedRT(pkg, name string) *RType {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported{"package " + pkg + " is not loaded"})
	}
	t, ok := p.Members[name].(*ssa.Type)
	if !ok {
		panic(unsupported{"type " + pkg + "." + name})
	}
	return e.rt(t.Type())
}

func (x *X) methodVal(t *RType, m *types.Selection, i int) Value {
	s := m.Type().(*types.Signature)
	// the method's func type has the receiver as first argument
	vars := []*types.Var{types.NewVar(0, nil, "", t.t)}
	for k := 0; k < s.Params().Len(); k++ {
		vars = append(vars, s.Params().At(k))
	}
	ft := x.e.rt(types.NewSignatureType(nil, nil, nil, types.NewTuple(vars...), s.Results(), s.Variadic()))
	fn := x.e.prog.MethodValue(m)
	return Agg{m.Obj().Name(), "", x.e.mkType(ft, false), &RVal{rt: ft, v: x.e.fnClosure(fn)}, Ptr{}, uint64(0), uint64(i)}
}

func (x *X) methodRV(r *RVal, m *types.Selection) *RVal {
	fn := x.e.prog.MethodValue(m)
	return &RVal{rt: sigNoRecv(x.e, m.Type().(*types.Signature)), meth: fn, recv: x.rget(r), ro: r.ro}
}

func (x *X) reflCall(isSlice bool) Value {
	r := mustRV(x, "Call")
	if r.rt.kind != KFunc {
		x.valueError("reflect.Value.Call", r)
	}
	if r.ro {
		x.reflPanic("reflect: reflect.Value.Call using value obtained using unexported field")
	}
	sig := r.rt.u.(*types.Signature)
	in := x.args[1].(Slice)
	var rvs []*RVal
	for i := int32(0); i < in.len; i++ {
		rvs = append(rvs, rvalOf(Agg(x.st.readCells(in.id, in.off+i*3, 3))))
	}
	np := sig.Params().Len()
	var args []Value
	if sig.Variadic() && !isSlice {
		if len(rvs) < np-1 {
			x.reflPanic("reflect: Call with too few input arguments")
		}
		for i := 0; i < np-1; i++ {
			args = append(args, x.callArg(rvs[i], x.e.rt(sig.Params().At(i).Type())))
		}
		st := x.e.rt(sig.Params().At(np - 1).Type())
		var vs []Value
		for _, a := range rvs[np-1:] {
			vs = append(vs, x.callArg(a, st.elem))
		}
		args = append(args, x.st.newSlice(st.elem, vs))
	} else {
		if len(rvs) < np {
			x.reflPanic("reflect: Call with too few input arguments")
		}
		if len(rvs) > np {
			x.reflPanic("reflect: Call with too many input arguments")
		}
		for i := 0; i < np; i++ {
			args = append(args, x.callArg(rvs[i], x.e.rt(sig.Params().At(i).Type())))
		}
	}
	var cl *Closure
	if r.meth != nil {
		cl = x.e.fnClosure(r.meth)
		args = append([]Value{r.recv}, args...)
	} else {
		cl, _ = x.rget(r).(*Closure)
		if cl == nil {
			x.reflPanic("reflect: call of nil function")
		}
	}
	e := x.e
	var outs []*RType
	for i := 0; i < sig.Results().Len(); i++ {
		outs = append(outs, e.rt(sig.Results().At(i).Type()))
	}
	x.callClosure(cl, args, func(x *X, res Value) {
		var vs []Value
		switch len(outs) {
		case 0:
		case 1:
			vs = append(vs, mkRV(&RVal{rt: outs[0], v: res}))
		default:
			for i, o := range outs {
				vs = append(vs, mkRV(&RVal{rt: o, v: res.(Tuple)[i]}))
			}
		}
		s := x.st.newSlice(x.e.valueRT(), vs)
		if x.in.dst >= 0 {
			x.fr.regs[x.in.dst] = s
		}
		x.fr.pc++
	})
	x.pushed = true
	return nil
}

func (x *X) callArg(r *RVal, t *RType) Value {
	if r == nil {
		x.reflPanic("reflect: Call using zero Value argument")
	}
	if t.kind != KIface && r.rt != t && !types.AssignableTo(r.rt.t, t.t) {
		x.reflPanic("reflect: Call using " + x.e.typeString(r.rt) + " as type " + x.e.typeString(t))
	}
	return x.rassign(r, t)
}

// deepEq is reflect.DeepEqual for interface values.
func (x *X) deepEq(a, b Value, depth int) Value {
	ia, ib := a.(Iface), b.(Iface)
	if ia.rt == nil || ib.rt == nil {
		return ia.rt == ib.rt
	}
	if ia.rt != ib.rt {
		return false
	}
	return x.deepEqT(ia.rt, ia.v, ib.v, depth)
}

func (x *X) deepEqT(rt *RType, a, b Value, depth int) Value {
	if depth > 40 {
		panic(unsupported{"DeepEqual depth"})
	}
	switch rt.kind {
	case KIface:
		return x.deepEq(a, b, depth+1)
	case KPtr:
		if a == b {
			return true
		}
		if isNilPtr(a) || isNilPtr(b) {
			return isNilPtr(a) && isNilPtr(b)
		}
		el := x.e.elemOf(rt)
		return x.deepEqT(el, x.load(a, el), x.load(b, el), depth+1)
	case KSlice:
		sa, sb := a.(Slice), b.(Slice)
		if (sa.id == 0) != (sb.id == 0) || sa.len != sb.len {
			return false
		}
		var r Value = true
		es := rt.elem.size
		for i := int32(0); i < sa.len; i++ {
			ca := fromCells(rt.elem, x.st.readCells(sa.id, sa.off+i*es, es))
			cb := fromCells(rt.elem, x.st.readCells(sb.id, sb.off+i*es, es))
			r = vAnd(r, x.deepEqT(rt.elem, ca, cb, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case KStruct:
		aa, ab := a.(Agg), b.(Agg)
		var r Value = true
		for i, f := range rt.fields {
			o := rt.foff[i]
			r = vAnd(r, x.deepEqT(f, fromCells(f, aa[o:o+f.size]), fromCells(f, ab[o:o+f.size]), depth+1))
		}
		return r
	case KArray:
		aa, ab := a.(Agg), b.(Agg)
		var r Value = true
		es := rt.elem.size
		for i := int32(0); i < rt.n; i++ {
			r = vAnd(r, x.deepEqT(rt.elem, fromCells(rt.elem, aa[i*es:(i+1)*es]), fromCells(rt.elem, ab[i*es:(i+1)*es]), depth+1))
		}
		return r
	case KMap:
		ma, mb := a.(MapV), b.(MapV)
		if (ma == 0) != (mb == 0) {
			return false
		}
		if ma == mb {
			return true
		}
		oa, ob := x.st.robj(int32(ma)).m, x.st.robj(int32(mb)).m
		if oa.n != ob.n {
			return false
		}
		var r Value = true
		for _, e := range oa.ents {
			if e.dead {
				continue
			}
			i := x.mapFind(ob, rt.key, e.k)
			if i < 0 {
				return false
			}
			r = vAnd(r, x.deepEqT(rt.elem, e.v, ob.ents[i].v, depth+1))
		}
		return r
	case KFunc:
		return isNilVal(a) && isNilVal(b)
	}
	return x.eq(rt, a, b)
}

func reflIntrinsic(name string) rfn {
	switch {
	case strings.HasPrefix(name, "(reflect.Value)."):
		return reflFns["V."+name[16:]]
	case strings.HasPrefix(name, "(internal/reflectlite.Value)."):
		return reflFns["V."+name[29:]]
	case strings.HasPrefix(name, "(*reflect.rtype)."):
		return reflFns["T."+name[17:]]
	case strings.HasPrefix(name, "(internal/reflectlite.rtype)."):
		return reflFns["T."+name[29:]]
	case strings.HasPrefix(name, "(*reflect.MapIter)."):
		return reflFns["I."+name[19:]]
	case strings.HasPrefix(name, "reflect."):
		return reflFns[name[8:]]
	case strings.HasPrefix(name, "internal/reflectlite."):
		return reflFns[name[21:]]
	}
	return nil
}

var reflSource = map[string]bool{
	"(reflect.Kind).String": true, "(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true,
	"(reflect.ChanDir).String": true, "(reflect.StructField).IsExported": true, "(reflect.Method).IsExported": true,
	"(*reflect.ValueError).Error": true, "reflect.TypeAssert": false,
	"(internal/reflectlite.Kind).String": true,
}

var _ = strconv.Itoa
