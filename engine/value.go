package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value representations (one concrete heap per path, symbolic scalar leaves):
//   *Term            integers and booleans
//   float64, complex128
//   string           fully concrete string;  *SymStr string with symbolic bytes; *OpqStr formatted text
//   *Value (Ptr)     pointer to a slot
//   Struct, Array    aggregate values;  Slice  []Value sharing Go's aliasing
//   *MapV, *Chan, Iface, *ssa.Function, *Closure, *ssa.Builtin, Tuple

type Value interface{}
type Ptr = *Value
type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value
type Iface struct {
	T types.Type
	V Value
}
type Closure struct {
	Fn     *ssa.Function
	Env    []Value
	Native func(x *Exec, g *G, args []Value) Value
	name   string
}
type SymStr struct{ b []*Term }

// OpqStr is the text produced by formatting symbolic values: a list of string / *Term /
// Value pieces. It supports concatenation and comparison with itself; reading its bytes is unsupported.
type OpqStr struct{ parts []Value }

// opqTag marks text of a shape that is not spelled out.
type opqTag string

type Poison struct{ why string }

type MapV struct {
	keys []Value
	vals []Ptr
	idx  map[string]int
	sym  int // number of keys with symbolic content
}

type Chan struct {
	cap     int
	buf     []Value
	closed  bool
	recvq   int // receivers currently blocked
	pending []*sendItem
	zero    Value
	id      int
}

type sendItem struct {
	v    Value
	done bool
}

var funcNil = (*Closure)(nil)

func zero(c *Ctx, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case u.Info()&types.IsBoolean != 0:
			return c.False
		case u.Info()&types.IsInteger != 0:
			return c.BV(intWidth(u), 0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			z := zero(c, u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(c, u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return funcNil
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(c, u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(c, u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported("zero of " + t.String()))
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		o := make(Struct, len(v))
		for i, e := range v {
			o[i] = copyVal(e)
		}
		return o
	case Array:
		o := make(Array, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				o[i] = copyVal(e)
			default:
				o[i] = e
			}
		}
		return o
	}
	return v
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) *unsupportedErr { return &unsupportedErr{msg} }

func (x *Exec) constVal(k *ssa.Const) Value {
	if v, ok := x.w.consts[k]; ok {
		return copyVal(v)
	}
	v := x.constVal1(k)
	x.w.consts[k] = v
	return copyVal(v)
}

func (x *Exec) constVal1(k *ssa.Const) Value {
	if k.Value == nil {
		return zero(x.c, k.Type())
	}
	b, ok := k.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + k.Type().String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		if i, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
			return x.c.BV(intWidth(b), uint64(i))
		}
		u, _ := constant.Uint64Val(constant.ToInt(k.Value))
		return x.c.BV(intWidth(b), u)
	case b.Info()&types.IsFloat != 0:
		return k.Float64()
	case b.Info()&types.IsComplex != 0:
		return k.Complex128()
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		return string(rune(k.Int64()))
	}
	panic(unsupported("const kind " + b.String()))
}

// ---- strings

func mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.IsConst() {
			return &SymStr{b}
		}
	}
	o := make([]byte, len(b))
	for i, t := range b {
		o[i] = byte(t.k)
	}
	return string(o)
}

func (x *Exec) strBytes(v Value) []*Term {
	switch v := v.(type) {
	case string:
		o := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			o[i] = x.c.BV(8, uint64(v[i]))
		}
		return o
	case *SymStr:
		return v.b
	case *OpqStr:
		return x.textBytes(v)
	}
	panic(unsupported(fmt.Sprintf("string bytes of %T", v)))
}

// textBytes spells out formatted text that consists of strings and decimal numbers; the length of each number
// is a case distinction.
func (x *Exec) textBytes(q *OpqStr) []*Term {
	if b, ok := x.st.texts[q]; ok {
		return b
	}
	if x.initMode {
		panic(unsupported("reading the bytes of formatted text"))
	}
	for _, p := range q.parts {
		switch p.(type) {
		case string, *SymStr, *decNum:
		default:
			panic(unsupported("reading the bytes of formatted text"))
		}
	}
	var o []*Term
	for _, p := range q.parts {
		switch p := p.(type) {
		case *decNum:
			o = append(o, x.digits(p)...)
		default:
			o = append(o, x.strBytes(p)...)
		}
	}
	if x.st.texts == nil {
		x.st.texts = map[*OpqStr][]*Term{}
	}
	x.st.texts[q] = o
	return o
}

func (x *Exec) digits(d *decNum) (o []*Term) {
	c := x.c
	key := fmt.Sprintf("dec%v.%d", d.signed, d.t.id)
	if b, ok := x.st.decs[key]; ok {
		return b
	}
	m := d.t
	if m.w < 64 {
		if d.signed {
			m = c.Sext(m, 64)
		} else {
			m = c.Zext(m, 64)
		}
	}
	if d.signed && x.branch(c.Slt(m, c.BV(64, 0))) {
		o = append(o, c.BV(8, '-'))
		m = c.Neg(m)
	}
	n, p := 1, uint64(10)
	for ; n < 20 && !x.branch(c.Ult(m, c.BV(64, p))); n++ {
		p *= 10
	}
	if n == 1 {
		o = append(o, c.Add(c.Extract(m, 7, 0), c.BV(8, '0')))
	} else {
		// the digits are the only ones that add up to the number
		sum := c.BV(64, 0)
		for i, q := 0, p/10; i < n; i, q = i+1, q/10 {
			v := x.newVar("digit", 4)
			x.assume(c.Ult(v, c.BV(4, 10)))
			sum = c.Add(sum, c.Mul(c.Zext(v, 64), c.BV(64, q)))
			o = append(o, c.Add(c.Zext(v, 8), c.BV(8, '0')))
		}
		x.assume(c.Eq(sum, m))
	}
	if x.st.decs == nil {
		x.st.decs = map[string][]*Term{}
	}
	x.st.decs[key] = o
	return o
}

// text is a string value whose bytes are spelled out.
func (x *Exec) text(v Value) Value {
	if q, ok := v.(*OpqStr); ok {
		return mkStr(x.textBytes(q))
	}
	return v
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	case *OpqStr:
		panic(unsupported("length of formatted text"))
	}
	panic(unsupported(fmt.Sprintf("strlen of %T", v)))
}

func (x *Exec) strConcat(a, b Value) Value {
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return s + t
		}
		if s == "" {
			return b
		}
	}
	if t, ok := b.(string); ok && t == "" {
		return a
	}
	_, oa := a.(*OpqStr)
	_, ob := b.(*OpqStr)
	if oa || ob {
		o := &OpqStr{}
		for _, v := range []Value{a, b} {
			if q, ok := v.(*OpqStr); ok {
				o.parts = append(o.parts, q.parts...)
			} else {
				o.parts = append(o.parts, v)
			}
		}
		return o
	}
	return mkStr(append(append([]*Term{}, x.strBytes(a)...), x.strBytes(b)...))
}

func (x *Exec) bytesOf(v Value) []*Term {
	s, ok := v.(Slice)
	if !ok {
		if a, ok := v.(Array); ok {
			s = Slice(a)
		} else {
			panic(unsupported(fmt.Sprintf("bytesOf %T", v)))
		}
	}
	o := make([]*Term, len(s))
	for i, e := range s {
		o[i] = e.(*Term)
	}
	return o
}

func mkBytes(b []*Term) Slice {
	o := make(Slice, len(b))
	for i, t := range b {
		o[i] = t
	}
	return o
}

func (x *Exec) goBytes(b []byte) Slice {
	o := make(Slice, len(b))
	for i, t := range b {
		o[i] = x.c.BV(8, uint64(t))
	}
	return o
}

func concBytes(v Value) ([]byte, bool) {
	var s []Value
	switch v := v.(type) {
	case Slice:
		s = v
	case Array:
		s = v
	default:
		return nil, false
	}
	o := make([]byte, len(s))
	for i, e := range s {
		t, ok := e.(*Term)
		if !ok || !t.IsConst() {
			return nil, false
		}
		o[i] = byte(t.k)
	}
	return o, true
}

// keyStr gives a canonical key for a fully concrete comparable value.
func keyStr(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if !v.IsConst() {
			return "", false
		}
		return fmt.Sprintf("i%d:%d", v.w, v.k), true
	case string:
		return "s" + fmt.Sprint(len(v)) + ":" + v, true
	case *SymStr, *OpqStr:
		return "", false
	case float64:
		return fmt.Sprint("f", v), true
	case Ptr:
		return fmt.Sprintf("p%p", v), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case Iface:
		if v.T == nil {
			return "nil", true
		}
		k, ok := keyStr(v.V)
		return "I" + types.TypeString(v.T, nil) + "|" + k, ok
	case Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, e := range v {
			k, ok := keyStr(e)
			if !ok {
				return "", false
			}
			sb.WriteString(k + ";")
		}
		return sb.String() + "}", true
	case Array:
		var sb strings.Builder
		sb.WriteString("[")
		for _, e := range v {
			k, ok := keyStr(e)
			if !ok {
				return "", false
			}
			sb.WriteString(k + ";")
		}
		return sb.String() + "]", true
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

// eqTerm builds the (symbolic) equality of two values of the same static type.
func (x *Exec) eqTerm(a, b Value) *Term {
	c := x.c
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		if !ok {
			panic(unsupported(fmt.Sprintf("compare term with %T", b)))
		}
		return c.Eq(a, bt)
	case string:
		if bs, ok := b.(string); ok {
			return c.Bool(a == bs)
		}
		return x.eqStr(a, b)
	case *SymStr, *OpqStr:
		return x.eqStr(a, b)
	case float64:
		return c.Bool(a == b.(float64))
	case complex128:
		return c.Bool(a == b.(complex128))
	case Ptr:
		return c.Bool(a == b.(Ptr))
	case *Chan:
		return c.Bool(a == b.(*Chan))
	case *MapV:
		return c.Bool(a == b.(*MapV))
	case Iface:
		bi := b.(Iface)
		if a.T == nil || bi.T == nil {
			return c.Bool(a.T == nil && bi.T == nil)
		}
		if !types.Identical(a.T, bi.T) {
			return c.False
		}
		if !types.Comparable(a.T) {
			x.rtPanic("runtime error: comparing uncomparable type " + a.T.String())
		}
		return x.eqTerm(a.V, bi.V)
	case Struct:
		bs := b.(Struct)
		r := make([]*Term, len(a))
		for i := range a {
			r[i] = x.eqTerm(a[i], bs[i])
		}
		return c.And(r...)
	case Array:
		bs := b.(Array)
		r := make([]*Term, len(a))
		for i := range a {
			r[i] = x.eqTerm(a[i], bs[i])
		}
		return c.And(r...)
	case Slice:
		if bs, ok := b.(Slice); ok {
			if a == nil || bs == nil {
				return c.Bool(a == nil && bs == nil)
			}
		}
		if b == nil {
			return c.Bool(a == nil)
		}
	case *Closure:
		if b == nil {
			return c.Bool(a == nil)
		}
		if bb, ok := b.(*Closure); ok {
			return c.Bool(a == bb)
		}
		return c.False
	case *ssa.Function:
		return c.False
	case *ssa.Builtin:
		return c.False
	case nil:
		if b == nil {
			return c.True
		}
		return x.eqTerm(b, a)
	case *Poison:
		panic(unsupported("use of " + a.why))
	}
	panic(unsupported(fmt.Sprintf("compare %T with %T", a, b)))
}

func (x *Exec) eqStr(a, b Value) *Term {
	oa, ia := a.(*OpqStr)
	ob, ib := b.(*OpqStr)
	if ia && ib {
		if oa == ob {
			return x.c.True
		}
		if len(oa.parts) == len(ob.parts) {
			same := true
			for i := range oa.parts {
				if !reflect.DeepEqual(oa.parts[i], ob.parts[i]) {
					same = false
				}
			}
			if same {
				return x.c.True
			}
		}
	}
	if ia || ib {
		if s, ok := a.(string); ok && s == "" {
			return x.c.False
		}
		if s, ok := b.(string); ok && s == "" {
			return x.c.False
		}
	}
	return x.eqBytes(x.strBytes(a), x.strBytes(b))
}

func (x *Exec) eqBytes(a, b []*Term) *Term {
	if len(a) != len(b) {
		return x.c.False
	}
	r := make([]*Term, 0, len(a))
	for i := range a {
		e := x.c.Eq(a[i], b[i])
		if e.IsFalse() {
			return e
		}
		r = append(r, e)
	}
	return x.c.And(r...)
}

// ---- maps

func newMap() *MapV { return &MapV{idx: map[string]int{}} }

// find returns the entry index for key or -1 (forking on symbolic equality).
func (x *Exec) mapFind(m *MapV, key Value) int {
	if m == nil {
		return -1
	}
	if i, ok := key.(Iface); ok && i.T != nil && !types.Comparable(i.T) {
		x.rtPanic("runtime error: hash of unhashable type " + i.T.String())
	}
	ks, conc := keyStr(key)
	if conc {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i, k := range m.keys {
		if k == nil {
			continue
		}
		if conc {
			if _, kc := keyStr(k); kc {
				continue
			}
		}
		if x.branch(x.eqTerm(k, key)) {
			return i
		}
	}
	return -1
}

func (x *Exec) mapSet(m *MapV, key, v Value) {
	if m == nil {
		x.rtPanic("assignment to entry in nil map")
	}
	i := x.mapFind(m, key)
	if i >= 0 {
		x.storeSlot(m.vals[i], copyVal(v))
		return
	}
	slot := new(Value)
	*slot = copyVal(v)
	n := len(m.keys)
	ks, conc := keyStr(key)
	m.keys = append(m.keys, copyVal(key))
	m.vals = append(m.vals, slot)
	if conc {
		m.idx[ks] = n
	} else {
		m.sym++
	}
	x.undo(func() {
		m.keys = m.keys[:n]
		m.vals = m.vals[:n]
		if conc {
			delete(m.idx, ks)
		} else {
			m.sym--
		}
	})
}

func (x *Exec) mapDelete(m *MapV, key Value) {
	if m == nil {
		return
	}
	i := x.mapFind(m, key)
	if i < 0 {
		return
	}
	k, v := m.keys[i], m.vals[i]
	ks, conc := keyStr(k)
	m.keys[i], m.vals[i] = nil, nil
	if conc {
		delete(m.idx, ks)
	} else {
		m.sym--
	}
	x.undo(func() {
		m.keys[i], m.vals[i] = k, v
		if conc {
			m.idx[ks] = i
		} else {
			m.sym++
		}
	})
}

func (m *MapV) length() int {
	if m == nil {
		return 0
	}
	n := 0
	for _, k := range m.keys {
		if k != nil {
			n++
		}
	}
	return n
}

// growCap reproduces the capacity the Go runtime gives append.
func growCap(elemSize int64, oldLen, oldCap, add int) int {
	if oldLen+add <= oldCap {
		return oldCap
	}
	if elemSize <= 0 || elemSize > 4096 || oldCap > 1<<16 || add > 1<<16 {
		return oldLen + add
	}
	st := reflect.SliceOf(reflect.ArrayOf(int(elemSize), reflect.TypeOf(byte(0))))
	if elemSize == 8 {
		st = reflect.TypeOf([]uint64(nil))
	} else if elemSize == 1 {
		st = reflect.TypeOf([]byte(nil))
	}
	s := reflect.MakeSlice(st, oldLen, oldCap)
	t := reflect.MakeSlice(st, add, add)
	return reflect.AppendSlice(s, t).Cap()
}

func (x *Exec) appendVals(elem types.Type, s Slice, add []Value) Slice {
	if len(add) == 0 {
		return s
	}
	n := len(s)
	if n+len(add) <= cap(s) {
		o := s[:n+len(add)]
		for i, v := range add {
			x.storeSlot(&o[n+i], copyVal(v))
		}
		return o
	}
	nc := growCap(x.w.eng.sizes.Sizeof(elem), n, cap(s), len(add))
	o := make(Slice, n+len(add), nc)
	for i, v := range s {
		o[i] = copyVal(v)
	}
	for i, v := range add {
		o[n+i] = copyVal(v)
	}
	if nc > len(o) {
		z := zero(x.c, elem)
		full := o[:nc]
		for i := len(o); i < nc; i++ {
			full[i] = copyVal(z)
		}
	}
	return o
}
