package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gogo proto.Equal for the proto3 messages of tendermint: structural equality over the generated Go types
// (unset/empty byte fields are equal, XXX_ fields ignored), as in the library's reflection-based walk.
func (x *Exec) protoEq(t types.Type, a, b Value, top bool) *Term {
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return x.eqTerm(a, b)
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == nil || q == nil {
			return c.Bool(p == nil && q == nil)
		}
		return x.protoEq(u.Elem(), *p, *q, false)
	case *types.Struct:
		s, r := a.(Struct), b.(Struct)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			if strings.HasPrefix(u.Field(i).Name(), "XXX_") {
				continue
			}
			e := x.protoEq(u.Field(i).Type(), s[i], r[i], false)
			if e.IsFalse() {
				return c.False
			}
			as = append(as, e)
		}
		return c.And(as...)
	case *types.Slice:
		s, r := a.(Slice), b.(Slice)
		if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			return x.bytesEq(s, r)
		}
		if len(s) != len(r) {
			return c.False
		}
		var as []*Term
		for i := range s {
			as = append(as, x.protoEq(u.Elem(), s[i], r[i], false))
		}
		return c.And(as...)
	case *types.Interface:
		i, j := a.(Iface), b.(Iface)
		if i.T == nil || j.T == nil {
			return c.Bool(i.T == nil && j.T == nil)
		}
		if !types.Identical(i.T, j.T) {
			return c.False
		}
		return x.protoEq(i.T, i.V, j.V, false)
	}
	panic(unsupported("proto.Equal over " + t.String()))
}

// deepEq is reflect.DeepEqual for values without cycles.
func (x *Exec) deepEq(t types.Type, a, b Value) *Term {
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return x.eqTerm(a, b)
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == q || p == nil || q == nil {
			return c.Bool(p == q)
		}
		return x.deepEq(u.Elem(), *p, *q)
	case *types.Struct:
		s, r := a.(Struct), b.(Struct)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, x.deepEq(u.Field(i).Type(), s[i], r[i]))
		}
		return c.And(as...)
	case *types.Array:
		s, r := a.(Array), b.(Array)
		var as []*Term
		for i := range s {
			as = append(as, x.deepEq(u.Elem(), s[i], r[i]))
		}
		return c.And(as...)
	case *types.Slice:
		s, r := a.(Slice), b.(Slice)
		if (s == nil) != (r == nil) || len(s) != len(r) {
			return c.False
		}
		var as []*Term
		for i := range s {
			as = append(as, x.deepEq(u.Elem(), s[i], r[i]))
		}
		return c.And(as...)
	case *types.Map:
		s, r := a.(*MapV), b.(*MapV)
		if (s == nil) != (r == nil) || s.length() != r.length() {
			return c.False
		}
		if s == nil {
			return c.True
		}
		var as []*Term
		for i, k := range s.keys {
			if k == nil {
				continue
			}
			j := x.mapFind(r, k)
			if j < 0 {
				return c.False
			}
			as = append(as, x.deepEq(u.Elem(), *s.vals[i], *r.vals[j]))
		}
		return c.And(as...)
	case *types.Interface:
		i, j := a.(Iface), b.(Iface)
		if i.T == nil || j.T == nil {
			return c.Bool(i.T == nil && j.T == nil)
		}
		if !types.Identical(i.T, j.T) {
			return c.False
		}
		return x.deepEq(i.T, i.V, j.V)
	}
	panic(unsupported("DeepEqual over " + t.String()))
}

func init() {
	reg("reflect.DeepEqual", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		i, j := a[0].(Iface), a[1].(Iface)
		if i.T == nil || j.T == nil {
			return x.c.Bool(i.T == nil && j.T == nil)
		}
		if !types.Identical(i.T, j.T) {
			return x.c.False
		}
		return x.deepEq(i.T, i.V, j.V)
	})
	for _, p := range []string{"github.com/gogo/protobuf/proto.Clone", "google.golang.org/protobuf/proto.Clone"} {
		reg(p, func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			if i.T == nil {
				return i
			}
			return Iface{T: i.T, V: x.deepCopy(i.T, i.V)}
		})
	}
	reg("github.com/gogo/protobuf/proto.CompactTextString", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return &OpqStr{parts: []Value{opqTag("proto"), a[0].(Iface).T.String()}}
	})
	reg("(google.golang.org/protobuf/internal/impl.Export).MessageStringOf", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return &OpqStr{parts: []Value{opqTag("proto"), a[1].(Iface).T.String()}}
	})
	reg("github.com/gogo/protobuf/proto.Equal", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		i, j := a[0].(Iface), a[1].(Iface)
		if i.T == nil || j.T == nil {
			return x.c.Bool(i.T == nil && j.T == nil)
		}
		if !types.Identical(i.T, j.T) {
			return x.c.False
		}
		return x.protoEq(i.T, i.V, j.V, true)
	})
}
