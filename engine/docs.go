package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Encoded documents (JSON, tendermint JSON, YAML). A document whose leaves are all concrete is
// rendered as real JSON text; one with symbolic leaves becomes a unique marker that the decoder
// (and byte comparison) resolves through a registry. The encoders are trusted to be injective and
// to round-trip; which fields are encoded, under which names and with which types comes from the
// Go types of the code under test.

type docKind int

const (
	dNull docKind = iota
	dBool
	dInt
	dStr
	dB64
	dHex
	dArr
	dObj
	dNum
)

type Doc struct {
	k      docKind
	t      *Term
	signed bool
	quoted bool
	s      Value // dStr
	b      []*Term
	items  []*Doc
	keys   []string
	text   string // dNum
	yaml   bool
	suffix string
}

const docMark = "\x01vxdoc:"

func (d *Doc) concrete() bool {
	switch d.k {
	case dBool, dInt:
		return d.t.IsConst()
	case dStr:
		_, ok := d.s.(string)
		return ok
	case dB64, dHex:
		for _, t := range d.b {
			if !t.IsConst() {
				return false
			}
		}
	case dArr, dObj:
		for _, i := range d.items {
			if !i.concrete() {
				return false
			}
		}
	}
	return true
}

func concTerms(b []*Term) []byte {
	o := make([]byte, len(b))
	for i, t := range b {
		o[i] = byte(t.k)
	}
	return o
}

func quoteJSON(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (d *Doc) render(sb *strings.Builder) {
	switch d.k {
	case dNull:
		sb.WriteString("null")
	case dBool:
		if d.t.k != 0 {
			sb.WriteString("true")
		} else {
			sb.WriteString("false")
		}
	case dInt:
		s := strconv.FormatUint(d.t.k, 10)
		if d.signed {
			s = strconv.FormatInt(d.t.S(), 10)
		}
		if d.quoted {
			s = `"` + s + `"`
		}
		sb.WriteString(s)
	case dStr:
		sb.WriteString(quoteJSON(d.s.(string)))
	case dB64:
		sb.WriteString(`"` + base64.StdEncoding.EncodeToString(concTerms(d.b)) + `"`)
	case dHex:
		sb.WriteString(`"` + strings.ToUpper(fmt.Sprintf("%x", concTerms(d.b))) + `"`)
	case dNum:
		sb.WriteString(d.text)
	case dArr:
		sb.WriteString("[")
		for i, e := range d.items {
			if i > 0 {
				sb.WriteString(",")
			}
			e.render(sb)
		}
		sb.WriteString("]")
	case dObj:
		sb.WriteString("{")
		for i, e := range d.items {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(quoteJSON(d.keys[i]) + ":")
			e.render(sb)
		}
		sb.WriteString("}")
	}
}

func (d *Doc) skey(sb *strings.Builder) {
	fmt.Fprintf(sb, "(%d", d.k)
	switch d.k {
	case dBool, dInt:
		fmt.Fprintf(sb, "t%d %v %v", d.t.id, d.signed, d.quoted)
	case dStr:
		switch v := d.s.(type) {
		case string:
			fmt.Fprintf(sb, "%q", v)
		case *SymStr:
			for _, t := range v.b {
				fmt.Fprintf(sb, " %d", t.id)
			}
		default:
			fmt.Fprintf(sb, "%p", v)
		}
	case dB64, dHex:
		for _, t := range d.b {
			fmt.Fprintf(sb, " %d", t.id)
		}
	case dNum:
		sb.WriteString(d.text)
	case dArr, dObj:
		for i, e := range d.items {
			if d.k == dObj {
				fmt.Fprintf(sb, "%q", d.keys[i])
			}
			e.skey(sb)
		}
	}
	sb.WriteString(")")
}

// docBytes renders a document.
func (x *Exec) docBytes(d *Doc, prefix, indent string, nl string) Slice {
	if d.concrete() && !d.yaml {
		var sb strings.Builder
		d.render(&sb)
		s := sb.String()
		if indent != "" || prefix != "" {
			var b bytes.Buffer
			if json.Indent(&b, []byte(s), prefix, indent) == nil {
				s = b.String()
			}
		}
		return x.goBytes([]byte(s + nl))
	}
	var sb strings.Builder
	d.skey(&sb)
	key := sb.String() + "|" + prefix + indent + nl
	id, ok := x.st.docIdx[key]
	if !ok {
		id = len(x.st.docs)
		x.st.docs = append(x.st.docs, d)
		x.st.docIdx[key] = id
		_ = nl
	}
	// the stand-in has about the length of the text it stands for, so that
	// overwriting a longer text in place, or cutting one short, leaves
	// something that is no document
	mark := fmt.Sprintf("%s%d:", docMark, id)
	if n := d.width() - len(mark) - 1; n > 0 {
		mark += strings.Repeat(".", n)
	}
	return x.goBytes([]byte(mark + "\x01"))
}

// width estimates the length of a document's text.
func (d *Doc) width() int {
	switch d.k {
	case dBool, dNull:
		return 4
	case dInt:
		return 8
	case dStr:
		switch v := d.s.(type) {
		case string:
			return len(v) + 2
		case *SymStr:
			return len(v.b) + 2
		}
		return 16
	case dB64:
		return (len(d.b)+2)/3*4 + 2
	case dHex:
		return 2*len(d.b) + 2
	case dNum:
		return len(d.text)
	}
	n := 2
	for i, e := range d.items {
		n += e.width() + 1
		if d.k == dObj {
			n += len(d.keys[i]) + 3
		}
	}
	return n
}

// docID recognises a document marker.
func (x *Exec) docOf(b []*Term) *Doc {
	if len(b) < len(docMark)+2 || !b[0].IsConst() || b[0].k != 1 {
		return nil
	}
	for _, t := range b {
		if !t.IsConst() {
			return nil
		}
	}
	s := string(concTerms(b))
	s = strings.TrimRight(s, "\n ")
	if !strings.HasPrefix(s, docMark) || !strings.HasSuffix(s, "\x01") {
		return nil
	}
	num := strings.TrimRight(s[len(docMark):len(s)-1], ".")
	if !strings.HasSuffix(num, ":") {
		return nil
	}
	n, err := strconv.Atoi(num[:len(num)-1])
	if err != nil || n >= len(x.st.docs) {
		return nil
	}
	return x.st.docs[n]
}

// parseDoc parses concrete JSON text (one value; rest is returned).
func (x *Exec) parseDoc(b []byte, stream bool) (*Doc, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	d, err := x.parseVal(dec)
	if err != nil {
		if err == io.EOF {
			return nil, fmt.Errorf("unexpected end of JSON input")
		}
		return nil, err
	}
	if !stream {
		if !json.Valid(b) {
			return nil, fmt.Errorf("invalid character after top-level value")
		}
	}
	return d, nil
}

func (x *Exec) parseVal(dec *json.Decoder) (*Doc, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	return x.parseTok(dec, t)
}

func (x *Exec) parseTok(dec *json.Decoder, t json.Token) (*Doc, error) {
	switch t := t.(type) {
	case nil:
		return &Doc{k: dNull}, nil
	case bool:
		return &Doc{k: dBool, t: x.c.Bool(t)}, nil
	case json.Number:
		return &Doc{k: dNum, text: string(t)}, nil
	case string:
		return &Doc{k: dStr, s: t}, nil
	case json.Delim:
		if t == '[' {
			d := &Doc{k: dArr}
			for dec.More() {
				e, err := x.parseVal(dec)
				if err != nil {
					return nil, err
				}
				d.items = append(d.items, e)
			}
			_, err := dec.Token()
			return d, err
		}
		d := &Doc{k: dObj}
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return nil, err
			}
			e, err := x.parseVal(dec)
			if err != nil {
				return nil, err
			}
			d.keys = append(d.keys, k.(string))
			d.items = append(d.items, e)
		}
		_, err := dec.Token()
		return d, err
	}
	return nil, fmt.Errorf("bad token")
}

// bytesEq is byte-string equality that understands documents.
func (x *Exec) bytesEq(a, b Value) *Term {
	ba, bb := x.anyBytes(a), x.anyBytes(b)
	da, db := x.docOf(ba), x.docOf(bb)
	if da == nil && db == nil {
		return x.eqBytes(ba, bb)
	}
	conv := func(d *Doc, t []*Term) *Doc {
		if d != nil {
			return d
		}
		for _, e := range t {
			if !e.IsConst() {
				return nil
			}
		}
		p, err := x.parseDoc(concTerms(t), false)
		if err != nil {
			return nil
		}
		return p
	}
	da, db = conv(da, ba), conv(db, bb)
	if da == nil || db == nil {
		return x.c.False
	}
	return x.docEq(da, db)
}

func (x *Exec) docEq(a, b *Doc) *Term {
	c := x.c
	if a == b {
		return c.True
	}
	if a.concrete() && b.concrete() {
		var p, q strings.Builder
		a.render(&p)
		b.render(&q)
		return c.Bool(p.String() == q.String())
	}
	if a.k != b.k {
		if b.k == dB64 || b.k == dInt || b.k == dHex {
			a, b = b, a
		}
		switch {
		case a.k == dB64 && b.k == dStr:
			if s, ok := b.s.(string); ok {
				if r, err := base64.StdEncoding.DecodeString(s); err == nil {
					return x.eqBytes(a.b, x.strBytes(string(r)))
				}
				return c.False
			}
		case a.k == dHex && b.k == dStr:
			if s, ok := b.s.(string); ok {
				r := make([]byte, len(s)/2)
				if n, err := fmt.Sscanf(s, "%X", &r); n == 1 && err == nil {
					return x.eqBytes(a.b, x.strBytes(string(r)))
				}
				return c.False
			}
		case a.k == dInt && (b.k == dNum && !a.quoted || b.k == dStr && a.quoted):
			s := b.text
			if b.k == dStr {
				var ok bool
				if s, ok = b.s.(string); !ok {
					panic(unsupported("comparison of number and symbolic text"))
				}
			}
			if a.signed {
				if n, err := strconv.ParseInt(s, 10, 64); err == nil && strconv.FormatInt(n, 10) == s {
					return c.Eq(c.Sext(a.t, 64), c.BV(64, uint64(n)))
				}
			} else if n, err := strconv.ParseUint(s, 10, 64); err == nil && strconv.FormatUint(n, 10) == s {
				return c.Eq(c.Zext(a.t, 64), c.BV(64, n))
			}
			return c.False
		}
		if a.k == dNull || b.k == dNull || a.k == dObj || b.k == dObj || a.k == dArr || b.k == dArr || a.k == dBool || b.k == dBool {
			return c.False
		}
		panic(unsupported("comparison of documents of different shape"))
	}
	switch a.k {
	case dBool:
		return c.Eq(a.t, b.t)
	case dInt:
		if a.quoted != b.quoted {
			return c.False
		}
		if a.signed == b.signed {
			if a.signed {
				return c.Eq(c.Sext(a.t, 64), c.Sext(b.t, 64))
			}
			return c.Eq(c.Zext(a.t, 64), c.Zext(b.t, 64))
		}
		panic(unsupported("comparison of signed and unsigned text"))
	case dStr:
		as, aok := a.s.(string)
		bs, bok := b.s.(string)
		if aok && bok && strings.HasPrefix(as, docMark) && strings.HasPrefix(bs, docMark) {
			return x.bytesEq(as, bs)
		}
		return x.eqStr2(a.s, b.s)
	case dB64, dHex:
		return x.eqBytes(a.b, b.b)
	case dArr, dObj:
		if len(a.items) != len(b.items) {
			return c.False
		}
		r := []*Term{}
		for i := range a.items {
			if a.k == dObj && a.keys[i] != b.keys[i] {
				return c.False
			}
			r = append(r, x.docEq(a.items[i], b.items[i]))
		}
		return c.And(r...)
	}
	return c.Bool(a.text == b.text)
}

func (x *Exec) eqStr2(a, b Value) *Term {
	if as, ok := a.(string); ok {
		if bs, ok := b.(string); ok {
			return x.c.Bool(as == bs)
		}
	}
	return x.eqStr(a, b)
}

// ---------------------------------------------------------------- fields

type docField struct {
	name      string
	idx       []int
	omit      bool
	tagged    bool
	depth     int
	t         types.Type
	asString  bool
	ambiguous bool
}

func structFields(t *types.Struct, flavor string) []docField {
	var out []docField
	type q struct {
		t   *types.Struct
		idx []int
	}
	cur := []q{{t, nil}}
	taken := map[string]bool{}
	for depth := 0; len(cur) > 0 && depth < 6; depth++ {
		var next []q
		var level []docField
		for _, e := range cur {
			for i := 0; i < e.t.NumFields(); i++ {
				f := e.t.Field(i)
				tagKey := "json"
				if flavor == "yaml" {
					tagKey = "yaml"
				}
				tag := reflect.StructTag(e.t.Tag(i)).Get(tagKey)
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				opt := map[string]bool{}
				for _, o := range parts[1:] {
					opt[o] = true
				}
				idx := append(append([]int{}, e.idx...), i)
				if f.Embedded() && flavor == "json" && name == "" {
					ft := f.Type()
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						ft = p.Elem()
					}
					if st, ok := ft.Underlying().(*types.Struct); ok {
						next = append(next, q{st, idx})
						continue
					}
				}
				if !f.Exported() {
					continue
				}
				if name == "" {
					name = f.Name()
					if flavor == "yaml" {
						name = strings.ToLower(name)
					}
				}
				level = append(level, docField{name: name, idx: idx, omit: opt["omitempty"], tagged: parts[0] != "", depth: depth, t: f.Type(), asString: opt["string"]})
			}
		}
		count := map[string]int{}
		for _, f := range level {
			count[f.name]++
		}
		for _, f := range level {
			if taken[f.name] {
				continue
			}
			if count[f.name] > 1 && flavor == "json" && depth > 0 {
				continue
			}
			out = append(out, f)
		}
		for _, f := range level {
			taken[f.name] = true
		}
		cur = next
	}
	// encoding/json orders fields by index sequence
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && lessIdx(out[j].idx, out[j-1].idx); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func lessIdx(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

type docErr struct{ msg Value }

// ---------------------------------------------------------------- encoding

var tmTypes = map[string]string{
	"github.com/tendermint/tendermint/crypto/ed25519.PubKey":  "tendermint/PubKeyEd25519",
	"github.com/tendermint/tendermint/crypto/ed25519.PrivKey": "tendermint/PrivKeyEd25519",
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (x *Exec) isHexBytes(t types.Type) bool {
	return typeKey(t) == "github.com/tendermint/tendermint/libs/bytes.HexBytes"
}

func (x *Exec) jenc(t types.Type, v Value, fl string, addr Ptr) *Doc {
	if po, ok := v.(*Poison); ok {
		panic(unsupported("encoding " + po.why))
	}
	if x.isHexBytes(t) && fl != "yaml" {
		return &Doc{k: dHex, b: x.bytesOf(v)}
	}
	if fl == "tm" {
		if n, ok := tmTypes[typeKey(t)]; ok && addr == nil {
			_ = n
		}
	}
	if fl != "yaml" {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if m := x.w.eng.methodNamed(t, "MarshalJSON"); m != nil {
				if p, ok := v.(Ptr); ok && p == nil {
					return &Doc{k: dNull}
				}
				return x.callMarshal(m, v)
			}
			if addr != nil {
				if m := x.w.eng.methodNamed(types.NewPointer(t), "MarshalJSON"); m != nil {
					return x.callMarshal(m, addr)
				}
			}
			if m := x.w.eng.methodNamed(t, "MarshalText"); m != nil {
				panic(unsupported("MarshalText of " + t.String()))
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Doc{k: dBool, t: v.(*Term)}
		case u.Info()&types.IsInteger != 0:
			q := false
			if fl == "tm" {
				switch u.Kind() {
				case types.Int64, types.Uint64, types.Int, types.Uint:
					q = true
				}
			}
			return &Doc{k: dInt, t: v.(*Term), signed: u.Info()&types.IsUnsigned == 0, quoted: q}
		case u.Info()&types.IsString != 0:
			return &Doc{k: dStr, s: v}
		case u.Info()&types.IsFloat != 0:
			b, _ := json.Marshal(v.(float64))
			return &Doc{k: dNum, text: string(b)}
		}
	case *types.Pointer:
		p := v.(Ptr)
		if p == nil {
			return &Doc{k: dNull}
		}
		return x.jenc(u.Elem(), copyVal(*p), fl, p)
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			return &Doc{k: dNull}
		}
		if fl == "tm" {
			if n, ok := tmTypes[typeKey(i.T)]; ok {
				return &Doc{k: dObj, keys: []string{"type", "value"}, items: []*Doc{{k: dStr, s: n}, x.jenc(i.T, i.V, fl, nil)}}
			}
			if t.String() != "interface{}" && t.String() != "any" {
				panic(unsupported("tendermint JSON of interface " + t.String()))
			}
		}
		return x.jenc(i.T, i.V, fl, nil)
	case *types.Slice:
		s := v.(Slice)
		if s == nil && fl != "yaml" {
			return &Doc{k: dNull}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && fl != "yaml" {
			return &Doc{k: dB64, b: x.bytesOf(s)}
		}
		d := &Doc{k: dArr}
		for i := range s {
			d.items = append(d.items, x.jenc(u.Elem(), copyVal(s[i]), fl, &s[i]))
		}
		return d
	case *types.Array:
		a := v.(Array)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && fl == "tm" {
			return &Doc{k: dB64, b: x.bytesOf(v)}
		}
		d := &Doc{k: dArr}
		for i := range a {
			d.items = append(d.items, x.jenc(u.Elem(), copyVal(a[i]), fl, nil))
		}
		return d
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return &Doc{k: dNull}
		}
		if m.sym > 0 {
			panic(unsupported("encoding a map with symbolic keys"))
		}
		d := &Doc{k: dObj}
		for i, k := range m.keys {
			if k == nil {
				continue
			}
			var ks string
			switch kv := k.(type) {
			case string:
				ks = kv
			case *Term:
				ks = fmt.Sprint(kv.S())
			default:
				panic(unsupported("map key in document"))
			}
			d.keys = append(d.keys, ks)
			d.items = append(d.items, x.jenc(u.Elem(), copyVal(*m.vals[i]), fl, nil))
		}
		for i := 1; i < len(d.keys); i++ {
			for j := i; j > 0 && d.keys[j] < d.keys[j-1]; j-- {
				d.keys[j], d.keys[j-1] = d.keys[j-1], d.keys[j]
				d.items[j], d.items[j-1] = d.items[j-1], d.items[j]
			}
		}
		return d
	case *types.Struct:
		if typeKey(t) == "time.Time" {
			panic(unsupported("encoding time.Time"))
		}
		d := &Doc{k: dObj}
		fields := structFields(u, fl)
		s := v.(Struct)
		var as Struct
		if addr != nil {
			as, _ = (*addr).(Struct)
		}
	next:
		for _, f := range fields {
			var fv Value = s
			var fa Ptr
			cont := as
			for n, i := range f.idx {
				if p, ok := fv.(Ptr); ok {
					if p == nil {
						continue next
					}
					fv = *p
					cont, _ = fv.(Struct)
				}
				fa = nil
				if cont != nil {
					fa = &cont[i]
					if nx, ok := cont[i].(Struct); ok && n < len(f.idx)-1 {
						cont = nx
					} else {
						cont = nil
					}
				}
				fv = fv.(Struct)[i]
			}
			if f.omit {
				if x.isEmpty(fv) {
					continue
				}
			}
			e := x.jenc(f.t, copyVal(fv), fl, fa)
			if f.asString {
				e.quoted = true
			}
			d.keys = append(d.keys, f.name)
			d.items = append(d.items, e)
		}
		return d
	}
	panic(unsupported("encoding " + t.String()))
}

func (x *Exec) isEmpty(v Value) bool {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return !x.branch(v)
		}
		return x.branch(x.c.Eq(v, x.c.BV(v.w, 0)))
	case string:
		return v == ""
	case *SymStr:
		return len(v.b) == 0
	case *OpqStr:
		return false
	case Slice:
		return len(v) == 0
	case Array:
		return len(v) == 0
	case *MapV:
		return v.length() == 0
	case Ptr:
		return v == nil
	case Iface:
		return v.T == nil
	}
	return false
}

func (x *Exec) callMarshal(m *ssa.Function, recv Value) *Doc {
	r := x.callFn(x.cur, x.cur.top, m, []Value{recv}, nil).(Tuple)
	if e := r[1].(Iface); e.T != nil {
		panic(&docErr{x.strConcat("json: error calling MarshalJSON: ", x.errText(e))})
	}
	d, err := x.anyDoc(r[0].(Slice), false)
	if err != nil {
		panic(&docErr{"json: error calling MarshalJSON: " + err.Error()})
	}
	return d
}

func (x *Exec) anyDoc(s Slice, stream bool) (*Doc, error) {
	b := x.bytesOf(s)
	if d := x.docOf(b); d != nil {
		return d, nil
	}
	for _, t := range b {
		if !t.IsConst() {
			panic(unsupported("decoding symbolic text"))
		}
	}
	return x.parseDoc(concTerms(b), stream)
}

// ---------------------------------------------------------------- decoding

func (x *Exec) jdec(t types.Type, d *Doc, p Ptr, fl string) {
	fail := func(what string) {
		panic(&docErr{fmt.Sprintf("json: cannot unmarshal %s into Go value of type %s", what, t.String())})
	}
	kindName := [...]string{"null", "bool", "number", "string", "string", "string", "array", "object", "number"}[d.k]
	if d.k == dInt && d.quoted {
		kindName = "string"
	}
	// pointers
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if d.k == dNull {
			x.storeSlot(p, Ptr(nil))
			return
		}
		q, _ := (*p).(Ptr)
		if q == nil {
			q = new(Value)
			*q = zero(x.c, pt.Elem())
			x.storeSlot(p, q)
		}
		x.jdec(pt.Elem(), d, q, fl)
		return
	}
	if d.k == dNull && fl == "tm" {
		x.storeSlot(p, zero(x.c, t))
		return
	}
	if x.isHexBytes(t) && fl != "yaml" {
		switch d.k {
		case dHex:
			x.storeSlot(p, mkBytes(append([]*Term{}, d.b...)))
			return
		case dStr:
			s, ok := d.s.(string)
			if !ok {
				panic(unsupported("decoding symbolic hex text"))
			}
			var o Slice = Slice{}
			if len(s)%2 != 0 {
				panic(&docErr{"encoding/hex: odd length hex string"})
			}
			for i := 0; i < len(s); i += 2 {
				n, err := strconv.ParseUint(s[i:i+2], 16, 8)
				if err != nil {
					panic(&docErr{"encoding/hex: invalid byte"})
				}
				o = append(o, x.c.BV(8, n))
			}
			x.storeSlot(p, o)
			return
		case dNull:
			panic(&docErr{"invalid hex string: null"})
		}
		panic(&docErr{"invalid hex string"})
	}
	if _, isI := t.Underlying().(*types.Interface); !isI && fl != "yaml" {
		if m := x.w.eng.methodNamed(types.NewPointer(t), "UnmarshalJSON"); m != nil {
			b := x.docBytes(d, "", "", "")
			r := x.callFn(x.cur, x.cur.top, m, []Value{p, b}, nil)
			if e := r.(Iface); e.T != nil {
				panic(&docErr{msg: e})
			}
			return
		}
	}
	if d.k == dNull {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Interface:
			x.storeSlot(p, zero(x.c, t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if d.k != dBool {
				fail(kindName)
			}
			x.storeSlot(p, d.t)
			return
		case u.Info()&types.IsInteger != 0:
			x.storeSlot(p, x.decInt(u, d, fl, fail, kindName))
			return
		case u.Info()&types.IsString != 0:
			switch d.k {
			case dStr:
				x.storeSlot(p, d.s)
				return
			case dB64, dHex:
				if d.concrete() {
					var sb strings.Builder
					d.render(&sb)
					s := sb.String()
					x.storeSlot(p, s[1:len(s)-1])
					return
				}
				panic(unsupported("decoding encoded bytes as text"))
			case dInt:
				if d.quoted || fl == "yaml" {
					x.storeSlot(p, x.decText(d.t, d.signed))
					return
				}
			case dNum:
				if fl == "yaml" {
					x.storeSlot(p, d.text)
					return
				}
			}
			fail(kindName)
		}
	case *types.Interface:
		if fl == "tm" {
			if d.k != dObj {
				fail(kindName)
			}
			var tn string
			var val *Doc
			for i, k := range d.keys {
				if k == "type" {
					tn, _ = d.items[i].s.(string)
				}
				if k == "value" {
					val = d.items[i]
				}
			}
			for full, n := range tmTypes {
				if n == tn && val != nil {
					i := strings.LastIndex(full, ".")
					ct := x.w.eng.pkgType(full[:i], full[i+1:])
					q := new(Value)
					*q = zero(x.c, ct)
					x.jdec(ct, val, q, fl)
					if it, ok := t.Underlying().(*types.Interface); ok && !x.w.eng.implements(ct, it) {
						fail("type " + tn)
					}
					x.storeSlot(p, Iface{T: ct, V: *q})
					return
				}
			}
			panic(&docErr{fmt.Sprintf("unknown type %q", tn)})
		}
		if u.NumMethods() == 0 {
			x.storeSlot(p, x.decAny(d))
			return
		}
		fail(kindName)
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && fl != "yaml" {
			switch d.k {
			case dB64:
				x.storeSlot(p, mkBytes(append([]*Term{}, d.b...)))
				return
			case dStr:
				s, ok := d.s.(string)
				if !ok {
					panic(unsupported("decoding symbolic base64 text"))
				}
				r, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					panic(&docErr{err.Error()})
				}
				x.storeSlot(p, x.goBytes(r))
				return
			case dInt, dHex:
				if d.concrete() && (d.quoted || d.k == dHex) {
					var sb strings.Builder
					d.render(&sb)
					s := sb.String()
					r, err := base64.StdEncoding.DecodeString(s[1 : len(s)-1])
					if err != nil {
						panic(&docErr{err.Error()})
					}
					x.storeSlot(p, x.goBytes(r))
					return
				}
			}
			fail(kindName)
		}
		if d.k != dArr {
			fail(kindName)
		}
		o := make(Slice, len(d.items))
		for i, e := range d.items {
			o[i] = zero(x.c, u.Elem())
			x.jdec(u.Elem(), e, &o[i], fl)
		}
		x.storeSlot(p, o)
		return
	case *types.Array:
		if d.k == dB64 {
			a := (*p).(Array)
			for i := range a {
				if i < len(d.b) {
					x.storeSlot(&a[i], d.b[i])
				}
			}
			return
		}
	case *types.Map:
		if d.k != dObj {
			fail(kindName)
		}
		m, _ := (*p).(*MapV)
		if m == nil {
			m = newMap()
			x.storeSlot(p, m)
		}
		for i, k := range d.keys {
			q := new(Value)
			*q = zero(x.c, u.Elem())
			x.jdec(u.Elem(), d.items[i], q, fl)
			x.mapSet(m, k, *q)
		}
		return
	case *types.Struct:
		if d.k != dObj {
			fail(kindName)
		}
		fields := structFields(u, fl)
		if fl == "tm" {
			for _, f := range fields {
				var e *Doc
				for i, k := range d.keys {
					if k == f.name {
						e = d.items[i]
					}
				}
				s := (*p).(Struct)
				if e != nil {
					x.jdec(f.t, e, &s[f.idx[0]], fl)
				} else if !f.omit {
					x.storeSlot(&s[f.idx[0]], zero(x.c, f.t))
				}
			}
			return
		}
		var first *docErr
		for i, k := range d.keys {
			var hit *docField
			for j := range fields {
				if fields[j].name == k {
					hit = &fields[j]
					break
				}
			}
			if hit == nil && fl == "json" {
				for j := range fields {
					if strings.EqualFold(fields[j].name, k) {
						hit = &fields[j]
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			slot := p
			for _, ix := range hit.idx {
				if q, ok := (*slot).(Ptr); ok {
					if q == nil {
						panic(unsupported("decoding into nil embedded pointer"))
					}
					slot = q
				}
				s := (*slot).(Struct)
				slot = &s[ix]
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						de, ok := r.(*docErr)
						if !ok {
							panic(r)
						}
						if s, isS := de.msg.(string); isS && strings.HasPrefix(s, "json: cannot unmarshal") {
							if first == nil {
								first = de
							}
							return
						}
						panic(r)
					}
				}()
				x.jdec(hit.t, d.items[i], slot, fl)
			}()
		}
		if first != nil {
			panic(first)
		}
		return
	}
	panic(unsupported("decoding into " + t.String()))
}

func (x *Exec) decAny(d *Doc) Value {
	switch d.k {
	case dBool:
		return Iface{T: types.Typ[types.Bool], V: d.t}
	case dStr:
		return Iface{T: types.Typ[types.String], V: d.s}
	case dNum:
		f, _ := strconv.ParseFloat(d.text, 64)
		return Iface{T: types.Typ[types.Float64], V: f}
	case dNull:
		return Iface{}
	case dInt:
		if d.t.IsConst() && !d.quoted {
			if d.signed {
				return Iface{T: types.Typ[types.Float64], V: float64(d.t.S())}
			}
			return Iface{T: types.Typ[types.Float64], V: float64(d.t.k)}
		}
	case dArr:
		o := Slice{}
		for _, i := range d.items {
			o = append(o, x.decAny(i))
		}
		return Iface{T: types.NewSlice(types.NewInterfaceType(nil, nil)), V: o}
	case dObj:
		m := newMap()
		for i, k := range d.keys {
			x.mapSet(m, k, x.decAny(d.items[i]))
		}
		return Iface{T: types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), V: m}
	}
	panic(unsupported("decoding into interface{}"))
}

func (x *Exec) decInt(u *types.Basic, d *Doc, fl string, fail func(string), kn string) Value {
	w := intWidth(u)
	signed := u.Info()&types.IsUnsigned == 0
	wantQ := false
	if fl == "tm" {
		switch u.Kind() {
		case types.Int64, types.Uint64, types.Int, types.Uint:
			wantQ = true
		}
	}
	switch d.k {
	case dInt:
		if d.quoted != wantQ {
			fail(kn)
		}
		t := d.t
		if d.signed {
			t = x.c.Sext(t, 64)
		} else {
			t = x.c.Zext(t, 64)
		}
		// range check
		if d.signed != signed {
			if x.branch(x.c.Slt(t, x.u64(0))) {
				fail("number out of range")
			}
		}
		if w < 64 {
			r := x.c.Extract(t, w-1, 0)
			var back *Term
			if signed {
				back = x.c.Sext(r, 64)
			} else {
				back = x.c.Zext(r, 64)
			}
			if !x.branch(x.c.Eq(back, t)) {
				fail("number out of range")
			}
			return r
		}
		return t
	case dNum, dStr:
		s := d.text
		if d.k == dStr {
			var ok bool
			s, ok = d.s.(string)
			if !ok {
				panic(unsupported("decoding symbolic text as number"))
			}
		}
		if (d.k == dStr) != wantQ {
			fail(kn)
		}
		if signed {
			n, err := strconv.ParseInt(s, 10, w)
			if err != nil {
				fail("number " + s)
			}
			return x.c.BV(w, uint64(n))
		}
		n, err := strconv.ParseUint(s, 10, w)
		if err != nil {
			fail("number " + s)
		}
		return x.c.BV(w, n)
	}
	fail(kn)
	return nil
}

func (x *Exec) docTry(f func()) (e Iface) {
	st, sd := x.cur.top, x.cur.depth
	defer func() {
		if r := recover(); r != nil {
			de, ok := r.(*docErr)
			if !ok {
				panic(r)
			}
			x.cur.top, x.cur.depth = st, sd
			if i, ok := de.msg.(Iface); ok {
				e = i
				return
			}
			e = x.mkErr(de.msg)
		}
	}()
	f()
	return nilIface()
}

func (x *Exec) unmarshal(data Slice, target Iface, fl string) Value {
	if target.T == nil {
		return x.mkErr("json: Unmarshal(nil)")
	}
	pt, ok := target.T.Underlying().(*types.Pointer)
	if !ok || target.V.(Ptr) == nil {
		return x.mkErr("json: Unmarshal(non-pointer " + target.T.String() + ")")
	}
	d, err := x.anyDoc(data, false)
	if err != nil {
		if fl == "yaml" {
			panic(unsupported("decoding YAML text"))
		}
		return x.mkErr(err.Error())
	}
	if d.yaml != (fl == "yaml") {
		return x.mkErr("invalid character in document")
	}
	return x.docTry(func() { x.jdec(pt.Elem(), d, target.V.(Ptr), fl) })
}

func init() {
	marshal := func(fl string) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			prefix, indent := "", ""
			if len(a) == 3 {
				prefix, indent = x.str(a[1]), x.str(a[2])
			}
			var out Slice
			i := a[0].(Iface)
			e := x.docTry(func() {
				var d *Doc
				if i.T == nil {
					d = &Doc{k: dNull}
				} else if n, ok := tmTypes[typeKey(i.T)]; ok && fl == "tm" {
					d = &Doc{k: dObj, keys: []string{"type", "value"}, items: []*Doc{{k: dStr, s: n}, x.jenc(i.T, i.V, fl, nil)}}
				} else {
					d = x.jenc(i.T, i.V, fl, nil)
				}
				if fl == "yaml" {
					d.yaml = true
				}
				out = x.docBytes(d, prefix, indent, "")
			})
			return Tuple{out, e}
		}
	}
	reg("encoding/json.Marshal", marshal("json"))
	reg("encoding/json.MarshalIndent", marshal("json"))
	reg("github.com/tendermint/tendermint/libs/json.Marshal", marshal("tm"))
	reg("github.com/tendermint/tendermint/libs/json.MarshalIndent", marshal("tm"))
	reg("gopkg.in/yaml.v2.Marshal", marshal("yaml"))
	un := func(fl string) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			return x.unmarshal(a[0].(Slice), a[1].(Iface), fl)
		}
	}
	reg("encoding/json.Unmarshal", un("json"))
	reg("github.com/tendermint/tendermint/libs/json.Unmarshal", un("tm"))
	reg("gopkg.in/yaml.v2.Unmarshal", un("yaml"))
	reg("gopkg.in/yaml.v2.UnmarshalStrict", un("yaml"))
	reg("encoding/json.Valid", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		_, err := x.anyDoc(a[0].(Slice), false)
		return x.c.Bool(err == nil)
	})
	// streaming
	reg("(*encoding/json.Decoder).Decode", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		rd := ptrStruct(a[0])[0].(Iface)
		data, e := x.readAll(g, rd)
		if e.T != nil {
			return e
		}
		target := a[1].(Iface)
		d, err := x.anyDoc(data, true)
		if err != nil {
			if len(data) == 0 {
				return copyVal(*x.global(x.w.eng.prog.ImportedPackage("io").Var("EOF")).(Ptr))
			}
			return x.mkErr(err.Error())
		}
		pt := target.T.Underlying().(*types.Pointer)
		return x.docTry(func() { x.jdec(pt.Elem(), d, target.V.(Ptr), "json") })
	})
	reg("(*encoding/json.Encoder).Encode", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		w := ptrStruct(a[0])[0].(Iface)
		i := a[1].(Iface)
		var out Slice
		e := x.docTry(func() {
			d := &Doc{k: dNull}
			if i.T != nil {
				d = x.jenc(i.T, i.V, "json", nil)
			}
			out = x.docBytes(d, "", "", "\n")
		})
		if e.T != nil {
			return e
		}
		m := x.w.eng.methodNamed(w.T, "Write")
		r := x.callFn(g, g.top, m, []Value{w.V, out}, nil).(Tuple)
		return r[1]
	})
	newStream := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := Ptr(new(Value))
		*p = zero(x.c, fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		x.st.streams[p] = a[0].(Iface)
		return p
	}
	const ym = "gopkg.in/yaml.v2"
	reg(ym+".NewEncoder", newStream)
	reg(ym+".NewDecoder", newStream)
	reg("(*"+ym+".Encoder).Close", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return nilIface() })
	reg("(*"+ym+".Encoder).Encode", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		w, ok := x.st.streams[a[0].(Ptr)]
		if !ok {
			panic(unsupported("second document of a YAML stream"))
		}
		delete(x.st.streams, a[0].(Ptr))
		r := marshal("yaml")(x, g, fn, a[1:2]).(Tuple)
		if r[1].(Iface).T != nil {
			return r[1]
		}
		m := x.w.eng.methodNamed(w.T, "Write")
		return x.callFn(g, g.top, m, []Value{w.V, r[0]}, nil).(Tuple)[1]
	})
	reg("(*"+ym+".Decoder).Decode", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		rd, ok := x.st.streams[a[0].(Ptr)]
		if !ok {
			panic(unsupported("second document of a YAML stream"))
		}
		delete(x.st.streams, a[0].(Ptr))
		data, e := x.readAll(g, rd)
		if e.T != nil {
			return e
		}
		if len(data) == 0 {
			return copyVal(*x.global(x.w.eng.prog.ImportedPackage("io").Var("EOF")).(Ptr))
		}
		return x.unmarshal(data, a[1].(Iface), "yaml")
	})
	reg("(*encoding/json.Encoder).SetIndent", retZero)
	reg("(*encoding/json.Encoder).SetEscapeHTML", retZero)

	// hex and base64 text of symbolic bytes
	nib := func(x *Exec, n *Term, upper bool) *Term {
		c := x.c
		z := c.Zext(n, 8)
		off := uint64('a' - 10)
		if upper {
			off = 'A' - 10
		}
		return c.Ite(c.Ult(z, c.BV(8, 10)), c.Add(z, c.BV(8, '0')), c.Add(z, c.BV(8, off)))
	}
	reg("encoding/hex.EncodeToString", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if d := x.docOf(x.bytesOf(a[0])); d != nil {
			return &OpqStr{parts: []Value{opqTag("hex"), a[0]}}
		}
		var o []*Term
		for _, b := range x.bytesOf(a[0]) {
			o = append(o, nib(x, x.c.Extract(b, 7, 4), false), nib(x, x.c.Extract(b, 3, 0), false))
		}
		return mkStr(o)
	})
}

// readAll drains an io.Reader.
func (x *Exec) readAll(g *G, rd Iface) (Slice, Iface) {
	m := x.w.eng.methodNamed(rd.T, "Read")
	var out Slice
	for n := 0; n < 64; n++ {
		buf := x.goBytes(make([]byte, 4096))
		r := x.callFn(g, g.top, m, []Value{rd.V, buf}, nil).(Tuple)
		k := x.cint(r[0])
		out = append(out, buf[:k]...)
		if e := r[1].(Iface); e.T != nil {
			eof := (*x.global(x.w.eng.prog.ImportedPackage("io").Var("EOF")).(Ptr)).(Iface)
			if x.branch(x.eqTerm(e, eof)) {
				return out, nilIface()
			}
			return nil, e
		}
	}
	panic(unsupported("endless reader"))
}
