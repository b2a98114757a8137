package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cryptographic primitives are modelled ideally: keys, nonces, ciphertexts, signatures and hash
// values are unique tokens tracked in registries. Shamir sharing and share combination follow the
// algebra of the library (which shares of which dealing under which index), including the library's
// int64 Lagrange coefficients.

type shaEnt struct {
	b   []*Term
	out []byte
}
type encEnt struct {
	key   string
	msg   Slice
	hash  types.Type
	label []*Term
}
type sigEnt struct {
	key    string
	digest []*Term
	opts   string
}
type derEnt struct {
	key  string
	priv bool
}
type edSigEnt struct {
	pub string
	msg []*Term
}

// scalarPart is one summand of a scalar: a dealt share (idx>0) or a plain secret (idx==0).
type scalarPart struct {
	secret string // hex of the secret scalar
	deal   int
	thr    int
	idx    int
}
type scalarEnt struct{ parts []scalarPart }
type elemEnt struct{ parts []string } // hex of the summand elements

type shareSigEnt struct {
	msg   []*Term
	msgID int
	share string
	eph   string
	pub   string
	R     string
}
type combEnt struct {
	msg  []*Term
	pub  string
	R    string
	key  string // secret key scalar (hex)
	elem string // sum of the nonce elements (hex)
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func (x *Exec) concB(v Value, what string) []byte {
	b, ok := concBytes(v)
	if !ok {
		in := x.anyBytes(v)
		if x.docOf(in) != nil {
			panic(unsupported("symbolic bytes in " + what))
		}
		// one value of the bytes stands for all (reported as outside the bounds)
		x.sampled = "one value of symbolic bytes in " + what
		b = make([]byte, len(in))
		for i, t := range in {
			b[i] = byte(x.pick(t))
		}
	}
	return b
}

func (x *Exec) fill(dst Slice, b []byte) {
	for i := range dst {
		x.storeSlot(&dst[i], x.c.BV(8, uint64(b[i])))
	}
}

func (x *Exec) pkgVar(path, name string) Value {
	p := x.w.eng.prog.ImportedPackage(path)
	if p == nil || p.Var(name) == nil {
		panic(unsupported("no variable " + path + "." + name))
	}
	return copyVal(*x.global(p.Var(name)).(Ptr))
}

// ---- ed25519

func (x *Exec) edPubOf(seed []byte) []byte {
	pub := detToken("edpub:"+hx(seed), 32)
	x.st.edPub[hx(pub)] = hx(seed)
	return pub
}

func expandTok(seed []byte) []byte { return detToken("edexp:"+hx(seed), 32) }

// elemOf is secret*B.
func (x *Exec) elemOf(secret string) string {
	if p, ok := x.st.hooks["exp:"+secret]; ok {
		return p.(string)
	}
	return hx(detToken("elem:"+secret, 32))
}

func (x *Exec) edKey(seed []byte) Slice {
	return x.goBytes(append(append([]byte{}, seed...), x.edPubOf(seed)...))
}

func (x *Exec) edSign(priv Value, msg Value) Slice {
	k := x.concB(priv, "ed25519 private key")
	if len(k) != 64 {
		panic(&targetPanic{v: Iface{T: types.Typ[types.String], V: fmt.Sprintf("ed25519: bad private key length: %d", len(k))}, pos: x.where()})
	}
	pub := hx(k[32:])
	m := x.bytesOf(msg)
	for _, s := range sortedSigs(x.st.edSig) {
		e := x.st.edSig[s]
		if e.pub == pub && x.branch(x.bytesEq(mkBytes(e.msg), mkBytes(m))) {
			b, _ := hex.DecodeString(s)
			return x.goBytes(b)
		}
	}
	sig := x.st.token("edsig", 64)
	x.st.edSig[hx(sig)] = &edSigEnt{pub: pub, msg: m}
	return x.goBytes(sig)
}

func sortedSigs(m map[string]*edSigEnt) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (x *Exec) edVerify(pub, msg, sig Value) *Term {
	m := x.bytesOf(msg)
	pb, ok := concBytes(pub)
	if !ok {
		panic(unsupported("symbolic ed25519 public key"))
	}
	s := x.bytesOf(sig)
	if len(pb) != 32 {
		panic(&targetPanic{v: Iface{T: types.Typ[types.String], V: fmt.Sprintf("ed25519: bad public key length: %d", len(pb))}, pos: x.where()})
	}
	if len(s) != 64 {
		return x.c.False
	}
	sc, conc := concBytes(sig)
	if conc {
		if e, ok := x.st.edSig[hx(sc)]; ok {
			if e.pub != hx(pb) {
				return x.c.False
			}
			return x.bytesEq(mkBytes(e.msg), mkBytes(m))
		}
		if c, ok := x.st.comb[hx(sc[32:])]; ok {
			R := hx(sc[:32])
			if c.R != R || c.elem != R || c.pub != hx(pb) || x.elemOf(c.key) != hx(pb) {
				return x.c.False
			}
			return x.bytesEq(mkBytes(c.msg), mkBytes(m))
		}
		return x.c.False
	}
	var or []*Term
	for _, k := range sortedSigs(x.st.edSig) {
		e := x.st.edSig[k]
		if e.pub == hx(pb) {
			b, _ := hex.DecodeString(k)
			or = append(or, x.c.And(x.eqBytes(s, x.bytesOf(x.goBytes(b))), x.bytesEq(mkBytes(e.msg), mkBytes(m))))
		}
	}
	for k, c := range x.st.comb {
		if c.R == c.elem && c.pub == hx(pb) && x.elemOf(c.key) == hx(pb) {
			b, _ := hex.DecodeString(c.R + k)
			or = append(or, x.c.And(x.eqBytes(s, x.bytesOf(x.goBytes(b))), x.bytesEq(mkBytes(c.msg), mkBytes(m))))
		}
	}
	return x.c.Or(or...)
}

// ---- scalars

func (x *Exec) decompose(s string) []scalarPart {
	if e, ok := x.st.sc[s]; ok {
		return e.parts
	}
	return []scalarPart{{secret: s, thr: 1}}
}

func partKey(p scalarPart) string { return fmt.Sprintf("%s/%d/%d/%d", p.secret, p.deal, p.thr, p.idx) }

// ---- rsa

func (x *Exec) mkBig(b []byte) Ptr {
	t := x.w.eng.pkgType("math/big", "Int")
	v := zero(x.c, t).(Struct)
	n := new(big.Int).SetBytes(b)
	words := n.Bits()
	nat := make(Slice, len(words))
	for i, w := range words {
		nat[i] = x.c.BV(64, uint64(w))
	}
	v[1] = nat
	var pv Value = v
	return &pv
}

// bigHex reads a concrete *big.Int.
func (x *Exec) bigHex(v Value) (string, bool) {
	p, ok := v.(Ptr)
	if !ok || p == nil {
		return "", false
	}
	s := (*p).(Struct)
	nat, _ := s[1].(Slice)
	var w []big.Word
	for _, e := range nat {
		t := e.(*Term)
		if !t.IsConst() {
			panic(unsupported("symbolic RSA modulus"))
		}
		w = append(w, big.Word(t.k))
	}
	return new(big.Int).SetBits(w).Text(16), true
}

func (x *Exec) rsaBytes(id, part string) []byte {
	return append([]byte{0x80}, detToken("rsa:"+id+":"+part, 15)...)
}

func (x *Exec) rsaPubVal(nhex string) Struct {
	n, _ := new(big.Int).SetString(nhex, 16)
	return Struct{x.mkBig(n.Bytes()), x.u64(65537)}
}

func (x *Exec) rsaPrivVal(nhex string) Value {
	t := x.w.eng.pkgType("crypto/rsa", "PrivateKey")
	v := zero(x.c, t).(Struct)
	v[0] = x.rsaPubVal(nhex)
	v[1] = x.mkBig(x.rsaBytes(nhex, "d"))
	v[2] = Slice{x.mkBig(x.rsaBytes(nhex, "p")), x.mkBig(x.rsaBytes(nhex, "q"))}
	return v
}

// rsaKeyID returns the modulus of a *rsa.PrivateKey / *rsa.PublicKey value; ok=false for a key without modulus.
func (x *Exec) rsaPrivID(p Value) (string, bool) {
	pp := p.(Ptr)
	if pp == nil {
		x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	s := (*pp).(Struct)
	return x.bigHex(s[0].(Struct)[0])
}

func (x *Exec) rsaPubID(p Value) (string, bool) {
	pp := p.(Ptr)
	if pp == nil {
		x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return x.bigHex((*pp).(Struct)[0])
}

// lookupTok finds which registered token the (possibly symbolic) bytes equal.
func (x *Exec) lookupTok(v Value, toks []string) (string, bool) {
	if b, ok := concBytes(v); ok {
		h := hx(b)
		for _, t := range toks {
			if t == h {
				return h, true
			}
		}
		return "", false
	}
	s := x.bytesOf(v)
	sort.Strings(toks)
	for _, t := range toks {
		b, _ := hex.DecodeString(t)
		if len(b) == len(s) && x.branch(x.eqBytes(s, x.bytesOf(x.goBytes(b)))) {
			return t, true
		}
	}
	return "", false
}

func init() {
	const tmEd = "github.com/tendermint/tendermint/crypto/ed25519"
	const ts = "gitlab.com/polychainlabs/threshold-ed25519/pkg"

	reg("crypto/rand.Read", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		d := a[0].(Slice)
		x.fill(d, x.st.token("rand", len(d)))
		return Tuple{x.u64(uint64(len(d))), nilIface()}
	})
	reg("(*crypto/rand.reader).Read", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		d := a[1].(Slice)
		x.fill(d, x.st.token("rand", len(d)))
		return Tuple{x.u64(uint64(len(d))), nilIface()}
	})

	globalOverride["crypto/rand.Reader"] = func(x *Exec) Value {
		t := x.w.eng.prog.ImportedPackage("crypto/rand").Type("reader").Type()
		p := Ptr(new(Value))
		*p = zero(x.c, t)
		return Iface{T: types.NewPointer(t), V: p}
	}

	// ---- hashes
	reg("crypto/sha256.Sum256", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return Array(x.goBytes(x.sha(a[0])))
	})
	reg("github.com/tendermint/tendermint/crypto.Sha256", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.goBytes(x.sha(a[0]))
	})
	reg("github.com/tendermint/tendermint/crypto/tmhash.SumTruncated", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.goBytes(x.sha(a[0])[:20])
	})
	reg("crypto/internal/boring.Unreachable", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return nil })
	reg("(crypto.Hash).Available", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.c.Bool(x.cint(a[0]) == 5) })
	reg("(crypto.Hash).New", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := x.w.eng.prog.ImportedPackage("crypto/sha256")
		if x.cint(a[0]) != 5 || p == nil {
			panic(unsupported("a hash other than SHA-256"))
		}
		return x.callValue(g, g.top, p.Func("New"), nil)
	})
	reg("crypto/sha256.New224", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { panic(unsupported("sha224")) })
	// the streaming form: what was written is kept, the sum is the digest of all of it
	reg("(*crypto/sha256.digest).Reset", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		delete(x.st.hashes, a[0].(Ptr))
		return nil
	})
	reg("(*crypto/sha256.digest).Write", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		b := x.anyBytes(a[1])
		x.st.hashes[p] = append(append([]*Term{}, x.st.hashes[p]...), b...)
		return Tuple{x.u64(uint64(len(b))), nilIface()}
	})
	reg("(*crypto/sha256.digest).Sum", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		sum := x.goBytes(x.sha(mkBytes(x.st.hashes[a[0].(Ptr)])))
		in, _ := a[1].(Slice)
		return append(append(Slice{}, in...), sum...)
	})

	// ---- ed25519
	gen := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.edKey(x.st.token("edseed", 32)) }
	reg(tmEd+".GenPrivKey", gen)
	genStd := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		k := x.edKey(x.st.token("edseed", 32))
		return Tuple{append(Slice{}, k[32:]...), k, nilIface()}
	}
	fromSeed := func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.edKey(x.concB(a[0], "ed25519 seed"))
	}
	for _, p := range []string{"crypto/ed25519", "golang.org/x/crypto/ed25519"} {
		reg(p+".GenerateKey", genStd)
		reg(p+".NewKeyFromSeed", fromSeed)
		reg(p+".Sign", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.edSign(a[0], a[1]) })
		reg(p+".Verify", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return x.edVerify(a[0], a[1], a[2]) })
	}

	// ---- threshold library
	reg(ts+".ExpandSecret", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		seed := x.concB(a[0], "ExpandSecret")
		e := expandTok(seed)
		x.st.hooks["exp:"+hx(e)] = hx(x.edPubOf(seed))
		return x.goBytes(e)
	})
	reg(ts+".ScalarMultiplyBase", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		b, _ := hex.DecodeString(x.elemOf(hx(x.concB(a[0], "ScalarMultiplyBase"))))
		return x.goBytes(b)
	})
	reg(ts+".DealShares", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		sec := x.concB(a[0], "DealShares")
		thr, tot := int(x.concretize(a[1].(*Term))), int(x.concretize(a[2].(*Term)))
		if thr == 0 {
			x.rtPanic("runtime error: index out of range [0] with length 0")
		}
		x.st.tok++
		deal := x.st.tok
		out := make(Slice, tot)
		for i := range out {
			if thr == 1 {
				out[i] = x.goBytes(sec)
				continue
			}
			s := x.st.token("share", 32)
			x.st.sc[hx(s)] = &scalarEnt{[]scalarPart{{secret: hx(sec), deal: deal, thr: thr, idx: i + 1}}}
			out[i] = x.goBytes(s)
		}
		return out
	})
	reg(ts+".AddScalars", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		var parts []scalarPart
		in := a[0].(Slice)
		for _, s := range in {
			b := x.concB(s, "AddScalars")
			if len(b) != 32 {
				nb := make([]byte, 32)
				copy(nb, b)
				b = nb
			}
			parts = append(parts, x.decompose(hx(b))...)
		}
		switch len(in) {
		case 0:
			return x.goBytes(make([]byte, 32))
		case 1:
			b := make([]byte, 32)
			copy(b, x.concB(in[0], "AddScalars"))
			return x.goBytes(b)
		}
		var keys []string
		sort.Slice(parts, func(i, j int) bool { return partKey(parts[i]) < partKey(parts[j]) })
		for _, p := range parts {
			keys = append(keys, partKey(p))
		}
		t := detToken("sum:"+strings.Join(keys, "+"), 32)
		x.st.sc[hx(t)] = &scalarEnt{parts}
		return x.goBytes(t)
	})
	reg(ts+".AddElements", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		var els []string
		for _, s := range a[0].(Slice) {
			b := x.concB(s, "AddElements")
			if len(b) == 0 {
				continue
			}
			nb := make([]byte, 32)
			copy(nb, b)
			if e, ok := x.st.el[hx(nb)]; ok {
				els = append(els, e.parts...)
			} else {
				els = append(els, hx(nb))
			}
		}
		b, _ := hex.DecodeString(x.sumElems(els))
		return x.goBytes(b)
	})
	reg(ts+".SignWithShare", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		msg := x.bytesOf(a[0])
		share, eph := x.concB(a[1], "SignWithShare"), x.concB(a[2], "SignWithShare")
		pub, R := x.concB(a[3], "SignWithShare"), x.concB(a[4], "SignWithShare")
		for _, s := range [][]byte{share, eph} {
			if len(s) < 32 {
				x.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:32] with capacity %d", len(s)))
			}
		}
		e := &shareSigEnt{msg: msg, share: hx(share[:32]), eph: hx(eph[:32]), pub: hx(pub), R: hx(R)}
		var ks []string
		for k := range x.st.shsig {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			o := x.st.shsig[k]
			if o.share == e.share && o.eph == e.eph && o.pub == e.pub && o.R == e.R && x.branch(x.bytesEq(mkBytes(o.msg), mkBytes(msg))) {
				b, _ := hex.DecodeString(k)
				return x.goBytes(b)
			}
		}
		t := x.st.token("sharesig", 32)
		x.st.shsig[hx(t)] = e
		return x.goBytes(t)
	})
	reg(ts+".CombineShares", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		tot := int(x.concretize(a[0].(*Term)))
		var ids []int
		for _, e := range a[1].(Slice) {
			ids = append(ids, int(int64(x.concretize(e.(*Term)))))
		}
		var sh [][]byte
		for _, e := range a[2].(Slice) {
			sh = append(sh, x.concB(e, "CombineShares"))
		}
		if len(sh) < len(ids) {
			x.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", len(sh), len(sh)))
		}
		key := fmt.Sprint(tot, ids)
		for _, s := range sh {
			key += "/" + hx(s)
		}
		if s := x.combineScalars(tot, ids, sh); s != nil {
			return x.goBytes(s)
		}
		junk := x.goBytes(detToken("junkcomb:"+key, 32))
		c, why := x.combine(tot, ids, sh)
		if c == nil {
			x.tracef("CombineShares does not reconstruct: " + why)
			return junk
		}
		for k, o := range x.st.comb {
			if o.pub == c.pub && o.R == c.R && o.key == c.key && o.elem == c.elem && len(o.msg) == len(c.msg) {
				same := true
				for i := range o.msg {
					if o.msg[i] != c.msg[i] {
						same = false
					}
				}
				if same {
					b, _ := hex.DecodeString(k)
					return x.goBytes(b)
				}
			}
		}
		t := x.st.token("comb", 32)
		x.st.comb[hx(t)] = c
		return x.goBytes(t)
	})
	reg("gitlab.com/polychainlabs/edwards25519.ScMinimal", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		b := x.concB(*(a[0].(Ptr)), "ScMinimal")
		be := make([]byte, 32)
		for i := range be {
			be[i] = b[31-i]
		}
		l, _ := new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
		return x.c.Bool(new(big.Int).SetBytes(be).Cmp(l) < 0)
	})

	// ---- rsa
	reg("crypto/rsa.GenerateKey", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.st.tok++
		n := new(big.Int).SetBytes(x.rsaBytes(fmt.Sprint("gen", x.st.tok), "n"))
		v := x.rsaPrivVal(n.Text(16))
		return Tuple{Ptr(&v), nilIface()}
	})
	reg("crypto/rsa.EncryptOAEP", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		id, ok := x.rsaPubID(a[2])
		if !ok {
			return Tuple{Slice(nil), x.mkErr("crypto/rsa: missing public modulus")}
		}
		ct := x.st.token("oaep", 32)
		x.st.enc[hx(ct)] = &encEnt{key: id, msg: append(Slice{}, a[3].(Slice)...), hash: a[0].(Iface).T, label: x.bytesOf(a[4])}
		return Tuple{x.goBytes(ct), nilIface()}
	})
	decrypt := func(x *Exec, hash, priv, ct, label Value) Value {
		id, ok := x.rsaPrivID(priv)
		if !ok {
			return Tuple{Slice(nil), x.mkErr("crypto/rsa: missing public modulus")}
		}
		var toks []string
		for t := range x.st.enc {
			toks = append(toks, t)
		}
		if t, ok := x.lookupTok(ct, toks); ok && x.st.enc[t].key == id {
			e, h := x.st.enc[t], hash.(Iface).T
			if h != nil && e.hash != nil && types.Identical(h, e.hash) && x.branch(x.eqBytes(e.label, x.bytesOf(label))) {
				return Tuple{append(Slice{}, e.msg...), nilIface()}
			}
		}
		return Tuple{Slice(nil), x.pkgVar("crypto/rsa", "ErrDecryption")}
	}
	reg("crypto/rsa.DecryptOAEP", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return decrypt(x, a[0], a[2], a[3], a[4])
	})
	reg("crypto/rsa.decryptOAEP", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return decrypt(x, a[0], a[3], a[4], a[5])
	})
	reg("crypto/rsa.SignPSS", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		id, ok := x.rsaPrivID(a[1])
		if !ok {
			return Tuple{Slice(nil), x.mkErr("crypto/rsa: missing public modulus")}
		}
		s := x.st.token("pss", 32)
		x.st.sigs[hx(s)] = &sigEnt{key: id, digest: x.bytesOf(a[3])}
		return Tuple{x.goBytes(s), nilIface()}
	})
	reg("crypto/rsa.VerifyPSS", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		id, ok := x.rsaPubID(a[0])
		if !ok {
			return x.mkErr("crypto/rsa: missing public modulus")
		}
		var toks []string
		for t := range x.st.sigs {
			toks = append(toks, t)
		}
		if t, ok := x.lookupTok(a[3], toks); ok && x.st.sigs[t].key == id && x.branch(x.eqBytes(x.st.sigs[t].digest, x.bytesOf(a[2]))) {
			return nilIface()
		}
		return x.pkgVar("crypto/rsa", "ErrVerification")
	})
	reg("(*crypto/rsa.PrivateKey).Precompute", retZero)
	reg("(*crypto/rsa.PrivateKey).Validate", retZero)

	// ---- PKCS#1
	der := func(x *Exec, id string, ok, priv bool) Value {
		if !ok {
			x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		t := detToken(fmt.Sprint("der:", priv, ":", id), 33)
		t[0] = 0x30
		x.st.derK[hx(t)] = &derEnt{key: id, priv: priv}
		return x.goBytes(t)
	}
	reg("crypto/x509.MarshalPKCS1PrivateKey", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		id, ok := x.rsaPrivID(a[0])
		return der(x, id, ok, true)
	})
	reg("crypto/x509.MarshalPKCS1PublicKey", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		id, ok := x.rsaPubID(a[0])
		return der(x, id, ok, false)
	})
	parse := func(priv bool) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			var toks []string
			for t, d := range x.st.derK {
				if d.priv == priv {
					toks = append(toks, t)
				}
			}
			if t, ok := x.lookupTok(a[0], toks); ok {
				id := x.st.derK[t].key
				var v Value = x.rsaPubVal(id)
				if priv {
					v = x.rsaPrivVal(id)
				}
				return Tuple{Ptr(&v), nilIface()}
			}
			return Tuple{Ptr(nil), x.mkErr("asn1: structure error: malformed key")}
		}
	}
	reg("crypto/x509.ParsePKCS1PrivateKey", parse(true))
	reg("crypto/x509.ParsePKCS1PublicKey", parse(false))

	// ---- amino: byte strings registered as concrete types, the form of legacy public keys
	const am = "github.com/tendermint/go-amino"
	reg(am+".NewCodec", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		v := zero(x.c, x.w.eng.pkgType(am, "Codec"))
		return Ptr(&v)
	})
	reg("(*"+am+".Codec).RegisterInterface", retZero)
	reg("(*"+am+".Codec).RegisterConcrete", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		if i, ok := a[1].(Iface); ok && i.T != nil {
			// a[2] is the registered name
			h := sha256.Sum256([]byte(x.str(a[2])))
			b := h[:]
			for b[0] == 0 {
				b = b[1:]
			}
			b = b[3:]
			for b[0] == 0 {
				b = b[1:]
			}
			x.st.misc["amino:"+i.T.String()] = append([]byte{}, b[:4]...)
		}
		return nil
	})
	reg("(*"+am+".Codec).UnmarshalBinaryBare", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		i := a[2].(Iface)
		pt, ok := i.T.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("amino target"))
		}
		pre, ok := x.st.misc["amino:"+pt.Elem().String()].([]byte)
		sl, isSl := pt.Elem().Underlying().(*types.Slice)
		if !ok || !isSl || !types.Identical(sl.Elem(), types.Typ[types.Byte]) {
			panic(unsupported("amino target " + pt.Elem().String()))
		}
		b := x.bytesOf(a[1])
		fail := func() Value { return x.mkErr("unmarshal failed") }
		if len(b) < 4 || !x.branch(x.eqBytes(b[:4], x.bytesOf(x.goBytes(pre)))) {
			return fail()
		}
		b = b[4:]
		if len(b) == 0 || len(b) > 128 {
			if len(b) == 0 {
				return fail()
			}
			panic(unsupported("long amino byte string"))
		}
		// a one-byte length; longer encodings of a length below 128 are left to the sampled runs
		if !x.branch(x.c.Eq(b[0], x.c.BV(8, uint64(len(b)-1)))) {
			if !x.branch(x.c.Ult(b[0], x.c.BV(8, 128))) {
				panic(unsupported("amino length of several bytes"))
			}
			return fail()
		}
		o := make(Slice, len(b)-1)
		for j := range o {
			o[j] = b[j+1]
		}
		*(i.V.(Ptr)) = o
		return nilIface()
	})
}

func (x *Exec) tracef(s string) {
	if len(x.trace) < 200 {
		x.trace = append(x.trace, s)
	}
}

func (x *Exec) sumElems(els []string) string {
	switch len(els) {
	case 0:
		return "01" + strings.Repeat("00", 31)
	case 1:
		return els[0]
	}
	sort.Strings(els)
	t := hx(detToken("esum:"+strings.Join(els, "+"), 32))
	x.st.el[t] = &elemEnt{els}
	return t
}

// combine decides what Lagrange interpolation of the share signatures yields.
func (x *Exec) combine(tot int, ids []int, sh [][]byte) (*combEnt, string) {
	if len(ids) == 0 {
		return nil, "no shares"
	}
	for i := range ids {
		if !omegaExact(tot, ids, ids[i]) {
			return nil, fmt.Sprintf("Lagrange coefficient of %d in %v with total %d is not exact", ids[i], ids, tot)
		}
		for j := range ids {
			if i != j && ids[i] == ids[j] {
				return nil, "duplicate id"
			}
		}
	}
	var c *combEnt
	var ref []scalarPart
	need := 1
	for i, s := range sh[:len(ids)] {
		e, ok := x.st.shsig[hx(s)]
		if !ok {
			return nil, fmt.Sprintf("share %d is not a share signature", ids[i])
		}
		kp := x.decompose(e.share)
		ep := x.decompose(e.eph)
		if len(kp) != 1 {
			return nil, "key share is a sum"
		}
		all := append(append([]scalarPart{}, kp...), ep...)
		for _, p := range all {
			if p.idx != 0 && p.idx != ids[i] {
				return nil, fmt.Sprintf("share at index %d was dealt for %d", ids[i], p.idx)
			}
			need = max(need, p.thr)
		}
		if i == 0 {
			var els []string
			for _, p := range ep {
				els = append(els, x.elemOf(p.secret))
			}
			c = &combEnt{msg: e.msg, pub: e.pub, R: e.R, key: kp[0].secret, elem: x.sumElems(els)}
			ref = all
			continue
		}
		if e.pub != c.pub || e.R != c.R {
			return nil, "different nonce commitment or public key"
		}
		if len(all) != len(ref) || partKey0(all[0]) != partKey0(ref[0]) {
			return nil, "different dealings"
		}
		for k := range all {
			if partKey0(all[k]) != partKey0(ref[k]) {
				return nil, "different dealings"
			}
		}
		if !x.branch(x.bytesEq(mkBytes(e.msg), mkBytes(c.msg))) {
			return nil, "different messages"
		}
	}
	if len(ids) < need {
		return nil, fmt.Sprintf("%d shares of %d needed", len(ids), need)
	}
	return c, ""
}

// combineScalars interpolates shares of a dealt secret (the result is the secret up to reduction by the group
// order), or returns nil if they do not determine one.
func (x *Exec) combineScalars(tot int, ids []int, sh [][]byte) []byte {
	var ref scalarPart
	for i := range ids {
		if !omegaExact(tot, ids, ids[i]) {
			return nil
		}
		for j := range ids[:i] {
			if ids[i] == ids[j] {
				return nil
			}
		}
		e, ok := x.st.sc[hx(sh[i])]
		if !ok || len(e.parts) != 1 || e.parts[0].idx != ids[i] {
			return nil
		}
		p := e.parts[0]
		if i == 0 {
			ref = p
		} else if partKey0(p) != partKey0(ref) {
			return nil
		}
	}
	if len(ids) == 0 || len(ids) < ref.thr {
		return nil
	}
	b, _ := hex.DecodeString(ref.secret)
	return b
}

func partKey0(p scalarPart) string { return fmt.Sprintf("%s/%d/%d", p.secret, p.deal, p.thr) }

// omegaExact compares the library's int64 arithmetic with the exact coefficient.
func omegaExact(tot int, ids []int, id int) bool {
	var delta big.Int
	delta.MulRange(1, int64(tot))
	r := delta.Int64()
	num := new(big.Int).Set(&delta)
	den := big.NewInt(1)
	for _, c := range ids {
		if c != id {
			r *= int64(c)
			num.Mul(num, big.NewInt(int64(c)))
		}
	}
	for _, c := range ids {
		if c != id {
			d := int64(c) - int64(id)
			r /= d
			den.Mul(den, big.NewInt(d))
		}
	}
	q, m := new(big.Int).QuoRem(num, den, new(big.Int))
	return m.Sign() == 0 && q.IsInt64() && q.Int64() == r
}

// sha is SHA-256: real on concrete bytes, an injective token on symbolic ones.
func (x *Exec) sha(v Value) []byte {
	s := x.anyBytes(v)
	b, conc := concBytes(mkBytes(s))
	if x.docOf(s) != nil {
		conc = false
	}
	for _, e := range x.st.sha {
		_, ec := concBytes(mkBytes(e.b))
		if x.docOf(e.b) != nil {
			ec = false
		}
		if conc && ec {
			continue
		}
		if x.branch(x.bytesEq(mkBytes(e.b), mkBytes(s))) {
			return e.out
		}
	}
	var out []byte
	if conc {
		h := sha256.Sum256(b)
		out = h[:]
	} else {
		out = x.st.token("sha", 32)
	}
	x.st.sha = append(x.st.sha, shaEnt{s, out})
	return out
}
