package signer

//vx:use msgs cluster

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	tmJson "github.com/tendermint/tendermint/libs/json"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

// vxDealt asks cosigner i for its parts and checks everything that each recipient can check.
func (c *vxCluster) vxDealt(k HRSTKey, i int) (nonce string, plain map[int]string) {
	res, err := c.cosigners[i].GetEphemeralSecretParts(k)
	vx.Assert(err == nil && res != nil, "nonce parts are dealt")
	vx.Assert(len(res.EncryptedSecrets) == c.n-1, "one part per other cosigner")
	plain = map[int]string{}
	for _, p := range res.EncryptedSecrets {
		d := p.DestinationID
		vx.Assert(d >= 1 && d <= c.n && d != i+1, "a part is addressed to another cosigner")
		_, dup := plain[d]
		vx.Assert(!dup, "only one part per cosigner")
		vx.Assert(p.SourceID == i+1, "the part names its sender")
		if nonce == "" {
			nonce = string(p.SourceEphemeralSecretPublicKey)
		}
		vx.Assert(string(p.SourceEphemeralSecretPublicKey) == nonce && nonce != "", "all parts are of one secret")
		for j := 0; j < c.n; j++ {
			got, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, c.rsa[j], p.EncryptedSharePart, nil)
			if j == d-1 {
				vx.Assert(err == nil && len(got) == 32, "the addressee can read the part")
				plain[d] = string(got)
			} else {
				vx.Assert(err != nil, "nobody else can read the part")
			}
		}
		j, err := tmJson.Marshal(CosignerEphemeralSecretPart{SourceID: p.SourceID,
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart})
		vx.Assert(err == nil, "marshal")
		dg := sha256.Sum256(j)
		vx.Assert(rsa.VerifyPSS(&c.rsa[i].PublicKey, crypto.SHA256, dg[:], p.SourceSig, nil) == nil, "the part is signed by its sender")
	}
	for a, x := range plain {
		for b, y := range plain {
			vx.Assert(a == b || c.t == 1 || x != y, "every cosigner gets its own share")
		}
	}
	if c.t == 1 {
		return
	}
	// any threshold-many of the shares determine the secret, fewer do not
	for _, k := range []int{c.t - 1, c.t} {
		for _, s := range vxSubsets(k, c.n) {
			var ids []int
			var sh [][]byte
			for _, j := range s {
				if p, ok := plain[j+1]; ok {
					ids, sh = append(ids, j+1), append(sh, []byte(p))
				}
			}
			if len(ids) == k {
				is := string(tsed25519.ScalarMultiplyBase(tsed25519.CombineShares(uint8(c.n), ids, sh))) == nonce
				vx.Assert(is == (k == c.t), "threshold-many shares, and no fewer, determine the secret")
			}
		}
	}
	return
}

func vxSamePlain(a, b map[int]string) bool {
	for i, s := range a {
		if b[i] != s {
			return false
		}
	}
	return len(a) == len(b)
}

// Any cosigner, any position and timestamp, asked once, again, and for any other position, in any order.
//
//vx:opts budget=60 traces=3
func VxP11_Parts() {
	t, n := vxShape()
	c := vxNewCluster(t, n)
	i := vx.Choose("who", n)
	k, o := vxAnyHrst("k"), vxAnyHrst("o")
	non, plain := c.vxDealt(k, i)
	first := vx.Bool("between")
	var non2 string
	var plain2 map[int]string
	if first {
		non2, plain2 = c.vxDealt(o, i)
	}
	non3, plain3 := c.vxDealt(k, i)
	vx.Assert(non3 == non && vxSamePlain(plain, plain3), "asking again yields parts of the same secret")
	if !first {
		non2, plain2 = c.vxDealt(o, i)
	}
	if k == o {
		vx.Reach("same")
		vx.Assert(non2 == non && vxSamePlain(plain, plain2), "the same position and timestamp: the same secret")
	} else {
		vx.Reach("other")
		vx.Assert(non2 != non, "another position or timestamp: another secret")
	}
	vx.Obs("same", non2 == non)
}

// The parts of all dealers add up: what each recipient decrypts is the share for its own number, whatever
// parts arrived before.
//
//vx:opts budget=60 traces=2
func VxP11_OwnShare() {
	t, n := vxShape()
	c := vxNewCluster(t, n)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), pol: -1, height: 7, round: 1, stamp: vxStamp("t"), bid: vxBlockID("b")}
	k, sb := m.hrst(), m.signBytes(vxChain)
	subs := vxSubsets(t, n)
	g := subs[vx.Choose("group", len(subs))]
	if t > 1 && vx.Bool("late") {
		// cosigner g[0] receives a part before it was asked for its own
		c.vxDeliver(k, g[0], c.parts(k, g[1:2], g[0]))
	}
	sh, eph, err := c.run(k, sb, g)
	vx.Assert(err == nil, "the group signs")
	vx.Assert(c.pub.VerifySignature(sb, c.combine(g, sh, eph[0])), "the shares are each cosigner's own")
	vx.Reach("signed")
}

// A cosigner is asked for its parts after it received parts of others for the same position, with these or
// other timestamps.
//
//vx:opts budget=60 traces=3
func VxP11_PartsArriveFirst() {
	c := vxNewCluster(2, 3)
	k := HRSTKey{Height: vx.Int64("h"), Round: vx.Int64("r"), Step: vx.Int8("s"), Timestamp: vx.Int64("t")}
	o := k
	o.Timestamp = vx.Int64("u")
	switch vx.Choose("other", 4) {
	case 1:
		o.Height = vx.Int64("h2")
	case 2:
		o.Round = vx.Int64("r2")
	case 3:
		o.Step = vx.Int8("s2")
	}
	for i := 0; i < 2; i++ {
		if vx.Bool("set k") {
			c.vxDeliver(k, 0, c.parts(k, []int{1}, 0))
		}
		if vx.Bool("set o") {
			c.vxDeliver(o, 0, c.parts(o, []int{2}, 0))
		}
		non, plain := c.vxDealt(k, 0)
		non2, plain2 := c.vxDealt(o, 0)
		if k == o {
			vx.Reach("same")
			vx.Assert(non2 == non && vxSamePlain(plain, plain2), "the same position and timestamp: the same secret")
		} else {
			vx.Reach("other")
			vx.Assert(non2 != non, "another position or timestamp: another secret")
		}
		vx.Obs("same", non2 == non)
		if !vx.Thorough() {
			return
		}
	}
}

// A cosigner deals for two positions and timestamps, signs one that may be any position, and is asked again.
//
//vx:opts budget=60 traces=3
func VxP11_SignedBetween() {
	c := vxNewCluster(2, 2)
	k := HRSTKey{Height: int64(vx.Uint8("k_h")), Round: int64(vx.Uint8("k_r")), Step: int8(vx.Range("k_s", 0, 4)), Timestamp: vx.Int64("k_t")}
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxNano(1<<30, 1<<27), bid: vxBlockID("b"), pol: -1}
	m.height, m.round = int64(vx.Uint8("m_h"))+1, int32(vx.Uint8("m_r"))
	if m.step == 1 {
		m.bid = vxMsg{}.bid
	}
	non, plain := c.vxDealt(k, 0)
	res, err := c.sign(m.hrst(), m.signBytes(vxChain), []int{0, 1}, 0)
	vx.Assert(err == nil && len(res.Signature) > 0, "a message is signed")
	non2, plain2 := c.vxDealt(k, 0)
	vx.Obs("same", non == non2)
	if !vxLess(k.Height, k.Round, k.Step, m.height, int64(m.round), m.step) {
		vx.Reach("not below")
		vx.Assert(non == non2 && vxSamePlain(plain, plain2), "asking again yields parts of the same secret")
	}
}

// A cosigner deals for many positions and timestamps and signs lower ones in between: each keeps its secret.
//
//vx:opts budget=60 traces=2
func VxP11_Many() {
	c := vxNewCluster(2, 3)
	h := int64(vx.Uint32("h")) + 100
	var ks []HRSTKey
	for i := int64(0); i < 40; i++ {
		ks = append(ks, HRSTKey{h + i/12, i / 3 % 4, int8(i%3 + 1), 1 << 60})
		if i%5 == 0 {
			k := ks[len(ks)-1]
			k.Timestamp++
			ks = append(ks, k)
		}
	}
	var nonce []string
	seen := map[string]bool{}
	for i, k := range ks {
		nonce = append(nonce, c.vxOwnNonce(k, 0))
		vx.Assert(!seen[nonce[i]], "every position and timestamp has a secret of its own")
		seen[nonce[i]] = true
		if i%6 == 0 {
			m := vxMsg{step: 2, height: int64(i) + 1, stamp: vxNano(1<<30, 1<<27), pol: -1}
			_, _, err := c.run(m.hrst(), m.signBytes(vxChain), []int{0, 1})
			vx.Assert(err == nil, "a lower position is signed")
		}
	}
	for i, k := range ks {
		vx.Assert(c.vxOwnNonce(k, 0) == nonce[i], "asking again yields parts of the same secret")
	}
	vx.Reach("kept")
}
