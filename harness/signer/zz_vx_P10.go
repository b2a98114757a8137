package signer

//vx:use msgs cluster

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	tmJson "github.com/tendermint/tendermint/libs/json"
)

func vxFlip(b []byte, name string) []byte {
	o := append([]byte{}, b...)
	at := []int{0, len(o) / 2, len(o) - 1}[vx.Choose(name+"_at", 3)]
	m := vx.Uint8(name + "_mask")
	vx.Assume(m != 0)
	o[at] ^= m
	return o
}

// vxResign signs the contents of a part with a key, as the sender would.
func vxResign(p CosignerEphemeralSecretPart, k *rsa.PrivateKey) CosignerEphemeralSecretPart {
	m := CosignerEphemeralSecretPart{SourceID: p.SourceID,
		SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart}
	j, err := tmJson.Marshal(m)
	vx.Assert(err == nil, "marshal part")
	d := sha256.Sum256(j)
	p.SourceSig, err = rsa.SignPSS(rand.Reader, k, crypto.SHA256, d[:], nil)
	vx.Assert(err == nil, "sign part")
	return p
}

const vxForgeries = 17

// vxForge turns an authentic part from cosigner 2 for cosigner 1 into one that is not.
func (c *vxCluster) vxForge(k HRSTKey, p CosignerEphemeralSecretPart, kind int) CosignerEphemeralSecretPart {
	q := p
	third := c.parts(k, []int{2}, 0)[0] // authentic, from cosigner 3 for 1
	var for3 CosignerEphemeralSecretPart
	for _, o := range c.parts(k, []int{1}, 2) {
		for3 = o // authentic, from cosigner 2 for 3
	}
	switch kind {
	case 0:
		q.SourceID = vx.Int("source")
		vx.Assume(q.SourceID != p.SourceID)
	case 1:
		q.SourceEphemeralSecretPublicKey = vxFlip(p.SourceEphemeralSecretPublicKey, "pub")
	case 2:
		q.EncryptedSharePart = vxFlip(p.EncryptedSharePart, "enc")
	case 3:
		q.SourceSig = vxFlip(p.SourceSig, "sig")
	case 4:
		q.SourceSig = nil
	case 5:
		q.SourceSig = []byte{}
	case 6:
		q.SourceSig = third.SourceSig
	case 7:
		q.EncryptedSharePart = third.EncryptedSharePart
	case 8:
		q.SourceEphemeralSecretPublicKey = third.SourceEphemeralSecretPublicKey
	case 9:
		q = for3 // signed by 2, but encrypted for 3
	case 10:
		q.EncryptedSharePart = for3.EncryptedSharePart
	case 11: // an outsider's key
		k2, err := rsa.GenerateKey(rand.Reader, 1024)
		vx.Assert(err == nil, "rsa key")
		q = vxResign(q, k2)
	case 12: // cosigner 3 pretends to be 2
		q = vxResign(q, c.rsa[2])
	case 13:
		q.SourceSig = append(append([]byte{}, p.SourceSig...), vx.Uint8("more"))
	case 14:
		q.EncryptedSharePart = p.EncryptedSharePart[:len(p.EncryptedSharePart)-1]
	case 15:
		q.SourceEphemeralSecretPublicKey = nil
	case 16: // a share in the clear, properly signed
		q.EncryptedSharePart = c.shares[0]
		q = vxResign(q, c.rsa[1])
	}
	return q
}

// One part of a request, at any place in the list, is not authentic.
//
//vx:opts budget=100 traces=4
func VxP10_Forged() {
	c := vxNewCluster(2, 3)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), bid: vxBlockID("b"), pol: -1, height: int64(vx.Uint8("h")) + 2, round: 1, stamp: vxStamp("t")}
	k, sb := m.hrst(), m.signBytes(vxChain)
	st := c.states[0]
	if vx.Bool("after") { // with a watermark that was reached before
		b := m
		b.height--
		_, err := c.sign(b.hrst(), b.signBytes(vxChain), []int{0, 1}, 0)
		vx.Assert(err == nil, "an authentic request is signed")
	}
	oh, or, os := st.Height, st.Round, st.Step
	own := c.vxOwnNonce(k, 0)
	good := c.parts(k, []int{1}, 0)[0]
	known := vx.Choose("known", 2) == 1 // the authentic part is there already
	if known {
		c.vxDeliver(k, 0, []CosignerEphemeralSecretPart{good})
	}
	kind := vx.Choose("kind", vxForgeries)
	bad := c.vxForge(k, good, kind)
	list := []CosignerEphemeralSecretPart{bad}
	switch vx.Choose("place", 3) {
	case 1:
		list = []CosignerEphemeralSecretPart{bad, c.parts(k, []int{2}, 0)[0]}
	case 2:
		list = []CosignerEphemeralSecretPart{c.parts(k, []int{2}, 0)[0], bad}
	}
	req := CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: list, HRST: k, SignBytes: sb}
	res, err := c.cosigners[0].SetEphemeralSecretPartsAndSign(req)
	vx.Obs("err", err != nil)
	vx.Reach("forged")
	vx.Assert(err != nil, "a request with a part that is not authentic is answered with an error")
	vx.Assert(res == nil || len(res.Signature) == 0, "no share for a request with a part that is not authentic")
	vx.Assert(st.Height == oh && st.Round == or && st.Step == os, "a part that is not authentic leaves the watermark")
	again, e := LoadSignState(c.files[0])
	vx.Assert(e == nil && again.Height == oh && again.Round == or && again.Step == os, "and the state file")

	// nothing of it is used later: cosigner 2's part is only in the nonce if it comes again
	list = nil
	if vx.Bool("good") {
		list = []CosignerEphemeralSecretPart{good}
	}
	res, err = c.cosigners[0].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: list, HRST: k, SignBytes: sb})
	vx.Assert(err == nil && len(res.Signature) > 0, "an authentic request is signed afterwards")
	if len(list) == 0 {
		if known {
			own = vxAddNonces(own, c.vxOwnNonce(k, 1))
		}
		sole := string(res.EphemeralPublic) == own
		third := false
		if !sole { // cosigner 3's authentic part may have been stored by the first request
			third = string(res.EphemeralPublic) == vxAddNonces(own, c.vxOwnNonce(k, 2))
		}
		vx.Assert(sole || third, "no nonce that came with a forged part is used")
	}
}
