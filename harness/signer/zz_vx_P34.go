package signer

//vx:use msgs cluster

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// Parts of any other cosigners arrive in any order, with the request or before it, for this or another timestamp,
// perhaps meant for somebody else, and the cosigner may never have been asked for its own.
//
//vx:opts budget=100 t.budget=300 traces=4
func VxP34_OwnNonce() {
	t, n := 2, 3
	if vx.Thorough() {
		t, n = 3, 4
	}
	c := vxNewCluster(t, n)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), bid: vxBlockID("b"), pol: -1, round: 1, stamp: vxStamp("t")}
	m.height = int64(vx.Uint8("h")) + 2
	k, sb := m.hrst(), m.signBytes(vxChain)
	o := k
	o.Timestamp++
	used := map[int]string{}
	steps := 2
	if vx.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		from := 1 + vx.Choose("from", n-1)
		switch vx.Choose("before", 6) {
		case 0:
		case 1:
			_ = c.vxOwnNonce(k, 0)
		case 2:
			_ = c.vxOwnNonce(o, 0)
		case 3:
			c.vxDeliver(k, 0, c.parts(k, []int{from}, 0))
			used[from] = c.vxOwnNonce(k, from)
		case 4: // a part dealt for another attempt, which the sender's signature does not tell apart
			c.vxDeliver(k, 0, c.parts(o, []int{from}, 0))
			used[from] = c.vxOwnNonce(o, from)
		case 5: // a part that is meant for another cosigner
			c.vxDeliver(k, 0, c.parts(k, []int{from}, 1+from%(n-1)))
		}
	}
	var list []CosignerEphemeralSecretPart
	for i := 1; i < n; i++ {
		if vx.Choose("with", 2) == 1 {
			list = append(list, c.parts(k, []int{i}, 0)...)
			used[i] = c.vxOwnNonce(k, i)
		}
	}
	r, err := c.cosigners[0].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: list, HRST: k, SignBytes: sb})
	vx.Obs("err", err != nil)
	if err != nil {
		vx.Reach("refused")
		vx.Assert(r == nil || len(r.Signature) == 0, "no share with an error")
		return
	}
	vx.Reach("signed")
	want := c.vxOwnNonce(k, 0)
	for i := 1; i < n; i++ {
		if x, ok := used[i]; ok {
			want = vxAddNonces(want, x)
		}
	}
	vx.Assert(len(r.Signature) == 32 && string(r.EphemeralPublic) == want,
		"a share is made with the cosigner's own nonce and those of the parts it was given")
}

// The same after a restart, for a position that was signed before or is new, by any member of a group.
//
//vx:opts budget=60 traces=3
func VxP34_Restart() {
	c := vxNewCluster(2, 3)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), bid: vxBlockID("b"), pol: -1, round: 1, height: 7, stamp: vxStamp("t")}
	k, sb := m.hrst(), m.signBytes(vxChain)
	b := m
	b.stamp = vxStamp("u")
	first := b
	if vx.Bool("lower") {
		first.height--
	}
	var given []string
	if vx.Bool("before") {
		_, eph, err := c.run(first.hrst(), first.signBytes(vxChain), []int{0, 1 + vx.Choose("peer", 2)})
		vx.Assert(err == nil, "signed before")
		if err == nil {
			given = append(given, string(eph[0]))
		}
	}
	vx.Quiesce()
	c.restart(0)
	var list []CosignerEphemeralSecretPart
	sum := ""
	for i := 1; i < 3; i++ {
		if vx.Choose("with", 2) == 1 {
			list = append(list, c.parts(k, []int{i}, 0)...)
			if x := c.vxOwnNonce(k, i); sum == "" {
				sum = x
			} else {
				sum = vxAddNonces(sum, x)
			}
		}
	}
	r, err := c.cosigners[0].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: list, HRST: k, SignBytes: sb})
	if err != nil {
		vx.Reach("refused")
		return
	}
	vx.Reach("signed")
	for _, g := range given {
		if string(r.EphemeralPublic) == g {
			return // the recorded share is given again
		}
	}
	want := c.vxOwnNonce(k, 0)
	if sum != "" {
		want = vxAddNonces(want, sum)
	}
	vx.Assert(string(r.EphemeralPublic) == want, "a share is made with the cosigner's own nonce and those of the parts it was given")
}
