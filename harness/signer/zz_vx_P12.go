package signer

//vx:use msgs cluster

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// Any subset of threshold size, any message above the watermarks, after another round that may have involved
// others; the shares combine into a valid signature, and repeating the request yields the same share and nonce.
//
//vx:opts budget=120 traces=3
func VxP12_Subset() {
	t, n := vxShape()
	c := vxNewCluster(t, n)
	subs := vxSubsets(t, n)
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxStamp("t"), bid: vxBlockID("b")}
	m.height, m.round = vxPos("m")
	vx.Assume(m.height > 0 && m.round >= 0)
	if m.step == 1 {
		m.pol = vx.Int32("pol")
		vx.Assume(m.pol >= -1 && m.pol < 64)
	}
	if vx.Bool("before") {
		b := vxMsg{step: 2, height: 1, round: 0, stamp: vxNano(1<<30, 1<<27), pol: -1}
		vx.Assume(vxLess(b.height, int64(b.round), b.step, m.height, int64(m.round), m.step))
		g := subs[vx.Choose("group0", len(subs))]
		_, _, err := c.run(b.hrst(), b.signBytes(vxChain), g)
		vx.Assert(err == nil, "the earlier round is signed")
		if vx.Bool("restart") {
			vx.Quiesce()
			c.restart(vx.Choose("who", n))
		}
	}
	g := subs[vx.Choose("group", len(subs))]
	k, sb := m.hrst(), m.signBytes(vxChain)
	c.vxSignsAndRepeats(k, sb, g)
	vx.Reach("signed")
	for _, i := range g {
		st := c.states[i]
		vx.Assert(st.Height == m.height && st.Round == int64(m.round) && st.Step == m.step, "the watermark is the signed position")
	}
}

func (c *vxCluster) vxSignsAndRepeats(k HRSTKey, sb []byte, g []int) {
	sh, eph, err := c.run(k, sb, g)
	vx.Assert(err == nil && len(sh) == len(g), "the subset signs")
	for i := range g {
		vx.Assert(len(sh[i]) == 32, "a share has 32 bytes")
		vx.Assert(string(eph[i]) == string(eph[0]), "all use one nonce")
	}
	vx.Assert(c.pub.VerifySignature(sb, c.combine(g, sh, eph[0])), "the shares combine into a valid signature")
	vx.Assert(!c.pub.VerifySignature(append([]byte{1}, sb...), c.combine(g, sh, eph[0])), "valid for that message only")
	for i, to := range g {
		r, err := c.sign(k, sb, g, to)
		vx.Assert(err == nil && string(r.Signature) == string(sh[i]) && string(r.EphemeralPublic) == string(eph[i]),
			"repeating the request returns the same share and ephemeral key")
	}
}

// A block is signed again with another timestamp, then either request is repeated, also after a restart.
//
//vx:opts budget=120 traces=3
func VxP12_Timestamps() {
	c := vxNewCluster(2, 3)
	a := vxMsg{step: int8(vx.Range("step", 1, 3)), pol: -1, height: 7, round: 1, stamp: vxStamp("t"), bid: vxBlockID("b")}
	b := a
	b.stamp = vxStamp("u")
	subs := vxSubsets(2, 3)
	g1, g2 := subs[vx.Choose("g1", 3)], subs[vx.Choose("g2", 3)]
	ka, kb, sa, sb := a.hrst(), b.hrst(), a.signBytes(vxChain), b.signBytes(vxChain)
	sh1, e1, err := c.run(ka, sa, g1)
	vx.Assert(err == nil && c.pub.VerifySignature(sa, c.combine(g1, sh1, e1[0])), "the first timestamp is signed")
	vx.Assume(ka != kb)
	sh2, e2, err := c.run(kb, sb, g2)
	vx.Assert(err == nil, "another timestamp is signed")
	vx.Assert(c.pub.VerifySignature(sb, c.combine(g2, sh2, e2[0])), "validly")
	if vx.Bool("restart") {
		vx.Quiesce()
		c.restart(g1[0])
	}
	r, err := c.sign(ka, sa, g1, g1[0])
	vx.Assert(err == nil && string(r.Signature) == string(sh1[0]) && string(r.EphemeralPublic) == string(e1[0]),
		"repeating the first request returns the same share and ephemeral key")
	vx.Reach("repeated")
}

// Two messages are under way at once: the parts of the later one are exchanged before the earlier one is signed.
//
//vx:opts budget=90 traces=3
func VxP12_Pipelined() {
	t, n := 2, 3
	if vx.Thorough() {
		t, n = vxShape()
	}
	c := vxNewCluster(t, n)
	subs := vxSubsets(t, n)
	a := vxMsg{step: int8(vx.Range("a_step", 1, 3)), stamp: vxNano(1<<30, 1<<27), pol: -1}
	b := vxMsg{step: int8(vx.Range("b_step", 1, 3)), stamp: vxStamp("t"), bid: vxBlockID("b"), pol: -1}
	a.height, a.round = int64(vx.Uint8("a_h"))+1, int32(vx.Uint8("a_r"))
	b.height, b.round = int64(vx.Uint8("b_h"))+1, int32(vx.Uint8("b_r"))
	vx.Assume(vxLess(a.height, int64(a.round), a.step, b.height, int64(b.round), b.step))
	g := subs[vx.Choose("group", len(subs))]
	var parts [][]CosignerEphemeralSecretPart
	for _, to := range g {
		if t == 1 {
			_ = c.vxOwnNonce(b.hrst(), to)
		}
		parts = append(parts, c.parts(b.hrst(), g, to))
	}
	sh, eph, err := c.run(a.hrst(), a.signBytes(vxChain), subs[vx.Choose("group1", len(subs))])
	vx.Assert(err == nil && len(sh) == t && len(eph) == t, "the earlier message is signed")
	sh, eph = nil, nil
	for i, to := range g {
		r, err := c.cosigners[to].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
			EncryptedSecrets: parts[i], HRST: b.hrst(), SignBytes: b.signBytes(vxChain)})
		vx.Assert(err == nil && len(r.Signature) == 32, "the later message is signed with the parts exchanged before")
		if err != nil {
			return
		}
		sh, eph = append(sh, r.Signature), append(eph, r.EphemeralPublic)
	}
	vx.Assert(c.pub.VerifySignature(b.signBytes(vxChain), c.combine(g, sh, eph[0])), "the shares combine into a valid signature")
	vx.Reach("signed")
}

// Two attempts at one position with different timestamps are under way at once and both are completed, in any order.
//
//vx:opts budget=60 traces=2
func VxP12_TwoAttempts() {
	c := vxNewCluster(2, 3)
	a := vxMsg{step: int8(vx.Range("step", 1, 3)), pol: -1, height: 7, round: 1, stamp: vxStamp("t"), bid: vxBlockID("b")}
	b := a
	b.stamp = vxStamp("u")
	vx.Assume(a.hrst() != b.hrst())
	subs := vxSubsets(2, 3)
	g1, g2 := subs[vx.Choose("g1", 3)], subs[0]
	var parts [2][][]CosignerEphemeralSecretPart
	for i, g := range [][]int{g1, g2} {
		for _, to := range g {
			parts[i] = append(parts[i], c.parts([]vxMsg{a, b}[i].hrst(), g, to))
		}
	}
	first := vx.Choose("first", 2)
	for _, i := range []int{first, 1 - first} {
		m, g := []vxMsg{a, b}[i], [][]int{g1, g2}[i]
		var sh, eph [][]byte
		for j, to := range g {
			r, err := c.cosigners[to].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
				EncryptedSecrets: parts[i][j], HRST: m.hrst(), SignBytes: m.signBytes(vxChain)})
			vx.Assert(err == nil && len(r.Signature) == 32, "each attempt is signed")
			if err != nil {
				return
			}
			sh, eph = append(sh, r.Signature), append(eph, r.EphemeralPublic)
		}
		vx.Assert(c.pub.VerifySignature(m.signBytes(vxChain), c.combine(g, sh, eph[0])), "the shares combine into a valid signature")
	}
	vx.Reach("both")
}

// A long run: many positions one after the other, by changing subsets, with restarts.
//
//vx:opts budget=90 traces=1
func VxP12_Long() {
	c := vxNewCluster(2, 3)
	subs := vxSubsets(2, 3)
	h := int64(vx.Uint32("h")) + 1
	first := vx.Choose("first", 3)
	for i := 0; i < 30; i++ {
		m := vxMsg{step: int8(i%3) + 1, height: h + int64(i/6), round: int32(i / 3 % 2), stamp: vxNano(1<<30, 1<<27+int64(i)), pol: -1}
		g := subs[(first+i/2)%3]
		if i%7 == 6 {
			vx.Quiesce()
			c.restart(g[0])
		}
		c.vxSignsAndRepeats(m.hrst(), m.signBytes(vxChain), g)
	}
	vx.Reach("signed")
}
