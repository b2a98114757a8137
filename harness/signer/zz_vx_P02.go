package signer

//vx:use msgs cluster

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

func vxMsgP02(name string) vxMsg {
	m := vxMsg{step: int8(vx.Range(name+"_step", 1, 3)), stamp: vxStamp(name + "_t"), bid: vxBlockID(name + "_b"), pol: -1}
	m.height, m.round = vxPos(name)
	vx.Assume(m.height > 0 && m.round >= 0)
	return m
}

func vxCheckP02(c *vxCluster, b vxMsg, res *CosignerSignResponse, err error, oh, or int64, os int8) {
	st := c.states[0]
	nh, nr, ns := st.Height, st.Round, st.Step
	signed := err == nil && res != nil && len(res.Signature) > 0
	vx.Obs("signed", signed)
	if vxLess(b.height, int64(b.round), b.step, oh, or, os) {
		vx.Reach("below")
		vx.Assert(err != nil, "a request below the watermark is answered with an error")
		vx.Assert(res == nil || len(res.Signature) == 0, "a request below the watermark gets no share")
		vx.Assert(nh == oh && nr == or && ns == os, "a request below the watermark leaves the watermark")
	}
	if signed {
		vx.Reach("signed")
		vx.Assert(nh == b.height && nr == int64(b.round) && ns == b.step, "a signed request leaves the watermark at its position")
	} else {
		vx.Assert(nh == oh && nr == or && ns == os, "a refused request leaves the watermark")
	}
	again, e := LoadSignState(c.files[0])
	vx.Assert(e == nil && again.Height == nh && again.Round == nr && again.Step == ns, "the file holds the watermark")
}

// Any watermark, reached by signing, by a broadcast or from the state file, and any request after it.
//
//vx:opts budget=120 traces=3
func VxP02_BelowWatermark() {
	c := vxNewCluster(2, 2)
	a, b := vxMsgP02("a"), vxMsgP02("b")
	g := []int{0, 1}
	switch vx.Choose("how", 3) {
	case 0:
		_, err := c.sign(a.hrst(), a.signBytes(vxChain), g, 0)
		vx.Assert(err == nil, "the first message is signed")
	case 1, 2:
		ssc := NewSignStateConsensus(a.height, int64(a.round), a.step)
		ssc.SignBytes, ssc.Signature = a.signBytes(vxChain), vx.Bytes("lsig", 2)
		vx.Assert(c.cosigners[0].SaveLastSignedState(ssc) == nil, "a broadcast position is learned")
		if vx.Bool("restart") {
			vx.Quiesce()
			c.restart(0)
		}
	}
	oh, or, os := c.states[0].Height, c.states[0].Round, c.states[0].Step
	vx.Assert(oh == a.height && or == int64(a.round) && os == a.step, "the watermark is the first position")
	res, err := c.sign(b.hrst(), b.signBytes(vxChain), g, 0)
	vx.Quiesce()
	vxCheckP02(c, b, res, err, oh, or, os)
}

// A watermark without a recorded signature (state set to a height, or only the position known).
//
//vx:opts budget=60 traces=3
func VxP02_BareWatermark() {
	c := vxNewCluster(2, 2)
	oh, or, os := vx.Int64("h"), vx.Int64("r"), vx.Int8("s")
	vx.Assume(vxLess(0, 0, 0, oh, or, os))
	vx.Assert(c.cosigners[0].SaveLastSignedState(NewSignStateConsensus(oh, or, os)) == nil, "the position is learned")
	b := vxMsgP02("b")
	res, err := c.sign(b.hrst(), b.signBytes(vxChain), []int{0, 1}, 0)
	vx.Quiesce()
	vxCheckP02(c, b, res, err, oh, or, os)
	if b.height == oh && int64(b.round) == or && b.step == os {
		vx.Reach("same")
		vx.Assert(err != nil, "a position whose signed bytes are unknown is not signed again")
	}
}

// The position stated next to the sign bytes is not trusted: nonce parts may be filed under any other one.
//
//vx:opts budget=60 traces=3
func VxP02_StatedPosition() {
	c := vxNewCluster(2, 2)
	ssc := NewSignStateConsensus(int64(vx.Uint8("h"))+1, int64(vx.Uint8("r")), int8(vx.Range("s", 1, 3)))
	ssc.SignBytes, ssc.Signature = []byte{1}, []byte{2}
	vx.Assert(c.cosigners[0].SaveLastSignedState(ssc) == nil, "a position is learned")
	b := vxMsg{step: int8(vx.Range("b_step", 1, 3)), stamp: vxStamp("b_t"), bid: vxBlockID("b_b"), pol: -1,
		height: int64(vx.Uint8("b_h")) + 1, round: int32(vx.Uint8("b_r"))}
	k := b.hrst()
	switch vx.Choose("other", 4) {
	case 0:
		k.Height = int64(vx.Uint8("k_h")) + 1
	case 1:
		k.Round = int64(vx.Uint8("k_r"))
	case 2:
		k.Step = int8(vx.Range("k_s", 0, 4))
	case 3:
		k.Timestamp = vx.Int64("k_t")
	}
	if vx.Bool("dealt") {
		_, err := c.cosigners[0].GetEphemeralSecretParts(b.hrst())
		vx.Assert(err == nil, "own nonce is dealt")
	}
	res, err := c.sign(k, b.signBytes(vxChain), []int{0, 1}, 0)
	vx.Quiesce()
	vxCheckP02(c, b, res, err, ssc.Height, ssc.Round, ssc.Step)
}

// Bytes that are no vote or proposal never produce a share or move the watermark.
//
//vx:opts budget=60 traces=3
func VxP02_Garbage() {
	c := vxNewCluster(2, 2)
	oh := int64(vx.Uint8("h")) + 1
	ssc := NewSignStateConsensus(oh, 0, 1)
	ssc.SignBytes, ssc.Signature = []byte{1}, []byte{2}
	vx.Assert(c.cosigners[0].SaveLastSignedState(ssc) == nil, "a position is learned")
	n := 5
	if vx.Thorough() {
		n = 7
	}
	sb := vx.Bytes("sb", vx.Range("n", 0, n))
	k := HRSTKey{Height: oh + 1, Round: 0, Step: 1, Timestamp: 5}
	res, err := c.sign(k, sb, []int{0, 1}, 0)
	vx.Assert(err != nil, "bytes that are no message are refused")
	vx.Assert(res == nil || len(res.Signature) == 0, "bytes that are no message get no share")
	vx.Assert(c.states[0].Height == oh && c.states[0].Round == 0 && c.states[0].Step == 1, "a refused request leaves the watermark")
}

// A position that was signed here once and has since been passed, by signing or by a broadcast, is not signed
// again, whatever comes with the request.
//
//vx:opts budget=60 traces=3
func VxP02_PassedPosition() {
	c := vxNewCluster(2, 2)
	g := []int{0, 1}
	a := vxMsgP02("a")
	_, err := c.sign(a.hrst(), a.signBytes(vxChain), g, 0)
	vx.Assert(err == nil, "the first message is signed")
	h := vxMsg{step: int8(vx.Range("h_step", 1, 3)), stamp: vxNano(1<<30, 1<<27), pol: -1}
	h.height, h.round = vxPos("h")
	vx.Assume(h.height > 0 && h.round >= 0 && vxLess(a.height, int64(a.round), a.step, h.height, int64(h.round), h.step))
	if vx.Bool("broadcast") {
		ssc := NewSignStateConsensus(h.height, int64(h.round), h.step)
		ssc.SignBytes, ssc.Signature = h.signBytes(vxChain), vx.Bytes("lsig", 2)
		vx.Assert(c.cosigners[0].SaveLastSignedState(ssc) == nil, "a broadcast position is learned")
	} else {
		_, err := c.sign(h.hrst(), h.signBytes(vxChain), g, 0)
		vx.Assert(err == nil, "the higher message is signed")
	}
	b := a
	switch vx.Choose("again", 3) {
	case 1:
		b.stamp = vxStamp("b_t")
	case 2:
		b.bid = vxBlockID("b_b")
	}
	res, err := c.sign(b.hrst(), b.signBytes(vxChain), g, 0)
	vx.Quiesce()
	vxCheckP02(c, b, res, err, h.height, int64(h.round), h.step)
	vx.Reach("asked again")
}
