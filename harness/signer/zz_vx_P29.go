package signer

//vx:use msgs cluster

import (
	vx "github.com/strangelove-ventures/horcrux/zzvx"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func vxMax(as ...vxMsg) (o vxMsg) {
	for _, a := range as {
		if vxLess(o.height, int64(o.round), o.step, a.height, int64(a.round), a.step) {
			o = a
		}
	}
	return
}

// vxPairP29 is a message and a second one at the same position (same data, other timestamp, other block) or at
// another position.
func vxPairP29() (a, b vxMsg) {
	bid := tmProto.BlockID{Hash: vxFixed(1), PartSetHeader: tmProto.PartSetHeader{Total: 1, Hash: vxFixed(2)}}
	a = vxMsg{step: 2, pol: -1, height: 7, round: 1, stamp: vxNano(1<<30, 1<<27), bid: bid}
	b = a
	switch vx.Choose("other", 4) {
	case 0: // another timestamp
		n := vx.Uint32("stamp")
		b.stamp = vxNano(1<<30, int64(n&(1<<27-1)|1<<27))
	case 1: // another block
		b.bid.Hash = append([]byte{}, bid.Hash...)
		b.bid.Hash[0] = vx.Uint8("hash")
	case 2: // another height
		b.height = int64(vx.Uint8("height")&0x3f) + 1
		b.bid.Hash = vxFixed(5)
	case 3: // another step
		b.step = 3
		b.bid = tmProto.BlockID{}
	}
	return
}

// Two sign requests at once, with any two messages.
//
//vx:opts preempt=3 t.preempt=4 race replay=engine budget=60 t.budget=230 traces=1 t.allsched
func VxP29_TwoSigners() {
	c := vxNewCluster(2, 2)
	a, b := vxPairP29()
	var ra, rb *CosignerSignResponse
	var ea, eb error
	_ = c.vxOwnNonce(a.hrst(), 0)
	_ = c.vxOwnNonce(b.hrst(), 0)
	pa, pb := c.parts(a.hrst(), []int{1}, 0), c.parts(b.hrst(), []int{1}, 0)
	sa, sb := a.signBytes(vxChain), b.signBytes(vxChain)
	ks, sbs := [2]HRSTKey{a.hrst(), b.hrst()}, [2][]byte{sa, sb}
	q := [2][]CosignerEphemeralSecretPart{c.parts(a.hrst(), []int{0}, 1), c.parts(b.hrst(), []int{0}, 1)}
	order := []int{0, 1}
	if vxLess(b.height, 1, b.step, a.height, 1, a.step) {
		order = []int{1, 0}
	}
	vxDo(func() {
		ra, ea = c.cosigners[0].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{pa, a.hrst(), sa})
	}, func() {
		rb, eb = c.cosigners[0].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{pb, b.hrst(), sb})
	})
	vx.Quiesce()
	da, db := ea == nil && ra != nil && len(ra.Signature) > 0, eb == nil && rb != nil && len(rb.Signature) > 0
	same := a.height == b.height && a.step == b.step
	st := c.states[0]
	m := vxMax(a, b)
	vx.Assert(st.Height == m.height && st.Round == 1 && st.Step == m.step, "the watermark ends at the highest signed position")
	ld, err := LoadSignState(c.files[0])
	vx.Assert(err == nil && ld.Height == m.height && ld.Step == m.step, "and so does the file")
	if same {
		vx.Reach("same position")
		vx.Assert(da || db, "one of the requests is signed")
		if vxSameData(a, b) {
			vx.Reach("timestamps")
			vx.Assert(da && db, "both timestamps are signed, as in any order")
		} else {
			vx.Reach("conflict")
			vx.Assert(!(da && db), "two conflicting messages are never both signed")
		}
	} else {
		vx.Reach("different positions")
		if a.height == m.height && a.step == m.step {
			vx.Assert(da, "the higher request is signed")
		} else {
			vx.Assert(db, "the higher request is signed")
		}
	}
	if da && db && string(sa) != string(sb) {
		vx.Assert(string(ra.Signature) != string(rb.Signature), "each request gets its own share")
	}
	// every answered share is usable
	for _, i := range order {
		if [2]bool{da, db}[i] {
			p, err := c.cosigners[1].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{q[i], ks[i], sbs[i]})
			r := [2]*CosignerSignResponse{ra, rb}[i]
			vx.Assert(err == nil && c.pub.VerifySignature(sbs[i], c.combine([]int{0, 1}, [][]byte{r.Signature, p.Signature}, r.EphemeralPublic)),
				"the share combines with the other cosigner's")
		}
	}
}

// A sign request, a broadcast watermark and a nonce request at once.
//
//vx:opts preempt=3 t.preempt=4 race replay=engine budget=60 t.budget=230 traces=1 t.allsched
func VxP29_Broadcast() {
	c := vxNewCluster(2, 2)
	a, b := vxPairP29()
	var ra *CosignerSignResponse
	var ea, eb error
	_ = c.vxOwnNonce(a.hrst(), 0)
	pa := c.parts(a.hrst(), []int{1}, 0)
	sa := a.signBytes(vxChain)
	ssc := NewSignStateConsensus(b.height, 1, b.step)
	ssc.SignBytes, ssc.Signature = b.signBytes(vxChain), vx.Bytes("lsig", 2)
	fs := []func(){func() {
		ra, ea = c.cosigners[0].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{pa, a.hrst(), sa})
	}, func() {
		eb = c.cosigners[0].SaveLastSignedState(ssc)
	}}
	if vx.Bool("nonce") {
		fs = append(fs, func() {
			_, err := c.cosigners[0].GetEphemeralSecretParts(b.hrst())
			vx.Assert(err == nil, "a nonce request is answered")
		})
	}
	vxDo(fs...)
	vx.Quiesce()
	da := ea == nil && ra != nil && len(ra.Signature) > 0
	st := c.states[0]
	m := vxMax(a, b)
	vx.Assert(st.Height == m.height && st.Round == 1 && st.Step == m.step, "the watermark ends at the highest position")
	ld, err := LoadSignState(c.files[0])
	vx.Assert(err == nil && ld.Height == m.height && ld.Step == m.step, "and so does the file")
	same := a.height == b.height && a.step == b.step
	if same && !vxSameData(a, b) {
		vx.Reach("conflict")
		vx.Assert(!da || eb != nil, "a position learned from the cluster is not signed with conflicting data afterwards")
	}
	if !same && a.height == m.height && a.step == m.step {
		vx.Assert(da, "the higher request is signed")
	}
	if !same && b.height == m.height && b.step == m.step {
		vx.Assert(eb == nil, "the higher broadcast is learned")
	}
}

// Nonce requests for the same and other positions at once with a delivery of parts.
//
//vx:opts preempt=3 t.preempt=3 race replay=engine budget=60 t.budget=230 traces=1 t.allsched
func VxP29_Nonces() {
	c := vxNewCluster(2, 3)
	a := vxMsg{step: 2, pol: -1, height: 7, round: 1, stamp: vxNano(1<<30, 1<<27)}
	k := a.hrst()
	o := k
	if vx.Bool("other timestamp") {
		o.Timestamp++
	}
	p := c.parts(k, []int{1}, 0)
	var n1, n2 string
	vxDo(func() { n1 = c.vxOwnNonce(k, 0) }, func() { n2 = c.vxOwnNonce(o, 0) }, func() { c.vxDeliver(k, 0, p) })
	if k == o {
		vx.Reach("same")
		vx.Assert(n1 == n2, "one position and timestamp has one secret")
	} else {
		vx.Reach("other")
		vx.Assert(n1 != n2, "another timestamp has another secret")
	}
	vx.Assert(c.vxOwnNonce(k, 0) == n1, "and keeps it")
	sh, eph, err := c.run(k, a.signBytes(vxChain), []int{0, 1})
	vx.Assert(err == nil && c.pub.VerifySignature(a.signBytes(vxChain), c.combine([]int{0, 1}, sh, eph[0])), "the round completes")
}
