package signer

//vx:use msgs cluster net rec

import (
	"context"
	"errors"
	"time"

	proto "github.com/strangelove-ventures/horcrux/signer/proto"
	vx "github.com/strangelove-ventures/horcrux/zzvx"
	"github.com/tendermint/tendermint/libs/log"
)

func vxParts(n int) (o []CosignerEphemeralSecretPart) {
	for i := 0; i < n; i++ {
		p := CosignerEphemeralSecretPart{
			SourceID: int(vx.Int32("source")), DestinationID: int(vx.Int32("dest")),
			SourceEphemeralSecretPublicKey: vx.Bytes("pub", 2),
			EncryptedSharePart:             vx.Bytes("enc", 2), SourceSig: vx.Bytes("sig", 3),
		}
		switch vx.Choose("empty", 4) {
		case 1:
			p.SourceEphemeralSecretPublicKey = nil
		case 2:
			p.EncryptedSharePart = nil
		case 3:
			p.SourceSig = nil
		}
		o = append(o, p)
	}
	return
}

func vxSameParts(a, b []CosignerEphemeralSecretPart) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].SourceID != b[i].SourceID || a[i].DestinationID != b[i].DestinationID ||
			string(a[i].SourceEphemeralSecretPublicKey) != string(b[i].SourceEphemeralSecretPublicKey) ||
			string(a[i].EncryptedSharePart) != string(b[i].EncryptedSharePart) || string(a[i].SourceSig) != string(b[i].SourceSig) {
			return false
		}
	}
	return true
}

func vxProtoParts(ps []CosignerEphemeralSecretPart) (o []*proto.EphemeralSecretPart) {
	for _, p := range ps {
		o = append(o, &proto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
	}
	return
}

func vxProtoIs(ps []*proto.EphemeralSecretPart, want []CosignerEphemeralSecretPart) bool {
	var o []CosignerEphemeralSecretPart
	for _, p := range ps {
		o = append(o, CosignerEphemeralSecretPart{SourceID: int(p.GetSourceID()), DestinationID: int(p.GetDestinationID()),
			SourceEphemeralSecretPublicKey: p.GetSourceEphemeralSecretPublicKey(), EncryptedSharePart: p.GetEncryptedSharePart(), SourceSig: p.GetSourceSig()})
	}
	return vxSameParts(o, want)
}

func vxHrstIs(h *proto.HRST, k HRSTKey) bool {
	return h.GetHeight() == k.Height && h.GetRound() == k.Round && h.GetStep() == int32(k.Step) && h.GetTimestamp() == k.Timestamp
}

// What a remote cosigner receives from the client and what the caller gets back.
//
//vx:opts budget=60 traces=4
func VxP17_Client() {
	r := &vxRec{}
	rc := NewRemoteCosigner(int(vx.Uint8("id")), "tcp://"+vxServe(r))
	max := 2
	if vx.Thorough() {
		max = 4
	}
	switch vx.Choose("call", 2) {
	case 0:
		k := vxAnyHrst("k")
		ps := vxParts(vx.Range("parts", 0, max))
		r.getRes = &proto.CosignerGRPCGetEphemeralSecretPartsResponse{EncryptedSecrets: vxProtoParts(ps)}
		res, err := rc.GetEphemeralSecretParts(k)
		vx.Assert(err == nil && r.calls == 1, "the call succeeds")
		vx.Assert(vxHrstIs(r.get.GetHrst(), k), "the position arrives unchanged")
		vx.Assert(vxSameParts(res.EncryptedSecrets, ps), "the nonce parts arrive unchanged and in order")
	case 1:
		k := vxAnyHrst("k")
		ps := vxParts(vx.Range("parts", 0, max))
		sb := vx.Bytes("sb", vx.Range("nsb", 0, 3))
		r.setRes = &proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{EphemeralPublic: vx.Bytes("eph", 2), Timestamp: vx.Int64("stamp"), Signature: vx.Bytes("sig", 2)}
		res, err := rc.SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: ps, HRST: k, SignBytes: sb})
		vx.Assert(err == nil && r.calls == 1, "the call succeeds")
		vx.Assert(vxHrstIs(r.set.GetHrst(), k) && string(r.set.GetSignBytes()) == string(sb), "position and sign bytes arrive unchanged")
		vx.Assert(vxProtoIs(r.set.GetEncryptedSecrets(), ps), "the nonce parts arrive unchanged and in order")
		vx.Assert(string(res.EphemeralPublic) == string(r.setRes.EphemeralPublic) && string(res.Signature) == string(r.setRes.Signature),
			"the response arrives unchanged")
		vx.Assert(res.Timestamp.UnixNano() == r.setRes.Timestamp, "the timestamp of the response arrives unchanged")
	}
	vx.Reach("done")
}

// An error of the remote side is an error for the caller.
//
//vx:opts budget=30 traces=2
func VxP17_Errors() {
	r := &vxRec{err: errors.New("no")}
	addr := "tcp://" + vxServe(r)
	if vx.Bool("unreachable") {
		addr = "tcp://127.0.0.1:1"
	}
	rc := NewRemoteCosigner(1, addr)
	_, err := rc.GetEphemeralSecretParts(vxAnyHrst("k"))
	vx.Assert(err != nil, "an error arrives")
	res, err := rc.SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{HRST: vxAnyHrst("k")})
	vx.Assert(err != nil && (res == nil || len(res.Signature) == 0), "an error arrives")
	vx.Reach("errors")
}

// A whole round over the wire: the client and both servers around real cosigners.
//
//vx:opts budget=60 traces=3
func VxP17_Round() {
	c := vxNewCluster(2, 2)
	var srv proto.CosignerGRPCServer = &GRPCServer{cosigner: c.cosigners[0]}
	if vx.Bool("other server") {
		srv = &CosignerGRPCServer{cosigner: c.cosigners[0]}
	}
	rc := NewRemoteCosigner(1, "tcp://"+vxServe(srv))
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxStamp("t"), bid: vxBlockID("b"), pol: -1}
	m.height, m.round = vxPos("m")
	vx.Assume(m.height > 0 && m.round >= 0)
	k, sb := m.hrst(), m.signBytes(vxChain)
	res, err := rc.GetEphemeralSecretParts(k)
	vx.Assert(err == nil, "parts are sent")
	own, err := c.cosigners[0].GetEphemeralSecretParts(k)
	vx.Assert(err == nil && len(own.EncryptedSecrets) == len(res.EncryptedSecrets) &&
		string(own.EncryptedSecrets[0].SourceEphemeralSecretPublicKey) == string(res.EncryptedSecrets[0].SourceEphemeralSecretPublicKey),
		"the request reaches the position it names")
	r2, err := c.cosigners[1].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: res.EncryptedSecrets, HRST: k, SignBytes: sb})
	vx.Assert(err != nil || len(r2.Signature) > 0, "parts that crossed the wire are usable")
	_, err = c.cosigners[1].GetEphemeralSecretParts(k)
	vx.Assert(err == nil, "own nonce")
	both := vxAddNonces(c.vxOwnNonce(k, 0), c.vxOwnNonce(k, 1))
	r1, err := rc.SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: c.parts(k, []int{1}, 0), HRST: k, SignBytes: sb})
	vx.Assert(err == nil, "the sign request crosses the wire")
	vx.Assert(string(r1.EphemeralPublic) == both, "the nonce parts cross the wire")
	direct, err := c.sign(k, sb, []int{0, 1}, 0)
	vx.Assert(err == nil && string(direct.Signature) == string(r1.Signature) && string(direct.EphemeralPublic) == string(r1.EphemeralPublic),
		"the response is what the cosigner answered")
	st := c.states[0]
	vx.Assert(st.Height == m.height && st.Round == int64(m.round) && st.Step == m.step && string(st.SignBytes) == string(sb), "exactly the sent message is signed")
	vx.Reach("signed")
}

// A server receives any request.
//
//vx:opts budget=60 traces=3
func VxP17_Server() {
	c := vxNewCluster(2, 2)
	var srv proto.CosignerGRPCServer = &GRPCServer{cosigner: c.cosigners[0]}
	if vx.Bool("other server") {
		srv = &CosignerGRPCServer{cosigner: c.cosigners[0]}
	}
	k := vxAnyHrst("k")
	res, err := srv.GetEphemeralSecretParts(context.Background(), &proto.CosignerGRPCGetEphemeralSecretPartsRequest{
		Hrst: &proto.HRST{Height: k.Height, Round: k.Round, Step: int32(k.Step), Timestamp: k.Timestamp}})
	vx.Assert(err == nil && len(res.GetEncryptedSecrets()) == 1, "parts are sent")
	p := res.GetEncryptedSecrets()[0]
	vx.Assert(p.GetSourceID() == 1 && p.GetDestinationID() == 2, "numbers arrive unchanged")
	vx.Assert(string(p.GetSourceEphemeralSecretPublicKey()) == c.vxOwnNonce(k, 0), "the request reaches the position it names")
	vx.Reach("served")
}

// A block goes from a follower through a second node to the leader, and its signature back.
//
//vx:opts budget=60 traces=3
func VxP17_Block() {
	r := &vxRec{signRes: &proto.CosignerGRPCSignBlockResponse{Signature: vx.Bytes("sig", 4)}}
	mk := func(addr string) *ThresholdValidator {
		st := vxStore(nil, "")
		st.raft = vxRaft(false, addr, nil)
		return NewThresholdValidator(&ThresholdValidatorOpt{Threshold: 2, RaftStore: st, Logger: log.NewNopLogger()})
	}
	addr := vxServe(r)
	relay := vx.Choose("relay", 3)
	if relay > 0 {
		var srv proto.CosignerGRPCServer = &GRPCServer{thresholdValidator: mk(addr)}
		if relay == 2 {
			srv = &CosignerGRPCServer{thresholdValidator: mk(addr)}
		}
		addr = vxServe(srv)
	}
	k := vxAnyHrst("k")
	chain := vxAsciiP17("chain", vx.Range("nchain", 0, 2))
	b := &Block{Height: k.Height, Round: k.Round, Step: k.Step, SignBytes: vx.Bytes("sb", 3), Timestamp: time.Unix(0, k.Timestamp)}
	sig, stamp, err := mk(addr).SignBlock(chain, b)
	vx.Assert(err == nil, "the block is relayed")
	got := r.block.GetBlock()
	vx.Assert(r.calls == 1 && r.block.GetChainID() == chain, "the chain ID arrives unchanged")
	vx.Assert(got.GetHeight() == k.Height && got.GetRound() == k.Round && got.GetStep() == int32(k.Step) &&
		got.GetTimestamp() == k.Timestamp && string(got.GetSignBytes()) == string(b.SignBytes), "the block arrives unchanged")
	vx.Assert(string(sig) == string(r.signRes.Signature), "the signature arrives unchanged")
	vx.Assert(stamp.Equal(b.Timestamp), "the timestamp is kept")
	vx.Reach("relayed")
}

func vxAsciiP17(name string, n int) string {
	s := vx.Str(name, n)
	for i := 0; i < n; i++ {
		vx.Assume(s[i] < 0x80)
	}
	return s
}
