package signer

//vx:use msgs cluster net val conn req

import (
	"math"
	"strings"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/libs/protoio"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func vxSameBid(a, b tmProto.BlockID) bool {
	return string(a.Hash) == string(b.Hash) && a.PartSetHeader.Total == b.PartSetHeader.Total &&
		string(a.PartSetHeader.Hash) == string(b.PartSetHeader.Hash)
}

// Every kind of valid request gets one answer of its kind, with the outcome of the private validator.
//
//vx:opts budget=60 traces=4
func VxP20_Kinds() {
	key := tmCryptoEd25519.GenPrivKey().PubKey()
	pv := &vxStub{out: vx.Choose("outcome", 3), sig: vx.Bytes("sig", 3), key: key}
	n := vxMkNodeConn(0)
	vxSigners(&PvGuard{PrivValidator: pv}, n)
	c := n.accept()
	m := vxMsg{step: int8(vx.Range("step", 0, 4)), stamp: vxStamp("t"), bid: vxBlockID("bid"), pol: vx.Int32("pol")}
	vx.Assume(m.pol >= -1 && m.pol < 100)
	m.height, m.round = int64(vx.Uint8("h")), int32(vx.Uint8("r"))
	switch {
	case m.step == 0:
		r := vxExchange(c, tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PubKeyRequest{PubKeyRequest: &tmProtoPrivval.PubKeyRequest{ChainId: vxChain}}})
		p := r.GetPubKeyResponse()
		vx.Assert(p != nil, "a key request is answered by a key")
		if p == nil {
			return
		}
		if pv.out == 0 {
			vx.Reach("key")
			vx.Assert(p.Error == nil && string(p.PubKey.GetEd25519()) == string(key.Bytes()), "with the validator's key")
		} else {
			vx.Reach("no key")
			vx.Assert(p.Error != nil && p.PubKey.Sum == nil, "or with an error and no key")
		}
	case m.step == 1:
		in := m.proposal()
		r := vxExchange(c, vxPropReq(in))
		p := r.GetSignedProposalResponse()
		vx.Assert(p != nil, "a proposal is answered by a proposal")
		if p == nil {
			return
		}
		vx.Assert(pv.chain == vxChain, "it is signed for the configured chain")
		q := p.Proposal
		if pv.out == 0 {
			vx.Reach("proposal")
			vx.Assert(p.Error == nil && string(q.Signature) == string(pv.sig), "a success carries the signature")
			vx.Assert(q.Height == in.Height && q.Round == in.Round && q.PolRound == in.PolRound && q.Type == in.Type &&
				vxSameBid(q.BlockID, in.BlockID) && q.Timestamp.Equal(in.Timestamp), "and the contents of the request")
		} else {
			vx.Reach("no proposal")
			vx.Assert(p.Error != nil && len(q.Signature) == 0, "a failure carries an error and no signature")
		}
	case m.step == 4:
		vxPing(c)
		vx.Assert(pv.calls == 0, "a ping reaches no private validator")
		return
	default:
		in := m.vote()
		in.ValidatorIndex, in.ValidatorAddress = int32(vx.Uint8("index")), vx.Bytes("addr", 2)
		r := vxExchange(c, vxVoteReq(in))
		p := r.GetSignedVoteResponse()
		vx.Assert(p != nil, "a vote is answered by a vote")
		if p == nil {
			return
		}
		vx.Assert(pv.chain == vxChain, "it is signed for the configured chain")
		q := p.Vote
		if pv.out == 0 {
			vx.Reach("vote")
			vx.Assert(p.Error == nil && string(q.Signature) == string(pv.sig), "a success carries the signature")
			vx.Assert(q.Height == in.Height && q.Round == in.Round && q.Type == in.Type && q.ValidatorIndex == in.ValidatorIndex &&
				string(q.ValidatorAddress) == string(in.ValidatorAddress) &&
				vxSameBid(q.BlockID, in.BlockID) && q.Timestamp.Equal(in.Timestamp), "and the contents of the request")
		} else {
			vx.Reach("no vote")
			vx.Assert(p.Error != nil && len(q.Signature) == 0, "a failure carries an error and no signature")
		}
	}
	vx.Assert(pv.calls == 1, "the private validator is asked once")
	vxPing(c)
}

// Requests of any size that occurs: at large heights, for long chain names, with the fields a node fills in.
//
//vx:opts budget=60 traces=3
func VxP20_Sizes() {
	pv := &vxStub{sig: vx.Bytes("sig", 3), key: tmCryptoEd25519.GenPrivKey().PubKey()}
	n := vxMkNodeConn(0)
	vxSigners(&PvGuard{PrivValidator: pv}, n)
	c := n.accept()
	m := vxMsg{step: int8(vx.Range("step", 1, 3)), stamp: vxStamp("t"), bid: vxBlockID("bid"), pol: -1, height: 5, round: 1}
	chain := vxChain
	if vx.Bool("large") {
		m.height, m.round, m.pol = math.MaxInt64-int64(vx.Uint8("h")), math.MaxInt32-int32(vx.Uint8("r")), math.MaxInt32-256
		chain = strings.Repeat("x", 50)
	}
	var extra []byte
	if vx.Bool("signed") {
		extra = make([]byte, 64)
	}
	if m.step == 1 {
		in := m.proposal()
		in.Signature = extra
		r := vxExchange(c, tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignProposalRequest{
			SignProposalRequest: &tmProtoPrivval.SignProposalRequest{Proposal: in, ChainId: chain}}})
		p := r.GetSignedProposalResponse()
		vx.Assert(p != nil && p.Error == nil && string(p.Proposal.Signature) == string(pv.sig) && p.Proposal.Height == m.height,
			"a proposal of any size is answered")
		vx.Reach("proposal")
	} else {
		in := m.vote()
		in.Signature, in.ValidatorAddress, in.ValidatorIndex = extra, make([]byte, 20), math.MaxInt32
		r := vxExchange(c, tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{
			SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: in, ChainId: chain}}})
		v := r.GetSignedVoteResponse()
		vx.Assert(v != nil && v.Error == nil && string(v.Vote.Signature) == string(pv.sig) && v.Vote.Height == m.height,
			"a vote of any size is answered")
		vx.Reach("vote")
	}
	vxPing(c)
}

// vxOdd is a vote or proposal with one field missing or out of order.
func vxOdd(prop bool) tmProtoPrivval.Message {
	typ := tmProto.PrevoteType
	h, r, pol := int64(5), int32(1), int32(-1)
	var bid tmProto.BlockID
	stamp := vxNano(1<<30, 1<<27)
	switch vx.Choose("odd", 6) {
	case 0:
		if prop {
			return vxPropReq(nil)
		}
		return vxVoteReq(nil)
	case 1:
		typ = tmProto.SignedMsgType(vx.Int32("type"))
	case 2:
		bid.Hash = vx.Bytes("hash", []int{1, 20, 31, 32, 33}[vx.Choose("nhash", 5)])
		if vx.Bool("part") {
			bid.PartSetHeader = tmProto.PartSetHeader{Total: 1, Hash: vxFixed(1)}
		}
	case 3:
		bid.PartSetHeader = tmProto.PartSetHeader{Total: vx.Uint32("total"), Hash: vx.Bytes("phash", []int{0, 1, 20, 32, 40}[vx.Choose("nphash", 5)])}
	case 4:
		h = []int64{-1 << 63, -1, 0, 1, 1<<63 - 1}[vx.Choose("h", 5)]
		r = []int32{-1 << 31, -1, 0, 1<<31 - 1}[vx.Choose("r", 4)]
	case 5:
		pol = []int32{-1 << 31, -2, 0, 1<<31 - 1}[vx.Choose("pol", 4)]
		stamp = vxNano([]int64{-62135596800, -9223372037, 0, 1 << 34, 253402300799}[vx.Choose("era", 5)], int64(vx.Uint8("n")))
	}
	if prop {
		return vxPropReq(&tmProto.Proposal{Type: tmProto.ProposalType, Height: h, Round: r, PolRound: pol, BlockID: bid, Timestamp: stamp})
	}
	return vxVoteReq(&tmProto.Vote{Type: typ, Height: h, Round: r, BlockID: bid, Timestamp: stamp})
}

// A vote or proposal with invalid fields, at a real validator: the answer is of its kind, and the next
// request is served.
//
//vx:opts budget=90 t.budget=300 traces=4
func VxP20_OddFields() {
	c := vxNewCluster(1, 2)
	v := c.vxVal(0, 1)
	v.store.raft = vxRaft(true, "", nil, v.store)
	n := vxMkNodeConn(0)
	vxSigners(&PvGuard{PrivValidator: v}, n)
	s := n.accept()
	prop := vx.Bool("proposal")
	r := vxExchange(s, vxOdd(prop))
	var e *tmProtoPrivval.RemoteSignerError
	var sig []byte
	if prop {
		p := r.GetSignedProposalResponse()
		vx.Assert(p != nil, "a proposal is answered by a proposal")
		if p == nil {
			return
		}
		e, sig = p.Error, p.Proposal.Signature
	} else {
		p := r.GetSignedVoteResponse()
		vx.Assert(p != nil, "a vote is answered by a vote")
		if p == nil {
			return
		}
		e, sig = p.Error, p.Vote.Signature
	}
	if e != nil {
		vx.Reach("refused")
	} else {
		vx.Reach("signed")
	}
	vx.Assert((e == nil) == (len(sig) > 0), "the answer is a signature or an error")
	vxPing(s)
}

// Arbitrary bytes, and messages of kinds that are no requests.
//
//vx:opts budget=60 t.budget=300 traces=4
func VxP20_Garbage() {
	pv := &vxStub{sig: []byte{1, 2}, key: tmCryptoEd25519.GenPrivKey().PubKey()}
	n := vxMkNodeConn(0)
	vxSigners(&PvGuard{PrivValidator: pv}, n)
	s := n.accept()
	switch vx.Choose("what", 4) {
	case 0: // a frame of arbitrary bytes
		k := 3
		if vx.Thorough() {
			k = 4
		}
		l := vx.Range("len", 0, k)
		_, err := s.Write(append([]byte{byte(l)}, vx.Bytes("frame", l)...))
		vx.Assert(err == nil, "written")
	case 1: // a length that does not fit
		_, err := s.Write([]byte{0xff, 0xff, 0xff, vx.Uint8("l3"), vx.Uint8("l4") & 0x7f})
		vx.Assert(err == nil, "written")
	case 2: // a response as a request
		m := tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PubKeyResponse{PubKeyResponse: &tmProtoPrivval.PubKeyResponse{}}}
		switch vx.Choose("kind", 4) {
		case 1:
			m.Sum = &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: &tmProtoPrivval.SignedVoteResponse{}}
		case 2:
			m.Sum = &tmProtoPrivval.Message_PingResponse{PingResponse: &tmProtoPrivval.PingResponse{}}
		case 3:
			m.Sum = nil
		}
		_, err := protoio.NewDelimitedWriter(s).WriteMsg(&m)
		vx.Assert(err == nil, "written")
	case 3: // half a message, then the connection is gone
		_, err := s.Write([]byte{9, vx.Uint8("half")})
		vx.Assert(err == nil, "written")
	}
	// whatever the signer made of it: over the same or a new connection the next request is served
	s.Close()
	s = n.accept()
	vxPing(s)
	r := vxExchange(s, vxVoteReq(&tmProto.Vote{Type: tmProto.PrevoteType, Height: 3, Timestamp: vxNano(1<<30, 1)}))
	p := r.GetSignedVoteResponse()
	vx.Assert(p != nil && p.Error == nil && len(p.Vote.Signature) == 2, "the next request is served")
	vx.Reach("served")
}

// The connection breaks while a request is being served: its answer is lost, and what is asked on the next
// connection gets its own answer.
//
//vx:opts budget=60 traces=4
func VxP20_BrokenConnection() {
	pv := &vxStub{out: vx.Choose("outcome", 3), sig: []byte{1, 2}, key: tmCryptoEd25519.GenPrivKey().PubKey()}
	n := vxMkNodeConn(0)
	vxSigners(&PvGuard{PrivValidator: pv}, n)
	s := n.accept()
	pv.hook = func() { n.reset() }
	ask := func(what int, h int64) tmProtoPrivval.Message {
		switch what {
		case 0:
			return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PubKeyRequest{PubKeyRequest: &tmProtoPrivval.PubKeyRequest{ChainId: vxChain}}}
		case 1:
			return vxPropReq(&tmProto.Proposal{Type: tmProto.ProposalType, Height: h, Timestamp: vxNano(1<<30, 1)})
		}
		return vxVoteReq(&tmProto.Vote{Type: tmProto.PrevoteType, Height: h, Timestamp: vxNano(1<<30, 1)})
	}
	for i := vx.Range("breaks", 1, 2); i > 0; i-- {
		m := ask(vx.Choose("broken", 3), int64(vx.Uint8("h"))+1)
		_, err := protoio.NewDelimitedWriter(s).WriteMsg(&m)
		vx.Assert(err == nil, "the connection takes a request")
		s = n.accept()
	}
	pv.hook, pv.out = nil, 0
	h := int64(vx.Uint8("h2")) + 1
	switch vx.Choose("next", 4) {
	case 0:
		r := vxExchange(s, ask(0, h))
		p := r.GetPubKeyResponse()
		vx.Assert(p != nil && p.Error == nil && string(p.PubKey.GetEd25519()) == string(pv.key.Bytes()), "a key request is answered by the key")
	case 1:
		r := vxExchange(s, ask(1, h))
		p := r.GetSignedProposalResponse()
		vx.Assert(p != nil && p.Error == nil && p.Proposal.Height == h && len(p.Proposal.Signature) == 2, "a proposal is answered by itself, signed")
	case 2:
		r := vxExchange(s, ask(2, h))
		p := r.GetSignedVoteResponse()
		vx.Assert(p != nil && p.Error == nil && p.Vote.Height == h && len(p.Vote.Signature) == 2, "a vote is answered by itself, signed")
	case 3:
	}
	vxPing(s)
	vx.Reach("served")
}

// Many requests on one connection, of every kind and with every outcome: each gets its own answer.
//
//vx:opts budget=60 traces=1
func VxP20_Long() {
	key := tmCryptoEd25519.GenPrivKey().PubKey()
	pv := &vxStub{key: key}
	n := vxMkNodeConn(0)
	vxSigners(&PvGuard{PrivValidator: pv}, n)
	c := n.accept()
	out := vx.Choose("most are", 3)
	k := 40
	for i := 0; i < k; i++ {
		pv.out = out
		if i%7 == 6 || i == k-1 {
			pv.out = 0
		}
		pv.sig = vx.Bytes("sig", 2)
		calls := pv.calls
		stamp := vxNano(1<<30, 1<<27+int64(i))
		h := int64(1 + i)
		switch i % 4 {
		case 0:
			r := vxExchange(c, vxVoteReq(&tmProto.Vote{Type: tmProto.PrecommitType, Height: h, Timestamp: stamp}))
			p := r.GetSignedVoteResponse()
			vx.Assert(p != nil && (p.Error == nil) == (pv.out == 0), "a vote is answered with the outcome")
			vx.Assert(p.Error != nil || string(p.Vote.Signature) == string(pv.sig) && p.Vote.Height == h, "a success carries the signature")
			vx.Assert(p.Error == nil || len(p.Vote.Signature) == 0, "a failure carries no signature")
		case 1:
			r := vxExchange(c, vxPropReq(&tmProto.Proposal{Type: tmProto.ProposalType, Height: h, Timestamp: stamp}))
			p := r.GetSignedProposalResponse()
			vx.Assert(p != nil && (p.Error == nil) == (pv.out == 0), "a proposal is answered with the outcome")
			vx.Assert(p.Error != nil || string(p.Proposal.Signature) == string(pv.sig) && p.Proposal.Height == h, "a success carries the signature")
			vx.Assert(p.Error == nil || len(p.Proposal.Signature) == 0, "a failure carries no signature")
		case 2:
			vxPing(c)
			vx.Assert(pv.calls == calls, "a ping reaches no private validator")
			calls--
		case 3:
			r := vxExchange(c, tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PubKeyRequest{PubKeyRequest: &tmProtoPrivval.PubKeyRequest{ChainId: vxChain}}})
			p := r.GetPubKeyResponse()
			vx.Assert(p != nil && (p.Error == nil) == (pv.out == 0), "a key request is answered with the outcome")
			vx.Assert(p.Error != nil || string(p.PubKey.GetEd25519()) == string(key.Bytes()), "with the validator's key")
		}
		vx.Assert(pv.calls == calls+1, "the private validator is asked once")
	}
	vx.Reach("all answered")
}
