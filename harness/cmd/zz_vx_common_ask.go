package cmd

import (
	"bytes"
	"io"
	"time"

	"github.com/tendermint/tendermint/libs/protoio"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

type vxPos struct {
	h, r int64
	s    int8
}

func (a vxPos) less(b vxPos) bool {
	return a.h < b.h || a.h == b.h && (a.r < b.r || a.r == b.r && a.s < b.s)
}

// vxSignBytes is a vote (step 2, 3) or proposal (step 1) for a position, and its sign bytes.
func vxSignBytes(p vxPos, hash byte) (m tmProtoPrivval.Message, sb []byte) {
	bid := tmProto.BlockID{}
	if hash != 0 {
		bid.Hash = bytes.Repeat([]byte{hash}, 32)
		bid.PartSetHeader = tmProto.PartSetHeader{Total: 1, Hash: bytes.Repeat([]byte{hash}, 32)}
	}
	ts := time.Unix(1<<30, 1<<27).UTC()
	v := &tmProto.Vote{Type: tmProto.PrevoteType, Height: p.h, Round: int32(p.r), BlockID: bid, Timestamp: ts}
	q := &tmProto.Proposal{Type: tmProto.ProposalType, Height: p.h, Round: int32(p.r), PolRound: -1, BlockID: bid, Timestamp: ts}
	if p.s == 1 {
		sb = tm.ProposalSignBytes("My-Chain 1.x_", q)
		m = tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignProposalRequest{
			SignProposalRequest: &tmProtoPrivval.SignProposalRequest{Proposal: q, ChainId: "My-Chain 1.x_"}}}
	} else {
		if p.s == 3 {
			v.Type = tmProto.PrecommitType
		}
		sb = tm.VoteSignBytes("My-Chain 1.x_", v)
		m = tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{
			SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: v, ChainId: "My-Chain 1.x_"}}}
	}
	return m, sb
}

// vxAsk sends a vote or proposal for a position to be signed and returns the signature and the signed bytes.
func vxAsk(c io.ReadWriter, p vxPos, hash byte) (sig, sb []byte) {
	var r tmProtoPrivval.Message
	m, sb := vxSignBytes(p, hash)
	_, err := protoio.NewDelimitedWriter(c).WriteMsg(&m)
	vx.Assert(err == nil, "the connection takes a request")
	_, err = protoio.NewDelimitedReader(c, 1<<16).ReadMsg(&r)
	vx.Assert(err == nil, "the request is answered")
	if a := r.GetSignedVoteResponse(); a != nil && a.Error == nil {
		sig = a.Vote.Signature
	}
	if a := r.GetSignedProposalResponse(); a != nil && a.Error == nil {
		sig = a.Proposal.Signature
	}
	return sig, sb
}
