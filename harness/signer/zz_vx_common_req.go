package signer

import (
	"errors"
	"io"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	"github.com/tendermint/tendermint/crypto"
	"github.com/tendermint/tendermint/libs/protoio"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

// vxStub is a private validator with a prepared outcome: 0 signs, 1 refuses, 2 refuses as beyond its block.
type vxStub struct {
	out   int
	sig   []byte
	key   crypto.PubKey
	vote  *tmProto.Vote
	prop  *tmProto.Proposal
	chain string
	calls int
	hook  func() // runs while a request is being served
}

func (s *vxStub) err() error {
	switch s.out {
	case 1:
		return errors.New("no")
	case 2:
		return &BeyondBlockError{msg: "beyond"}
	}
	return nil
}

func (s *vxStub) GetPubKey() (crypto.PubKey, error) {
	s.calls++
	if s.hook != nil {
		s.hook()
	}
	if s.out != 0 {
		return nil, s.err()
	}
	return s.key, nil
}

func (s *vxStub) SignVote(chain string, v *tmProto.Vote) error {
	s.calls++
	s.chain = chain
	if s.hook != nil {
		s.hook()
	}
	o := *v
	s.vote = &o
	v.Signature = s.sig // a validator may leave a signature behind even when it fails
	return s.err()
}

func (s *vxStub) SignProposal(chain string, v *tmProto.Proposal) error {
	s.calls++
	s.chain = chain
	if s.hook != nil {
		s.hook()
	}
	o := *v
	s.prop = &o
	v.Signature = s.sig
	return s.err()
}

// vxExchange sends a request and returns the answer.
func vxExchange(c io.ReadWriter, m tmProtoPrivval.Message) (r tmProtoPrivval.Message) {
	_, err := protoio.NewDelimitedWriter(c).WriteMsg(&m)
	vx.Assert(err == nil, "the connection takes a request")
	_, err = protoio.NewDelimitedReader(c, 1<<16).ReadMsg(&r)
	vx.Assert(err == nil, "the request is answered")
	return
}

func vxPing(c io.ReadWriter) {
	r := vxExchange(c, tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PingRequest{PingRequest: &tmProtoPrivval.PingRequest{}}})
	vx.Assert(r.GetPingResponse() != nil, "a ping is answered by a ping")
}

func vxVoteReq(v *tmProto.Vote) tmProtoPrivval.Message {
	return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: v, ChainId: vxChain}}}
}

func vxPropReq(v *tmProto.Proposal) tmProtoPrivval.Message {
	return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignProposalRequest{SignProposalRequest: &tmProtoPrivval.SignProposalRequest{Proposal: v, ChainId: vxChain}}}
}
