package signer

import (
	"context"

	proto "github.com/strangelove-ventures/horcrux/signer/proto"
)

// vxRec is a cosigner server that records what arrives and answers with prepared responses.
type vxRec struct {
	proto.UnimplementedCosignerGRPCServer
	get     *proto.CosignerGRPCGetEphemeralSecretPartsRequest
	set     *proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest
	block   *proto.CosignerGRPCSignBlockRequest
	getRes  *proto.CosignerGRPCGetEphemeralSecretPartsResponse
	setRes  *proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse
	signRes *proto.CosignerGRPCSignBlockResponse
	calls   int
	err     error
}

func (r *vxRec) GetEphemeralSecretParts(_ context.Context, q *proto.CosignerGRPCGetEphemeralSecretPartsRequest) (*proto.CosignerGRPCGetEphemeralSecretPartsResponse, error) {
	r.get = q
	r.calls++
	return r.getRes, r.err
}

func (r *vxRec) SetEphemeralSecretPartsAndSign(_ context.Context, q *proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest) (*proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse, error) {
	r.set = q
	r.calls++
	return r.setRes, r.err
}

func (r *vxRec) SignBlock(_ context.Context, q *proto.CosignerGRPCSignBlockRequest) (*proto.CosignerGRPCSignBlockResponse, error) {
	r.block = q
	r.calls++
	return r.signRes, r.err
}
