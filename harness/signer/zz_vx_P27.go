package signer

//vx:use conn cluster net

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	proto "github.com/strangelove-ventures/horcrux/signer/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// Engine only: the raft node at addr is leader; data is an entry of the raft log; the address under which the
// raft node at addr knows the node id.
func vxLead(addr string)              {}
func vxRaftLog(data []byte)           {}
func vxMember(addr, id string) string { return "" }

// VxhCluster is a key sharing whose members can be started as cosigners or played by the harness.
type VxhCluster struct{ *vxCluster }

func VxhNewCluster(t, n int) *VxhCluster { return &VxhCluster{vxNewCluster(t, n)} }

func (c *VxhCluster) WriteShare(i int, file string) {
	vx.Assert(WriteCosignerShareFile(c.key(i), file) == nil, "share file")
}

func (c *VxhCluster) Verify(msg, sig []byte) bool {
	return len(sig) == 64 && c.pub.VerifySignature(msg, sig)
}

// VxhAddr is an address a cosigner can listen on.
func VxhAddr(i int) string {
	if !vx.Native() {
		return fmt.Sprintf("tcp://127.0.0.1:%d", 40000+i)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return "tcp://" + l.Addr().String()
}

func VxhLead(addr string) { vxLead(p2pURLToRaftAddress(addr)) }

func VxhMember(addr string, id int) string {
	return vxMember(p2pURLToRaftAddress(addr), fmt.Sprint(id))
}

// VxhLogged puts the watermark a leader announced into the raft log.
func VxhLogged(s SignStateConsensus) {
	v, err := json.Marshal(s)
	vx.Assert(err == nil, "watermark")
	b, err := json.Marshal(&command{Op: "set", Key: raftEventLSS, Value: string(v)})
	vx.Assert(err == nil, "command")
	vxRaftLog(b)
}

// VxhParts asks a started cosigner for its nonce parts, waiting until it serves.
func VxhParts(rem Cosigner, k HRSTKey) (o []CosignerEphemeralSecretPart, err error) {
	for i := 0; i < 100; i++ {
		var r *CosignerEphemeralSecretPartsResponse
		if r, err = rem.GetEphemeralSecretParts(k); err == nil {
			return r.EncryptedSecrets, nil
		}
		time.Sleep(50 * time.Millisecond)
	}
	return nil, err
}

// Sign makes a signature with the started cosigner `me` and the cosigner j that the harness plays.
func (c *VxhCluster) Sign(rem Cosigner, me, j int, k HRSTKey, sb []byte) ([]byte, error) {
	ps, err := VxhParts(rem, k)
	if err != nil {
		return nil, err
	}
	var mine []CosignerEphemeralSecretPart
	for _, p := range ps {
		if p.DestinationID == j+1 {
			mine = append(mine, p)
		}
	}
	if len(mine) != 1 {
		return nil, errors.New("no nonce part for a configured peer")
	}
	_, err = c.cosigners[j].GetEphemeralSecretParts(k)
	vx.Assert(err == nil, "the peer deals")
	a, err := rem.SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: c.parts(k, []int{j}, me), HRST: k, SignBytes: sb})
	if err != nil {
		return nil, err
	}
	b, err := c.cosigners[j].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: mine, HRST: k, SignBytes: sb})
	vx.Assert(err == nil, "the peer accepts what the started cosigner dealt for it")
	return c.combine([]int{me, j}, [][]byte{a.Signature, b.Signature}, a.EphemeralPublic), nil
}

// VxhNode is a chain node the signer can connect to.
func VxhNode(i int) (string, func() io.ReadWriteCloser) {
	n := vxMkNodeConn(i)
	return n.addr, n.accept
}

// VxhSignBlock asks the cosigner at addr as one of its followers does.
func VxhSignBlock(addr string, h, r int64, s int8, sb []byte) (signed, served bool) {
	conn, err := grpc.Dial(p2pURLToRaftAddress(addr), grpc.WithTransportCredentials(insecure.NewCredentials()))
	vx.Assert(err == nil, "dial")
	defer conn.Close()
	res, err := proto.NewCosignerGRPCClient(conn).SignBlock(context.Background(), &proto.CosignerGRPCSignBlockRequest{
		ChainID: vxChain, Block: &proto.Block{Height: h, Round: r, Step: int32(s), SignBytes: sb}})
	if err != nil {
		return false, !strings.Contains(err.Error(), "Unavailable")
	}
	return len(res.Signature) > 0, true
}
