package signer

import (
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"sync"
	"time"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

const vxChain = "chain-1"

// vxCluster is a t-of-n set of real cosigners with real key shares and state files.
type vxCluster struct {
	t, n      int
	pub       tmCryptoEd25519.PubKey
	rsa       []*rsa.PrivateKey
	shares    []tsed25519.Scalar
	files     []string
	states    []*SignState
	cosigners []*LocalCosigner
}

func vxNewCluster(t, n int) *vxCluster {
	c := &vxCluster{t: t, n: n}
	priv := tmCryptoEd25519.GenPrivKey()
	c.pub = priv.PubKey().(tmCryptoEd25519.PubKey)
	c.shares = tsed25519.DealShares(tsed25519.ExpandSecret(priv[:32]), uint8(t), uint8(n))
	dir := vx.TempDir()
	for i := 0; i < n; i++ {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		vx.Assert(err == nil, "rsa key")
		c.rsa = append(c.rsa, k)
		c.files = append(c.files, fmt.Sprintf("%s/share%d.json", dir, i+1))
	}
	for i := 0; i < n; i++ {
		st, err := LoadOrCreateSignState(c.files[i])
		vx.Assert(err == nil, "sign state")
		p := new(SignState)
		*p = st
		c.states = append(c.states, p)
		c.cosigners = append(c.cosigners, c.mkCosigner(i, p))
	}
	return c
}

func (c *vxCluster) peers() []CosignerPeer {
	var o []CosignerPeer
	for i := range c.rsa {
		o = append(o, CosignerPeer{ID: i + 1, PublicKey: c.rsa[i].PublicKey})
	}
	return o
}

func (c *vxCluster) key(i int) CosignerKey {
	var pubs []*rsa.PublicKey
	for j := range c.rsa {
		pubs = append(pubs, &c.rsa[j].PublicKey)
	}
	return CosignerKey{PubKey: c.pub, ShareKey: c.shares[i], ID: i + 1, RSAKey: *c.rsa[i], CosignerKeys: pubs}
}

func (c *vxCluster) mkCosigner(i int, st *SignState) *LocalCosigner {
	return NewLocalCosigner(LocalCosignerConfig{
		CosignerKey: c.key(i),
		SignState:   st,
		RsaKey:      *c.rsa[i],
		Peers:       c.peers(),
		Total:       uint8(c.n),
		Threshold:   uint8(c.t),
		Address:     fmt.Sprintf("tcp://127.0.0.1:%d", 10000+i),
	})
}

// restart replaces cosigner i by one started from its state file.
func (c *vxCluster) restart(i int) {
	st, err := LoadSignState(c.files[i])
	vx.Assert(err == nil, "the state file is readable after a restart")
	p := new(SignState)
	*p = st
	c.states[i] = p
	c.cosigners[i] = c.mkCosigner(i, p)
}

// parts collects from cosigners `from` the nonce parts addressed to cosigner `to` (0-based).
func (c *vxCluster) parts(k HRSTKey, from []int, to int) []CosignerEphemeralSecretPart {
	var o []CosignerEphemeralSecretPart
	for _, i := range from {
		if i == to {
			continue
		}
		res, err := c.cosigners[i].GetEphemeralSecretParts(k)
		vx.Assert(err == nil, "nonce parts are dealt")
		for _, p := range res.EncryptedSecrets {
			if p.DestinationID == to+1 {
				o = append(o, p)
			}
		}
	}
	return o
}

// sign asks cosigner `to` to sign, with parts from the cosigners in `group`.
func (c *vxCluster) sign(k HRSTKey, sb []byte, group []int, to int) (*CosignerSignResponse, error) {
	_, err := c.cosigners[to].GetEphemeralSecretParts(k)
	vx.Assert(err == nil, "own nonce is dealt")
	return c.cosigners[to].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: c.parts(k, group, to),
		HRST:             k,
		SignBytes:        sb,
	})
}

// vxDown is a cosigner that cannot be reached.
type vxDown struct{ id int }

func (d *vxDown) GetID() int         { return d.id }
func (d *vxDown) GetAddress() string { return fmt.Sprintf("tcp://127.0.0.1:%d", 10000+d.id-1) }
func (d *vxDown) GetEphemeralSecretParts(HRSTKey) (*CosignerEphemeralSecretPartsResponse, error) {
	return nil, fmt.Errorf("unreachable")
}
func (d *vxDown) SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest) (*CosignerSignResponse, error) {
	return nil, fmt.Errorf("unreachable")
}

func vxNano(s, n int64) time.Time { return time.Unix(s, n).UTC() }

// vxOwnNonce is the public part of cosigner i's own secret for a position, as it tells its peers.
func (c *vxCluster) vxOwnNonce(k HRSTKey, i int) string {
	res, err := c.cosigners[i].GetEphemeralSecretParts(k)
	vx.Assert(err == nil && len(res.EncryptedSecrets) > 0, "nonce parts are dealt")
	return string(res.EncryptedSecrets[0].SourceEphemeralSecretPublicKey)
}

// run lets the cosigners in group exchange nonce parts and sign; it returns the shares and nonces.
func (c *vxCluster) run(k HRSTKey, sb []byte, group []int) (shares [][]byte, eph [][]byte, err error) {
	for _, to := range group {
		res, e := c.sign(k, sb, group, to)
		if e != nil {
			return nil, nil, e
		}
		shares = append(shares, res.Signature)
		eph = append(eph, res.EphemeralPublic)
	}
	return shares, eph, nil
}

func (c *vxCluster) combine(group []int, shares [][]byte, eph []byte) []byte {
	var ids []int
	for _, g := range group {
		ids = append(ids, g+1)
	}
	return append(append([]byte{}, eph...), tsed25519.CombineShares(uint8(c.n), ids, shares)...)
}

// vxSubsets lists the subsets of {0..n-1} of size t.
func vxSubsets(t, n int) [][]int {
	var o [][]int
	for m := 0; m < 1<<uint(n); m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m&(1<<uint(i)) != 0 {
				s = append(s, i)
			}
		}
		if len(s) == t {
			o = append(o, s)
		}
	}
	return o
}

func vxAddNonces(a, b string) string {
	return string(tsed25519.AddElements([]tsed25519.Element{tsed25519.Element(a), tsed25519.Element(b)}))
}

// vxDeliver hands parts to cosigner `to` with a request that it cannot sign.
func (c *vxCluster) vxDeliver(k HRSTKey, to int, ps []CosignerEphemeralSecretPart) {
	_, err := c.cosigners[to].SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: ps, HRST: k, SignBytes: []byte{1}})
	vx.Assert(err != nil, "nothing to sign")
}

// vxShape picks a threshold and a number of cosigners.
func vxShape() (int, int) {
	s := [][2]int{{2, 3}, {1, 2}, {2, 2}, {3, 4}, {3, 5}}
	n := 4
	if vx.Thorough() {
		n = 5
	}
	x := s[vx.Choose("shape", n)]
	return x[0], x[1]
}

func vxAnyHrst(n string) HRSTKey {
	return HRSTKey{Height: vx.Int64(n + "_h"), Round: vx.Int64(n + "_r"), Step: vx.Int8(n + "_s"), Timestamp: vx.Int64(n + "_t")}
}

func vxDo(fs ...func()) {
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for _, f := range fs {
		f := f
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func vxFixed(b byte) []byte {
	o := make([]byte, 32)
	for i := range o {
		o[i] = b
	}
	return o
}
