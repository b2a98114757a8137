package signer

//vx:use cluster msgs

import (
	"bytes"
	"fmt"

	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/privval"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxShard asks for a sharing of a fresh key.
func vxShard(t, n int64) (tmCryptoEd25519.PubKey, []CosignerKey, error) {
	priv := tmCryptoEd25519.GenPrivKey()
	keys, err := CreateCosignerShares(privval.FilePVKey{Address: priv.PubKey().Address(), PubKey: priv.PubKey(), PrivKey: priv}, t, n)
	return priv.PubKey().(tmCryptoEd25519.PubKey), keys, err
}

// vxWired makes cosigners of the keys, wired from what the keys hold only.
func vxWired(pub tmCryptoEd25519.PubKey, keys []CosignerKey, t int) *vxCluster {
	c := &vxCluster{t: t, n: len(keys), pub: pub}
	dir := vx.TempDir()
	for i, k := range keys {
		st, err := LoadOrCreateSignState(fmt.Sprintf("%s/s%d.json", dir, i))
		vx.Assert(err == nil, "sign state")
		p := new(SignState)
		*p = st
		var peers []CosignerPeer
		for j, pk := range k.CosignerKeys {
			peers = append(peers, CosignerPeer{ID: j + 1, PublicKey: *pk})
		}
		c.states = append(c.states, p)
		c.cosigners = append(c.cosigners, NewLocalCosigner(LocalCosignerConfig{CosignerKey: k, SignState: p, RsaKey: k.RSAKey,
			Peers: peers, Total: uint8(len(keys)), Threshold: uint8(t), Address: fmt.Sprintf("tcp://127.0.0.1:%d", 10000+i)}))
	}
	return c
}

// Every threshold and share count a user can ask for (64-bit, negative ones included).
//
//vx:opts budget=90 t.budget=200 traces=2 tries=3
func VxP22_AnyRequest() {
	t, n := vx.Int64("t"), vx.Int64("n")
	max := int64(3)
	if vx.Thorough() {
		max = 6
	}
	vx.Assume(n <= max || n > 255)
	pub, keys, err := vxShard(t, n)
	vx.Obs("ok", err == nil)
	if t < 1 || n < t || n > 255 {
		vx.Assert(err != nil, "a sharing that does not exist is refused")
		vx.Assert(len(keys) == 0, "no keys come with an error")
		vx.Reach("refused")
		return
	}
	vx.Assert(err == nil, "a possible sharing is made")
	if err != nil {
		return
	}
	vx.Reach("made")
	vx.Assert(int64(len(keys)) == n, "as many keys as asked for")
	vxProperKeys(pub, keys, t)
}

// vxProperKeys checks what does not take a signature to see.
func vxProperKeys(pub tmCryptoEd25519.PubKey, keys []CosignerKey, t int64) {
	for i, k := range keys {
		vx.Assert(k.ID == i+1, "numbered from 1")
		vx.Assert(k.PubKey != nil && bytes.Equal(k.PubKey.Bytes(), pub.Bytes()), "the common public key")
		vx.Assert(k.RSAKey.N != nil && len(k.CosignerKeys) == len(keys), "own and all RSA keys")
		for j := range keys {
			vx.Assert(k.CosignerKeys[j].Equal(&keys[j].RSAKey.PublicKey), "RSA public keys in order of number")
			vx.Assert(j == i || !keys[j].RSAKey.PublicKey.Equal(&k.RSAKey.PublicKey), "no two cosigners have the same RSA key")
			vx.Assert(t == 1 || j == i || !bytes.Equal(keys[j].ShareKey, k.ShareKey), "no two cosigners hold the same share")
		}
	}
}

// Large sharings, up to the largest one.
//
//vx:opts budget=100 traces=0 replay=engine
func VxP22_Large() {
	n := []int64{9, 33, 128, 255}[vx.Choose("n", 4)]
	t := []int64{1, 2, 8, n - 1, n}[vx.Choose("t", 5)]
	pub, keys, err := vxShard(t, n)
	vx.Assert(err == nil, "a possible sharing is made")
	vx.Assert(int64(len(keys)) == n, "as many keys as asked for")
	for i, k := range keys {
		vx.Assert(k.ID == i+1, "numbered from 1")
		vx.Assert(k.PubKey != nil && bytes.Equal(k.PubKey.Bytes(), pub.Bytes()), "the common public key")
		vx.Assert(len(k.CosignerKeys) == len(keys), "own and all RSA keys")
		j := (i + 1) % len(keys)
		vx.Assert(k.CosignerKeys[i].Equal(&k.RSAKey.PublicKey) && k.CosignerKeys[j].Equal(&keys[j].RSAKey.PublicKey), "RSA public keys in order of number")
		vx.Assert(!bytes.Equal(k.ShareKey, keys[j].ShareKey) || t == 1, "no two cosigners hold the same share")
	}
	// shares of the right threshold: the first t of them determine the key, one fewer does not
	pubOf := func(m int64) []byte {
		var ids []int
		var sh [][]byte
		for i := int64(0); i < m; i++ {
			ids, sh = append(ids, int(i)+1), append(sh, keys[i].ShareKey)
		}
		return tsed25519.ScalarMultiplyBase(tsed25519.CombineShares(uint8(n), ids, sh))
	}
	if n == 9 && t > 1 && t <= 8 {
		vx.Assert(bytes.Equal(pubOf(t), pub.Bytes()), "threshold-many shares determine the key")
		vx.Assert(!bytes.Equal(pubOf(t-1), pub.Bytes()), "fewer do not")
	}
	vx.Reach("made")
}

// Exactly threshold-many cosigners suffice to sign: any such subset does, no smaller one does.
//
//vx:opts budget=200 traces=1
func VxP22_Threshold() {
	max := 3
	if vx.Thorough() {
		max = 5
	}
	n := vx.Range("n", 2, max)
	t := vx.Range("t", 1, n)
	pub, keys, err := vxShard(int64(t), int64(n))
	vx.Assert(err == nil && len(keys) == n, "a possible sharing is made")
	m := vxMsg{step: 3, stamp: vxStamp("ts"), bid: vxBlockID("b"), height: 5}
	sb := m.signBytes(vxChain)
	sub := vxSubsets(t, n)
	g := sub[vx.Choose("group", len(sub))]
	c := vxWired(pub, keys, t)
	shares, eph, err := c.run(m.hrst(), sb, g)
	vx.Assert(err == nil, "cosigners with the keys sign")
	if err != nil {
		return
	}
	vx.Assert(pub.VerifySignature(sb, c.combine(g, shares, eph[0])), "any threshold-many cosigners make a valid signature")
	vx.Reach("signed")
	if t > 1 {
		w := vxWired(pub, keys, 1)
		shares, eph, err = w.run(m.hrst(), sb, g[1:])
		vx.Assert(err == nil, "cosigners with the keys sign")
		vx.Assert(!pub.VerifySignature(sb, w.combine(g[1:], shares, eph[0])), "fewer than the threshold make none")
	}
}

// VxhSharing checks that the keys are a t-of-n sharing of the key of pub.
func VxhSharing(pub tmCryptoEd25519.PubKey, keys []CosignerKey, t int) {
	vxProperKeys(pub, keys, int64(t))
	if len(keys) == 1 {
		return
	}
	m := vxMsg{step: 3, stamp: vxNano(1<<30, 1<<27), height: 5}
	sb := m.signBytes(vxChain)
	g := make([]int, t)
	for i := range g {
		g[i] = len(keys) - t + i
	}
	c := vxWired(pub, keys, t)
	shares, eph, err := c.run(m.hrst(), sb, g)
	vx.Assert(err == nil, "cosigners with the keys sign")
	if err == nil {
		vx.Assert(pub.VerifySignature(sb, c.combine(g, shares, eph[0])), "any threshold-many cosigners make a valid signature")
	}
}

// The keys are in order whatever the schedule, should they be made concurrently.
//
//vx:opts allsched race replay=engine budget=30 traces=1
func VxP22_Schedules() {
	n := vx.Range("n", 2, 3)
	pub, keys, err := vxShard(2, int64(n))
	vx.Assert(err == nil && len(keys) == n, "a possible sharing is made")
	vxProperKeys(pub, keys, 2)
	vx.Reach("made")
}
