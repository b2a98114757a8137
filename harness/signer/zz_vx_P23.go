package signer

//vx:use cluster msgs

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"os"

	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxAnyKey is a cosigner key with n RSA public keys, any number and any share.
func vxAnyKey(n int) CosignerKey {
	k := CosignerKey{PubKey: tmCryptoEd25519.GenPrivKey().PubKey(), ShareKey: vx.Bytes("share", 32), ID: vx.Int("id")}
	vx.Assume(k.ID > 0 && k.ID < 256)
	for i := 0; i < n; i++ {
		r, err := rsa.GenerateKey(rand.Reader, 1024)
		vx.Assert(err == nil, "rsa key")
		if i == n-1 {
			k.RSAKey = *r
		}
		k.CosignerKeys = append(k.CosignerKeys, &r.PublicKey)
	}
	return k
}

func vxSameKey(a, b CosignerKey) {
	vx.Assert(a.PubKey != nil && bytes.Equal(a.PubKey.Bytes(), b.PubKey.Bytes()) && a.PubKey.Type() == b.PubKey.Type(), "same public key")
	vx.Assert(bytes.Equal(a.ShareKey, b.ShareKey), "same share")
	vx.Assert(a.ID == b.ID, "same number")
	vx.Assert(a.RSAKey.N != nil && a.RSAKey.Equal(&b.RSAKey), "same RSA key")
	vx.Assert(len(a.CosignerKeys) == len(b.CosignerKeys), "as many RSA public keys")
	for i := range a.CosignerKeys {
		vx.Assert(a.CosignerKeys[i] != nil && a.CosignerKeys[i].Equal(b.CosignerKeys[i]), "same RSA public keys in the same order")
	}
}

// Writing then loading, also over an existing longer file, and twice through.
//
//vx:opts budget=60 traces=3
func VxP23_RoundTrip() {
	max := 3
	if vx.Thorough() {
		max = 7
	}
	k := vxAnyKey(vx.Range("n", 1, max))
	if n := len(k.CosignerKeys); n > 1 && vx.Bool("one key twice") {
		k.CosignerKeys[n-2] = k.CosignerKeys[n-1]
	}
	f := vx.TempDir() + "/share.json"
	if vx.Choose("existing", 2) == 1 {
		vx.Assert(WriteCosignerShareFile(vxAnyKey(4), f) == nil, "a key is written")
	}
	vx.Assert(WriteCosignerShareFile(k, f) == nil, "a key is written")
	got, err := LoadCosignerKey(f)
	vx.Assert(err == nil, "a written key loads")
	vxSameKey(got, k)
	vx.Assert(WriteCosignerShareFile(got, f) == nil, "a loaded key is written")
	got, err = LoadCosignerKey(f)
	vx.Assert(err == nil, "a rewritten key loads")
	vxSameKey(got, k)
	vx.Reach("same")
}

type vxKeyDoc struct {
	RSAKey []byte   `json:"rsa_key,omitempty"`
	PubKey []byte   `json:"pub_key,omitempty"`
	Pubs   [][]byte `json:"rsa_pubs,omitempty"`
	Share  []byte   `json:"secret_share,omitempty"`
	ID     int      `json:"id,omitempty"`
}

// vxBroken is b with its beginning destroyed, its end cut off, or nothing at all.
func vxBroken(b []byte) []byte {
	o := append([]byte{}, b...)
	switch vx.Choose("how", 4) {
	case 0:
		return nil
	case 1:
		return o[:len(o)-1]
	case 2:
		x := vx.Uint8("flip")
		vx.Assume(x != 0)
		o[0] ^= x
	case 3:
		return o[:1]
	}
	return o
}

// A key file in which any one of the keys is missing or corrupted.
//
//vx:opts budget=60 traces=6 tries=8
func VxP23_Corrupted() {
	n := vx.Range("n", 1, 2)
	k := vxAnyKey(n)
	f := vx.TempDir() + "/share.json"
	vx.Assert(WriteCosignerShareFile(k, f) == nil, "a key is written")
	b, err := os.ReadFile(f)
	vx.Assert(err == nil, "read")
	var d vxKeyDoc
	vx.Assert(json.Unmarshal(b, &d) == nil && len(d.Pubs) == n && len(d.Share) == 32, "the file has the documented fields")
	what := vx.Choose("what", 5)
	switch what {
	case 0:
		d.RSAKey = vxBroken(d.RSAKey)
	case 1:
		// the first byte tells key types apart; a key of another type is still a key
		p := vxBroken(d.PubKey)
		vx.Assume(len(p) != len(d.PubKey))
		d.PubKey = p
	case 2:
		i := vx.Choose("pub", n)
		d.Pubs[i] = vxBroken(d.Pubs[i])
	case 3:
		p := vxBroken(d.Share)
		vx.Assume(len(p) != len(d.Share))
		d.Share = p
	case 4:
		d.Pubs = nil
	}
	b, err = json.Marshal(&d)
	vx.Assert(err == nil && os.WriteFile(f, b, 0600) == nil, "written")
	_, err = LoadCosignerKey(f)
	switch what {
	case 0:
		vx.Assert(err != nil, "a file with a broken RSA key is refused")
	case 1:
		vx.Assert(err != nil, "a file with a broken public key is refused")
	case 2:
		vx.Assert(err != nil, "a file with a broken RSA public key is refused")
	case 3:
		vx.Assert(err != nil, "a file without a whole share is refused")
	case 4:
		vx.Assert(err != nil, "a file without RSA public keys is refused")
	}
	vx.Reach("refused")
}

// Public keys in the format used before the protobuf migration load as the same key.
//
//vx:opts budget=60 traces=2
func VxP23_LegacyPubKey() {
	k := vxAnyKey(1)
	f := vx.TempDir() + "/share.json"
	vx.Assert(WriteCosignerShareFile(k, f) == nil, "a key is written")
	b, err := os.ReadFile(f)
	vx.Assert(err == nil, "read")
	var d vxKeyDoc
	vx.Assert(json.Unmarshal(b, &d) == nil, "the file has the documented fields")
	d.PubKey = append([]byte{0x16, 0x24, 0xde, 0x64, 0x20}, k.PubKey.Bytes()...)
	b, err = json.Marshal(&d)
	vx.Assert(err == nil && os.WriteFile(f, b, 0600) == nil, "written")
	got, err := LoadCosignerKey(f)
	vx.Assert(err == nil, "a key file with an amino encoded public key loads")
	vxSameKey(got, k)
}

// Missing and unreadable files.
//
//vx:opts budget=30 traces=2
func VxP23_NoFile() {
	f := vx.TempDir() + "/share.json"
	junk := []string{"", "{}", "null", "[]", "\"x\"", "{", "{\"id\":1}", "7"}
	if i := vx.Choose("there", 1+len(junk)); i > 0 {
		vx.Assert(os.WriteFile(f, []byte(junk[i-1]), 0600) == nil, "written")
	}
	_, err := LoadCosignerKey(f)
	vx.Assert(err != nil, "a file that is no key file is refused")
	vx.Reach("refused")
}
