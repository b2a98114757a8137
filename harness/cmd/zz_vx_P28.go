package cmd

//vx:use ask

import (
	"io"
	"os"
	"sync"

	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/privval"

	"github.com/strangelove-ventures/horcrux/signer"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxStart starts the single signer with the state in the home directory; it returns its connection to a chain
// node, or nil if it did not start.
func vxStart(i int) io.ReadWriter {
	addr, accept := signer.VxhNode(i)
	config = &Config{HomeDir: homeDir, ChainID: "My-Chain 1.x_", PrivValKeyFile: vxKeyFile, ChainNodes: []ChainNode{{addr}}}
	up := make(chan io.ReadWriter, 2)
	go func() { up <- accept() }()
	go func() {
		defer func() {
			_ = recover()
			up <- nil
		}()
		_ = StartSignerCmd().RunE(nil, nil)
	}()
	return <-up
}

// vxKeyFile is the key file named in the configuration, if any.
var vxKeyFile string

func vxKey() (tmCryptoEd25519.PubKey, *privval.FilePV) {
	homeDir = vx.TempDir()
	vx.Assert(os.Mkdir(homeDir+"/state", 0700) == nil, "directory")
	k := tmCryptoEd25519.GenPrivKey()
	kf := homeDir + "/priv_validator_key.json"
	vxKeyFile = ""
	if vx.Choose("key file", 2) == 1 {
		vxKeyFile = homeDir + "/own.json"
		kf = vxKeyFile
	}
	pv := privval.NewFilePV(k, kf, homeDir+"/state/My-Chain 1.x__priv_validator_state.json")
	pv.Key.Save()
	return k.PubKey().(tmCryptoEd25519.PubKey), pv
}

// Any recorded position in either file format, then any request.
//
//vx:opts budget=100 traces=3
func VxP28_Restart() {
	pub, pv := vxKey()
	f := homeDir + "/state/My-Chain 1.x__priv_validator_state.json"
	rec := vxPos{vx.Int64("h"), int64(vx.Int32("r")), int8(vx.Range("s", 1, 3))}
	vx.Assume(rec.h > 0 && rec.r >= 0)
	if vx.Choose("format", 2) == 0 {
		// as the signer itself writes it
		pv.LastSignState.Height, pv.LastSignState.Round, pv.LastSignState.Step = rec.h, int32(rec.r), rec.s
		pv.LastSignState.Save()
	} else {
		// as "config init" and the documentation have it
		st, err := signer.LoadOrCreateSignState(f)
		vx.Assert(err == nil, "state file")
		vx.Assert(st.Save(signer.NewSignStateConsensus(rec.h, rec.r, rec.s), &sync.Mutex{}) == nil, "saved")
	}
	req := vxPos{vx.Int64("req_h"), int64(vx.Int32("req_r")), int8(vx.Range("req_s", 1, 3))}
	vx.Assume(req.h > 0 && req.r >= 0)
	c := vxStart(1)
	vx.Assert(c != nil, "the signer starts with a state file")
	sig, sb := vxAsk(c, req, 1)
	if !rec.less(req) {
		vx.Reach("refused")
		vx.Assert(len(sig) == 0, "a restarted signer refuses what it would have refused before")
		return
	}
	vx.Reach("signed")
	vx.Assert(len(sig) > 0 && pub.VerifySignature(sb, sig), "a restarted signer signs what is new")
}

// Two runs of the signer with one request each: the second continues where the first one stopped.
//
//vx:opts budget=100 traces=3
func VxP28_TwoRuns() {
	pub, _ := vxKey()
	if vx.Choose("init", 2) == 1 {
		_, err := signer.LoadOrCreateSignState(homeDir + "/state/My-Chain 1.x__priv_validator_state.json")
		vx.Assert(err == nil, "state file")
	}
	a := vxPos{int64(vx.Uint8("h")) + 1, int64(vx.Uint8("r")), int8(vx.Range("s", 2, 3))}
	b := vxPos{int64(vx.Uint8("req_h")) + 1, int64(vx.Uint8("req_r")), int8(vx.Range("req_s", 2, 3))}
	c := vxStart(1)
	vx.Assert(c != nil, "the signer starts")
	sa, sba := vxAsk(c, a, 1)
	vx.Assert(len(sa) > 0 && pub.VerifySignature(sba, sa), "the first request is signed")
	c = vxStart(2)
	vx.Assert(c != nil, "the signer starts again")
	other := byte(vx.Range("block", 0, 2))
	sb, sbb := vxAsk(c, b, other)
	switch {
	case a.less(b):
		vx.Reach("next")
		vx.Assert(len(sb) > 0 && pub.VerifySignature(sbb, sb), "what is new is signed")
	case b.less(a) || other != 1:
		vx.Reach("refused")
		vx.Assert(len(sb) == 0, "a restarted signer refuses what it would have refused before")
	default:
		vx.Reach("same")
		vx.Assert(len(sb) == 0 || string(sb) == string(sa), "the same request gets the same signature")
	}
}

// A state file that cannot be understood is no reason to start from nothing.
//
//vx:opts budget=30 traces=2 replay=engine
func VxP28_Unreadable() {
	vxKey()
	junk := []string{"", "{", "[]", "x", `{"height":"9","round":"0","step":"2"`, `{"height":9,"round":"x"}`}[vx.Choose("junk", 6)]
	vx.Assert(os.WriteFile(homeDir+"/state/My-Chain 1.x__priv_validator_state.json", []byte(junk), 0600) == nil, "junk")
	c := vxStart(1)
	if c == nil {
		vx.Reach("not started")
		return
	}
	sig, _ := vxAsk(c, vxPos{1, 0, 2}, 1)
	vx.Assert(len(sig) == 0, "nothing is signed when the recorded position cannot be read")
}
