package cmd

//vx:use ask cfg

import (
	"bytes"
	"os"
	"strings"
	"sync"

	"gopkg.in/yaml.v2"

	"github.com/strangelove-ventures/horcrux/signer"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

const vxPVState, vxShareState = "/state/My-Chain 1.x__priv_validator_state.json", "/state/My-Chain 1.x__share_sign_state.json"

// vxBefore puts what may be there before the initialisation into the home directory: nothing, or state files with
// any positions, and perhaps a configuration.
func vxBefore(conditions int, states bool) (cfg bool, pos map[string]vxPos) {
	homeDir = vx.TempDir() + "/h"
	pos = map[string]vxPos{}
	what := vx.Choose("before", conditions)
	if conditions == 2 {
		what *= 2
	}
	if what == 0 {
		return false, pos
	}
	vx.Assert(os.MkdirAll(homeDir+"/state", 0700) == nil, "directories")
	for i, f := range []string{vxPVState, vxShareState} {
		nm := []string{"pv", "share"}[i]
		if !states || vx.Bool(nm+" there") {
			st, err := signer.LoadOrCreateSignState(homeDir + f)
			vx.Assert(err == nil, "state file")
			p := vxPos{5, 1, 2}
			if states {
				p = vxPos{vx.Int64(nm + "_h"), int64(vx.Int32(nm + "_r")), vx.Int8(nm + "_s")}
			}
			vx.Assume(!p.less(vxPos{}))
			if (vxPos{}).less(p) {
				ssc := signer.NewSignStateConsensus(p.h, p.r, p.s)
				ssc.Signature, ssc.SignBytes = []byte("signature"), []byte("sign bytes")
				vx.Assert(st.Save(ssc, &sync.Mutex{}) == nil, "saved")
			}
			pos[f] = p
		}
	}
	if what >= 2 {
		old := "chain-id: old\n"
		if what == 3 {
			old = ""
		}
		vx.Assert(os.WriteFile(homeDir+"/config.yaml", []byte(old), 0600) == nil, "configuration")
		cfg = true
	}
	return cfg, pos
}

func vxRead(f string) []byte {
	b, err := os.ReadFile(homeDir + f)
	if err != nil {
		return nil
	}
	return append([]byte{1}, b...)
}

// Any arguments, proper or not, in a new home directory or one that is configured already.
//
//vx:opts budget=100 t.budget=400 traces=4
func VxP33_Arguments() { vxInit(2, vx.Thorough(), true) }

// A home directory in any condition, with positions of any height.
//
//vx:opts budget=100 t.budget=400 traces=4
func VxP33_Home() { vxInit(4, true, vx.Thorough()) }

func vxInit(conditions int, states, args bool) {
	pick := func(nm string, n int) int {
		if !args {
			return 0
		}
		return vx.Choose(nm, n)
	}
	had, pos := vxBefore(conditions, states)
	text := [][]byte{vxRead("/config.yaml"), vxRead(vxPVState), vxRead(vxShareState)}
	key := []string{"", "key.json"}[pick("key file", 2)]
	nodes := []string{"tcp://a:1", "tcp://a:1,tcp://" + vx.Str("node", 1) + ":1", "tcp://a:1,://m:2"}[pick("nodes", 3)]
	want := &Config{HomeDir: homeDir, ChainID: "My-Chain 1.x_", PrivValKeyFile: key}
	for _, n := range strings.Split(nodes, ",") {
		want.ChainNodes = append(want.ChainNodes, ChainNode{n})
	}
	c := initCmd()
	f := c.Flags()
	set := func(k, v string) { vx.Assert(f.Set(k, v) == nil, "flag") }
	overwrite := vx.Bool("overwrite")
	if overwrite {
		set("overwrite", "true")
	}
	if key != "" {
		set("keyfile", key)
	}
	cosigner := vx.Bool("cosigner")
	if cosigner {
		id, threshold := 2, 2
		if args {
			id, threshold = vx.Range("id", 0, 4), vx.Range("threshold", 1, 4)
		}
		cc := &CosignerConfig{Threshold: threshold, P2PListen: []string{"tcp://10.0.0.1:2222", "tcp://0.0.0.0:1", "tcp://h:1"}[pick("listen", 3)],
			Timeout: []string{"1500ms", "2s", "0"}[pick("timeout", 3)]}
		cc.Peers = []CosignerPeer{{id, "tcp://p:2"}}
		ids := "tcp://p:2|" + string(rune('0'+id))
		if pick("two peers", 2) == 1 {
			cc.Peers = append(cc.Peers, CosignerPeer{3, "tcp://q:3"})
			ids += ",tcp://q:3|3"
		}
		cc.Shares = len(cc.Peers) + 1
		want.CosignerConfig = cc
		set("cosigner", "true")
		set("peers", ids)
		set("threshold", string(rune('0'+cc.Threshold)))
		set("listen", cc.P2PListen)
		if cc.Timeout != "1500ms" {
			set("timeout", cc.Timeout)
		}
	}
	if err := c.RunE(c, []string{"My-Chain 1.x_", nodes}); err != nil {
		vx.Reach("refused")
		now := [][]byte{vxRead("/config.yaml"), vxRead(vxPVState), vxRead(vxShareState)}
		for i := range now {
			vx.Assert((now[i] == nil) == (text[i] == nil) && bytes.Equal(now[i], text[i]), "a refused initialisation leaves everything as it was")
		}
		return
	}
	vx.Reach("done")
	vx.Assert(!had || overwrite, "a configuration is replaced only when that was asked for")
	var got Config
	b, err := os.ReadFile(homeDir + "/config.yaml")
	vx.Assert(err == nil && yaml.Unmarshal(b, &got) == nil, "the configuration can be read")
	vx.Assert(vxSameConfig(&got, want), "the configuration is the one that was asked for")
	for i, f := range []string{vxPVState, vxShareState} {
		p, there := pos[f]
		if !there && i == 1 && !cosigner {
			continue
		}
		st, err := signer.LoadSignState(homeDir + f)
		vx.Assert(err == nil, "the sign states are there")
		vx.Assert(vxPos{st.Height, st.Round, st.Step} == p, "a sign state is as it was before, or at zero")
		vx.Assert(!there || bytes.Equal(vxRead(f), text[i+1]), "a sign state that was there is not touched")
		if !there {
			vx.Assert(len(st.Signature) == 0 && len(st.SignBytes) == 0 && len(st.EphemeralPublic) == 0, "a new sign state is empty")
		}
	}
}
