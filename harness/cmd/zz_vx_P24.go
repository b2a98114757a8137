package cmd

import (
	"net/url"
	"os"
	"strings"
	"time"

	"gopkg.in/yaml.v2"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxFine says whether a cosigner configuration has all the qualities it must have.
func vxFine(c *Config) bool {
	cs := c.CosignerConfig
	ok := c.ChainID != "" && cs.Threshold <= len(cs.Peers)+1 && len(cs.Peers) < cs.Shares
	for i, p := range cs.Peers {
		ok = ok && p.ShareID >= 1 && p.ShareID <= cs.Shares
		for _, q := range cs.Peers[:i] {
			ok = ok && q.ShareID != p.ShareID
		}
	}
	if _, err := time.ParseDuration(cs.Timeout); err != nil {
		ok = false
	}
	for _, n := range c.ChainNodes {
		if _, err := url.Parse(n.PrivValAddr); err != nil {
			ok = false
		}
	}
	return ok
}

func vxConfig(peers ...CosignerPeer) *Config {
	return &Config{ChainID: "chain-1", HomeDir: "/nowhere", ChainNodes: []ChainNode{{"tcp://node-0:1234"}},
		CosignerConfig: &CosignerConfig{Threshold: 2, Shares: 3, P2PListen: "tcp://10.0.0.1:2222", Timeout: "1500ms", Peers: peers}}
}

func vxCheckConfig(c *Config) {
	fine := vxFine(c)
	err := validateCosignerConfig(c)
	if fine {
		vx.Reach("fine")
		vx.Assert(err == nil, "a configuration with all the qualities passes")
	} else {
		vx.Reach("not fine")
		vx.Assert(err != nil, "a configuration that passes has all the qualities")
	}
}

// Any numbers: threshold, number of shares, numbers of the peers.
//
//vx:opts budget=60 traces=4
func VxP24_Numbers() {
	max := 3
	if vx.Thorough() {
		max = 5
	}
	c := vxConfig()
	switch vx.Choose("chain", 3) {
	case 1:
		c.ChainID = ""
	case 2:
		c.ChainID = vx.Str("chain", 1) + strings.Repeat("-Chain 1.0_", vx.Choose("long", 2)*10)
	}
	c.CosignerConfig.Threshold, c.CosignerConfig.Shares = vx.Int("threshold"), vx.Int("shares")
	n := vx.Range("peers", 0, max)
	for i := 0; i < n; i++ {
		c.CosignerConfig.Peers = append(c.CosignerConfig.Peers, CosignerPeer{ShareID: vx.Int("id"), P2PAddr: "tcp://p:1"})
	}
	vxCheckConfig(c)
}

// Any short timeout text.
//
//vx:opts budget=60 traces=4
func VxP24_Timeout() {
	max := 4
	if vx.Thorough() {
		max = 6
	}
	c := vxConfig(CosignerPeer{2, "tcp://p:1"})
	c.CosignerConfig.Timeout = vx.Str("timeout", vx.Range("len", 0, max))
	vxCheckConfig(c)
}

// Any short node addresses, and longer ones of many kinds, in any place of the list.
//
//vx:opts budget=100 t.budget=300 traces=4
func VxP24_ChainNodes() {
	c := vxConfig(CosignerPeer{2, "tcp://p:1"})
	c.ChainNodes = nil
	n := vx.Range("nodes", 0, 3)
	sym := -1
	if n > 0 {
		sym = vx.Choose("sym", n)
	}
	kinds := []string{"tcp://node:1234", "://10.0.0.1:1234"}
	max := 1
	if vx.Thorough() {
		kinds = append(kinds, "node:1234", "tcp://a%zz", "tcp://[::1", "")
		max = 2
	}
	for i := 0; i < n; i++ {
		a := ""
		if i == sym {
			a = []string{"", "tcp://", "tcp://n:"}[vx.Choose("prefix", 3)] + vx.Str("addr", vx.Range("len", 0, max))
		} else {
			a = kinds[vx.Choose("kind", len(kinds))]
		}
		c.ChainNodes = append(c.ChainNodes, ChainNode{a})
	}
	vxCheckConfig(c)
}

// What init accepts as a cosigner configuration is what it was given, and has all the qualities.
//
//vx:opts budget=100 traces=4
func VxP24_Init() {
	homeDir = vx.TempDir() + "/h"
	ids, plen := "", 0
	if plen = vx.Choose("peers", 4); plen > 0 {
		ids = "tcp://p2:2|" + vx.Str("id", vx.Range("idlen", 0, 1))
		for i := 1; i < plen; i++ {
			ids += ",tcp://p3:3|" + vx.Str("id", 1)
		}
	}
	nodes := []string{"tcp://n:1", "tcp://n:1,tcp://m:2", "://n:1,tcp://m:2", "tcp://n:1,://m:2", ""}[vx.Choose("nodes", 5)]
	timeout := []string{"1500ms", "15x"}[vx.Choose("timeout", 2)]
	threshold := vx.Str("threshold", 1)
	c := initCmd()
	f := c.Flags()
	for _, kv := range [][2]string{{"cosigner", "true"}, {"peers", ids}, {"timeout", timeout}, {"listen", "tcp://10.0.0.1:2222"}} {
		vx.Assert(f.Set(kv[0], kv[1]) == nil, "flag")
	}
	if f.Set("threshold", threshold) != nil {
		return
	}
	if err := c.RunE(c, []string{[]string{"", "chain-1"}[vx.Choose("chain", 2)], nodes}); err != nil {
		vx.Reach("refused")
		return
	}
	vx.Reach("accepted")
	b, err := os.ReadFile(homeDir + "/config.yaml")
	vx.Assert(err == nil, "a configuration is written")
	var cfg Config
	vx.Assert(yaml.Unmarshal(b, &cfg) == nil && cfg.CosignerConfig != nil, "the configuration can be read")
	vx.Assert(vxFine(&cfg), "an accepted configuration has all the qualities")
	vx.Assert(cfg.ChainID == "chain-1" && cfg.HomeDir == homeDir && cfg.CosignerConfig.Timeout == timeout, "the configuration is the one given")
	vx.Assert(len(cfg.CosignerConfig.Peers) == plen && cfg.CosignerConfig.Threshold == int(threshold[0]-'0'), "the configuration is the one given")
	vx.Assert(cfg.CosignerConfig.Peers[0].ShareID == int(ids[11]-'0') && cfg.CosignerConfig.Peers[0].P2PAddr == "tcp://p2:2", "the peers are the ones given")
	vx.Assert(len(cfg.ChainNodes) == len(strings.Split(nodes, ",")) && cfg.ChainNodes[0].PrivValAddr == strings.Split(nodes, ",")[0], "the nodes are the ones given")
}
