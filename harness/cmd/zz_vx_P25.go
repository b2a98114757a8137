package cmd

//vx:use cfg

import (
	"net/url"
	"os"
	"strconv"

	"github.com/spf13/cobra"
	"gopkg.in/yaml.v2"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxEdit is a configuration in memory and on disk, before an edit.
type vxEdit struct {
	old  Config
	file string
	text string
}

func vxCopy(c *Config) Config {
	o := *c
	cs := *c.CosignerConfig
	cs.Peers = append([]CosignerPeer{}, cs.Peers...)
	o.CosignerConfig = &cs
	o.ChainNodes = append([]ChainNode{}, o.ChainNodes...)
	return o
}

// vxEditing puts a configuration in place.
func vxEditing(nodes []ChainNode, peers []CosignerPeer, shares int) *vxEdit {
	homeDir = vx.TempDir()
	config = &Config{HomeDir: homeDir, PrivValKeyFile: "key.json", ChainID: "chain-1", ChainNodes: nodes,
		CosignerConfig: &CosignerConfig{Threshold: 2, Shares: shares, P2PListen: "tcp://10.0.0.1:2222", Timeout: "1500ms", Peers: peers}}
	e := &vxEdit{old: vxCopy(config), file: homeDir + "/config.yaml"}
	e.text = string(config.MustMarshalYaml())
	vx.Assert(os.WriteFile(e.file, []byte(e.text), 0600) == nil, "written")
	vx.Assert(os.Mkdir(homeDir+"/state", 0700) == nil, "state directory")
	return e
}

// finish runs the edit and checks what it did against want, the only configuration it may end in; ok says
// whether that is a configuration the edit may lead to, must whether the edit has to be carried out.
func (e *vxEdit) finish(c *cobra.Command, arg string, want *Config, ok, must bool) {
	err := c.RunE(c, []string{arg})
	b, rerr := os.ReadFile(e.file)
	vx.Assert(rerr == nil, "the configuration file is there")
	if err != nil {
		vx.Reach("rejected")
		vx.Assert(!must, "a proper edit is carried out")
		vx.Assert(vxSameConfig(config, &e.old), "a rejected edit leaves the configuration")
		vx.Assert(string(b) == e.text, "a rejected edit leaves the file")
		return
	}
	vx.Reach("done")
	vx.Assert(ok, "an improper edit is rejected")
	vx.Assert(vxSameConfig(config, want), "the edit does what was asked and nothing else")
	var got Config
	vx.Assert(yaml.Unmarshal(b, &got) == nil && vxSameConfig(&got, config), "the file holds the configuration in memory")
}

// vxName is one of a few node addresses, one of them not an address at all.
func vxName(nm string) string { return "tcp://" + vx.Str(nm, 1) + ":1" }

func vxNodes(nm string, n int) (o []ChainNode) {
	for i := 0; i < n; i++ {
		o = append(o, ChainNode{vxName(nm)})
	}
	return
}

func vxHasNode(l []ChainNode, n ChainNode) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func vxParses(l []ChainNode) bool {
	for _, x := range l {
		if _, err := url.Parse(x.PrivValAddr); err != nil {
			return false
		}
	}
	return true
}

func vxJoin(l []ChainNode) (s string) {
	for i, x := range l {
		if i > 0 {
			s += ","
		}
		s += x.PrivValAddr
	}
	return
}

func vxLetters(l []ChainNode, extra byte) {
	for _, n := range l {
		b := n.PrivValAddr[6]
		vx.Assume(b >= 'a' && b <= 'd' || b == extra)
	}
}

// Adding and removing nodes, for all equalities between the nodes there and the nodes named.
//
//vx:opts budget=100 t.budget=300 traces=4
func VxP25_Nodes() {
	max := 2
	if vx.Thorough() {
		max = 3
	}
	old := vxNodes("old", vx.Range("nold", 1, max))
	arg := vxNodes("arg", vx.Range("narg", 1, max))
	vxLetters(old, 'a')
	vxLetters(arg, '[')
	for i := range old {
		vx.Assume(!vxHasNode(old[:i], old[i]))
	}
	e := vxEditing(append([]ChainNode{}, old...), []CosignerPeer{{2, "tcp://p2:1"}}, 3)
	want := vxCopy(&e.old)
	proper := vxParses(arg)
	if vx.Choose("op", 2) == 0 {
		for i, a := range arg {
			vx.Assume(!vxHasNode(arg[:i], a))
			if !vxHasNode(old, a) {
				want.ChainNodes = append(want.ChainNodes, a)
			}
		}
		ok := proper && len(want.ChainNodes) > len(old)
		e.finish(addNodesCmd(), vxJoin(arg), &want, ok, ok)
		return
	}
	want.ChainNodes = nil
	for _, o := range old {
		if !vxHasNode(arg, o) {
			want.ChainNodes = append(want.ChainNodes, o)
		}
	}
	ok := len(want.ChainNodes) > 0
	e.finish(removeNodesCmd(), vxJoin(arg), &want, ok, ok && proper)
}

// Addresses of which one is the beginning of another, in either place.
//
//vx:opts budget=60 traces=3
func VxP25_Similar() {
	pool := []string{"tcp://n:1", "tcp://n:12", "tcp://n:123", "tcp://nn:1", "tcp://N:1", "n:1"}
	var old []ChainNode
	for _, a := range pool {
		old = append(old, ChainNode{a})
	}
	i := vx.Choose("which", len(pool))
	e := vxEditing(append([]ChainNode{}, old...), []CosignerPeer{{2, "tcp://p2:1"}}, 3)
	want := vxCopy(&e.old)
	if vx.Choose("op", 2) == 0 {
		// all but one are there, and that one is added
		config.ChainNodes = append(append([]ChainNode{}, old[:i]...), old[i+1:]...)
		e.old = vxCopy(config)
		e.text = string(config.MustMarshalYaml())
		vx.Assert(os.WriteFile(e.file, []byte(e.text), 0600) == nil, "written")
		want.ChainNodes = append(append(append([]ChainNode{}, old[:i]...), old[i+1:]...), old[i])
		ok := vxParses(want.ChainNodes)
		e.finish(addNodesCmd(), pool[i], &want, ok, ok)
		return
	}
	want.ChainNodes = append(append([]ChainNode{}, old[:i]...), old[i+1:]...)
	ok := vxParses(want.ChainNodes)
	e.finish(removeNodesCmd(), pool[i], &want, ok, ok && vxParses(old[i:i+1]))
}

func vxPeerSet(l []CosignerPeer, shares int) bool {
	if len(l) >= shares {
		return false
	}
	for i, p := range l {
		if p.ShareID < 1 || p.ShareID > shares {
			return false
		}
		for _, q := range l[:i] {
			if q.ShareID == p.ShareID {
				return false
			}
		}
	}
	return true
}

// Adding peers: any numbers from 0 to 9, with same or other addresses.
//
//vx:opts budget=100 t.budget=300 traces=4
func VxP25_PeersAdd() {
	max := 2
	if vx.Thorough() {
		max = 3
	}
	shares := vx.Range("shares", 2, max+2)
	old := vxPeers("old", vx.Range("nold", 0, max), 1)
	// the peers there may not fit the shares when the file was written by hand
	arg := vxPeers("arg", vx.Range("narg", 1, max), 2)
	e := vxEditing([]ChainNode{{"tcp://n:1"}}, append([]CosignerPeer{}, old...), shares)
	want := vxCopy(&e.old)
	text := ""
	for i, a := range arg {
		if i > 0 {
			text += ","
		}
		text += a.P2PAddr + "|" + string([]byte{byte('0' + a.ShareID)})
		known := false
		for _, o := range old {
			if o == a {
				known = true
			}
		}
		for _, o := range arg[:i] {
			vx.Assume(o != a)
		}
		if !known {
			want.CosignerConfig.Peers = append(want.CosignerConfig.Peers, a)
		}
	}
	ok := len(want.CosignerConfig.Peers) > len(old) && vxPeerSet(want.CosignerConfig.Peers, shares)
	e.finish(addPeersCmd(), text, &want, ok, ok)
}

func vxPeers(nm string, n, addrs int) (o []CosignerPeer) {
	for i := 0; i < n; i++ {
		id := vx.Int(nm)
		vx.Assume(id >= 0 && id <= 9)
		o = append(o, CosignerPeer{id, []string{"tcp://p:1", "tcp://q:2"}[vx.Choose(nm+"addr", addrs)]})
	}
	return
}

// Removing peers by any numbers, named once or several times, known or not.
//
//vx:opts budget=100 t.budget=300 traces=4
func VxP25_PeersRemove() {
	max := 2
	if vx.Thorough() {
		max = 4
	}
	shares := max + 1
	old := vxPeers("old", vx.Range("nold", 0, max), 1)
	n := vx.Range("narg", 1, max)
	var ids []byte
	text := ""
	for i := 0; i < n; i++ {
		ids = append(ids, vx.Uint8("id"))
		vx.Assume(ids[i] >= '0' && ids[i] <= '9' || ids[i] == 'x')
		if i > 0 {
			text += ","
		}
		text += string(ids[i : i+1])
	}
	e := vxEditing([]ChainNode{{"tcp://n:1"}}, append([]CosignerPeer{}, old...), shares)
	want := vxCopy(&e.old)
	want.CosignerConfig.Peers = nil
	proper := true
	for _, c := range ids {
		if c == 'x' {
			proper = false
		}
	}
	for _, o := range old {
		keep := true
		for _, c := range ids {
			if o.ShareID == int(c)-'0' {
				keep = false
			}
		}
		if keep {
			want.CosignerConfig.Peers = append(want.CosignerConfig.Peers, o)
		}
	}
	ok := len(want.CosignerConfig.Peers) > 0 && vxPeerSet(want.CosignerConfig.Peers, shares)
	e.finish(removePeersCmd(), text, &want, ok && proper, ok && proper)
}

// Removing peers whose numbers are parts of each other, with several digits.
//
//vx:opts budget=60 traces=4
func VxP25_PeersDigits() {
	all := []int{1, 2, 11, 12, 21, 112}
	var old []CosignerPeer
	for _, id := range all {
		if vx.Choose("peer", 2) == 1 {
			old = append(old, CosignerPeer{id, "tcp://p:1"})
		}
	}
	a, b := all[vx.Choose("a", len(all))], all[vx.Choose("b", len(all))]
	e := vxEditing([]ChainNode{{"tcp://n:1"}}, append([]CosignerPeer{}, old...), 200)
	want := vxCopy(&e.old)
	want.CosignerConfig.Peers = nil
	for _, o := range old {
		if o.ShareID != a && o.ShareID != b {
			want.CosignerConfig.Peers = append(want.CosignerConfig.Peers, o)
		}
	}
	ok := len(want.CosignerConfig.Peers) > 0
	e.finish(removePeersCmd(), strconv.Itoa(a)+","+strconv.Itoa(b), &want, ok, ok)
}

// Any number of shares, also ones the peers do not fit in.
//
//vx:opts budget=60 traces=4
func VxP25_SetShares() {
	max := 2
	if vx.Thorough() {
		max = 4
	}
	old := vxPeers("old", vx.Range("nold", 0, max), 1)
	vx.Assume(vxPeerSet(old, 9))
	e := vxEditing([]ChainNode{{"tcp://n:1"}}, append([]CosignerPeer{}, old...), 9)
	text := []string{"", "-", "1"}[vx.Choose("prefix", 3)] + vx.Str("shares", 1)
	n, err := strconv.Atoi(text)
	want := vxCopy(&e.old)
	want.CosignerConfig.Shares = n
	ok := err == nil && vxPeerSet(old, n)
	e.finish(setSharesCmd(), text, &want, ok, ok)
}

// Renaming the chain carries both state files along, or does nothing at all: also when a file is missing, when
// there is no cosigner part, or when state of the other chain exists already.
//
//vx:opts budget=60 traces=6
func VxP25_ChainID() {
	e := vxEditing([]ChainNode{{"tcp://n:1"}}, []CosignerPeer{{2, "tcp://p2:1"}}, 3)
	single := vx.Choose("single", 2) == 1
	if single {
		config.CosignerConfig = nil
		e.old.CosignerConfig = nil
		e.text = string(config.MustMarshalYaml())
		vx.Assert(os.WriteFile(e.file, []byte(e.text), 0600) == nil, "written")
	}
	id := []string{"chain-1", "chain-2", "other-chain"}[vx.Choose("id", 3)]
	kinds := []string{"_priv_validator_state.json", "_share_sign_state.json"}
	var before, there [2]string
	missing := false
	for i, k := range kinds {
		if single && i == 1 {
			continue
		}
		if vx.Choose("missing", 2) == 1 {
			missing = true
		} else {
			before[i] = "old" + k
			vx.Assert(os.WriteFile(homeDir+"/state/chain-1"+k, []byte(before[i]), 0600) == nil, "state")
		}
		if vx.Choose("there", 2) == 1 {
			there[i] = "new" + k
			vx.Assert(os.WriteFile(homeDir+"/state/chain-2"+k, []byte(there[i]), 0600) == nil, "state of the other chain")
		}
	}
	want := e.old
	want.ChainID = id
	c := setChainIDCmd()
	err := c.RunE(c, []string{id})
	b, rerr := os.ReadFile(e.file)
	vx.Assert(rerr == nil, "the configuration file is there")
	read := func(id string, i int) string {
		b, _ := os.ReadFile(homeDir + "/state/" + id + kinds[i])
		return string(b)
	}
	if err != nil {
		vx.Reach("rejected")
		vx.Assert(missing || id == "chain-2" && (there[0] != "" || there[1] != ""), "a proper rename is carried out")
		vx.Assert(vxSameConfig(config, &e.old) && string(b) == e.text, "a rejected edit leaves the configuration and its file")
		for i := range kinds {
			vx.Assert(read("chain-1", i) == before[i], "a rejected rename leaves the state files")
			vx.Assert(read("chain-2", i) == there[i], "a rejected rename leaves the state files of other chains")
		}
		return
	}
	vx.Reach("done")
	var got Config
	vx.Assert(vxSameConfig(config, &want), "only the chain ID changes")
	vx.Assert(yaml.Unmarshal(b, &got) == nil && vxSameConfig(&got, config), "the file holds the configuration in memory")
	for i := range kinds {
		if before[i] != "" {
			vx.Assert(read(id, i) == before[i], "the state follows the chain ID")
		}
		if id == "chain-2" {
			vx.Assert(there[i] == "", "no state of another chain is lost")
		} else {
			vx.Assert(read("chain-2", i) == there[i], "no state of another chain is lost")
		}
	}
}
