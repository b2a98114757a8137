package cmd

//vx:use ask

import (
	"io"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

// vxCosigner is the configuration of cosigner i and its home directory with a share and a recorded position.
type vxCosigner struct {
	cfg  *Config
	home string
	addr string
	node func() io.ReadWriteCloser
}

func vxMkCosigner(c *signer.VxhCluster, t, i int, addrs []string, peers []int) *vxCosigner {
	dir := vx.TempDir()
	vx.Assert(os.Mkdir(dir+"/state", 0700) == nil, "directory")
	c.WriteShare(i, dir+"/share.json")
	na, accept := signer.VxhNode(i + 1)
	k := &vxCosigner{home: dir, addr: addrs[i], node: accept}
	k.cfg = &Config{HomeDir: dir, ChainID: "My-Chain 1.x_", ChainNodes: []ChainNode{{na}}, CosignerConfig: &CosignerConfig{
		Threshold: t, Shares: len(addrs), P2PListen: addrs[i], Timeout: "1000ms"}}
	for _, p := range peers {
		k.cfg.CosignerConfig.Peers = append(k.cfg.CosignerConfig.Peers, CosignerPeer{ShareID: p + 1, P2PAddr: addrs[p]})
	}
	return k
}

func (k *vxCosigner) record(p vxPos) {
	st, err := signer.LoadOrCreateSignState(k.home + "/state/My-Chain 1.x__share_sign_state.json")
	vx.Assert(err == nil, "state file")
	if p.h != 0 {
		vx.Assert(st.Save(signer.NewSignStateConsensus(p.h, p.r, p.s), &sync.Mutex{}) == nil, "saved")
	}
}

// start runs the cosigner; it returns its connection to a chain node, or nil if it did not start.
func (k *vxCosigner) start() io.ReadWriter {
	config, homeDir = k.cfg, k.home
	up := make(chan io.ReadWriter, 2)
	go func() { up <- k.node() }()
	go func() {
		defer func() {
			_ = recover()
			up <- nil
		}()
		_ = StartCosignerCmd().RunE(nil, nil)
	}()
	return <-up
}

func vxAddrs(n int) (o []string) {
	for i := 0; i < n; i++ {
		o = append(o, signer.VxhAddr(i+1))
	}
	return o
}

// Any member of a sharing, any set of configured peers in any order, any recorded position, any request: the
// started cosigner signs with its own share exactly what is beyond the recorded position, together with each
// configured peer.
//
//vx:opts budget=120 traces=2
func VxP27_Serves() {
	c := signer.VxhNewCluster(2, 3)
	me := vx.Choose("me", 3)
	a, b := (me+1)%3, (me+2)%3
	peers := [][]int{{a, b}, {b, a}, {a}, {b}}[vx.Choose("peers", 4)]
	j := peers[0]
	if len(peers) == 2 {
		j = peers[vx.Choose("peer", 2)]
	}
	k := vxMkCosigner(c, 2, me, vxAddrs(3), peers)
	rec := vxPos{vx.Int64("h"), int64(vx.Int32("r")), int8(vx.Range("s", 1, 3))}
	vx.Assume(rec.h >= 0 && rec.r >= 0)
	k.record(rec)
	vx.Assert(k.start() != nil, "a cosigner with a share, a state file and peers starts")
	req := vxPos{vx.Int64("req_h"), int64(vx.Int32("req_r")), int8(vx.Range("req_s", 1, 3))}
	vx.Assume(req.h > 0 && req.r >= 0)
	rem := signer.NewRemoteCosigner(me+1, k.addr)
	_, sb := vxSignBytes(req, 1)
	ts := time.Unix(1<<30, 1<<27).UTC()
	sig, err := c.Sign(rem, me, j, signer.HRSTKey{Height: req.h, Round: req.r, Step: req.s, Timestamp: ts.UnixNano()}, sb)
	if rec.h != 0 && !rec.less(req) {
		vx.Reach("refused")
		vx.Assert(err != nil && len(sig) == 0, "a started cosigner refuses what is not beyond its recorded position")
		return
	}
	vx.Reach("signed")
	vx.Assert(err == nil && c.Verify(sb, sig), "a started cosigner signs what is new with its own share")
}

// Without a readable state of its share a cosigner does not start.
//
//vx:opts budget=30 traces=2
func VxP27_Unreadable() {
	c := signer.VxhNewCluster(2, 2)
	k := vxMkCosigner(c, 2, 0, vxAddrs(2), []int{1})
	f := k.home + "/state/My-Chain 1.x__share_sign_state.json"
	junk := []string{"missing", "dir", "", "{", "[]", "x", `{"height":"9","round":"0","step":"2"`, `{"height":9,"round":"0","step":2}`,
		`{"height":"9","round":"x","step":2}`}
	n := vx.Choose("junk", len(junk))
	switch n {
	case 0:
	case 1:
		vx.Assert(os.Mkdir(f, 0700) == nil, "directory")
	default:
		vx.Assert(os.WriteFile(f, []byte(junk[n]), 0600) == nil, "junk")
	}
	vx.Assert(k.start() == nil, "a cosigner does not start without the state of its share")
	vx.Reach("not started")
	_, err := signer.NewRemoteCosigner(1, k.addr).GetEphemeralSecretParts(signer.HRSTKey{Height: 1, Step: 2})
	vx.Assert(err != nil, "it serves nothing")
	if n == 0 {
		_, err := os.Stat(f)
		vx.Assert(os.IsNotExist(err), "the state of a share is not made up")
	}
}

// A peer whose number has no key is refused, as is a file that holds no complete share.
//
//vx:opts budget=30 traces=0 replay=engine
func VxP27_UnknownPeer() {
	c := signer.VxhNewCluster(2, 2)
	k := vxMkCosigner(c, 2, 0, append(vxAddrs(2), "tcp://127.0.0.1:1", "tcp://127.0.0.1:2"), []int{1})
	id := int(vx.Range("id", -1, 5))
	k.cfg.CosignerConfig.Peers = append(k.cfg.CosignerConfig.Peers, CosignerPeer{ShareID: id, P2PAddr: "tcp://127.0.0.1:1"})
	k.record(vxPos{})
	vx.Assume(id != 1 && id != 2)
	vx.Assert(k.start() == nil, "a cosigner does not start with a peer that has no key")
	vx.Reach("refused")
	_, err := signer.NewRemoteCosigner(1, k.addr).GetEphemeralSecretParts(signer.HRSTKey{Height: 1, Step: 2})
	vx.Assert(err != nil, "it serves nothing")
}

// Requests and raft entries that arrive as soon as they can.
//
//vx:opts budget=120 preempt=1 traces=0 replay=engine
func VxP27_Wired() {
	c := signer.VxhNewCluster(2, 2)
	addrs := vxAddrs(2)
	k := vxMkCosigner(c, 2, 0, addrs, []int{1})
	k.record(vxPos{})
	if vx.Choose("leader", 2) == 1 {
		signer.VxhLead(k.addr)
	}
	logged := vx.Choose("log", 2) == 1
	if logged {
		signer.VxhLogged(signer.NewSignStateConsensus(5, 0, 3))
	}
	early := vx.Choose("early", 2) == 1
	done := make(chan bool, 1)
	rem := signer.NewRemoteCosigner(1, k.addr)
	if early {
		go func() {
			for i := 0; i < 20; i++ {
				ok, served := signer.VxhSignBlock(k.addr, 9, 0, 2, []byte{1})
				if served {
					vx.Assert(!ok, "there is nobody to sign with")
					vx.Reach("answered")
					break
				}
			}
			done <- true
		}()
	}
	vx.Assert(k.start() != nil, "a cosigner starts")
	if early {
		<-done
	}
	vx.Quiesce()
	if logged {
		_, sb := vxSignBytes(vxPos{5, 0, 2}, 1)
		sig, _ := c.Sign(rem, 0, 1, signer.HRSTKey{Height: 5, Round: 0, Step: 2, Timestamp: 1}, sb)
		vx.Assert(len(sig) == 0, "an announced position is kept")
		vx.Reach("kept")
	}
	vx.Assert(signer.VxhMember(k.addr, 1) == k.addr[6:] && signer.VxhMember(k.addr, 2) == addrs[1][6:], "every cosigner is in the raft cluster under its own number and address")
}

// A whole started cluster: whichever member leads and whichever chain node asks, what is new is signed with the
// cluster's key, and nothing is signed twice.
//
//vx:opts budget=120 traces=1 t.budget=500
func VxP27_Cluster() {
	c := signer.VxhNewCluster(2, 3)
	addrs := vxAddrs(3)
	lows, nodes := 2, 2
	if vx.Thorough() {
		lows, nodes = 1, 3
	}
	lead := vx.Choose("lead", nodes)
	signer.VxhLead(addrs[lead])
	var conns []io.ReadWriter
	for i := 0; i < 3; i++ {
		k := vxMkCosigner(c, 2, i, addrs, []int{(i + 1) % 3, (i + 2) % 3})
		k.record(vxPos{})
		n := k.start()
		vx.Assert(n != nil, "cosigner "+strconv.Itoa(i+1)+" starts")
		conns = append(conns, n)
	}
	for i := 0; i < 3; i++ {
		_, err := signer.VxhParts(signer.NewRemoteCosigner(i+1, addrs[i]), signer.HRSTKey{Height: 1 << 40, Step: 2})
		vx.Assert(err == nil, "every cosigner serves")
	}
	a := vxPos{int64(vx.Uint8("h")) + 1, int64(vx.Uint8("r")), int8(vx.Range("s", lows, 3))}
	b := vxPos{int64(vx.Uint8("req_h")) + 1, int64(vx.Uint8("req_r")), int8(vx.Range("req_s", lows, 3))}
	var sa, sba []byte
	first := conns[0]
	if vx.Thorough() {
		first = conns[vx.Choose("first", 3)]
	}
	for i := 0; i < 20 && len(sa) == 0; i++ { // natively there may be no leader yet
		sa, sba = vxAsk(first, a, 1)
		if !vx.Native() {
			break
		}
	}
	vx.Assert(len(sa) > 0 && c.Verify(sba, sa), "the first request is signed")
	other := byte(vx.Range("block", 1, 2))
	sb, sbb := vxAsk(conns[vx.Choose("second", nodes)], b, other)
	switch {
	case a.less(b):
		vx.Reach("next")
		vx.Assert(len(sb) > 0 && c.Verify(sbb, sb), "what is new is signed")
	case b.less(a) || other != 1:
		vx.Reach("refused")
		vx.Assert(len(sb) == 0, "nothing is signed twice")
	default:
		vx.Reach("same")
		vx.Assert(len(sb) == 0 || c.Verify(sbb, sb), "the same request may be answered again")
	}
}
