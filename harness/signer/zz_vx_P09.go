package signer

//vx:use msgs cluster

import (
	"time"

	vx "github.com/strangelove-ventures/horcrux/zzvx"
)

type vxUse struct {
	own, sb, eph string
	ok           bool
}

func vxCheckP09(us []vxUse) {
	for i := range us {
		for j := range us[:i] {
			if us[i].ok && us[j].ok && us[i].own == us[j].own {
				vx.Reach("nonce used twice")
				vx.Assert(us[i].sb == us[j].sb, "one nonce never signs two different messages")
				vx.Assert(us[i].eph == us[j].eph, "one nonce is never combined in two ways for a message")
			}
		}
	}
}

func (c *vxCluster) vxUseNonce(k HRSTKey, sb []byte, group []int, to int) vxUse {
	u := vxUse{sb: string(sb)}
	if p, err := UnpackHRST(sb); err == nil {
		u.own = c.vxOwnNonce(p, to)
	}
	res, err := c.sign(k, sb, group, to)
	if err == nil && len(res.Signature) > 0 {
		u.ok = true
		u.eph = string(res.EphemeralPublic)
	}
	return u
}

// Two messages of any kind and any timestamps, including instants that do not fit nanoseconds.
//
//vx:opts budget=120 traces=3
func VxP09_TwoMessages() {
	c := vxNewCluster(2, 2)
	mk := func(n string) vxMsg {
		return vxMsg{step: int8(vx.Range(n+"_step", 1, 3)), bid: vxBlockID(n + "_b"), pol: -1,
			height: int64(vx.Uint8(n+"_h")) + 1, round: int32(vx.Uint8(n + "_r"))}
	}
	a, b := mk("a"), mk("b")
	if vx.Choose("near", 2) == 0 {
		a.stamp, b.stamp = vxStamp("a_t"), vxStamp("b_t")
	} else {
		// instants 2^64 ns apart have one UnixNano
		a.stamp = time.Unix(1<<30, 5).UTC()
		b.stamp = time.Unix(1<<30+18446744073, 5+709551616).UTC()
	}
	g := []int{0, 1}
	var us []vxUse
	us = append(us, c.vxUseNonce(a.hrst(), a.signBytes(vxChain), g, 0))
	us = append(us, c.vxUseNonce(b.hrst(), b.signBytes(vxChain), g, 0))
	vx.Obs("ok", us[0].ok && us[1].ok)
	vxCheckP09(us)
}

// The same message in another encoding (an unknown field appended, or a field repeated) is another message.
//
//vx:opts budget=60 traces=2
func VxP09_OtherEncoding() {
	c := vxNewCluster(2, 2)
	a := vxMsg{step: int8(vx.Range("step", 1, 3)), bid: vxBlockID("b"), pol: -1, height: 9, round: 1, stamp: vxStamp("t")}
	sb := a.signBytes(vxChain)
	other := append([]byte{}, sb...)
	n := vx.Range("extra", 1, 3)
	other = append(other, vx.Bytes("tail", n)...)
	other[0] += byte(n)
	if vx.Thorough() {
		vx.Assume(sb[0] < 0x7d)
	}
	vx.Assume(sb[0] < 0x7d)
	g := []int{0, 1}
	us := []vxUse{c.vxUseNonce(a.hrst(), sb, g, 0)}
	u := vxUse{sb: string(other), own: us[0].own}
	p, err := UnpackHRST(other)
	if err != nil || p != a.hrst() {
		return // not the same position any more
	}
	res, err := c.sign(p, other, g, 0)
	if err == nil && len(res.Signature) > 0 {
		u.ok = true
		u.eph = string(res.EphemeralPublic)
		u.own = c.vxOwnNonce(p, 0)
		vx.Reach("other encoding signed")
	} else {
		vx.Reach("other encoding refused")
	}
	vxCheckP09(append(us, u))
}

// Retries with other sets of peers, with the first, a second and again an earlier timestamp.
//
//vx:opts budget=120 traces=2
func VxP09_RetryOtherPeers() {
	c := vxNewCluster(2, 3)
	a := vxMsg{step: int8(vx.Range("step", 1, 3)), bid: vxBlockID("b"), pol: -1, height: 9, round: 1}
	stamps := []time.Time{vxStamp("t0"), vxStamp("t1")}
	groups := [][]int{{0, 1}, {0, 2}, {0, 1, 2}}
	n := 3
	if vx.Thorough() {
		n = 4
	}
	var us []vxUse
	for i := 0; i < n; i++ {
		m := a
		m.stamp = stamps[0]
		if i > 0 {
			m.stamp = stamps[vx.Choose("stamp", 2)]
		}
		us = append(us, c.vxUseNonce(m.hrst(), m.signBytes(vxChain), groups[vx.Choose("group", 3)], 0))
		if i == 1 && vx.Bool("restart") {
			c.restart(0)
		}
	}
	vxCheckP09(us)
}

// Parts of other cosigners for two timestamps arrive in any order before, between and after the cosigner's own.
//
//vx:opts budget=90 traces=2
func VxP09_Orders() {
	c := vxNewCluster(2, 3)
	a := vxMsg{step: int8(vx.Range("step", 1, 3)), bid: vxBlockID("b"), pol: -1, height: 9, round: 1}
	stamps := []time.Time{vxStamp("t0"), vxStamp("t1")}
	n := 4
	if vx.Thorough() {
		n = 5
	}
	var us []vxUse
	for i := 0; i < n; i++ {
		m := a
		m.stamp = stamps[vx.Choose("stamp", 2)]
		k := m.hrst()
		if i < n-2 {
			switch vx.Choose("op", 3) {
			case 0:
				c.vxDeliver(k, 0, c.parts(k, []int{1}, 0))
			case 1:
				c.vxDeliver(k, 0, c.parts(k, []int{2}, 0))
			case 2:
				_ = c.vxOwnNonce(k, 0)
			}
			continue
		}
		us = append(us, c.vxUseNonce(k, m.signBytes(vxChain), []int{0, 1}, 0))
	}
	vxCheckP09(us)
}
