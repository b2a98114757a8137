package signer

//vx:use msgs cluster net

import (
	"bytes"
	"encoding/json"
	"io"
	"strconv"
	"strings"

	"github.com/hashicorp/raft"
	vx "github.com/strangelove-ventures/horcrux/zzvx"
	"github.com/tendermint/tendermint/libs/log"
)

type vxSink struct {
	bytes.Buffer
	closed, canceled bool
	fail             bool
}

func (s *vxSink) ID() string    { return "vx" }
func (s *vxSink) Cancel() error { s.canceled = true; return nil }
func (s *vxSink) Close() error  { s.closed = true; return nil }
func (s *vxSink) Write(b []byte) (int, error) {
	if s.fail {
		return 0, io.ErrShortWrite
	}
	return s.Buffer.Write(b)
}

func (c *vxCluster) vxReplica(i int) (*RaftStore, string) {
	f := vx.TempDir() + "/pv.json"
	st, err := LoadOrCreateSignState(f)
	vx.Assert(err == nil, "sign state")
	pv := NewThresholdValidator(&ThresholdValidatorOpt{Pubkey: c.pub, Threshold: 1, SignState: st,
		Cosigner: c.cosigners[i], Logger: log.NewNopLogger()})
	s := vxStore(c.cosigners[i], "")
	s.SetThresholdValidator(pv)
	return s, f
}

func vxGet(s *RaftStore, k string) string {
	v, err := s.Get(k)
	vx.Assert(err == nil, "reading a key")
	return v
}

var vxBadCommands = []string{
	``, `{`, `null`, `[]`, `7`, `"set"`, `{"op":"inc","key":"a","value":"z"}`, `{"key":"a","value":"z"}`,
	`{"op":5,"key":"a","value":"z"}`, `{"op":"set","key":7,"value":"z"}`, `{"op":"set","key":"a","value":["z"]}`,
	`{"op":"","key":"b"}`, `{"op":"set","key":"a","value":"z"`, `{"op":"Delete","key":"a"}`,
	`{"op":"delete","key":{}}`, `{"op":"set","key":"a","value":"z"} trailing`,
}

var vxKeysP18 = []string{"a", "b", "LSS", "", "lss"}

// Any log of commands, with a snapshot taken at any point and written out at any later point.
//
//vx:opts budget=100 t.budget=400 traces=4
func VxP18_Log() {
	c := vxNewCluster(1, 2)
	a, _ := c.vxReplica(0)
	b, _ := c.vxReplica(1)
	lead := vxStore(nil, "")
	lead.raft = vxRaft(true, "", nil, a, b)
	want := map[string]string{}
	var then map[string]string
	var snap raft.FSMSnapshot
	n := 3
	if vx.Thorough() {
		n = 4
	}
	at := vx.Choose("snapshot at", n)
	nbad := len(vxBadCommands)
	take := func() {
		then = map[string]string{}
		for k, v := range want {
			then[k] = v
		}
		var err error
		snap, err = (*fsm)(a).Snapshot()
		vx.Assert(err == nil, "a snapshot is taken")
	}
	for i := 0; i < n; i++ {
		if i == at {
			take()
		}
		if i > 0 && !vx.Thorough() {
			nbad = 2
		}
		switch op := vx.Choose("op", 5); op {
		case 0:
			k, v := vxKeysP18[vx.Choose("key", 5)], "z"
			if k != "LSS" {
				n := 1
				if i == at {
					n = vx.Choose("len", 2)
				} else if i+1 == at {
					n = 0
				}
				v = vxAscii("value", n)
			}
			vx.Assert(lead.Set(k, v) == nil, "a set is committed")
			if k != "LSS" {
				want[k] = v
			}
		case 1:
			k := vxKeysP18[vx.Choose("key", 3)]
			vx.Assert(lead.Delete(k) == nil, "a delete is committed")
			delete(want, k)
		case 2:
			d := []byte(vxBadCommands[vx.Choose("bad", nbad)])
			for _, s := range []*RaftStore{a, b} {
				(*fsm)(s).Apply(&raft.Log{Data: append([]byte{}, d...)})
			}
		case 3:
			ssc := NewSignStateConsensus(vx.Int64("h"), 0, 1)
			vx.Assert(lead.Emit(raftEventLSS, ssc) == nil, "a watermark is emitted")
		case 4:
			// one entry is replayed
			vx.Assert(lead.Set("a", "x") == nil && lead.Set("a", "x") == nil, "committed")
			want["a"] = "x"
		}
	}
	for _, k := range vxKeysP18 {
		vx.Assert(vxGet(a, k) == want[k], "the contents are what the log says")
		vx.Assert(vxGet(b, k) == want[k], "every replica has the same contents")
	}
	vx.Obs("a", vxGet(a, "a"))
	// restore
	s := &vxSink{}
	vx.Assert(snap.Persist(s) == nil && s.closed && !s.canceled, "the snapshot is written")
	snap.Release()
	data := append([]byte{}, s.Bytes()...)
	var dec map[string]string
	vx.Assert(json.Unmarshal(data, &dec) == nil, "the snapshot decodes")
	_, has := dec["LSS"]
	vx.Assert(!has, "watermark events are not retained")
	d, _ := c.vxReplica(1)
	old := vxStore(nil, "")
	old.raft = vxRaft(true, "", nil, d)
	vx.Assert(old.Set("a", "old") == nil && old.Set("c", "old") == nil, "committed")
	vx.Assert((*fsm)(d).Restore(io.NopCloser(bytes.NewReader(data))) == nil, "the snapshot is restored")
	for _, k := range append([]string{"c"}, vxKeysP18...) {
		vx.Assert(vxGet(d, k) == then[k], "a restored snapshot has exactly the contents at its time")
	}
	snap, err := (*fsm)(d).Snapshot()
	vx.Assert(err == nil, "a snapshot is taken")
	s, dec = &vxSink{}, nil
	vx.Assert(snap.Persist(s) == nil && json.Unmarshal(s.Bytes(), &dec) == nil, "a snapshot of the restored store is written")
	vx.Assert(len(dec) == len(then), "a restored snapshot has exactly the keys at its time")
	for k := range then {
		_, has := dec[k]
		vx.Assert(has, "a restored snapshot has every key, also one without a value")
	}
	vx.Reach("restored")
	vx.Assert(old.Set("c", "new") == nil && vxGet(d, "c") == "new", "a restored store goes on")
	vx.Assert(vxGet(a, "c") == "", "and is separate")
}

func vxAscii(name string, n int) string {
	s := vx.Str(name, n)
	for i := 0; i < n; i++ {
		vx.Assume(s[i] >= 0x20 && s[i] < 0x7f)
	}
	return s
}

// A snapshot that cannot be written is cancelled; one that cannot be read is refused with an error.
//
//vx:opts budget=30 traces=3
func VxP18_BadSnapshot() {
	c := vxNewCluster(1, 2)
	a, _ := c.vxReplica(0)
	l := vxStore(nil, "")
	l.raft = vxRaft(true, "", nil, a)
	vx.Assert(l.Set("a", "1") == nil, "committed")
	snap, err := (*fsm)(a).Snapshot()
	vx.Assert(err == nil, "a snapshot is taken")
	s := &vxSink{fail: true}
	vx.Assert(snap.Persist(s) != nil && s.canceled && !s.closed, "a failed snapshot is cancelled")
	bad := []string{``, `{`, `[]`, `{"a":1}`, `{"a":"2"`}[vx.Choose("bad", 5)]
	vx.Assert((*fsm)(a).Restore(io.NopCloser(bytes.NewReader([]byte(bad)))) != nil, "an unreadable snapshot is refused")
	vx.Assert(vxGet(a, "a") == "1", "and changes nothing")
	vx.Reach("refused")
}

// A long log with a large value; a snapshot of many keys.
//
//vx:opts budget=60 traces=1
func VxP18_Long() {
	c := vxNewCluster(1, 2)
	a, _ := c.vxReplica(0)
	b, _ := c.vxReplica(1)
	lead := vxStore(nil, "")
	lead.raft = vxRaft(true, "", nil, a, b)
	want := map[string]string{}
	at := 20 + 40*vx.Choose("snapshot at", 2)
	var then map[string]string
	var snap raft.FSMSnapshot
	big := strings.Repeat("x", 70000) + vxAscii("tail", 1)
	for i := 0; i < 80; i++ {
		if i == at {
			then = map[string]string{}
			for k, v := range want {
				then[k] = v
			}
			var err error
			snap, err = (*fsm)(a).Snapshot()
			vx.Assert(err == nil, "a snapshot is taken")
		}
		k, v := "key"+strconv.Itoa(i%37), "value"+strconv.Itoa(i)
		if i == 17 {
			v = big
		}
		if i%5 == 4 {
			vx.Assert(lead.Delete(k) == nil, "a delete is committed")
			delete(want, k)
			continue
		}
		vx.Assert(lead.Set(k, v) == nil, "a set is committed")
		want[k] = v
	}
	s := &vxSink{}
	vx.Assert(snap.Persist(s) == nil && s.closed && !s.canceled, "the snapshot is written")
	d, _ := c.vxReplica(1)
	vx.Assert((*fsm)(d).Restore(io.NopCloser(bytes.NewReader(append([]byte{}, s.Bytes()...)))) == nil, "the snapshot is restored")
	for i := 0; i < 37; i++ {
		k := "key" + strconv.Itoa(i)
		vx.Assert(vxGet(a, k) == want[k] && vxGet(b, k) == want[k], "the contents are what the log says")
		vx.Assert(vxGet(d, k) == then[k], "a restored snapshot has exactly the contents at its time")
	}
	vx.Reach("restored")
}
