package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"strings"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "verif: "+f+"\n", a...)
	os.Exit(2)
}

// models is the per-path state of the environment models.
type models struct {
	exited bool
	once   map[Ptr]int
	atomVC map[Ptr]map[int]int
	wg     map[Ptr]*wgState
	smaps  map[Ptr]*MapV
	split  map[string][2]*Term
	conds  map[Ptr][]*condWait
	texts  map[*OpqStr][]*Term
	decs   map[string][]*Term
	timers map[Ptr]*timer

	fs    map[string]*inode
	files map[Ptr]*fhandle
	stdin int

	docs   []*Doc
	docIdx map[string]int

	tok     int
	sha     []shaEnt
	streams map[Ptr]Iface      // readers and writers behind YAML streams
	hashes  map[Ptr][]*Term    // what was written to a hash.Hash
	enc     map[string]*encEnt // OAEP ciphertext token
	sigs    map[string]*sigEnt // PSS signature token
	derK    map[string]*derEnt // PKCS1 token -> key
	edPub   map[string]string  // seed -> public key
	edSig   map[string]*edSigEnt
	sc      map[string]*scalarEnt
	el      map[string]*elemEnt
	shsig   map[string]*shareSigEnt
	comb    map[string]*combEnt

	grpcSrv map[string]*grpcServer
	conns   map[Ptr]string
	addrs   map[Ptr]Value  // raft transport: address
	lsn     map[Ptr]string // listener: port
	svc     map[Ptr]Iface  // server: service
	nodes   []*raftState
	rafts   map[Ptr]*raftState
	futErr  map[Ptr]Iface
	cmdHook Value
	ctxs    map[Ptr]*ctxState
	hooks   map[string]Value
	misc    map[string]interface{}
}

func newModels() *models {
	m := &models{once: map[Ptr]int{}, atomVC: map[Ptr]map[int]int{}, wg: map[Ptr]*wgState{}, smaps: map[Ptr]*MapV{},
		split: map[string][2]*Term{}, timers: map[Ptr]*timer{}, fs: map[string]*inode{}, files: map[Ptr]*fhandle{},
		docIdx: map[string]int{}, enc: map[string]*encEnt{}, sigs: map[string]*sigEnt{}, derK: map[string]*derEnt{},
		edPub: map[string]string{}, edSig: map[string]*edSigEnt{}, sc: map[string]*scalarEnt{}, el: map[string]*elemEnt{},
		shsig: map[string]*shareSigEnt{}, comb: map[string]*combEnt{}, grpcSrv: map[string]*grpcServer{},
		conns: map[Ptr]string{}, addrs: map[Ptr]Value{}, lsn: map[Ptr]string{}, svc: map[Ptr]Iface{}, rafts: map[Ptr]*raftState{}, futErr: map[Ptr]Iface{}, ctxs: map[Ptr]*ctxState{}, hooks: map[string]Value{}, misc: map[string]interface{}{}, hashes: map[Ptr][]*Term{}, streams: map[Ptr]Iface{}}
	m.mkdirAll("/vxtmp")
	m.mkdirAll("/vxtmp/home")
	m.mkdirAll("/vxtmp/cwd")
	m.mkdirAll("/tmp")
	return m
}

// token returns n unique concrete bytes.
func (m *models) token(kind string, n int) []byte {
	m.tok++
	return detToken(fmt.Sprintf("%s#%d", kind, m.tok), n)
}

// detToken returns n bytes determined by the key. The top four bits of byte 31 are clear so that a
// 32-byte token is a canonical scalar.
func detToken(key string, n int) []byte {
	var o []byte
	for i := uint32(0); len(o) < n; i++ {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], i)
		h := sha256.Sum256(append([]byte("vx:"+key), b[:]...))
		o = append(o, h[:]...)
	}
	o = o[:n]
	if n >= 32 {
		o[31] &= 0x0f
	}
	return o
}

func cleanPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/vxtmp/cwd/" + p
	}
	parts := strings.Split(p, "/")
	var o []string
	for _, s := range parts {
		switch s {
		case "", ".":
		case "..":
			if len(o) > 0 {
				o = o[:len(o)-1]
			}
		default:
			o = append(o, s)
		}
	}
	return "/" + strings.Join(o, "/")
}
