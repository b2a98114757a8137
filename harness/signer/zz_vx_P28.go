package signer

//vx:use conn cluster

import "io"

// VxhNode is a chain node the signer can connect to.
func VxhNode(i int) (string, func() io.ReadWriteCloser) {
	n := vxMkNodeConn(i)
	return n.addr, n.accept
}
