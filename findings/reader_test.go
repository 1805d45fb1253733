package noise

import (
	"bufio"
	"net"
)

func newReader(c net.Conn) *bufio.Reader { return bufio.NewReader(c) }
