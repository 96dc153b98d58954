package server

import "net"

// VerifSetListener lets the conformance driver hand the server an in-memory
// listener.  The field name is the one the repository's own test pins.
func VerifSetListener(s *TCPServer, l net.Listener) { s.listener = l }
