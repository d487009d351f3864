package net

// The harnesses' network: while set, dialing and listening go here.

// ZZDial, if set, dials.
var ZZDial func(network, addr string) (Conn, error)

// ZZListen, if set, listens.
var ZZListen func(network, addr string) (Listener, error)
