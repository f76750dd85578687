//go:build !free

package main

import x "github.com/netascode/xmldot"

const free = false

// reset puts the library into its initial state.
func reset() { x.VerifReset() }
