package main

import (
	"fmt"
	"os"
)

var debugTape = os.Getenv("TAPE_DEBUG") != ""

// dbg shows some of the states of the tape machine.
func dbg(m *machine, k, trail string) {
	if m.states > 20000 && m.states%4000 == 0 {
		fmt.Fprintf(os.Stderr, "%d %q %s\n\n", m.states, trail, k)
	}
}
