// Command core simulates the in-memory primitives of the distributed backend:
// ring and membership, the event bus, and the statistics collector.
package main

import (
	"context"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

func main() {
	context.SimInOrder = true
	simkit.Main()
}
