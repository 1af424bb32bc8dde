// Command client simulates the Go SDK against scripted cluster nodes, and the
// HTTP authentication policy behind a real fiber server.
package main

import (
	"context"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

func main() {
	context.SimInOrder = true
	simkit.Main()
}
