// Command local simulates the single-process cache: the map backend, the cache
// API, eviction, expiration, memory accounting, the worker pool and shutdown.
package main

import (
	"context"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

func main() {
	context.SimInOrder = true
	simkit.Main()
}
