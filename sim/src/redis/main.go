// Command redis simulates caches over Redis and Redis Cluster: the real
// backends and the real client library, against a model server.
package main

import (
	"context"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

func main() {
	context.SimInOrder = true
	simkit.Main()
}
