// Command dist simulates clusters of distributed-memory nodes: real DistMemory
// backends whose messages travel over a simulated network.
package main

import "github.com/hyp3rd/hypercache/zzsim/simkit"

func main() { simkit.Main() }
