// Command stack simulates clusters of the shipped server, from the environment
// variables that configure it to the REST interface its clients use.
package main

import (
	"context"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

func main() {
	context.SimInOrder = true
	simkit.Main()
}
