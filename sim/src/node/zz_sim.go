// Package node is the shipped server command, made importable.
package node

// Main runs the command's entry point. It returns through os.Exit.
func Main() { main() }
