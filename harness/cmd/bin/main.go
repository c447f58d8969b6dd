// Command bin runs the binary format checks.
package main

import (
	"vharness/bin"
	"vharness/pbt"
)

func main() { pbt.Main(bin.Props()) }
