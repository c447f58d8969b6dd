// Command rt runs the checks of package rt.
package main

import (
	"vharness/pbt"
	"vharness/rt"
)

func main() { pbt.Main(rt.Props()) }
