// Command enc runs the checks of package enc.
package main

import (
	"vharness/enc"
	"vharness/pbt"
)

func main() { pbt.Main(enc.Props()) }
