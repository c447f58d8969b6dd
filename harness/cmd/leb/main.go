// Command leb runs the LEB128 checks.
package main

import (
	"vharness/leb"
	"vharness/pbt"
)

func main() { pbt.Main(leb.Props()) }
