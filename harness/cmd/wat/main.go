// Command wat runs the checks of the text format.
package main

import (
	"vharness/pbt"
	"vharness/wat"
)

func main() { pbt.Main(wat.Props()) }
