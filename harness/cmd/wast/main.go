// Command wast runs the checks of the script format.
package main

import (
	"vharness/pbt"
	"vharness/wast"
)

func main() { pbt.Main(wast.Props()) }
