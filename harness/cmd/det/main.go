// Command det runs the checks of the repeated and concurrent runs.
package main

import (
	"vharness/det"
	"vharness/pbt"
)

func main() { pbt.Main(det.Props()) }
