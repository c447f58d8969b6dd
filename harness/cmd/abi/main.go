// Command abi runs the Canonical ABI checks.
package main

import (
	"vharness/abi"
	"vharness/pbt"
)

func main() { pbt.Main(abi.Props()) }
