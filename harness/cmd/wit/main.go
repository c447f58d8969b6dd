// Command wit runs the checks of the interface language.
package main

import (
	"vharness/pbt"
	"vharness/wit"
)

func main() { pbt.Main(wit.Props()) }
