// Command prim runs the generated checks of the math primitives.
package main

import (
	"verif/harness/core"
	_ "verif/harness/prim"
)

func main() { core.Main() }
