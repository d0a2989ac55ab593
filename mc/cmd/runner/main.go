// runner: the spaces over the plain library.
package main

import (
	_ "verif/mc/props"
	"verif/mc/rt"
)

func main() { rt.Main() }
