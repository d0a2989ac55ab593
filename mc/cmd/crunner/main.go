// crunner: the spaces over the C reference binding.
package main

import (
	_ "verif/mc/cprops"
	"verif/mc/rt"
)

func main() { rt.Main() }
