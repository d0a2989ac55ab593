// clrunner: the spaces over the whole interface of the C library.
package main

import (
	_ "verif/mc/clprops"
	"verif/mc/rt"
)

func main() { rt.Main() }
