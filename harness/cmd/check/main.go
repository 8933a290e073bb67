// Command check decides one property of krypto431.
package main

import (
	_ "verif/checks"
	"verif/kit"
)

func main() { kit.Main() }
