package main

import (
	"verif/harness/address"
	"verif/harness/sym"
)

func main() { sym.Main(address.All) }
