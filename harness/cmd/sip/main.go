package main

import (
	"verif/harness/sip"
	"verif/harness/sym"
)

func main() { sym.Main(sip.All) }
