package main

import (
	"verif/harness/rtp"
	"verif/harness/sym"
)

func main() { sym.Main(rtp.All) }
