package main

import (
	"verif/harness/core"
	"verif/harness/sym"
)

func main() { sym.Main(core.All) }
