package main

import (
	"verif/harness/header"
	"verif/harness/sym"
)

func main() { sym.Main(header.All) }
