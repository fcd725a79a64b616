package main

import (
	"verif/harness/parser"
	"verif/harness/sym"
)

func main() { sym.Main(parser.All) }
