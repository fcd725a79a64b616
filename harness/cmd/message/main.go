package main

import (
	"verif/harness/message"
	"verif/harness/sym"
)

func main() { sym.Main(message.All) }
