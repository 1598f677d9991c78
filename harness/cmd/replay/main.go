// Command replay runs one harness natively on concrete inputs.
package main

import (
	"os"

	"verif/harness/sym"
)

func main() { sym.Main(os.Args[1], table) }
