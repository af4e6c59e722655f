//go:build verifsched

package main

import (
	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	"verif/harness/sym"
)

func init() { v1.VerifPoint, v2.VerifPoint = sym.Point, sym.Point }
