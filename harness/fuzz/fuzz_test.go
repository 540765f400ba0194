// Package fuzz lets go's coverage-guided fuzzer choose the random bits behind
// the generators. run.sh builds it for the thorough tier.
package fuzz

import (
	"testing"

	"verif/harness/engine"
	_ "verif/harness/props"
)

func FuzzProp(f *testing.F) { engine.Fuzz(f) }
