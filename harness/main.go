// Command harness decides the properties of /verif/properties.jsonl by
// generated-input search.
package main

import (
	"verif/harness/engine"
	_ "verif/harness/props"
)

func main() { engine.Main() }
