// Command baseline records the literals of the current tree in mc/data/literals.json. It is run by hand when /repo gets a
// commit; no check runs it.
package main

import "verif/mc/core"

func main() {
	if err := core.WriteBaseline(); err != nil {
		panic(err)
	}
}
