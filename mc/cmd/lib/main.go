// Command lib checks the properties of the library packages.
package main

import "verif/mc/core"

var props = map[string]func(*core.Run){}

func main() { core.Main(props) }
