package main

import (
	"verifmc/engine"
	_ "verifmc/props"
)

func main() { engine.Main() }
