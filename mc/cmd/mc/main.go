package main

import (
	"os"

	_ "verifmc/checks"
	"verifmc/core"
)

func main() {
	core.Main(func(string) []string {
		if os.Getenv("VERIF_PLAIN") != "" {
			return []string{"the code under test could not be instrumented: schedules and map orders were not controlled in this run"}
		}
		return nil
	})
}
