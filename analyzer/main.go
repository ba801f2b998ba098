// Command analyzer decides one property of the repository from its source.
package main

import (
	"flag"
	"fmt"
	"os"

	"verif/analyzer/checks"
)

func main() {
	id := flag.String("check", "", "property to decide")
	dir := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	debug := flag.Bool("debug", false, "show internal failures")
	flag.Parse()
	if *id == "" {
		for _, k := range checks.IDs() {
			fmt.Println(k)
		}
		return
	}
	os.Exit(checks.Main(*id, *dir, *verif, *debug))
}
