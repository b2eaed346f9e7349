package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

func main() {
	dbg := flag.String("dbg", "", "debug: pkg:func")
	wd := flag.Bool("w", false, "debug widening")
	dir := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	debug.SetGCPercent(400)
	debugWiden = *wd
	if *list {
		for _, p := range props {
			fmt.Println(p.ID, p.Title)
		}
		return
	}
	if *prop != "" {
		for _, p := range props {
			if p.ID == *prop {
				os.Exit(runProp(p, *dir, *verif, *tier))
			}
		}
		fmt.Println("no such property", *prop)
		os.Exit(2)
	}
	t0 := time.Now()
	p, err := loadProgram(*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded", len(p.allFn), time.Since(t0))
	if *dbg != "" {
		debugFn(p, *dbg)
	}
}
