package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// dumpMain prints SSA of matching functions (developer aid).
func dumpMain(args []string) {
	t := time.Now()
	p := loadProg("")
	fmt.Fprintln(os.Stderr, "load", time.Since(t), len(p.Funcs), len(p.fnSrc))
	for _, f := range p.fnSrc {
		for _, a := range args {
			if strings.Contains(fnKey(f), a) {
				f.WriteTo(os.Stdout)
			}
		}
	}
	if len(args) == 0 {
		t = time.Now()
		p.callGraph()
		fmt.Fprintln(os.Stderr, "cg", time.Since(t))
		reach := p.reachable()
		n := 0
		for _, f := range p.fnSrc {
			if _, ok := reach[f]; ok {
				n++
				fmt.Println(fnKey(f))
			}
		}
		fmt.Fprintln(os.Stderr, "reach", len(reach), n)
	}
	cleanup()
}
