package main

import "fmt"

func (e *Engine) dump(fs []fact, g *Lin, depth int, c *Ctx) {
	fmt.Printf("---- goal %s   (depth %d) choices %v\n", e.show(g), depth, c.choices)
	for _, r := range e.relevant(fs, g) {
		a := e.atoms[r]
		fmt.Println("   rel", a.key, a.split, a.deps)
	}
	for _, f := range fs {
		if f.ne {
			fmt.Println("    !=0 ", e.show(f.l))
		} else {
			fmt.Println("    ", e.show(f.l))
		}
	}
}
