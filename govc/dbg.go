package main

import "fmt"

func firstDiff(a, b *Term, d int) {
	if a == b || d > 60 {
		return
	}
	if a.Op != b.Op || len(a.Args) != len(b.Args) || len(a.Args) == 0 {
		fmt.Println("DIFF", d, "\n   A", a, "\n   B", b)
		return
	}
	if a.Op == "+" || a.Op == "*" {
		fmt.Println("DIFF", d, "\n   A", a, "\n   B", b)
		return
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			firstDiff(a.Args[i], b.Args[i], d+1)
			return
		}
	}
}
