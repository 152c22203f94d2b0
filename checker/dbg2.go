package main

import "fmt"

func shape(t *Term, d int) string {
	if t == nil {
		return "_"
	}
	if d == 0 {
		return t.Op
	}
	s := fmt.Sprintf("%s:%s(", t.Op, t.Name)
	for _, a := range t.Args {
		s += shape(a, d-1) + ","
	}
	return s + ")"
}
