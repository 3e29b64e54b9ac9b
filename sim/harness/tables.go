package main

import "strings"

func in(list, op string) bool { return strings.Contains(list, " "+op+" ") }

// has reports whether a keyed structure offers an operation.
func has(kind, op string) bool {
	return in(reading[kind], op) || in(content[kind], op) || in(writing[kind], op)
}
