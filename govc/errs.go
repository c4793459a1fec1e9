package main

import "fmt"

// unsupportedErr: the code uses something outside the verified subset.
type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) *unsupportedErr {
	return &unsupportedErr{fmt.Sprintf(f, a...)}
}
