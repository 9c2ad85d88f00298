//go:build race

package main

import "runtime"

// unordered counts the pairs of accesses the race detector found unordered.
func unordered() int { return runtime.RaceErrors() }
