//go:build !race

package main

func unordered() int { return 0 }
