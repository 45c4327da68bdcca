//go:build zzvpoints

package main

import jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

func init() {
	schedSetPoint = jsonvalue.ZzvSetPoint
	jsonvalue.ZzvMapOrder = func(n int) []int { return permCache[min(n, len(permCache)-1)][0] }
}
