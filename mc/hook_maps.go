//go:build zzvmaps

package main

import jsonvalue "github.com/Andrew-M-C/go.jsonvalue"

func init() {
	mapsOwned = true
	jsonvalue.ZzvMapOrder = mapOrder
}
