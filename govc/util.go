package main

import (
	"fmt"
	"math/big"
	"sort"
)

func new_(c *big.Int) *big.Int { return new(big.Int).Neg(c) }

type engineError struct{ msg string }

func (e engineError) Error() string { return e.msg }

func engErr(f string, a ...any) engineError { return engineError{fmt.Sprintf(f, a...)} }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
