package main

// Enumerators of expressions, grammars and inputs.

import (
	"sort"
	"strings"
)

// strs lists all strings over the alphabet of length <= n, shortest first.
func strs(alpha []string, n int) []string {
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range last {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func chars(s string) []string {
	var a []string
	for _, r := range s {
		a = append(a, string(r))
	}
	return a
}

// unaries: all one-operand forms.
var unaries = []func(*E) *E{
	Opt, Star, Plus, Look, Not,
	func(k *E) *E { return Rep(k, -1, 2) },
	func(k *E) *E { return Rep(k, 2, -1) },
}

var binaries = []func(a, b *E) *E{
	func(a, b *E) *E { return Seq(a, b) },
	func(a, b *E) *E { return Alt(a, b) },
	StarJ, PlusJ,
}

// grow returns pool plus every unary form of it and every binary combination.
func grow(pool []*E, un []func(*E) *E, bin []func(a, b *E) *E) []*E {
	out := append([]*E{}, pool...)
	for _, u := range un {
		for _, k := range pool {
			out = append(out, u(k))
		}
	}
	for _, f := range bin {
		for _, a := range pool {
			for _, b := range pool {
				out = append(out, f(a, b))
			}
		}
	}
	return out
}

func dedup(in []*E) []*E {
	seen := map[string]bool{}
	var out []*E
	for _, e := range in {
		t := e.Text()
		if !seen[t] {
			seen[t] = true
			out = append(out, e)
		}
	}
	return out
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// tuples calls f with every k-tuple of indices below n.
func tuples(n, k int, f func(ix []int)) {
	ix := make([]int, k)
	for {
		f(ix)
		i := k - 1
		for i >= 0 {
			ix[i]++
			if ix[i] < n {
				break
			}
			ix[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}
