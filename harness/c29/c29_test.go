// C29: sorting and order statistics.
package c29

import (
	"fmt"
	"math"
	gosort "sort"
	"testing"

	"github.com/phil-mansfield/gotetra/math/sort"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// values draws n values in a shape that sorting may trip over.
func values(c *vk.C, n int) []float64 {
	xs := make([]float64, n)
	kind := rapid.IntRange(0, 8).Draw(c.T, "kind")
	seed := rapid.Uint64().Draw(c.T, "seed")
	for i := range xs {
		u := sim.Unit(seed, i, 0)
		switch kind {
		case 0:
			xs[i] = u
		case 1: // many ties
			xs[i] = math.Floor(4 * u)
		case 2:
			xs[i] = 1
		case 3:
			xs[i] = float64(i)
		case 4:
			xs[i] = float64(-i)
		case 5: // organ pipe
			xs[i] = math.Min(float64(i), float64(n-i))
		case 6: // nearly sorted
			xs[i] = float64(i)
			if u < 0.1 {
				xs[i] -= float64(int(seed % 20))
			}
		case 7: // infinities and extremes
			xs[i] = []float64{math.Inf(1), math.Inf(-1), 0, math.MaxFloat64, -math.MaxFloat64, 5e-324, 1, -1}[int(8*u)]
		default:
			xs[i] = math.Floor(u*float64(n)) - float64(n)/2
		}
	}
	if n <= 40 {
		c.Desc("%v", xs)
	} else {
		c.Desc("%d values of kind %d, seed %d", n, kind, seed)
	}
	return xs
}

func length(c *vk.C) int {
	switch rapid.IntRange(0, 4).Draw(c.T, "length kind") {
	case 0:
		return rapid.IntRange(1, 8).Draw(c.T, "n")
	case 1, 2:
		return rapid.IntRange(15, 60).Draw(c.T, "n")
	case 3:
		return rapid.IntRange(60, 400).Draw(c.T, "n")
	}
	if rapid.IntRange(0, 19).Draw(c.T, "very long") == 0 {
		return vk.Round(c, "n", 4000, 70000)
	}
	return vk.Round(c, "n", 400, 4000)
}

func TestSort(t *testing.T) {
	vk.Run(t, 3000, 100000, func(c *vk.C) {
		n := length(c)
		if rapid.IntRange(0, 50).Draw(c.T, "empty") == 0 {
			n = 0
		}
		xs := values(c, n)
		want := append([]float64{}, xs...)
		// The slice may be part of a larger one, which is left alone.
		pad := rapid.IntRange(0, 3).Draw(c.T, "pad")
		all := make([]float64, n+2*pad)
		for i := range all {
			all[i] = -1e300 + float64(i)
			if rapid.Bool().Draw(c.T, "high") && i < pad {
				all[i] = 1e300
			}
		}
		copy(all[pad:], xs)
		was := append([]float64{}, all...)
		in := all[pad : pad+n]
		var out []float64
		what := ""
		switch rapid.IntRange(0, 2).Draw(c.T, "method") {
		case 0:
			gosort.Float64s(want)
			out, what = sort.Quick(in), "Quick"
		case 1:
			gosort.Float64s(want)
			out, what = sort.Shell(in), "Shell"
		default:
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
			out, what = sort.Reverse(in), "Reverse"
		}
		c.Desc(what)
		c.Label(what)
		if len(out) != n || (n > 0 && &out[0] != &in[0]) {
			c.Fatalf("%s did not return its slice", what)
		}
		for i := range want {
			if out[i] != want[i] {
				c.Fatalf("%s: element %d is %g, want %g", what, i, out[i], want[i])
			}
		}
		for i := range all {
			if (i < pad || i >= pad+n) && all[i] != was[i] {
				c.Fatalf("%s changed element %d of the slice around", what, i-pad)
			}
		}
		c.NonTrivial(n > 1)
	})
}

func TestOrder(t *testing.T) {
	vk.Run(t, 4000, 100000, func(c *vk.C) {
		n := length(c)
		xs := values(c, n)
		was := append([]float64{}, xs...)
		sorted := append([]float64{}, xs...)
		gosort.Float64s(sorted)
		var buf [][]float64
		if rapid.Bool().Draw(c.T, "buffer given") {
			b := make([]float64, n)
			for i := range b {
				b[i] = 1e9
			}
			buf = append(buf, b)
			if vk.Panics(func() { sort.NthLargest(xs, 1, make([]float64, n+1)) }) == nil {
				c.Fatalf("a buffer of the wrong length was accepted")
			}
		}
		for q := rapid.IntRange(1, 4).Draw(c.T, "queries"); q > 0; q-- {
			switch rapid.IntRange(0, 2).Draw(c.T, "query") {
			case 0:
				k := rapid.IntRange(1, n).Draw(c.T, "k")
				c.Desc("largest but %d", k-1)
				if got := sort.NthLargest(xs, k, buf...); got != sorted[n-k] {
					c.Fatalf("the largest but %d of %d is %g, want %g", k-1, n, got, sorted[n-k])
				}
			case 1:
				c.Desc("median")
				got := sort.Median(xs, buf...)
				lo, hi := sorted[(n-1)/2], sorted[n/2]
				if !(got >= lo && got <= hi) {
					c.Fatalf("the median of %d values is %g, not in [%g, %g]", n, got, lo, hi)
				}
			default:
				p := []float64{0, 1, 0.5, 0.25, 0.9, 0.01}[rapid.IntRange(0, 5).Draw(c.T, "round p")]
				if rapid.Bool().Draw(c.T, "any p") {
					p = sim.F(c, "p", 0, 1, 9973)
				}
				c.Desc("percentile %g", p)
				got := sort.Percentile(xs, p, buf...)
				// An element that leaves at most the fraction p above it,
				// and at most the rest below.
				above, below := 0.0, 0.0
				for _, x := range xs {
					if x > got {
						above++
					} else if x < got {
						below++
					}
				}
				i := gosort.SearchFloat64s(sorted, got)
				if i == n || sorted[i] != got {
					c.Fatalf("percentile %g is %g, which is not in the input", p, got)
				}
				slack := 1e-9 * float64(n)
				if above > p*float64(n)+slack || below > (1-p)*float64(n)+slack {
					c.Fatalf("percentile %g of %d values: %g, with %g above and %g below", p, n, got, above, below)
				}
			}
			for i := range xs {
				if xs[i] != was[i] {
					c.Fatalf("element %d of the input was changed", i)
				}
			}
		}
		for what, f := range map[string]func(){
			"the median of nothing":     func() { sort.Median(nil) },
			"the percentile of nothing": func() { sort.Percentile(nil, 0.5) },
			"the largest of nothing":    func() { sort.NthLargest(nil, 1) },
			"a percentile beyond 1":     func() { sort.Percentile(xs, 1.01) },
			"a negative percentile":     func() { sort.Percentile(xs, -0.01) },
		} {
			if vk.Panics(f) == nil {
				c.Fatalf("no complaint about %s", what)
			}
		}
		c.NonTrivial(n > 1)
		_ = fmt.Sprint
	})
}
