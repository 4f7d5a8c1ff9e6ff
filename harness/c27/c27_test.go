// C27: random generators.
package c27

import (
	"fmt"
	"math"
	gorand "math/rand"
	"testing"

	"github.com/phil-mansfield/gotetra/math/rand"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

var names = map[rand.GeneratorType]string{
	rand.Xorshift: "xorshift", rand.Golang: "golang", rand.Tausworthe: "Tausworthe",
}

func backend(c *vk.C) rand.GeneratorType {
	gt := []rand.GeneratorType{rand.Xorshift, rand.Golang, rand.Tausworthe}[rapid.IntRange(0, 2).Draw(c.T, "backend")]
	c.Desc("%s", names[gt])
	c.Label("%s", names[gt])
	return gt
}

func drawSeed(c *vk.C) uint64 {
	switch rapid.IntRange(0, 2).Draw(c.T, "seed kind") {
	case 0:
		return rapid.Uint64Range(0, 50).Draw(c.T, "seed")
	case 1:
		return rapid.Uint64().Draw(c.T, "seed")
	}
	return 1<<uint(rapid.IntRange(0, 63).Draw(c.T, "seed bit")) - uint64(rapid.IntRange(0, 1).Draw(c.T, "below"))
}

// limits draws a range, not narrow for where it is, as deviates are doubles
// (from at least 32 random bits).
func limits(c *vk.C) (lo, hi float64) {
	switch rapid.IntRange(0, 3).Draw(c.T, "range") {
	case 0:
		return 0, 1
	case 1:
		return 0, sim.F(c, "hi", 0.01, 100, 999)
	}
	w := math.Pow(10, sim.F(c, "lg width", -5, 5, 20))
	lo = w * sim.F(c, "lo", -20, 20, 400)
	return lo, lo + w
}

// piece is part of a sequence: one or many deviates in a range.
type piece struct {
	n      int // 0: one deviate
	lo, hi float64
	ints   bool
	a, b   int
}

// TestSequence: whatever mix of calls draws them, the deviates are the same.
func TestSequence(t *testing.T) {
	vk.Run(t, 2400, 60000, func(c *vk.C) {
		gt, seed := backend(c), drawSeed(c)
		c.Desc("seed %d", seed)
		gen, ref := rand.New(gt, seed), rand.New(gt, seed)
		var hist []float64
		next := func() float64 {
			u := ref.Uniform(0, 1)
			if !(u >= 0 && u < 1) {
				c.Fatalf("deviate %d is %g", len(hist), u)
			}
			hist = append(hist, u)
			return u
		}
		max := 60
		if rapid.IntRange(0, 7).Draw(c.T, "long") == 0 {
			max = 12000
		}
		scaled := func(got, u, lo, hi float64) {
			want := u*(hi-lo) + lo
			c.Near(fmt.Sprintf("deviate %d, from %g to %g", len(hist)-1, lo, hi), got, want, 1e-15*(math.Abs(lo)+math.Abs(hi)))
			if !(got >= lo && got < hi) {
				c.Fatalf("deviate %d is %g, not in [%g, %g)", len(hist)-1, got, lo, hi)
			}
		}
		for k := rapid.IntRange(2, 8).Draw(c.T, "pieces"); k > 0; k-- {
			switch rapid.IntRange(0, 3).Draw(c.T, "call") {
			case 0:
				lo, hi := limits(c)
				c.Desc("one of %g to %g", lo, hi)
				scaled(gen.Uniform(lo, hi), next(), lo, hi)
			case 1:
				a := rapid.IntRange(-1000, 1000).Draw(c.T, "a")
				if rapid.IntRange(0, 3).Draw(c.T, "far") == 0 {
					a <<= uint(rapid.IntRange(5, 30).Draw(c.T, "shift"))
				}
				b := a + rapid.IntRange(1, 5000).Draw(c.T, "b-a")
				if rapid.IntRange(0, 3).Draw(c.T, "wide") == 0 {
					b = a + rapid.IntRange(5000, 1<<31).Draw(c.T, "b-a")
				}
				c.Desc("an integer of %d to %d", a, b)
				got := gen.UniformInt(a, b)
				x := float64(b-a)*next() + float64(a)
				// Rounding may move x across an integer.
				err := 1e-15 * (math.Abs(x) + float64(b-a))
				want := int(math.Floor(x))
				if got < a || got >= b || float64(got) > x+err || float64(got) <= x-1-err {
					c.Fatalf("integer from %d to %d: got %d, want %d", a, b, got, want)
				}
			default:
				lo, hi := limits(c)
				n := rapid.IntRange(0, max).Draw(c.T, "n")
				c.Desc("%d of %g to %g", n, lo, hi)
				buf := make([]float64, n)
				for i := range buf {
					buf[i] = -77
				}
				gen.UniformAt(lo, hi, buf)
				for i := range buf {
					scaled(buf[i], next(), lo, hi)
				}
			}
		}
		// What the sequence is.
		switch gt {
		case rand.Golang:
			r := gorand.New(gorand.NewSource(int64(seed)))
			for i, u := range hist {
				if w := r.Float64(); u != w {
					c.Fatalf("deviate %d is %g, and %g from the standard library", i, u, w)
				}
			}
		case rand.Xorshift:
			x, y, z, w := uint32(123456789), uint32(362436069), uint32(521288629), uint32(seed)
			for i, u := range hist {
				for first := true; first || w == 0; first = false {
					t := x ^ x<<11
					x, y, z = y, z, w
					w = w ^ w>>19 ^ t ^ t>>8
				}
				c.Near(fmt.Sprintf("deviate %d of a 128-bit xorshift", i), u, float64(math.MaxUint32-w)/math.MaxUint32, 1e-15)
			}
		case rand.Tausworthe:
			for i := 4187; i < len(hist); i++ {
				d := hist[i-2444] - hist[i-4187]
				if d < 0 {
					d++
				}
				c.Near(fmt.Sprintf("deviate %d from those 2444 and 4187 before", i), hist[i], d, 1e-15)
				c.LabelIf(i == 9700, "longer than the Tausworthe table")
			}
		}
		c.NonTrivial(len(hist) > 1)
	})
}

// TestQuality: gross defects of the deviates themselves.
func TestQuality(t *testing.T) {
	vk.Run(t, 150, 3000, func(c *vk.C) {
		gt, seed := backend(c), drawSeed(c)
		n := rapid.IntRange(2000, 40000).Draw(c.T, "n")
		c.Desc("seed %d, %d deviates", seed, n)
		gen := rand.New(gt, seed)
		xs := make([]float64, n)
		gen.UniformAt(0, 1, xs)
		N := float64(n)
		sigma := 8.0

		var mean, m2, lag1, lag2 float64
		var bits [24]float64
		const bins = 64
		var hist [bins]float64
		seen := map[float64]int{}
		for i, x := range xs {
			mean += x / N
			m2 += (x - 0.5) * (x - 0.5) / N
			if i > 0 {
				lag1 += (x - 0.5) * (xs[i-1] - 0.5) / N
			}
			if i > 1 {
				lag2 += (x - 0.5) * (xs[i-2] - 0.5) / N
			}
			b := uint32(x * (1 << 24))
			for k := range bits {
				bits[k] += float64(b>>uint(k)&1) / N
			}
			hist[int(x*bins)]++
			seen[x]++
		}
		c.Near("mean", mean, 0.5, sigma*math.Sqrt(1.0/12/N))
		c.Near("variance", m2, 1.0/12, sigma*math.Sqrt(1.0/180/N))
		c.Near("correlation of neighbours", lag1, 0, sigma/12/math.Sqrt(N))
		c.Near("correlation of next neighbours", lag2, 0, sigma/12/math.Sqrt(N))
		for k, b := range bits {
			c.Near(fmt.Sprintf("bit %d", 24-k), b, 0.5, sigma*0.5/math.Sqrt(N))
		}
		chi2 := 0.0
		for _, h := range hist {
			chi2 += (h - N/bins) * (h - N/bins) / (N / bins)
		}
		if chi2 > bins+sigma*math.Sqrt(2*bins)+20 {
			c.Fatalf("chi-squared of %d bins is %g", bins, chi2)
		}
		if rep := n - len(seen); float64(rep) > 12+4*N*N/2/math.Pow(2, 32) {
			c.Fatalf("%d of %d deviates are repeats", rep, n)
		}
		// Another seed, another sequence. (Only 32 bits of it may matter.)
		other := rand.New(gt, seed^(1+uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "other seed"))))
		equal := 0
		for _, x := range xs[:1000] {
			if other.Uniform(0, 1) == x {
				equal++
			}
		}
		if equal > 20 {
			c.Fatalf("%d of 1000 deviates are the same for another seed", equal)
		}
		c.NonTrivial(true)
	})
}
