// C28: Sobol sequences.
package c28

import (
	"fmt"
	"testing"

	"github.com/phil-mansfield/gotetra/math/rand"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Primitive polynomials over the integers modulo two, by degree, and the
// first direction numbers, as Press et al. (2007) give them.
var polys = [6]struct {
	coeffs []uint // from the constant term up, without the leading one
	first  []uint64
}{
	{[]uint{1}, []uint64{1}},
	{[]uint{1, 1}, []uint64{1, 1}},
	{[]uint{1, 1, 0}, []uint64{1, 3, 7}},
	{[]uint{1, 0, 1}, []uint64{1, 3, 3}},
	{[]uint{1, 1, 0, 0}, []uint64{1, 1, 3, 13}},
	{[]uint{1, 0, 0, 1}, []uint64{1, 1, 5, 9}},
}

const bits = 30

// direction returns the direction numbers of a dimension, v[j] < 2^(j+1).
func direction(dim int) []uint64 {
	p := polys[dim]
	g := len(p.coeffs)
	m := append([]uint64{}, p.first...)
	for j := g; j < bits; j++ {
		// m_j = 2 a_1 m_{j-1} ^ ... ^ 2^g m_{j-g} ^ m_{j-g}, where a_l is
		// the coefficient of x^(g-l).
		x := m[j-g] ^ m[j-g]<<uint(g)
		for l := 1; l < g; l++ {
			if p.coeffs[g-l] == 1 {
				x ^= m[j-l] << uint(l)
			}
		}
		m = append(m, x)
	}
	v := make([]uint64, bits)
	for j := range v {
		v[j] = m[j] << uint(bits-1-j)
	}
	return v
}

// point is the point of a number, from its Gray code.
func point(v []uint64, i int) uint64 {
	g, x := i^i>>1, uint64(0)
	for j := 0; g>>uint(j) != 0; j++ {
		if g>>uint(j)&1 == 1 {
			x ^= v[j]
		}
	}
	return x
}

func TestSobol(t *testing.T) {
	vk.Run(t, 600, 10000, func(c *vk.C) {
		dim := rapid.IntRange(1, 6).Draw(c.T, "dim")
		m := rapid.IntRange(1, 12).Draw(c.T, "m")
		n := 1<<uint(m) - 1
		var seq *rand.SobolSequence
		start := rapid.IntRange(0, 2).Draw(c.T, "start")
		seq = rand.NewSobolSequence()
		if start > 0 {
			used := rapid.IntRange(0, 40).Draw(c.T, "used")
			for i := 0; i < used; i++ {
				seq.Next(rapid.IntRange(1, 6).Draw(c.T, "other dim"))
			}
			seq.Init()
			c.Label("started again")
			c.Desc("restarted after %d", used)
		}
		c.Desc("%d dimensions, %d points", dim, n)
		at := rapid.Bool().Draw(c.T, "in place")
		pts := make([][]float64, 1, n+1)
		pts[0] = make([]float64, dim) // the origin comes before the first
		buf := make([]float64, dim)
		for i := 0; i < n; i++ {
			if at {
				seq.NextAt(buf)
				pts = append(pts, append([]float64{}, buf...))
			} else {
				pts = append(pts, seq.Next(dim))
			}
			if len(pts[i+1]) != dim {
				c.Fatalf("point %d has %d coordinates", i+1, len(pts[i+1]))
			}
			for k, x := range pts[i+1] {
				if !(x > 0 && x < 1) {
					c.Fatalf("coordinate %d of point %d is %g", k, i+1, x)
				}
			}
		}
		// One point in each of 2^m intervals.
		for k := 0; k < dim; k++ {
			hit := make([]int, n+1)
			for i, p := range pts {
				b := int(p[k] * float64(n+1))
				if hit[b] != 0 || (b == 0 && i > 0) {
					c.Fatalf("points %d and %d are in the same of %d intervals of coordinate %d", hit[b], i, n+1, k)
				}
				hit[b] = i
			}
		}
		// Pairs: 2^t points in every box of volume 2^(t-m).
		for a := 0; a < dim; a++ {
			for b := a + 1; b < dim; b++ {
				t := len(polys[a].first) - 1 + len(polys[b].first) - 1
				if t >= m {
					continue
				}
				for da := 0; da <= m-t; da++ {
					db := m - t - da
					count := make([]int, 1<<uint(m-t))
					for _, p := range pts {
						count[int(p[a]*float64(int(1)<<uint(da)))<<uint(db)+int(p[b]*float64(int(1)<<uint(db)))]++
					}
					for i, x := range count {
						if x != 1<<uint(t) {
							c.Fatalf("box %d of %d by %d of coordinates %d and %d has %d points of %d, want %d",
								i, 1<<uint(da), 1<<uint(db), a, b, x, n+1, 1<<uint(t))
						}
					}
				}
			}
		}
		// The sequence itself.
		for k := 0; k < dim; k++ {
			v := direction(k)
			for i, p := range pts {
				want := float64(point(v, i)) / (1 << bits)
				if p[k] != want {
					c.Fatalf("coordinate %d of point %d is %.10g, want %.10g", k, i, p[k], want)
				}
			}
		}
		c.Label("%d-dimensional", dim)
		c.NonTrivial(n > 1)
		_ = fmt.Sprint
	})
}

// TestLong: many points of the sequence, which by then uses more of its
// direction numbers.
func TestLong(t *testing.T) {
	vk.Run(t, 4, 24, func(c *vk.C) {
		dim := rapid.IntRange(1, 6).Draw(c.T, "dim")
		m := rapid.IntRange(16, 20).Draw(c.T, "m")
		if vk.Thorough() && rapid.IntRange(0, 3).Draw(c.T, "longer") == 0 {
			m = rapid.IntRange(20, 26).Draw(c.T, "m")
		}
		n := 1<<uint(m) - 1
		c.Desc("%d dimensions, %d points", dim, n)
		seq := rand.NewSobolSequence()
		v := make([][]uint64, dim)
		hit := make([][]uint64, dim)
		for k := range v {
			v[k] = direction(k)
			hit[k] = make([]uint64, (n+1+63)/64)
		}
		buf := make([]float64, dim)
		for i := 1; i <= n; i++ {
			seq.NextAt(buf)
			for k, x := range buf {
				b := int(x * float64(n+1))
				if !(x > 0 && x < 1) || b == 0 || hit[k][b/64]>>uint(b%64)&1 == 1 {
					c.Fatalf("coordinate %d of point %d, %.10g, is in interval %d of %d, where one was before", k, i, x, b, n+1)
				}
				hit[k][b/64] |= 1 << uint(b%64)
				if i%97 == 0 || i&(i+1) == 0 || i&(i-1) == 0 {
					if want := float64(point(v[k], i)) / (1 << bits); x != want {
						c.Fatalf("coordinate %d of point %d is %.10g, want %.10g", k, i, x, want)
					}
				}
			}
		}
		c.NonTrivial(true)
	})
}
