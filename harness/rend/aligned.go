package rend

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/geom"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// walk is a closed walk of n steps of -1, 0 or 1/m pixel that wraps once around
// a box of the given number of pixels, so every step stays inside of a pixel.
type walk struct {
	pos   []int // in 1/m pixels, unwrapped
	count []int // steps per pixel
}

// drawWalk draws one with the given number of steps of 0.
func drawWalk(c *vk.C, n, m, cells, flats int) walk {
	down := (n - flats - m*cells) / 2
	steps := make([]int, n)
	for i := range steps {
		steps[i] = 1
		if i < down {
			steps[i] = -1
		} else if i < down+flats {
			steps[i] = 0
		}
	}
	// a drawn arrangement that keeps excursions short
	idx := rapid.IntRange(1, n).Draw(c.T, "stride")
	for gcd(idx, n) != 1 {
		idx++
	}
	w := walk{pos: make([]int, n), count: make([]int, cells)}
	x := rapid.IntRange(0, m*cells-1).Draw(c.T, "start")
	for i := 0; i < n; i++ {
		st := steps[(i*idx)%n]
		w.pos[i] = x
		lo := x
		if st < 0 {
			lo = x - 1
		}
		w.count[sim.Mod(lo, m*cells)/m]++
		x += st
	}
	return w
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// Aligned draws a folded snapshot in which no tetrahedron crosses a pixel
// edge, and the density of every pixel.
func Aligned(c *vk.C) (s *sim.Sim, cells int, want []float64, flat, ok bool) {
	s = &sim.Sim{}
	s.S = rapid.IntRange(3, 5).Draw(c.T, "S")
	s.W = rapid.IntRange(1, 5).Draw(c.T, "W")
	if s.S == 5 && s.W > 3 {
		s.W = 3
	}
	s.N = s.S * s.W
	// steps of 1/m pixel, total*m of them around the box
	excess := 2 * rapid.IntRange(0, (s.N-2*s.W-1)/2).Draw(c.T, "folds")
	if rapid.Bool().Draw(c.T, "flat") {
		excess = rapid.IntRange(0, s.N-2*s.W-1).Draw(c.T, "excess")
		flat = true
	}
	total := s.N - excess
	m := rapid.SampledFrom([]int{1, 2, 4}).Draw(c.T, "m")
	for total%m != 0 {
		m /= 2
	}
	cells = total / m
	s.L = float64(cells) * math.Pow(2, float64(rapid.IntRange(-2, 4).Draw(c.T, "logpix")))
	var ws [3]walk
	for k := range ws {
		flats := 0
		if flat {
			flats = excess - 2*rapid.IntRange(0, excess/2).Draw(c.T, "folds")
		}
		ws[k] = drawWalk(c, s.N, m, cells, flats)
	}
	s.OmM, s.OmL, s.H100, s.Mass = 0.25, 0.75, 0.7, 1e9
	c.Desc("L=%g S=%d W=%d pixels=%d m=%d walks=%v %v %v", s.L, s.S, s.W, cells, m,
		ws[0].pos, ws[1].pos, ws[2].pos)
	u := s.L / float64(cells*m)
	for z := 0; z < s.N; z++ {
		for y := 0; y < s.N; y++ {
			for x := 0; x < s.N; x++ {
				q := [3]int{x, y, z}
				var p geom.Vec
				for k := range q {
					p[k] = float32(float64(sim.Mod(ws[k].pos[q[k]], m*cells)) * u)
				}
				s.X = append(s.X, p)
				s.V = append(s.V, geom.Vec{})
			}
		}
	}
	// no segment may span half of the box or the unwrapping is ambiguous
	for k := range ws {
		for a := 0; a < s.S; a++ {
			lo, hi, p := 0, 0, 0
			for j := 0; j < s.W; j++ {
				i, i1 := a*s.W+j, (a*s.W+j+1)%s.N
				d := ws[k].pos[i1] - ws[k].pos[i]
				if d > 1 || d < -1 {
					d -= m * cells * int(math.Round(float64(d)/float64(m*cells)))
				}
				p += d
				if p < lo {
					lo = p
				}
				if p > hi {
					hi = p
				}
			}
			if 2*(hi-lo) >= m*cells {
				return s, cells, nil, false, false
			}
		}
	}
	want = make([]float64, 0, cells*cells*cells)
	f := math.Pow(float64(cells)/float64(s.N), 3)
	for z := 0; z < cells; z++ {
		for y := 0; y < cells; y++ {
			for x := 0; x < cells; x++ {
				want = append(want, f*float64(ws[0].count[x]*ws[1].count[y]*ws[2].count[z]))
			}
		}
	}
	return s, cells, want, flat, true
}

// Expect is the render of a block, 3D or projected.
func Expect(want []float64, cells int, org, span [3]int, axis int) []float64 {
	out := make([]float64, 0, span[0]*span[1]*span[2])
	for z := 0; z < span[2]; z++ {
		for y := 0; y < span[1]; y++ {
			for x := 0; x < span[0]; x++ {
				i := sim.Mod(x+org[0], cells) + cells*(sim.Mod(y+org[1], cells)+
					cells*sim.Mod(z+org[2], cells))
				out = append(out, want[i])
			}
		}
	}
	if axis < 0 {
		return out
	}
	out = Project(out, span, axis)
	for i := range out {
		out[i] /= float64(span[axis])
	}
	return out
}

// Strays is how many pixels samples may be rounded into or out of: about one
// sample in 1e5 is close enough to an edge.
func Strays(s *sim.Sim, r *Req) int {
	return 6 + int(1e-4*6*float64(s.N*s.N*s.N*r.Pts))
}

// Thrice calls attempt, which renders and compares with the exact result, up
// to three times until it has nothing to complain of. The sample points of a
// render are random and shared by many tetrahedra, so that one which is within
// rounding of a face sends many samples across a pixel's edge at once. That is
// rare; three times in a row it does not happen.
func Thrice(c *vk.C, attempt func() string) {
	msg := ""
	for i := 0; i < 3; i++ {
		if msg = attempt(); msg == "" {
			return
		}
		c.Label("rendered again")
	}
	c.Fatalf("%s", msg)
}

// Compare compares a density render of an aligned snapshot to the exact one.
// A sample rounded across a pixel's edge moves one sample's mass.
func Compare(
	c *vk.C, s *sim.Sim, want []float64, b render.Box, got []float64, r *Req,
) string {
	span, axis := b.CellSpan(), r.Axis()
	exp := Expect(want, r.Cells, b.CellOrigin(), span, axis)
	if len(got) != len(exp) {
		c.Fatalf("%d pixels, want %d", len(got), len(exp))
	}
	sample := math.Pow(float64(r.Cells)/float64(s.N), 3) / 6 / float64(r.Pts)
	if axis >= 0 {
		sample /= float64(span[axis])
	}
	tol := 1.01*sample + 1e-9
	off, samples := 0, 6*float64(s.N*s.N*s.N*r.Pts)
	sum, total := 0.0, 0.0
	for i := range got {
		sum, total = sum+got[i], total+exp[i]
		d := math.Abs(got[i] - exp[i])
		if !(d <= (2.5+samples*1e-5)*tol) {
			return fmt.Sprintf("pixel %d of %v+%v proj %q is %g, want %g (one sample is %g)", i,
				b.CellOrigin(), span, r.Conf.ProjectionAxis, got[i], exp[i], sample)
		}
		if d > tol/2 {
			off++
		}
	}
	if off > Strays(s, r) {
		return fmt.Sprintf("%d pixels are off by a sample", off)
	}
	if span == [3]int{r.Cells, r.Cells, r.Cells} {
		c.Near("sum over the whole box", sum, total, 1e-9*(total+1))
	}
	c.LabelIf(off > 0, "samples on pixel edges")
	return ""
}
