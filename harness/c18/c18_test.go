// C18: quantity buffers.
package c18

import (
	"fmt"
	"math"
	"os"
	"testing"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"gotetraverif/fd"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

var quantities = []density.Quantity{density.Density, density.DensityGradient,
	density.Velocity, density.VelocityDivergence, density.VelocityCurl}

// contents of a buffer, and how to put them there
type data struct {
	s []float64
	v [][3]float64
	n []int
}

func fill(c *vk.C, b density.Buffer, seed uint64, scale float64, empty int) *data {
	d := &data{}
	if s, ok := b.ScalarBuffer(); ok {
		for i := range s {
			s[i] = scale * (sim.Noise(seed, i, 0) + 1)
			if empty > 0 && sim.Hash(seed+uint64(i))%uint64(empty) == 0 {
				s[i] = 0
			}
		}
		d.s = append([]float64{}, s...)
	}
	if v, ok := b.VectorBuffer(); ok {
		n, nok := b.CountBuffer()
		if !nok || len(n) != len(v) {
			c.Fatalf("%d vectors but %d counts (%v)", len(v), len(n), nok)
		}
		for i := range v {
			n[i] = int(sim.Hash(seed+uint64(i)) % 7)
			if seed%16 == 9 { // many samples
				n[i] *= 1 + int(sim.Hash(seed-uint64(i))%30000)
			}
			if empty == 0 {
				n[i]++
			} else if sim.Hash(seed+uint64(i))%uint64(empty) == 0 {
				n[i] = 0
			}
			for k := range v[i] {
				v[i][k] = float64(n[i]) * scale * sim.Noise(seed, i, k)
				if seed%8 < 3 && (int(seed%8) == k || sim.Hash(seed^uint64(3*i+k))%6 == 0) {
					v[i][k] = 0 // no velocity along this axis
				}
			}
		}
		d.v = append([][3]float64{}, v...)
		d.n = append([]int{}, n...)
	}
	return d
}

// mean is the mean of each pixel along axis k
func (d *data) mean(k int) []float64 {
	out := make([]float64, len(d.v))
	for i := range out {
		if d.n[i] > 0 {
			out[i] = d.v[i][k] / float64(d.n[i])
		}
	}
	return out
}

func check(c *vk.C, b density.Buffer, q density.Quantity, d *data, g *fd.Grid) {
	near := func(what string, got []float32, want, tol []float64) {
		if len(got) != len(want) {
			c.Fatalf("%v: %s of length %d, want %d", q, what, len(got), len(want))
		}
		for i := range got {
			if math.Abs(float64(got[i])-want[i]) <= tol[i] {
				continue
			}
			c.Near(fmt.Sprintf("%v: %s at %d", q, what, i), float64(got[i]), want[i], tol[i])
		}
	}
	tol := func(x []float64, t float64) []float64 {
		out := make([]float64, len(x))
		for i := range x {
			out[i] = t * math.Abs(x[i])
		}
		return out
	}
	scalar := q == density.Density || q == density.VelocityDivergence
	s, sok := b.FinalizedScalarBuffer()
	xs, ys, zs, vok := b.FinalizedVectorBuffer()
	if sok != scalar || vok == scalar {
		c.Fatalf("%v: scalar %v, vector %v", q, sok, vok)
	}
	vec := [3][]float32{xs, ys, zs}
	switch q {
	case density.Density:
		near("density", s, d.s, tol(d.s, 1e-7))
	case density.Velocity:
		for k := range vec {
			m := d.mean(k)
			near(fmt.Sprintf("component %d", k), vec[k], m, tol(m, 4e-7))
		}
	case density.DensityGradient:
		for k := range vec {
			want, sc := g.Deriv(d.s, k, 4)
			near(fmt.Sprintf("component %d", k), vec[k], want, tol(sc, 3e-6))
		}
	case density.VelocityDivergence:
		want, sc := make([]float64, g.N()), make([]float64, g.N())
		for k := 0; k < 3; k++ {
			dk, sk := g.Deriv(d.mean(k), k, 4)
			for i := range want {
				want[i] += dk[i]
				sc[i] += sk[i]
			}
		}
		near("divergence", s, want, tol(sc, 3e-6))
	default:
		for k := range vec {
			a, z := (k+1)%3, (k+2)%3
			d1, s1 := g.Deriv(d.mean(z), a, 4)
			d2, s2 := g.Deriv(d.mean(a), z, 4)
			for i := range d1 {
				d1[i] -= d2[i]
				s1[i] += s2[i]
			}
			near(fmt.Sprintf("component %d", k), vec[k], d1, tol(s1, 3e-6))
		}
	}
	// reading the result does not use it up
	if s2, _ := b.FinalizedScalarBuffer(); fmt.Sprint(s2) != fmt.Sprint(s) {
		c.Fatalf("%v: a second finalized buffer is different", q)
	}
}

func TestBuffer(t *testing.T) {
	vk.Run(t, 1500, 20000, func(c *vk.C) {
		q := rapid.SampledFrom(quantities).Draw(c.T, "q")
		var w, o [3]int
		cells, low := rapid.IntRange(5, 9).Draw(c.T, "cells"), 5
		if rapid.IntRange(0, 59).Draw(c.T, "large") == 0 {
			cells = vk.Round(c, "cells", 17, 40)
			low = cells - 8
		}
		for k := range w {
			w[k] = cells
			if rapid.Bool().Draw(c.T, "part") {
				w[k] = rapid.IntRange(low, cells).Draw(c.T, "w")
			}
			o[k] = rapid.IntRange(0, cells-1).Draw(c.T, "o")
		}
		L := sim.F(c, "L", 0.5, 200, 16)
		ref := &fd.Grid{W: w, Dx: L / float64(cells)}
		for k := range w {
			ref.Wrap[k] = w[k] == cells
		}
		seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "seed"))
		scale := math.Pow(10, float64(rapid.IntRange(-2, 4).Draw(c.T, "scale")))
		empty := rapid.IntRange(0, 4).Draw(c.T, "empty")
		c.Desc("%v: grid %v + %v of %d cells, L=%v, field %d * %g, empty %d", q, o, w, cells, L, seed, scale, empty)
		g := geom.NewGridLocation(o, w, L, cells)
		n := ref.N()
		b := density.NewBuffer(q, n, 3, g)
		if b.Quantity() != q || b.Length() != n {
			c.Fatalf("a %v buffer of length %d, want %v, %d", b.Quantity(), b.Length(), q, n)
		}
		zero := &data{s: make([]float64, n), v: make([][3]float64, n), n: make([]int, n)}
		for i := rapid.IntRange(1, 3).Draw(c.T, "rounds"); i > 0; i-- {
			check(c, b, q, zero, ref)
			if rapid.Bool().Draw(c.T, "move") { // the grid moves
				o[0] = (o[0] + 1) % cells
				L *= 2
				ref.Dx *= 2
				b.SetGridLocation(geom.NewGridLocation(o, w, L, cells))
			}
			d := fill(c, b, seed+uint64(i), scale, empty)
			check(c, b, q, d, ref)
			b.Clear()
		}
		check(c, b, q, zero, ref)
		c.NonTrivial(true)
		c.Label("%v", q)
	})
}

// A slice of a buffer is the given range of it.
func TestSlice(t *testing.T) {
	vk.Run(t, 1000, 20000, func(c *vk.C) {
		q := rapid.SampledFrom(quantities).Draw(c.T, "q")
		n := rapid.IntRange(1, 30).Draw(c.T, "n")
		lo := rapid.IntRange(0, n).Draw(c.T, "lo")
		hi := rapid.IntRange(lo, n).Draw(c.T, "hi")
		c.Desc("%v [%d:%d] of %d", q, lo, hi, n)
		b := density.NewBuffer(q, n, 3, nil)
		d := fill(c, b, uint64(n), 3, 3)
		b.Slice(lo, hi)
		if b.Length() != hi-lo {
			c.Fatalf("a slice of length %d", b.Length())
		}
		if s, ok := b.ScalarBuffer(); ok {
			if len(s) != hi-lo {
				c.Fatalf("%d values", len(s))
			}
			for i := range s {
				if s[i] != d.s[lo+i] {
					c.Fatalf("value %d is %v, not %v", i, s[i], d.s[lo+i])
				}
			}
		}
		if v, ok := b.VectorBuffer(); ok {
			num, _ := b.CountBuffer()
			if len(v) != hi-lo || len(num) != hi-lo {
				c.Fatalf("%d vectors, %d counts", len(v), len(num))
			}
			for i := range v {
				if v[i] != d.v[lo+i] || num[i] != d.n[lo+i] {
					c.Fatalf("value %d is %v, %d, not %v, %d", i, v[i], num[i], d.v[lo+i], d.n[lo+i])
				}
			}
		}
		c.NonTrivial(hi > lo && hi-lo < n)
	})
}

// Quantities: names, and what they need.
func TestQuantity(t *testing.T) {
	names := map[string]density.Quantity{"Density": density.Density,
		"DensityGradient": density.DensityGradient, "Velocity": density.Velocity,
		"VelocityDivergence": density.VelocityDivergence, "VelocityCurl": density.VelocityCurl}
	vk.Run(t, 500, 5000, func(c *vk.C) {
		q := rapid.SampledFrom(quantities).Draw(c.T, "q")
		s := q.String()
		back, ok := density.QuantityFromString(s)
		if !ok || back != q || names[s] != q {
			c.Fatalf("%d is %q, which is %v, %v", int(q), s, back, ok)
		}
		vel := q == density.Velocity || q == density.VelocityDivergence || q == density.VelocityCurl
		if q.RequiresVelocity() != vel {
			c.Fatalf("%v: RequiresVelocity %v", q, !vel)
		}
		if q.CanProject() != (q == density.Density || q == density.Velocity) {
			c.Fatalf("%v: CanProject %v", q, q.CanProject())
		}
		var other string
		switch rapid.IntRange(0, 2).Draw(c.T, "kind") {
		case 0:
			other = s + rapid.SampledFrom([]string{" ", "x", "s", "Gradient", ""}).Draw(c.T, "suffix")
		case 1:
			other = s[:rapid.IntRange(0, len(s)).Draw(c.T, "cut")]
		default:
			other = rapid.String().Draw(c.T, "name")
		}
		c.Desc("%v; %q", q, other)
		want, known := names[other]
		got, ok := density.QuantityFromString(other)
		if ok != known || known && got != want {
			c.Fatalf("%q is %v, %v", other, got, ok)
		}
		c.NonTrivial(true)
	})
}

// What the renderer puts in a buffer is what its quantity is made of: means
// of the velocities in each pixel, and the density.
func TestRendered(t *testing.T) {
	vk.Run(t, 120, 1500, func(c *vk.C) {
		q := rapid.SampledFrom(quantities).Draw(c.T, "q")
		s := sim.Draw(c, sim.Opts{Two: true, MaxW: 4, MaxS: 4, VelMode: 2, Aligned: true})
		f := rend.DrawLinear(c, s)
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := s.WriteSheets(dir)
		r := rend.DrawReq(c, s, "", 8, 14, 8)
		r.Conf.XWidth = math.Max(r.Conf.XWidth, 5*s.L/float64(r.Cells))
		r.Conf.YWidth = math.Max(r.Conf.YWidth, 5*s.L/float64(r.Cells))
		r.Conf.ZWidth = math.Max(r.Conf.ZWidth, 5*s.L/float64(r.Cells))
		if rapid.IntRange(0, 3).Draw(c.T, "project") == 0 && !q.CanProject() {
			r.Conf.ProjectionAxis = "Y" // to no effect
		}
		threads := vk.Size(c, "threads", 1, 4, 24)
		c.Desc("%v threads=%d", q, threads)
		box := rend.Render(c, s.L, files, []rend.Req{r}, q, threads, 1)[0]
		org, span := box.CellOrigin(), box.CellSpan()
		b := box.Vals()
		if b.Quantity() != q || b.Length() != span[0]*span[1]*span[2] {
			c.Fatalf("a %v buffer of %d values for %v pixels of %v", b.Quantity(), b.Length(), span, q)
		}
		ref := &fd.Grid{W: span, Dx: box.CellWidth()}
		for k := range span {
			ref.Wrap[k] = span[k] == r.Cells
		}
		d := &data{}
		d.s, _ = b.ScalarBuffer()
		d.v, _ = b.VectorBuffer()
		d.n, _ = b.CountBuffer()
		if (d.v == nil) == q.RequiresVelocity() || (d.s == nil) != q.RequiresVelocity() {
			c.Fatalf("%v is made of %d scalars, %d vectors", q, len(d.s), len(d.v))
		}
		check(c, b, q, d, ref)
		tets := s.Tets(1)
		c.Label("%v", q)
		if d.s != nil {
			total := 0.0
			lo, hi := rend.Bounds3(s, tets, r.Cells, org, span)
			for i, x := range d.s {
				if !(x >= lo[i]*(1-1e-5)-1e-9 && x <= hi[i]*(1+1e-5)+1e-9) {
					c.Fatalf("pixel %d of %v+%v holds %g, between %g and %g can be there", i, org, span, x, lo[i], hi[i])
				}
				total += x
			}
			c.NonTrivial(total > 0)
			return
		}
		vmax := 0.0
		for _, v := range s.V {
			for _, x := range v {
				vmax = math.Max(vmax, math.Abs(float64(x)))
			}
		}
		lin := f.Bounds(s, tets, r.Cells, org, span, -1)
		told := 0
		for i := range d.v {
			if d.n[i] == 0 && d.v[i] != [3]float64{} {
				c.Fatalf("pixel %d: no samples, but velocities %v", i, d.v[i])
			}
			if d.n[i] == 0 || !lin.Can[i] {
				continue
			}
			told++
			for k := range d.v[i] {
				v := d.v[i][k] / float64(d.n[i])
				if !(v >= lin.Min[i][k]-1e-4*vmax && v <= lin.Max[i][k]+1e-4*vmax) {
					c.Fatalf("pixel %d of %v+%v: mean v[%d] of %d samples is %g, the field there is in [%g, %g]",
						i, org, span, k, d.n[i], v, lin.Min[i][k], lin.Max[i][k])
				}
			}
		}
		c.NonTrivial(told > 0)
	})
}
