// C31: derivatives of tabulated functions.
package c31

import (
	"fmt"
	"math"
	"testing"

	"github.com/phil-mansfield/gotetra/math/calc"
	"gotetraverif/interp"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func deriv(c *vk.C, xs, ys []float64, order int) []float64 {
	wx, wy := append([]float64{}, xs...), append([]float64{}, ys...)
	var out []float64
	if rapid.Bool().Draw(c.T, "output given") {
		buf := make([]float64, len(xs))
		for i := range buf {
			buf[i] = 1e9
		}
		out = calc.Deriv(xs, ys, order, calc.Out(buf))
		if len(out) != len(buf) || &out[0] != &buf[0] {
			c.Fatalf("the output given was not used")
		}
	} else {
		out = calc.Deriv(xs, ys, order)
	}
	if len(out) != len(xs) {
		c.Fatalf("%d derivatives at %d points", len(out), len(xs))
	}
	for i := range xs {
		if xs[i] != wx[i] || ys[i] != wy[i] {
			c.Fatalf("point %d was changed", i)
		}
	}
	// The result is the caller's, who may change the table.
	got := append([]float64{}, out...)
	for i := range xs {
		xs[i], ys[i] = -1e9, 1e9
	}
	for i := range out {
		if math.Float64bits(out[i]) != math.Float64bits(got[i]) {
			c.Fatalf("derivative %d changes with the table it was made from", i)
		}
	}
	copy(xs, wx)
	copy(ys, wy)
	return out
}

func TestDeriv(t *testing.T) {
	vk.Run(t, 5000, 200000, func(c *vk.C) {
		order := 2 * rapid.IntRange(0, 2).Draw(c.T, "order/2")
		a := interp.DrawAxis(c, "x", order+1, order+12)
		xs, n := a.Xs, len(a.Xs)
		min, max := interp.Gaps(xs)
		if max > 30*min { // keep the stencils well-conditioned
			for i := range xs {
				xs[i] = a.X0 + min*float64(i)*float64(1+i%2)
			}
			for i := 1; i < n; i++ {
				xs[i] = xs[i-1] + min*float64(1+i%3)
			}
		}
		// A polynomial of the order of the stencil at most, around the middle.
		co := make([]float64, order+1)
		scale := 0.0
		for i := range co {
			co[i] = sim.F(c, "coefficient", -2, 2, 8)
		}
		x0, w := (xs[0]+xs[n-1])/2, math.Abs(xs[n-1]-xs[0])
		if w == 0 {
			w = 1
		}
		ys, want := make([]float64, n), make([]float64, n)
		for i := range xs {
			u := (xs[i] - x0) / w
			p := 1.0
			for q, k := range co {
				ys[i] += k * p
				if q+1 < len(co) {
					want[i] += co[q+1] * float64(q+1) * p / w
				}
				p *= u
			}
			scale = math.Max(scale, math.Abs(ys[i]))
		}
		c.Desc("order %d; xs %v; ys %v", order, xs, ys)
		c.Label("order %d", order)
		_, h := interp.Gaps(xs)
		min, _ = interp.Gaps(xs)
		even := h-min < 1e-6*h
		c.LabelIf(!even, "uneven points")
		got := deriv(c, xs, ys, order)
		if order == 0 {
			for i := range got {
				if got[i] != ys[i] {
					c.Fatalf("order 0: value %d is %g, was %g", i, got[i], ys[i])
				}
			}
			c.NonTrivial(true)
			return
		}
		ratio := h / min
		tol := 200 * (interp.Err(xs) + 1e-15) * (scale + 1) / min * ratio * ratio * ratio * ratio
		for i := range got {
			c.Near(fmt.Sprintf("order %d: derivative %d", order, i), got[i], want[i], tol)
		}
		// Linear in the values.
		ys2, f := interp.DrawVals(c, "ys2", n), sim.F(c, "factor", -3, 3, 12)
		c.Desc("plus %g times %v", f, ys2)
		sum := make([]float64, n)
		for i := range sum {
			sum[i] = ys[i] + f*ys2[i]
		}
		d2 := deriv(c, xs, ys2, order)
		ds := deriv(c, xs, sum, order)
		tol *= 1 + 4*interp.MaxAbs(ys2)/(scale+1)
		for i := range ds {
			c.Near(fmt.Sprintf("order %d: derivative %d of a sum", order, i), ds[i], got[i]+f*d2[i], tol)
		}
		c.NonTrivial(true)
	})
}

func TestRefused(t *testing.T) {
	vk.Run(t, 200, 2000, func(c *vk.C) {
		n := rapid.IntRange(6, 12).Draw(c.T, "n")
		m := rapid.IntRange(1, 12).Draw(c.T, "m")
		order := rapid.SampledFrom([]int{1, 3, 5, 6, 8, -2}).Draw(c.T, "order")
		if m == n {
			m++
		}
		c.Desc("%d, %d points, order %d", n, m, order)
		xs, ys := make([]float64, n), make([]float64, m)
		for i := range xs {
			xs[i] = float64(i)
		}
		for what, f := range map[string]func(){
			"different numbers of xs and ys": func() { calc.Deriv(xs, ys, 2) },
			"an output of another length":    func() { calc.Deriv(xs, xs, 2, calc.Out(ys)) },
			"order":                          func() { calc.Deriv(xs, xs, order) },
		} {
			if vk.Panics(f) == nil {
				c.Fatalf("no complaint about %s", what)
			}
		}
		c.NonTrivial(true)
	})
}
