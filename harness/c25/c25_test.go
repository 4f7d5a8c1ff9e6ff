// C25: smoothing kernels.
package c25

import (
	"fmt"
	"math"
	"testing"

	"github.com/phil-mansfield/gotetra/math/interpolate"
	"gotetraverif/interp"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

var bounds = []interpolate.BoundaryCondition{
	interpolate.Periodic, interpolate.Reflection, interpolate.ZeroPad, interpolate.Extension,
}
var names = []string{"periodic", "reflection", "zero padding", "extension"}

// beyond is the value of the series at any index within one length of it.
func beyond(xs []float64, b, i int) float64 {
	n := len(xs)
	if i >= 0 && i < n {
		return xs[i]
	}
	switch b {
	case 0:
		return xs[(i+n)%n]
	case 1: // the ends are repeated
		if i < 0 {
			return xs[-1-i]
		}
		return xs[2*n-1-i]
	case 2:
		return 0
	}
	if i < 0 {
		return xs[0]
	}
	return xs[n-1]
}

// kernel is a generated kernel and what it should be.
type kernel struct {
	k     *interpolate.Kernel
	width int
	cs    []float64 // the weights, found from its response to an impulse
}

// weights are those of the kernel, read off from the middle of a long series.
func weights(k *interpolate.Kernel, width int) []float64 {
	n := 4*width + 3
	xs := make([]float64, n)
	m := n / 2
	xs[m] = 1
	out := k.Convolve(xs, interpolate.ZeroPad)
	cs := make([]float64, width)
	for j := range cs {
		// index i sees the impulse at offset m-i
		cs[j] = out[m-(j-width/2)]
	}
	return cs
}

func pow(x float64, n int) float64 {
	p := 1.0
	for ; n > 0; n-- {
		p *= x
	}
	return p
}

// moments checks sum cs[j] j^q against the derivative of order d at zero of
// x^q, for steps of dx.
func moments(c *vk.C, what string, cs []float64, dx float64, d, max int, tol float64) {
	n := len(cs) / 2
	for q := 0; q <= max; q++ {
		sum := 0.0
		for j := range cs {
			sum += cs[j] * pow(float64(j-n)*dx, q)
		}
		scale := interp.MaxAbs(cs) * float64(len(cs)) * pow(float64(n)*dx, q)
		want := 0.0
		if q == d {
			want = 1
			for i := 2; i <= q; i++ {
				want *= float64(i)
			}
		}
		c.Near(fmt.Sprintf("%s: result for x^%d", what, q), sum, want, tol*(scale+want))
	}
}

func drawKernel(c *vk.C) kernel {
	width := 2*vk.Size(c, "half width", 0, 9, 60) + 1
	k := kernel{width: width}
	switch rapid.IntRange(0, 4).Draw(c.T, "kernel") {
	case 0:
		k.k = interpolate.NewTophatKernel(width)
		k.cs = weights(k.k, width)
		c.Desc("top-hat of width %d", width)
		for j, x := range k.cs {
			c.Near(fmt.Sprintf("top-hat: weight %d", j), x, 1/float64(width), 1e-14)
		}
	case 1:
		dx := sim.F(c, "dx", 0.05, 5, 99)
		sigma := dx * sim.F(c, "sigma", 0.2, 20, 99)
		k.k = interpolate.NewGaussianKernel(width, sigma, dx)
		k.cs = weights(k.k, width)
		c.Desc("Gaussian of width %d, sigma %g, dx %g", width, sigma, dx)
		sum, want := 0.0, make([]float64, width)
		for j := range want {
			x := float64(j-width/2) * dx / sigma
			want[j] = math.Exp(-x * x / 2)
			sum += want[j]
		}
		for j, x := range k.cs {
			c.Near(fmt.Sprintf("Gaussian: weight %d", j), x, want[j]/sum, 1e-13)
		}
	case 2, 3:
		order := rapid.IntRange(0, 6).Draw(c.T, "order")
		if order >= width {
			order = width - 1
		}
		k.k = interpolate.NewSavGolKernel(order, width)
		k.cs = weights(k.k, width)
		c.Desc("Savitzky-Golay of order %d, width %d", order, width)
		moments(c, "Savitzky-Golay", k.cs, 1, 0, order, 1e-7)
		leastSquares(c, k.cs, order, 0, 1)
		c.Label("Savitzky-Golay")
	default:
		order := rapid.IntRange(0, 6).Draw(c.T, "order")
		if order >= width {
			order = width - 1
		}
		d := rapid.IntRange(0, order).Draw(c.T, "derivative")
		dx := sim.F(c, "dx", 0.05, 5, 99)
		k.k = interpolate.NewSavGolDerivKernel(dx, d, order, width)
		k.cs = weights(k.k, width)
		c.Desc("derivative %d of Savitzky-Golay of order %d, width %d, dx %g", d, order, width, dx)
		moments(c, "derivative", k.cs, dx, d, order, 1e-7)
		leastSquares(c, k.cs, order, d, dx)
		c.Label("Savitzky-Golay derivative")
	}
	return k
}

// leastSquares: the weights are those of a least-squares fit, which are
// themselves polynomials of the index of at most that order (the unique ones
// with the right moments). Their differences of order+1 vanish.
func leastSquares(c *vk.C, cs []float64, order, d int, dx float64) {
	diff := append([]float64{}, cs...)
	for q := 0; q <= order; q++ {
		for j := 0; j+1 < len(diff); j++ {
			diff[j] = diff[j+1] - diff[j]
		}
		diff = diff[:len(diff)-1]
	}
	for j := range diff {
		c.Near(fmt.Sprintf("weights are a polynomial: difference %d", j), diff[j], 0, 1e-6*interp.MaxAbs(cs))
	}
}

func TestKernels(t *testing.T) {
	vk.Run(t, 4000, 200000, func(c *vk.C) {
		k := drawKernel(c)
		n := k.width + vk.Size(c, "more", 0, 25, 600)
		xs := interp.DrawVals(c, "series", n)
		c.Desc("series %v", xs)
		was := append([]float64{}, xs...)
		for i := rapid.IntRange(1, 3).Draw(c.T, "convolutions"); i > 0; i-- {
			b := rapid.IntRange(0, 3).Draw(c.T, "boundary")
			c.Desc("%s", names[b])
			var out []float64
			if rapid.Bool().Draw(c.T, "output given") {
				out = make([]float64, n)
				for i := range out {
					out[i] = 1e9
				}
				k.k.ConvolveAt(xs, bounds[b], out)
			} else {
				out = k.k.Convolve(xs, bounds[b])
			}
			if len(out) != n {
				c.Fatalf("%d values became %d", n, len(out))
			}
			for i := range out {
				sum, scale := 0.0, 0.0
				for j, w := range k.cs {
					t := w * beyond(xs, b, i+j-k.width/2)
					sum += t
					scale += math.Abs(t)
				}
				c.Near(fmt.Sprintf("%s: index %d", names[b], i), out[i], sum, 1e-13*scale)
			}
			for i := range xs {
				if xs[i] != was[i] {
					c.Fatalf("value %d of the series was changed", i)
				}
			}
			// The rule on its own.
			idx := rapid.IntRange(-n, 2*n-1).Draw(c.T, "index")
			if got, want := bounds[b].Get(xs, idx), beyond(xs, b, idx); got != want {
				c.Fatalf("%s: index %d of %v is %g, want %g", names[b], idx, xs, got, want)
			}
		}
		c.LabelIf(n == k.width, "as long as the window")
		c.NonTrivial(k.width > 1)
	})
}

// A polynomial is left alone, or differentiated, away from the ends.
func TestPolynomials(t *testing.T) {
	vk.Run(t, 1500, 60000, func(c *vk.C) {
		width := 2*rapid.IntRange(1, 10).Draw(c.T, "half width") + 1
		order := rapid.IntRange(0, 5).Draw(c.T, "order")
		if order >= width {
			order = width - 1
		}
		d := rapid.IntRange(0, order).Draw(c.T, "derivative")
		dx := sim.F(c, "dx", 0.1, 3, 29)
		n := width + rapid.IntRange(0, 10).Draw(c.T, "more")
		co := make([]float64, order+1)
		for i := range co {
			co[i] = sim.F(c, "coefficient", -2, 2, 8)
		}
		c.Desc("derivative %d, order %d, width %d, dx %g, polynomial %v", d, order, width, dx, co)
		x0 := -dx * float64(n) / 2
		xs, want := make([]float64, n), make([]float64, n)
		scale := 0.0
		for i := range xs {
			x := x0 + dx*float64(i)
			for q, a := range co {
				xs[i] += a * pow(x, q)
				if q >= d {
					f := a
					for j := q; j > q-d; j-- {
						f *= float64(j)
					}
					want[i] += f * pow(x, q-d)
				}
			}
			scale = math.Max(scale, math.Abs(xs[i]))
		}
		k := interpolate.NewSavGolDerivKernel(dx, d, order, width)
		if d == 0 && rapid.Bool().Draw(c.T, "smoothing") {
			k = interpolate.NewSavGolKernel(order, width)
		}
		sum := 0.0
		for _, w := range weights(k, width) {
			sum += math.Abs(w)
		}
		out := k.Convolve(xs, bounds[rapid.IntRange(0, 3).Draw(c.T, "boundary")])
		for i := width / 2; i < n-width/2; i++ {
			c.Near(fmt.Sprintf("index %d", i), out[i], want[i], 1e-7*scale*sum+1e-9*math.Abs(want[i]))
		}
		c.NonTrivial(order > 0)
	})
}

// Windows that have no centre or fit no polynomial are refused.
func TestRefused(t *testing.T) {
	vk.Run(t, 300, 3000, func(c *vk.C) {
		w := rapid.IntRange(1, 20).Draw(c.T, "half") * 2
		order := rapid.IntRange(0, w-1).Draw(c.T, "order")
		odd := w - 1
		big := rapid.IntRange(odd, odd+5).Draw(c.T, "too big")
		c.Desc("width %d; order %d, %d", w, order, big)
		for what, f := range map[string]func(){
			"even top-hat":                       func() { interpolate.NewTophatKernel(w) },
			"even Gaussian":                      func() { interpolate.NewGaussianKernel(w, 1, 1) },
			"even Savitzky-Golay":                func() { interpolate.NewSavGolKernel(order, w) },
			"even derivative":                    func() { interpolate.NewSavGolDerivKernel(1, 0, order, w) },
			"narrow Savitzky-Golay":              func() { interpolate.NewSavGolKernel(big, odd) },
			"narrow derivative":                  func() { interpolate.NewSavGolDerivKernel(1, 0, big, odd) },
			"derivative beyond the polynomial's": func() { interpolate.NewSavGolDerivKernel(1, order+1, order, w+1) },
		} {
			if vk.Panics(f) == nil {
				c.Fatalf("%s was accepted", what)
			}
		}
		c.NonTrivial(true)
	})
}
