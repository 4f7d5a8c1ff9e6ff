// C36: derivatives of tabulated functions in Python (render/scripts/deriv.py).
package c36

import (
	"math"
	"strings"
	"testing"

	"gotetraverif/py"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func out(c *vk.C, r *py.Reply, n int) []float64 {
	if r.Error != "" {
		c.Fatalf("%s", r.Error)
	}
	a := r.Arrays["out"]
	if !a.Is(n) {
		c.Fatalf("the result has the shape %v, want [%d]", a.Shape, n)
	}
	return a.Vals()
}

// even draws n evenly spaced nodes.
func even(c *vk.C, lo, hi, big int) []float64 {
	n := vk.Size(c, "n", lo, hi, big)
	x0, dx := sim.F(c, "x0", -20, 20, 8), sim.F(c, "dx", 0.05, 4, 40)
	if rapid.Bool().Draw(c.T, "decreasing") {
		dx = -dx
	}
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = x0 + dx*float64(i)
	}
	return xs
}

// poly evaluates a polynomial of (x - the middle) / (the extent).
func poly(xs, co []float64) (ys, dys []float64, scale float64) {
	n := len(xs)
	x0, w := (xs[0]+xs[n-1])/2, math.Abs(xs[n-1]-xs[0])
	ys, dys = make([]float64, n), make([]float64, n)
	for i, x := range xs {
		u, p := (x-x0)/w, 1.0
		for q, k := range co {
			ys[i] += k * p
			if q+1 < len(co) {
				dys[i] += co[q+1] * float64(q+1) * p / w
			}
			p *= u
		}
		scale = math.Max(scale, math.Abs(ys[i]))
	}
	return ys, dys, scale
}

func coefficients(c *vk.C, order int) []float64 {
	co := make([]float64, order+1)
	for i := range co {
		co[i] = sim.F(c, "coefficient", -2, 2, 8)
	}
	return co
}

func TestVectorDeriv(t *testing.T) {
	vk.Run(t, 3000, 60000, func(c *vk.C) {
		order := 2 * rapid.IntRange(1, 2).Draw(c.T, "order/2")
		xs := even(c, order+1, order+10, 300)
		n := len(xs)
		co := coefficients(c, order)
		ys, want, scale := poly(xs, co)
		c.Desc("order %d, %d nodes from %g by %g, coefficients %v", order, n, xs[0], xs[1]-xs[0], co)
		kw := map[string]float64{"order": float64(order)}
		if order == 2 && rapid.Bool().Draw(c.T, "default") {
			kw = nil
		}
		got := out(c, py.Call(map[string][]float64{"xs": xs, "ys": ys}, kw, "vector_deriv", "xs", "ys"), n)
		dx := math.Abs(xs[1] - xs[0])
		big := math.Max(math.Abs(xs[0]), math.Abs(xs[n-1]))
		tol := 1e-13 * (scale + 10) / dx * (10 + big/dx)
		for i := range xs {
			c.Near("derivative of the polynomial", got[i], want[i], tol)
		}
		// Any values: linear, and the values far away do not matter.
		seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "values"))
		a, b := sim.F(c, "a", -3, 3, 8), sim.F(c, "b", -3, 3, 8)
		y1, y2, y3 := make([]float64, n), make([]float64, n), make([]float64, n)
		for i := range y1 {
			y1[i], y2[i] = sim.Noise(seed, i, 0), sim.Noise(seed, i, 1)
			y3[i] = a*y1[i] + b*y2[i]
		}
		k := rapid.IntRange(0, n-1).Draw(c.T, "changed")
		y4 := append([]float64{}, y1...)
		y4[k] += 5
		ask := func(ys []float64) []float64 {
			return out(c, py.Call(map[string][]float64{"xs": xs, "ys": ys}, kw, "vector_deriv", "xs", "ys"), n)
		}
		d1, d2, d3, d4 := ask(y1), ask(y2), ask(y3), ask(y4)
		for i := range xs {
			c.Near("derivative of a sum", d3[i], a*d1[i]+b*d2[i], 1e-11/dx)
			// At the ends the stencil is one-sided.
			reach := order / 2
			if i < order/2 || i >= n-order/2 {
				reach = order
			}
			if abs(i-k) > reach && math.Abs(d1[i]-d4[i]) > 1e-9/dx {
				c.Fatalf("value %d changes the derivative at %d", k, i)
			}
		}
		c.NonTrivial(n > order+1)
	})
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// Wherever the nodes are, slopes of second order are those between the
// neighbours.
func TestUneven(t *testing.T) {
	vk.Run(t, 800, 20000, func(c *vk.C) {
		n := vk.Size(c, "n", 3, 14, 200)
		xs, ys := make([]float64, n), make([]float64, n)
		x := sim.F(c, "x0", -20, 20, 8)
		for i := range xs {
			xs[i], ys[i] = x, sim.F(c, "y", -9, 9, 8)
			x += sim.F(c, "dx", 0.1, 3, 10)
		}
		c.Desc("xs %v ys %v", xs, ys)
		got := out(c, py.Call(map[string][]float64{"xs": xs, "ys": ys}, nil, "vector_deriv", "xs", "ys"), n)
		for i := 1; i+1 < n; i++ {
			c.Near("slope", got[i], (ys[i+1]-ys[i-1])/(xs[i+1]-xs[i-1]), 1e-10)
		}
		c.NonTrivial(n > 3)
	})
}

func TestRefused(t *testing.T) {
	vk.Run(t, 200, 3000, func(c *vk.C) {
		xs := even(c, 5, 20, 50)
		ys := append([]float64{}, xs...)
		order := float64(rapid.SampledFrom([]int{0, 1, 3, 5, 6, 8, -2, 2, 4}).Draw(c.T, "order"))
		if order == 2 || order == 4 {
			if rapid.Bool().Draw(c.T, "longer") {
				ys = append(ys, 1)
			} else {
				ys = ys[:rapid.IntRange(0, len(ys)-1).Draw(c.T, "shorter")]
			}
		}
		c.Desc("order %g, %d nodes, %d values", order, len(xs), len(ys))
		r := py.Call(map[string][]float64{"xs": xs, "ys": ys}, map[string]float64{"order": order}, "vector_deriv", "xs", "ys")
		if !strings.HasPrefix(r.Error, "ValueError") {
			c.Fatalf("accepted, or failed otherwise: %q", r.Error)
		}
		c.NonTrivial(true)
	})
}

func TestSpline(t *testing.T) {
	vk.Run(t, 500, 10000, func(c *vk.C) {
		n := vk.Size(c, "n", 5, 14, 100)
		xs := make([]float64, n)
		x := sim.F(c, "x0", -20, 20, 8)
		for i := range xs {
			xs[i] = x
			x += sim.F(c, "dx", 0.5, 2, 10)
		}
		co := coefficients(c, 3)
		ys, want, scale := poly(xs, co)
		c.Desc("xs %v, cubic %v", xs, co)
		got := out(c, py.Call(map[string][]float64{"xs": xs, "ys": ys}, map[string]float64{"s": 0}, "spline_deriv", "xs", "ys"), n)
		for i := range xs {
			c.Near("derivative of the cubic", got[i], want[i], 1e-8*(1+scale))
		}
		c.NonTrivial(true)
	})
}

// y = A x^k exp(m x): its derivatives in each of the forms convert into each
// other.
func TestConversions(t *testing.T) {
	vk.Run(t, 1500, 30000, func(c *vk.C) {
		n := vk.Size(c, "n", 1, 12, 100)
		A, k, m := sim.F(c, "A", 0.1, 9, 8), sim.F(c, "k", -3, 3, 8), sim.F(c, "m", -1, 1, 8)
		base := 0.0
		kw := map[string]float64{}
		if rapid.Bool().Draw(c.T, "with base") {
			base = sim.F(c, "base", 1.5, 12, 4)
			if rapid.Bool().Draw(c.T, "10") {
				base = 10
			} else if rapid.IntRange(0, 3).Draw(c.T, "below one") == 0 {
				base = 1 / base
			}
			kw["base"] = base
		}
		lb := 1.0
		if base != 0 {
			lb = math.Log(base)
		}
		as := map[string][]float64{}
		for i := 0; i < n; i++ {
			x := sim.F(c, "x", 0.05, 9, 40)
			y := A * math.Pow(x, k) * math.Exp(m*x)
			s := k + m*x // d ln y / d ln x
			for name, v := range map[string]float64{
				"x": x, "y": y, "lx": math.Log(x) / lb, "ly": math.Log(y) / lb,
				"dydx": s * y / x, "dlydlx": s, "dydlx": s * y * lb,
			} {
				as[name] = append(as[name], v)
			}
		}
		c.Desc("y = %g x^%g exp(%g x), base %g, x %v", A, k, m, base, as["x"])
		for _, t := range []struct {
			names []string
			want  string
		}{
			{[]string{"log_to_linear", "lx", "ly", "dlydlx"}, "dydx"},
			{[]string{"linear_to_log", "x", "y", "dydx"}, "dlydlx"},
			{[]string{"linear_to_log_base", "x", "dydx"}, "dydlx"},
			{[]string{"log_to_linear_base", "lx", "dydlx"}, "dydx"},
		} {
			got := out(c, py.Call(as, kw, t.names...), n)
			for i, want := range as[t.want] {
				c.Near(t.names[0], got[i], want, 1e-9*(1+math.Abs(want)))
			}
		}
		c.NonTrivial(true)
	})
}

// The interpolant is the line through the logarithms that fits best with
// Gaussian weights about the point.
func TestChurazov(t *testing.T) {
	vk.Run(t, 1200, 25000, func(c *vk.C) {
		n := vk.Size(c, "n", 3, 15, 120)
		xs, ys := make([]float64, n), make([]float64, n)
		lx := sim.F(c, "lx0", -3, 2, 8)
		power := rapid.IntRange(0, 2).Draw(c.T, "power law") == 0
		k, A := sim.F(c, "k", -4, 4, 8), sim.F(c, "A", 0.1, 9, 8)
		for i := range xs {
			xs[i] = math.Exp(lx)
			ys[i] = A * math.Pow(xs[i], k)
			if !power {
				ys[i] *= math.Exp(sim.F(c, "wiggle", -1, 1, 16))
			}
			lx += sim.F(c, "dlx", 0.05, 0.6, 40)
		}
		width := 0.3
		kw := map[string]float64{}
		if rapid.Bool().Draw(c.T, "with width") {
			width = sim.F(c, "delta_r", 0.2, 1.5, 16)
			kw["delta_r"] = width
		}
		at := make([]float64, rapid.IntRange(1, 4).Draw(c.T, "points"))
		want, slope, tol := make([]float64, len(at)), make([]float64, len(at)), make([]float64, len(at))
		for j := range at {
			i := rapid.IntRange(0, n-2).Draw(c.T, "cell")
			f := sim.F(c, "within", 0, 1, 8)
			l0 := math.Log(xs[i])*(1-f) + math.Log(xs[i+1])*f
			at[j] = math.Exp(l0)
			var w, mx, my float64
			ws := make([]float64, n)
			for i := range xs {
				d := math.Log(xs[i]) - math.Log(at[j])
				ws[i] = math.Exp(-d * d / (2 * width * width))
				w += ws[i]
				mx += ws[i] * math.Log(xs[i])
				my += ws[i] * math.Log(ys[i])
			}
			mx, my = mx/w, my/w
			var xx, xy, raw float64
			for i := range xs {
				dx := math.Log(xs[i]) - mx
				xx += ws[i] * dx * dx
				xy += ws[i] * dx * (math.Log(ys[i]) - my)
				raw += ws[i] * math.Log(xs[i]) * math.Log(xs[i])
			}
			slope[j] = xy / xx
			want[j] = math.Exp(my + slope[j]*(math.Log(at[j])-mx))
			tol[j] = 1e-11 * (10 + math.Abs(my)) * (10 + raw/xx)
			if power {
				slope[j], want[j] = k, A*math.Pow(at[j], k)
			}
		}
		c.Desc("xs %v ys %v width %g at %v", xs, ys, width, at)
		as := map[string][]float64{"xs": xs, "ys": ys, "at": at}
		curve := out(c, py.Call(as, kw, "churazov.curve"), len(at))
		ld := out(c, py.Call(as, kw, "churazov.log_deriv"), len(at))
		d := out(c, py.Call(as, kw, "churazov.deriv"), len(at))
		for j := range at {
			c.Near("curve", curve[j]/want[j], 1, tol[j]*10)
			c.Near("log_deriv", ld[j], slope[j], tol[j]*10)
			s := want[j] / at[j]
			c.Near("deriv", d[j]/s, slope[j], tol[j]*100*(1+math.Abs(slope[j])))
		}
		c.LabelIf(power, "power law")
		c.NonTrivial(!power || n > 3)
	})
}
