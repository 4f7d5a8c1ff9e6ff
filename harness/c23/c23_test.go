// C23: natural cubic splines and the tridiagonal solver behind them.
package c23

import (
	"fmt"
	"math"
	"testing"

	"github.com/phil-mansfield/gotetra/math/interpolate"
	"gotetraverif/interp"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// pieces are the cells whose polynomial may be used at x: two at a node.
func pieces(xs []float64, x float64) []int {
	i, t := interp.Locate(xs, x)
	out := []int{i}
	eps := interp.Err(xs)
	if t <= eps && i > 0 {
		out = append(out, i-1)
	}
	if t >= 1-eps && i < len(xs)-2 {
		out = append(out, i+1)
	}
	return out
}

// span draws limits of an integral: often nodes or within the same cell.
func span(c *vk.C, xs []float64) (lo, hi float64) {
	lo = interp.DrawX(c, "lo", xs)
	if rapid.IntRange(0, 2).Draw(c.T, "same cell") == 0 {
		i, _ := interp.Locate(xs, lo)
		hi = xs[i] + sim.F(c, "t", 0, 1, 1000)*(xs[i+1]-xs[i])
		// not past the node by rounding
		a, b := math.Min(xs[i], xs[i+1]), math.Max(xs[i], xs[i+1])
		return lo, math.Min(math.Max(hi, a), b)
	}
	return lo, interp.DrawX(c, "hi", xs)
}

func TestSpline(t *testing.T) {
	vk.Run(t, 4000, 200000, func(c *vk.C) {
		a := interp.DrawAxis(c, "x", 2, 24)
		xs, n := a.Xs, len(a.Xs)
		ys := interp.DrawVals(c, "y", n)
		line := rapid.IntRange(0, 5).Draw(c.T, "line") == 0
		var y0, slope float64
		if line {
			y0, slope = sim.F(c, "y0", -5, 5, 20), sim.F(c, "slope", -5, 5, 20)
			for i := range ys {
				ys[i] = y0 + slope*(xs[i]-xs[0])
			}
			c.Label("straight line")
		}
		c.Desc("xs %v; ys %v", xs, ys)
		c.LabelIf(!a.Incr, "falling nodes")
		c.LabelIf(n == 2, "two nodes")

		sp := interpolate.NewSpline(xs, ys)
		if rapid.IntRange(0, 3).Draw(c.T, "reinit") == 0 {
			// Start from other tables of the same length instead.
			b := interp.DrawAxis(c, "x'", n, n)
			sp = interpolate.NewSpline(b.Xs, interp.DrawVals(c, "y'", n))
			for i := rapid.IntRange(0, 2).Draw(c.T, "evals"); i > 0; i-- {
				sp.Eval(interp.DrawX(c, "x'", b.Xs))
			}
			sp.Init(xs, ys)
			c.Label("reinitialised")
		}
		ref := interp.NewSpline(xs, ys)
		tol := func(order int) float64 {
			return 40 * (interp.Err(xs) + 1e-15*float64(n)) * ref.Scale(order)
		}

		for i, x := range xs {
			c.Near(fmt.Sprintf("value at node %d", i), sp.Eval(x), ys[i], tol(0))
		}
		curved := false
		var at []float64
		for k := rapid.IntRange(1, 6).Draw(c.T, "points"); k > 0; k-- {
			x := interp.DrawX(c, "x", xs)
			at = append(at, x)
			c.Desc("at %.17g", x)
			cells := pieces(xs, x)
			c.Near("value", sp.Eval(x), ref.Deriv(cells[0], x, 0), tol(0))
			if line {
				c.Near("value on a straight line", sp.Eval(x), y0+slope*(x-xs[0]), tol(0))
			}
			curved = curved || math.Abs(ref.Deriv(cells[0], x, 2)) > 1e-6*ref.Scale(2)
			for order := 0; order <= 5; order++ {
				got, best := sp.Deriv(x, order), math.Inf(1)
				want := 0.0
				for _, i := range cells {
					w := ref.Deriv(i, x, order)
					if d := math.Abs(got - w); d < best {
						best, want = d, w
					}
				}
				c.Near(fmt.Sprintf("derivative %d", order), got, want, tol(order))
			}
		}
		// The two sides of an inner node, and the ends, judged without the
		// reference.
		if n > 2 {
			i := rapid.IntRange(1, n-2).Draw(c.T, "inner node")
			hl, hr := xs[i]-xs[i-1], xs[i+1]-xs[i]
			xl, xr := xs[i]-0.25*hl, xs[i]+0.25*hr
			side := func(x float64, order int) float64 { // Taylor, exact for a cubic
				d, sum, f := xs[i]-x, 0.0, 1.0
				for k := order; k <= 3; k++ {
					sum += sp.Deriv(x, k) * f
					f *= d / float64(k-order+1)
				}
				return sum
			}
			for order := 0; order <= 2; order++ {
				c.Near(fmt.Sprintf("jump of derivative %d at node %d", order, i),
					side(xl, order)-side(xr, order), 0, 4*tol(order))
			}
		}
		c.Near("second derivative at the first node", sp.Deriv(xs[0], 2), 0, tol(2))
		c.Near("second derivative at the last node", sp.Deriv(xs[n-1], 2), 0, tol(2))

		// Integrals.
		_, h := interp.Gaps(xs)
		itol := tol(0) * h * float64(n)
		lo, hi := span(c, xs)
		mid := interp.DrawX(c, "mid", xs)
		c.Desc("integral from %.17g to %.17g, by way of %.17g", lo, hi, mid)
		got := sp.Integrate(lo, hi)
		c.Near("integral", got, ref.Integral(hi)-ref.Integral(lo), itol)
		c.Near("integral with the limits exchanged", sp.Integrate(hi, lo), -got, itol)
		c.Near("integral in two parts", sp.Integrate(lo, mid)+sp.Integrate(mid, hi), got, itol)
		c.Near("empty integral", sp.Integrate(mid, mid), 0, itol)

		// Many at once.
		given := rapid.Bool().Draw(c.T, "output given")
		buf := make([]float64, len(at))
		var outs [][]float64
		if given {
			outs = [][]float64{buf}
		}
		var all interpolate.Interpolator = sp
		if rapid.Bool().Draw(c.T, "interface") {
			all = interpolate.NewSplineInterpolator(xs, ys)
		}
		res := all.EvalAll(at, outs...)
		if len(res) != len(at) || (given && &res[0] != &buf[0]) {
			c.Fatalf("evaluating %d points gave %d values (output given: %v)", len(at), len(res), given)
		}
		for i := range at {
			c.Near("value in a batch", res[i], ref.Eval(at[i]), tol(0))
		}

		// Outside of the nodes.
		out := math.Max(xs[0], xs[n-1]) + h*sim.F(c, "beyond", 0.01, 3, 300)
		if rapid.Bool().Draw(c.T, "below") {
			out = math.Min(xs[0], xs[n-1]) - h*sim.F(c, "beyond", 0.01, 3, 300)
		}
		for what, f := range map[string]func(){
			"Eval":           func() { sp.Eval(out) },
			"Deriv":          func() { sp.Deriv(out, 1) },
			"Integrate to":   func() { sp.Integrate(mid, out) },
			"Integrate from": func() { sp.Integrate(out, mid) },
		} {
			if vk.Panics(f) == nil {
				c.Fatalf("%s: no complaint about %g, outside of the nodes", what, out)
			}
		}
		c.NonTrivial(curved)
	})
}

func TestTriDiag(t *testing.T) {
	vk.Run(t, 3000, 200000, func(c *vk.C) {
		n := vk.Size(c, "n", 1, 30, 400)
		as, bs, cs, rs := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
		for i := 0; i < n; i++ {
			as[i], cs[i] = sim.F(c, "a", -2, 2, 40), sim.F(c, "c", -2, 2, 40)
			bs[i] = (math.Abs(as[i]) + math.Abs(cs[i]) + sim.F(c, "b", 0.1, 3, 29)) *
				float64(1-2*rapid.IntRange(0, 1).Draw(c.T, "sign"))
			rs[i] = sim.F(c, "r", -10, 10, 200)
		}
		c.Desc("below %v; diagonal %v; above %v; right side %v", as, bs, cs, rs)
		was := [][]float64{append([]float64{}, as...), append([]float64{}, bs...),
			append([]float64{}, cs...), append([]float64{}, rs...)}
		var got []float64
		if rapid.Bool().Draw(c.T, "output given") {
			got = make([]float64, n)
			for i := range got {
				got[i] = 7
			}
			interpolate.TriDiagAt(as, bs, cs, rs, got)
		} else {
			got = interpolate.TriDiag(as, bs, cs, rs)
		}
		for i, x := range [][]float64{as, bs, cs, rs} {
			for k := range x {
				if x[k] != was[i][k] {
					c.Fatalf("argument %d was changed", i)
				}
			}
		}
		for i := range rs {
			sum, scale := bs[i]*got[i], math.Abs(bs[i]*got[i])+math.Abs(rs[i])
			if i > 0 {
				sum += as[i] * got[i-1]
				scale += math.Abs(as[i] * got[i-1])
			}
			if i < n-1 {
				sum += cs[i] * got[i+1]
				scale += math.Abs(cs[i] * got[i+1])
			}
			c.Near(fmt.Sprintf("row %d", i), sum, rs[i], 1e-11*(scale+interp.MaxAbs(rs)))
		}
		c.NonTrivial(n > 1)
	})
}

// Tables which are no functions of sorted nodes, and systems without a
// solution, are refused.
func TestRefused(t *testing.T) {
	vk.Run(t, 500, 5000, func(c *vk.C) {
		n := vk.Size(c, "n", 3, 12, 60)
		xs, ys := make([]float64, n), make([]float64, n)
		x := sim.F(c, "x0", -5, 5, 16)
		for i := range xs {
			xs[i], ys[i] = x, sim.F(c, "y", -5, 5, 16)
			x += sim.F(c, "dx", 0.1, 2, 19)
		}
		if rapid.Bool().Draw(c.T, "falling") {
			for i := range xs {
				xs[i] = -xs[i]
			}
		}
		d := rapid.IntRange(1, n-1).Draw(c.T, "difference")
		i := rapid.IntRange(0, n-2).Draw(c.T, "exchanged")
		mixed := append([]float64{}, xs...)
		mixed[i], mixed[i+1] = mixed[i+1], mixed[i]
		longer := append(append([]float64{}, xs...), make([]float64, d)...)
		for j := n; j < len(longer); j++ {
			longer[j] = longer[j-1] + (xs[n-1] - xs[n-2])
		}
		c.Desc("nodes %v, values %v; exchanged %d; %d more or less", xs, ys, i, d)
		sp := interpolate.NewSpline(xs, ys)
		// n equations, one of the arrays longer.
		sys := func(k int) func() {
			a := make([][]float64, 5)
			for j := range a {
				a[j] = make([]float64, n)
				if j == k {
					a[j] = make([]float64, n+d)
				}
			}
			for j := range a[1] {
				a[1][j] = 1
			}
			return func() { interpolate.TriDiagAt(a[0], a[1], a[2], a[3], a[4]) }
		}
		// Equations j and j+1 say that the same sum is 1 and 2.
		j := rapid.IntRange(0, n-2).Draw(c.T, "contradiction")
		as, bs, cs, rs := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
		for i := range bs {
			bs[i], rs[i] = 1, 1
		}
		cs[j], as[j+1], rs[j+1] = 1, 1, 2
		refused := map[string]func(){
			"more nodes than values":           func() { interpolate.NewSpline(longer, ys) },
			"more values than nodes":           func() { interpolate.NewSpline(xs, longer) },
			"a single node":                    func() { interpolate.NewSpline(xs[:1], ys[:1]) },
			"no nodes":                         func() { interpolate.NewSpline(nil, nil) },
			"unsorted nodes":                   func() { interpolate.NewSpline(mixed, ys) },
			"Init with more nodes":             func() { sp.Init(longer, longer) },
			"Init with fewer nodes":            func() { sp.Init(xs[:n-d], ys[:n-d]) },
			"Init with unsorted nodes":         func() { sp.Init(mixed, ys) },
			"contradicting equations":          func() { interpolate.TriDiag(as, bs, cs, rs) },
			"an equation without coefficients": func() { interpolate.TriDiag([]float64{0}, []float64{0}, []float64{0}, []float64{1}) },
		}
		for k := 0; k < 5; k++ {
			refused[fmt.Sprintf("a system whose array %d is longer", k)] = sys(k)
		}
		for what, f := range refused {
			if vk.Panics(f) == nil {
				c.Fatalf("no complaint about %s", what)
			}
		}
		c.NonTrivial(true)
	})
}
