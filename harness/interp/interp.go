// Package interp has the reference calculations and the generators shared by
// the checks of interpolation: tables, nodes, natural cubic splines.
package interp

import (
	"math"
	"sort"

	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Axis is a generated set of nodes.
type Axis struct {
	Xs     []float64
	Unif   bool // built from x0, dx by the uniform constructors
	X0, Dx float64
	Incr   bool
}

// DrawAxis draws min to max nodes: uniform or not, rising or falling.
func DrawAxis(c *vk.C, name string, min, max int) Axis {
	n := max
	if max > min {
		n = vk.Size(c, name+".n", min, max, 10*max)
	}
	a := Axis{Incr: rapid.IntRange(0, 2).Draw(c.T, name+".falling") != 2}
	sign := 1.0
	if !a.Incr {
		sign = -1
	}
	off := []float64{0, 0, -3, 1000, -0.01}[rapid.IntRange(0, 4).Draw(c.T, name+".off")]
	unit := []float64{1, 0.125, 0.3, 1e-3, 250}[rapid.IntRange(0, 4).Draw(c.T, name+".unit")]
	off *= unit
	a.Xs = make([]float64, n)
	a.X0 = off + unit*sim.F(c, name+".x0", -2, 2, 16)
	kind := rapid.IntRange(0, 4).Draw(c.T, name+".kind")
	if n > 40 {
		kind %= 3 // a geometric axis of that length leaves double precision
	}
	switch kind {
	case 0, 1: // uniform
		a.Unif = kind == 0
		a.Dx = sign * unit * sim.F(c, name+".dx", 0.25, 4, 15)
		for i := range a.Xs {
			a.Xs[i] = float64(i)*a.Dx + a.X0
		}
	case 2: // steps between 0.1 and 10 units
		x := a.X0
		for i := range a.Xs {
			a.Xs[i] = x
			x += sign * unit * math.Pow(10, sim.F(c, name+".lgstep", -1, 1, 8))
		}
	default: // geometric: the guess from even spacing is far off
		x, step := a.X0, unit*0.05
		ratio := sim.F(c, name+".ratio", 1.1, 2.2, 11)
		for i := range a.Xs {
			a.Xs[i] = x
			x += sign * step
			step *= ratio
		}
		if kind == 4 { // widest first
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				a.Xs[i], a.Xs[j] = a.Xs[j], a.Xs[i]
			}
			for i := range a.Xs {
				a.Xs[i] = 2*a.X0 - a.Xs[i]
			}
		}
	}
	return a
}

// Gaps returns the smallest and the largest gap between neighbouring nodes.
func Gaps(xs []float64) (min, max float64) {
	min = math.Inf(1)
	for i := 1; i < len(xs); i++ {
		d := math.Abs(xs[i] - xs[i-1])
		min, max = math.Min(min, d), math.Max(max, d)
	}
	return min, max
}

// MaxAbs returns the largest absolute value.
func MaxAbs(xs []float64) float64 {
	m := 0.0
	for _, x := range xs {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

// Err is the relative error in the position within a cell that rounding of
// the coordinates can cause.
func Err(xs []float64) float64 {
	min, max := Gaps(xs)
	return 1e-15 * (1 + (MaxAbs(xs)+max*float64(len(xs)))/min)
}

// DrawX draws a point within the nodes: on a node, next to one, at an end, or
// anywhere.
func DrawX(c *vk.C, name string, xs []float64) float64 {
	lo, hi := xs[0], xs[len(xs)-1]
	if lo > hi {
		lo, hi = hi, lo
	}
	i := rapid.IntRange(0, len(xs)-1).Draw(c.T, name+".node")
	x := xs[i]
	switch rapid.IntRange(0, 7).Draw(c.T, name+".where") {
	case 0:
		return x
	case 1:
		x = math.Nextafter(x, math.Inf(1))
	case 2:
		x = math.Nextafter(x, math.Inf(-1))
	default:
		if i == len(xs)-1 {
			i--
		}
		t := sim.F(c, name+".t", 0, 1, 1<<20)
		x = xs[i] + t*(xs[i+1]-xs[i])
	}
	return math.Max(lo, math.Min(hi, x))
}

// Locate returns the cell of xs that x is in and where in it (0 to 1).
func Locate(xs []float64, x float64) (i int, t float64) {
	incr := xs[1] > xs[0]
	i = sort.Search(len(xs), func(k int) bool {
		if incr {
			return xs[k] > x
		}
		return xs[k] < x
	}) - 1
	if i < 0 {
		i = 0
	}
	if i > len(xs)-2 {
		i = len(xs) - 2
	}
	return i, (x - xs[i]) / (xs[i+1] - xs[i])
}

// DrawVals draws a table of n values.
func DrawVals(c *vk.C, name string, n int) []float64 {
	vals := make([]float64, n)
	seed := rapid.Uint64().Draw(c.T, name+".seed")
	amp := []float64{1, 1, 1e-6, 1e6}[rapid.IntRange(0, 3).Draw(c.T, name+".amp")]
	kind := rapid.IntRange(0, 3).Draw(c.T, name+".vkind")
	for i := range vals {
		u := 2*sim.Unit(seed, i, 0) - 1
		switch kind {
		case 0:
			vals[i] = amp * u
		case 1:
			vals[i] = amp * math.Floor(3*u)
		case 2:
			vals[i] = amp * (5 + u)
		default: // one node stands out
			if i == int(seed%uint64(n)) {
				vals[i] = amp
			}
		}
	}
	return vals
}

// Spline is the natural cubic spline through a table.
type Spline struct{ Xs, Ys, M []float64 }

// NewSpline computes it from the continuity of the first derivative at the
// inner nodes, by elimination with pivoting.
func NewSpline(xs, ys []float64) *Spline {
	n := len(xs)
	m := make([]float64, n)
	k := n - 2
	if k > 0 {
		a := make([][]float64, k)
		for i := range a {
			a[i] = make([]float64, k+1)
			h0, h1 := xs[i+1]-xs[i], xs[i+2]-xs[i+1]
			a[i][i] = 2 * (h0 + h1)
			if i > 0 {
				a[i][i-1] = h0
			}
			if i < k-1 {
				a[i][i+1] = h1
			}
			a[i][k] = 6 * ((ys[i+2]-ys[i+1])/h1 - (ys[i+1]-ys[i])/h0)
		}
		copy(m[1:], Solve(a))
	}
	return &Spline{xs, ys, m}
}

// Solve solves the system whose rows are given with their right-hand side.
func Solve(a [][]float64) []float64 {
	n := len(a)
	for i := range a {
		p := i
		for r := i + 1; r < n; r++ {
			if math.Abs(a[r][i]) > math.Abs(a[p][i]) {
				p = r
			}
		}
		a[i], a[p] = a[p], a[i]
		for r := i + 1; r < n; r++ {
			f := a[r][i] / a[i][i]
			if f == 0 {
				continue
			}
			for k := i; k <= n; k++ {
				a[r][k] -= f * a[i][k]
			}
		}
	}
	x := make([]float64, n)
	for i := n - 1; i >= 0; i-- {
		s := a[i][n]
		for k := i + 1; k < n; k++ {
			s -= a[i][k] * x[k]
		}
		x[i] = s / a[i][i]
	}
	return x
}

// Deriv is the derivative of an order at x, on the piece of cell i.
func (s *Spline) Deriv(i int, x float64, order int) float64 {
	h := s.Xs[i+1] - s.Xs[i]
	a, b := (s.Xs[i+1]-x)/h, (x-s.Xs[i])/h
	y0, y1, m0, m1 := s.Ys[i], s.Ys[i+1], s.M[i], s.M[i+1]
	switch order {
	case 0:
		return a*y0 + b*y1 + ((a*a*a-a)*m0+(b*b*b-b)*m1)*h*h/6
	case 1:
		return (y1-y0)/h + (-(3*a*a-1)*m0+(3*b*b-1)*m1)*h/6
	case 2:
		return a*m0 + b*m1
	case 3:
		return (m1 - m0) / h
	}
	return 0
}

// Eval is the value at x.
func (s *Spline) Eval(x float64) float64 {
	i, _ := Locate(s.Xs, x)
	return s.Deriv(i, x, 0)
}

// Integral is the integral from the first node to x: every piece is a cubic,
// so Simpson's rule on it is exact.
func (s *Spline) Integral(x float64) float64 {
	i, _ := Locate(s.Xs, x)
	simpson := func(k int, lo, hi float64) float64 {
		return (hi - lo) / 6 * (s.Deriv(k, lo, 0) + 4*s.Deriv(k, (lo+hi)/2, 0) + s.Deriv(k, hi, 0))
	}
	sum := 0.0
	for k := 0; k < i; k++ {
		sum += simpson(k, s.Xs[k], s.Xs[k+1])
	}
	return sum + simpson(i, s.Xs[i], x)
}

// Scale bounds the size of the terms that make up the derivative of an order.
func (s *Spline) Scale(order int) float64 {
	hmin, h := Gaps(s.Xs)
	S := 0.0
	for i := 1; i < len(s.Xs); i++ {
		S = math.Max(S, math.Abs((s.Ys[i]-s.Ys[i-1])/(s.Xs[i]-s.Xs[i-1])))
	}
	S = math.Max(S, MaxAbs(s.Ys)*1e-3/h)
	M := math.Max(MaxAbs(s.M), S/h)
	switch order {
	case 0:
		return MaxAbs(s.Ys) + h*S + h*h*M
	case 1:
		return S + h*M
	case 2:
		return M + S/hmin
	default:
		return (M + S/hmin) / hmin
	}
}
