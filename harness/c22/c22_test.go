// C22: linear interpolators.
package c22

import (
	"math"
	"testing"

	"github.com/phil-mansfield/gotetra/math/interpolate"
	"gotetraverif/interp"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// eval interpolates the table at a point: it is the product of the linear
// weights along the axes. It also returns the extremes of the cell's nodes.
func eval(axes []interp.Axis, vals []float64, p []float64) (v, lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for corner := 0; corner < 1<<len(axes); corner++ {
		w, idx, stride := 1.0, 0, 1
		for k, a := range axes {
			i, t := interp.Locate(a.Xs, p[k])
			if corner>>k&1 == 1 {
				i, w = i+1, w*t
			} else {
				w *= 1 - t
			}
			idx += i * stride
			stride *= len(a.Xs)
		}
		v += w * vals[idx]
		lo, hi = math.Min(lo, vals[idx]), math.Max(hi, vals[idx])
	}
	return v, lo, hi
}

type table struct {
	one func(p []float64) float64
	all func(ps [][]float64, out []float64, given bool) []float64
}

// build makes the interpolator with the constructor that fits the axes.
func build(c *vk.C, axes []interp.Axis, vals []float64) table {
	unif := true
	for _, a := range axes {
		unif = unif && a.Unif
	}
	iface := rapid.Bool().Draw(c.T, "interface")
	c.LabelIf(unif, "uniform constructor")
	outs := func(out []float64, given bool) [][]float64 {
		if given {
			return [][]float64{out}
		}
		return nil
	}
	switch len(axes) {
	case 1:
		x := axes[0]
		var l interpolate.Interpolator
		switch {
		case unif && iface:
			l = interpolate.NewUniformLinearInterpolator(x.X0, x.Dx, vals)
		case unif:
			l = interpolate.NewUniformLinear(x.X0, x.Dx, vals)
		case iface:
			l = interpolate.NewLinearInterpolator(x.Xs, vals)
		default:
			l = interpolate.NewLinear(x.Xs, vals)
		}
		return table{
			func(p []float64) float64 { return l.Eval(p[0]) },
			func(ps [][]float64, out []float64, given bool) []float64 {
				return l.EvalAll(ps[0], outs(out, given)...)
			},
		}
	case 2:
		x, y := axes[0], axes[1]
		nx, ny := len(x.Xs), len(y.Xs)
		var l interpolate.BiInterpolator
		switch {
		case unif && iface:
			l = interpolate.NewUniformBiLinearInterpolator(x.X0, x.Dx, nx, y.X0, y.Dx, ny, vals)
		case unif:
			l = interpolate.NewUniformBiLinear(x.X0, x.Dx, nx, y.X0, y.Dx, ny, vals)
		case iface:
			l = interpolate.NewBiLinearInterpolator(x.Xs, y.Xs, vals)
		default:
			l = interpolate.NewBiLinear(x.Xs, y.Xs, vals)
		}
		return table{
			func(p []float64) float64 { return l.Eval(p[0], p[1]) },
			func(ps [][]float64, out []float64, given bool) []float64 {
				return l.EvalAll(ps[0], ps[1], outs(out, given)...)
			},
		}
	}
	x, y, z := axes[0], axes[1], axes[2]
	nx, ny, nz := len(x.Xs), len(y.Xs), len(z.Xs)
	var l interpolate.TriInterpolator
	switch {
	case unif && iface:
		l = interpolate.NewUniformTriLinearInterpolator(x.X0, x.Dx, nx, y.X0, y.Dx, ny, z.X0, z.Dx, nz, vals)
	case unif:
		l = interpolate.NewUniformTriLinear(x.X0, x.Dx, nx, y.X0, y.Dx, ny, z.X0, z.Dx, nz, vals)
	case iface:
		l = interpolate.NewTriLinearInterpolator(x.Xs, y.Xs, z.Xs, vals)
	default:
		l = interpolate.NewTriLinear(x.Xs, y.Xs, z.Xs, vals)
	}
	return table{
		func(p []float64) float64 { return l.Eval(p[0], p[1], p[2]) },
		func(ps [][]float64, out []float64, given bool) []float64 {
			return l.EvalAll(ps[0], ps[1], ps[2], outs(out, given)...)
		},
	}
}

// draw draws the axes of a table: in one in three cases all uniform.
func draw(c *vk.C) []interp.Axis {
	dim := rapid.IntRange(1, 3).Draw(c.T, "dim")
	max := []int{0, 40, 12, 7}[dim]
	axes := make([]interp.Axis, dim)
	unif := rapid.IntRange(0, 2).Draw(c.T, "uniform") == 0
	for k := range axes {
		name := string("xyz"[k])
		if unif {
			n := vk.Size(c, name+".n", 2, max, 10*max)
			a := interp.Axis{Unif: true, Xs: make([]float64, n)}
			a.Dx = []float64{1, 0.1, -1, 1e-3, -0.3, 200}[rapid.IntRange(0, 5).Draw(c.T, name+".dx")]
			a.Incr = a.Dx > 0
			a.X0 = a.Dx * []float64{0, 1, -2.5, 1000}[rapid.IntRange(0, 3).Draw(c.T, name+".x0")]
			for i := range a.Xs {
				a.Xs[i] = float64(i)*a.Dx + a.X0
			}
			axes[k] = a
		} else {
			axes[k] = interp.DrawAxis(c, name, 2, max)
		}
	}
	return axes
}

func TestLinear(t *testing.T) {
	vk.Run(t, 4000, 200000, func(c *vk.C) {
		axes := draw(c)
		n := 1
		for _, a := range axes {
			n *= len(a.Xs)
			c.LabelIf(!a.Incr, "falling nodes")
			c.LabelIf(!a.Unif, "uneven nodes")
			c.Desc("nodes %v", a.Xs)
		}
		c.Label("%d-dimensional", len(axes))
		vals := interp.DrawVals(c, "vals", n)
		c.Desc("values %v", vals)

		// Sometimes a table of a function linear in each coordinate.
		var f func(p []float64) float64
		if rapid.IntRange(0, 3).Draw(c.T, "function") == 0 {
			var co [8]float64
			for i := range co {
				co[i] = sim.F(c, "coeff", -2, 2, 8)
			}
			f = func(p []float64) float64 {
				sum := 0.0
				for i := 0; i < 1<<len(axes); i++ {
					w := co[i]
					for k, a := range axes {
						if i>>k&1 == 1 {
							w *= (p[k] - a.Xs[0]) / (a.Xs[len(a.Xs)-1] - a.Xs[0])
						}
					}
					sum += w
				}
				return sum
			}
			for i := range vals {
				p, r := make([]float64, len(axes)), i
				for k, a := range axes {
					p[k] = a.Xs[r%len(a.Xs)]
					r /= len(a.Xs)
				}
				vals[i] = f(p)
			}
			c.Label("multilinear function")
		}

		valsWas := append([]float64{}, vals...)
		axesWas := make([][]float64, len(axes))
		for k := range axes {
			axesWas[k] = append([]float64{}, axes[k].Xs...)
		}
		tab := build(c, axes, vals)

		tol := 0.0
		for _, a := range axes {
			tol += 4 * interp.Err(a.Xs)
		}
		tol *= 2 * interp.MaxAbs(vals)
		np := rapid.IntRange(1, 8).Draw(c.T, "points")
		ps := make([][]float64, len(axes))
		want := make([]float64, np)
		interior := false
		for i := 0; i < np; i++ {
			p := make([]float64, len(axes))
			for k, a := range axes {
				p[k] = interp.DrawX(c, string("xyz"[k]), a.Xs)
				ps[k] = append(ps[k], p[k])
				_, t := interp.Locate(a.Xs, p[k])
				interior = interior || (t > 0.01 && t < 0.99)
			}
			c.Desc("at %v", p)
			v, lo, hi := eval(axes, vals, p)
			want[i] = v
			got := tab.one(p)
			c.Near("interpolated value", got, v, tol)
			if !(got >= lo-tol && got <= hi+tol) {
				c.Fatalf("at %v: %g is beyond the nodes of the cell, which lie in %g to %g", p, got, lo, hi)
			}
			if f != nil {
				c.Near("value of a multilinear function", got, f(p), tol+1e-12*(1+interp.MaxAbs(vals)))
			}
		}
		given := rapid.Bool().Draw(c.T, "output given")
		out := make([]float64, np)
		got := tab.all(ps, out, given)
		if len(got) != np || (given && &got[0] != &out[0]) {
			c.Fatalf("evaluating %d points gave %d values (output given: %v)", np, len(got), given)
		}
		for i := range got {
			c.Near("value in a batch", got[i], want[i], tol)
		}

		// Outside of the nodes.
		k := rapid.IntRange(0, len(axes)-1).Draw(c.T, "outside axis")
		a := axes[k]
		p := make([]float64, len(axes))
		for j := range p {
			p[j] = ps[j][0]
		}
		_, w := interp.Gaps(a.Xs)
		w *= sim.F(c, "beyond", 0.01, 40, 1000)
		e0, e1 := a.Xs[0], a.Xs[len(a.Xs)-1]
		if rapid.Bool().Draw(c.T, "above") {
			p[k] = math.Max(e0, e1) + w
		} else {
			p[k] = math.Min(e0, e1) - w
		}
		if vk.Panics(func() { tab.one(p) }) == nil {
			c.Fatalf("no complaint about %v, outside of the nodes", p)
		}

		for i := range vals {
			if vals[i] != valsWas[i] {
				c.Fatalf("value %d of the table was changed", i)
			}
		}
		for k := range axes {
			for i := range axesWas[k] {
				if axes[k].Xs[i] != axesWas[k][i] {
					c.Fatalf("node %d of axis %d was changed", i, k)
				}
			}
		}
		c.NonTrivial(interior)
	})
}

// Tables whose lengths do not fit together are refused.
func TestRefused(t *testing.T) {
	vk.Run(t, 300, 3000, func(c *vk.C) {
		var n [3]int
		var ax [3][]float64
		for k := range n {
			n[k] = rapid.IntRange(2, 9).Draw(c.T, "n")
			for i := 0; i < n[k]; i++ {
				ax[k] = append(ax[k], float64(i))
			}
		}
		wrong := func(m int) []float64 {
			d := rapid.IntRange(1, m).Draw(c.T, "difference")
			if rapid.Bool().Draw(c.T, "more") {
				d = -d
			}
			c.Desc("%d values for %d", m-d, m)
			return make([]float64, m-d)
		}
		x, y, z := ax[0], ax[1], ax[2]
		v1, v2, v3 := wrong(n[0]), wrong(n[0]*n[1]), wrong(n[0]*n[1]*n[2])
		for what, f := range map[string]func(){
			"linear":            func() { interpolate.NewLinear(x, v1) },
			"bilinear":          func() { interpolate.NewBiLinear(x, y, v2) },
			"uniform bilinear":  func() { interpolate.NewUniformBiLinear(0, 1, n[0], 0, 1, n[1], v2) },
			"trilinear":         func() { interpolate.NewTriLinear(x, y, z, v3) },
			"uniform trilinear": func() { interpolate.NewUniformTriLinear(0, 1, n[0], 0, 1, n[1], 0, 1, n[2], v3) },
		} {
			if vk.Panics(f) == nil {
				c.Fatalf("%s: no complaint about a table of the wrong length", what)
			}
		}
		c.NonTrivial(true)
	})
}
