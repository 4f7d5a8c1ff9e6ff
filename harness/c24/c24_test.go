// C24: bicubic and tricubic interpolators.
package c24

import (
	"fmt"
	"testing"

	"github.com/phil-mansfield/gotetra/math/interpolate"
	"gotetraverif/interp"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// eval interpolates the table with one-dimensional natural splines along the
// axes in turn, in the order of perm.
func eval(axes []interp.Axis, vals []float64, p []float64, perm []int) float64 {
	dims := make([]int, len(axes))
	for k, a := range axes {
		dims[k] = len(a.Xs)
	}
	cur := vals
	for _, k := range perm {
		stride := 1
		for j := 0; j < k; j++ {
			stride *= dims[j]
		}
		n := dims[k]
		next := make([]float64, 0, len(cur)/n)
		for hi := 0; hi < len(cur)/(stride*n); hi++ {
			for lo := 0; lo < stride; lo++ {
				line := make([]float64, n)
				for i := range line {
					line[i] = cur[(hi*n+i)*stride+lo]
				}
				next = append(next, interp.NewSpline(axes[k].Xs, line).Eval(p[k]))
			}
		}
		dims[k] = 1
		cur = next
	}
	return cur[0]
}

type table struct {
	one func(p []float64) float64
	all func(ps [][]float64, out ...[]float64) []float64
}

func build(c *vk.C, axes []interp.Axis, vals []float64) table {
	unif := true
	for _, a := range axes {
		unif = unif && a.Unif
	}
	iface := rapid.Bool().Draw(c.T, "interface")
	c.LabelIf(unif, "uniform constructor")
	x, y := axes[0], axes[1]
	nx, ny := len(x.Xs), len(y.Xs)
	if len(axes) == 2 {
		var l interpolate.BiInterpolator
		switch {
		case unif && iface:
			l = interpolate.NewUniformBiCubicInterpolator(x.X0, x.Dx, nx, y.X0, y.Dx, ny, vals)
		case unif:
			l = interpolate.NewUniformBiCubic(x.X0, x.Dx, nx, y.X0, y.Dx, ny, vals)
		case iface:
			l = interpolate.NewBiCubicInterpolator(x.Xs, y.Xs, vals)
		default:
			l = interpolate.NewBiCubic(x.Xs, y.Xs, vals)
		}
		return table{
			func(p []float64) float64 { return l.Eval(p[0], p[1]) },
			func(ps [][]float64, out ...[]float64) []float64 { return l.EvalAll(ps[0], ps[1], out...) },
		}
	}
	z := axes[2]
	nz := len(z.Xs)
	var l interpolate.TriInterpolator
	switch {
	case unif && iface:
		l = interpolate.NewUniformTriCubicInterpolator(x.X0, x.Dx, nx, y.X0, y.Dx, ny, z.X0, z.Dx, nz, vals)
	case unif:
		l = interpolate.NewUniformTriCubic(x.X0, x.Dx, nx, y.X0, y.Dx, ny, z.X0, z.Dx, nz, vals)
	case iface:
		l = interpolate.NewTriCubicInterpolator(x.Xs, y.Xs, z.Xs, vals)
	default:
		l = interpolate.NewTriCubic(x.Xs, y.Xs, z.Xs, vals)
	}
	return table{
		func(p []float64) float64 { return l.Eval(p[0], p[1], p[2]) },
		func(ps [][]float64, out ...[]float64) []float64 { return l.EvalAll(ps[0], ps[1], ps[2], out...) },
	}
}

// scale bounds the error of interpolating along every axis in turn.
func scale(axes []interp.Axis, vals []float64) float64 {
	amp, err, n := 1.0, 0.0, 1.0
	for _, a := range axes {
		// How much a spline can amplify its table: unit tables suffice, as
		// splines are linear in them.
		m := 1.0
		for i := range a.Xs {
			ys := make([]float64, len(a.Xs))
			ys[i] = 1
			if s := interp.NewSpline(a.Xs, ys).Scale(0); s > m {
				m = s
			}
		}
		amp *= m
		err += interp.Err(a.Xs)
		n += float64(len(a.Xs))
	}
	return 40 * (err + 1e-15*n) * amp * interp.MaxAbs(vals)
}

func TestCubic(t *testing.T) {
	vk.Run(t, 2500, 100000, func(c *vk.C) {
		dim := rapid.IntRange(2, 3).Draw(c.T, "dim")
		max := []int{0, 0, 9, 6}[dim]
		axes := make([]interp.Axis, dim)
		unif := rapid.IntRange(0, 2).Draw(c.T, "uniform") == 0
		n := 1
		for k := range axes {
			name := string("xyz"[k])
			if unif {
				m := vk.Size(c, name+".n", 2, max, 10*max)
				a := interp.Axis{Unif: true, Xs: make([]float64, m)}
				a.Dx = []float64{1, 0.1, -1, 1e-3, -0.3, 200}[rapid.IntRange(0, 5).Draw(c.T, name+".dx")]
				a.X0 = a.Dx * []float64{0, 1, -2.5, 1000}[rapid.IntRange(0, 3).Draw(c.T, name+".x0")]
				for i := range a.Xs {
					a.Xs[i] = float64(i)*a.Dx + a.X0
				}
				axes[k] = a
			} else {
				axes[k] = interp.DrawAxis(c, name, 2, max)
			}
			n *= len(axes[k].Xs)
			c.Desc("nodes %v", axes[k].Xs)
		}
		c.Label("%d-dimensional", dim)
		vals := interp.DrawVals(c, "vals", n)
		c.Desc("values %v", vals)
		was := append([]float64{}, vals...)
		tab := build(c, axes, vals)
		tol := scale(axes, vals)

		perm := rapid.Permutation([]int{0, 1, 2}[:dim]).Draw(c.T, "order of axes")

		// A history of evaluations: coordinates are often those of the
		// evaluation before, or of the first.
		var hist [][]float64
		var wants []float64
		repeats, interior := false, false
		batch := [][]float64{}
		for k := range axes {
			_ = k
			batch = append(batch, nil)
		}
		var batchWant []float64
		for i := rapid.IntRange(1, 10).Draw(c.T, "evaluations"); i > 0; i-- {
			p := make([]float64, dim)
			kind := rapid.IntRange(0, 3).Draw(c.T, "kind")
			if kind == 0 { // a node
				idx, r := rapid.IntRange(0, n-1).Draw(c.T, "node"), 0
				r = idx
				for k, a := range axes {
					p[k] = a.Xs[r%len(a.Xs)]
					r /= len(a.Xs)
				}
				c.Desc("node %v", p)
				c.Near(fmt.Sprintf("value at node %v", p), tab.one(p), vals[idx], tol)
				hist, wants = append(hist, p), append(wants, vals[idx])
				continue
			}
			for k, a := range axes {
				if len(hist) > 0 && rapid.IntRange(0, 2).Draw(c.T, "same") == 0 {
					p[k] = hist[len(hist)-1][k]
					repeats = true
				} else {
					p[k] = interp.DrawX(c, string("xyz"[k]), a.Xs)
				}
				_, t := interp.Locate(a.Xs, p[k])
				interior = interior || (t > 0.01 && t < 0.99)
			}
			want := eval(axes, vals, p, perm)
			if kind == 1 {
				for k := range p {
					batch[k] = append(batch[k], p[k])
				}
				batchWant = append(batchWant, want)
				c.Desc("batched %v", p)
				continue
			}
			c.Desc("at %v", p)
			c.Near(fmt.Sprintf("value at %v", p), tab.one(p), want, tol)
			hist, wants = append(hist, p), append(wants, want)
		}
		given := rapid.Bool().Draw(c.T, "output given")
		buf := make([]float64, len(batchWant))
		var got []float64
		if given {
			got = tab.all(batch, buf)
		} else {
			got = tab.all(batch)
		}
		if len(got) != len(batchWant) || (given && len(got) > 0 && &got[0] != &buf[0]) {
			c.Fatalf("evaluating %d points gave %d values (output given: %v)", len(batchWant), len(got), given)
		}
		for i := range got {
			c.Near(fmt.Sprintf("value %d in a batch", i), got[i], batchWant[i], tol)
		}
		// Once more, in another order: nothing was remembered wrongly.
		for _, i := range rapid.Permutation(seq(len(hist))).Draw(c.T, "again") {
			c.Near(fmt.Sprintf("value at %v, again", hist[i]), tab.one(hist[i]), wants[i], tol)
		}
		for i := range vals {
			if vals[i] != was[i] {
				c.Fatalf("value %d of the table was changed", i)
			}
		}
		c.LabelIf(repeats, "repeated coordinates")
		c.NonTrivial(interior)
	})
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// Tables whose lengths do not fit together are refused.
func TestRefused(t *testing.T) {
	vk.Run(t, 300, 3000, func(c *vk.C) {
		var n [3]int
		var ax [3][]float64
		for k := range n {
			n[k] = rapid.IntRange(3, 9).Draw(c.T, "n")
			for i := 0; i < n[k]; i++ {
				ax[k] = append(ax[k], float64(i))
			}
		}
		wrong := func(m int) []float64 {
			d := rapid.IntRange(1, m).Draw(c.T, "difference")
			if rapid.Bool().Draw(c.T, "more") {
				d = -d
			}
			c.Desc("%d values for %d", m-d, m)
			return make([]float64, m-d)
		}
		x, y, z := ax[0], ax[1], ax[2]
		v2, v3 := wrong(n[0]*n[1]), wrong(n[0]*n[1]*n[2])
		for what, f := range map[string]func(){
			"bicubic":          func() { interpolate.NewBiCubic(x, y, v2) },
			"uniform bicubic":  func() { interpolate.NewUniformBiCubic(0, 1, n[0], 0, 1, n[1], v2) },
			"tricubic":         func() { interpolate.NewTriCubic(x, y, z, v3) },
			"uniform tricubic": func() { interpolate.NewUniformTriCubic(0, 1, n[0], 0, 1, n[1], 0, 1, n[2], v3) },
		} {
			if vk.Panics(f) == nil {
				c.Fatalf("%s: no complaint about a table of the wrong length", what)
			}
		}
		c.NonTrivial(true)
	})
}
