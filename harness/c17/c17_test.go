// C17: finite differences on grids.
package c17

import (
	"fmt"
	"math"
	"testing"

	"github.com/phil-mansfield/gotetra/render/geom"
	"gotetraverif/fd"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

type job struct {
	g     *geom.GridLocation
	ref   *fd.Grid
	opt   *geom.DerivOptions // nil: the default ones
	order int
	op    geom.DerivOp
	axes  []int // those which are wide enough to differentiate along
}

func draw(c *vk.C, all bool, ops []geom.DerivOp) *job {
	j := &job{order: 4, op: geom.None}
	periodic := false
	if rapid.IntRange(0, 5).Draw(c.T, "nil") > 0 {
		periodic = rapid.Bool().Draw(c.T, "periodic")
		j.order = rapid.SampledFrom([]int{2, 4}).Draw(c.T, "order")
		j.op = rapid.SampledFrom(ops).Draw(c.T, "op")
		j.opt = &geom.DerivOptions{Periodic: periodic, Op: j.op, Order: j.order}
	}
	min := j.order + 1
	var w, o [3]int
	for k := range w {
		w[k] = rapid.IntRange(min, min+5).Draw(c.T, "w")
		if !all && rapid.IntRange(0, 2).Draw(c.T, "thin") == 0 {
			w[k] = rapid.IntRange(1, min).Draw(c.T, "w")
		}
		o[k] = rapid.IntRange(0, 9).Draw(c.T, "o")
	}
	if rapid.IntRange(0, 3).Draw(c.T, "long") == 0 {
		// one long axis, so that nothing depends on grids being small
		long := rapid.IntRange(0, 2).Draw(c.T, "long axis")
		for k := range w {
			if k == long {
				w[k] = rapid.IntRange(min+6, 70).Draw(c.T, "w")
			} else if w[k] > min+1 {
				w[k] = min + 1
			}
		}
	}
	if !all {
		k := rapid.IntRange(0, 2).Draw(c.T, "axis")
		if w[k] < min {
			w[k] = min
		}
	}
	cells := w[rapid.IntRange(0, 2).Draw(c.T, "full")]
	switch rapid.IntRange(0, 4).Draw(c.T, "cells") {
	case 0:
		cells += rapid.IntRange(1, 30).Draw(c.T, "more")
	case 1:
		if w[0]+w[1]+w[2] > 60 { // a cube of that size is too much
			break
		}
		if cells = w[0]; cells < min {
			cells = min
		}
		for k := range w {
			if w[k] >= min {
				w[k] = cells
			}
		}
	}
	for k := range w {
		if w[k] > cells {
			cells = w[k]
		}
	}
	L := sim.F(c, "L", 0.5, 200, 16)
	j.g = geom.NewGridLocation(o, w, L, cells)
	j.ref = &fd.Grid{W: w, Dx: L / float64(cells)}
	for k := range w {
		j.ref.Wrap[k] = periodic && w[k] == cells
		if w[k] >= min {
			j.axes = append(j.axes, k)
		}
	}
	c.Desc("grid %v + %v of %d cells, L=%v, periodic=%v order=%d op=%v nil=%v", o, w, cells, L,
		periodic, j.order, j.op, j.opt == nil)
	return j
}

// field draws values: a polynomial, noise, or a single pixel
func (j *job) field(c *vk.C) (f []float32, v []float64) {
	n := j.ref.N()
	f, v = make([]float32, n), make([]float64, n)
	kind := rapid.IntRange(0, 2).Draw(c.T, "field")
	seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "seed"))
	scale := math.Pow(10, float64(rapid.IntRange(-3, 4).Draw(c.T, "scale")))
	pw := [3]int{}
	for k := range pw {
		pw[k] = rapid.IntRange(0, j.order).Draw(c.T, "pow")
	}
	spot := int(seed % uint64(n))
	c.Desc("field %d of %d * %g", kind, seed, scale)
	for i := range f {
		switch kind {
		case 0:
			x := 1.0
			for k, p := range []int{i % j.ref.W[0], i / j.ref.W[0] % j.ref.W[1], i / j.ref.W[0] / j.ref.W[1]} {
				x *= math.Pow(float64(p)/4-0.7, float64(pw[k]))
			}
			f[i] = float32(x * scale)
		case 1:
			f[i] = float32(sim.Noise(seed, i, 0) * scale)
		default:
			if i == spot {
				f[i] = float32(scale)
			}
		}
		v[i] = float64(f[i])
	}
	return f, v
}

func (j *job) before(c *vk.C) (f []float32) {
	f = make([]float32, j.ref.N())
	for i := range f {
		f[i] = float32(100 * sim.Noise(99, i, 3))
	}
	return f
}

// compare: got must be the old value combined with d
func (j *job) compare(c *vk.C, what string, got, old []float32, d, scale []float64, op geom.DerivOp) {
	for i := range got {
		want, tol := d[i], 3e-6*scale[i]
		switch op {
		case geom.Add:
			want, tol = float64(old[i])+d[i], tol+1e-6*math.Abs(float64(old[i]))
		case geom.Subtract:
			want, tol = float64(old[i])-d[i], tol+1e-6*math.Abs(float64(old[i]))
		}
		c.Near(fmt.Sprintf("%s at %d", what, i), float64(got[i]), want, tol)
	}
}

// unchanged checks the options, the defaults and the inputs after a call
func (j *job) guard(c *vk.C, fs ...[]float32) func(string) {
	def := *geom.DerivOptionsDefault
	var opt geom.DerivOptions
	if j.opt != nil {
		opt = *j.opt
	}
	cp := make([][]float32, len(fs))
	for i := range fs {
		cp[i] = append([]float32{}, fs[i]...)
	}
	return func(what string) {
		if *geom.DerivOptionsDefault != def {
			was := *geom.DerivOptionsDefault
			*geom.DerivOptionsDefault = def // for the cases after this one
			c.Fatalf("%s changed the default options from %+v to %+v", what, def, was)
		}
		if j.opt != nil && *j.opt != opt {
			c.Fatalf("%s changed the caller's options from %+v to %+v", what, opt, *j.opt)
		}
		for i := range fs {
			for k := range fs[i] {
				if fs[i][k] != cp[i][k] {
					c.Fatalf("%s changed its input", what)
				}
			}
		}
	}
}

func sum(a, b []float64, sign float64) []float64 {
	out := make([]float64, len(a))
	for i := range a {
		out[i] = a[i] + sign*b[i]
	}
	return out
}

var ops = []geom.DerivOp{geom.None, geom.Add, geom.Subtract}

func TestDeriv(t *testing.T) {
	vk.Run(t, 4000, 60000, func(c *vk.C) {
		j := draw(c, false, ops)
		f, v := j.field(c)
		axis := rapid.SampledFrom(j.axes).Draw(c.T, "axis")
		c.Desc("axis=%d", axis)
		out := j.before(c)
		old := append([]float32{}, out...)
		done := j.guard(c, f)
		j.g.Deriv(f, out, axis, j.opt)
		done("Deriv")
		d, s := j.ref.Deriv(v, axis, j.order)
		j.compare(c, "derivative", out, old, d, s, j.op)
		c.NonTrivial(true)
		c.Label("axis %d, order %d, wrap %v", axis, j.order, j.ref.Wrap[axis])
	})
}

func TestVector(t *testing.T) {
	vk.Run(t, 3000, 40000, func(c *vk.C) {
		mode := rapid.SampledFrom([]string{"Gradient", "Divergence", "Curl"}).Draw(c.T, "mode")
		o := ops
		if mode != "Gradient" {
			o = ops[:1]
		}
		j := draw(c, true, o)
		var f [3][]float32
		var v [3][]float64
		var out, old [3][]float32
		for k := range f {
			f[k], v[k] = j.field(c)
			out[k] = j.before(c)
			old[k] = append([]float32{}, out[k]...)
		}
		done := j.guard(c, f[0], f[1], f[2])
		c.Desc("%s", mode)
		switch mode {
		case "Gradient":
			j.g.Gradient(f[0], out, j.opt)
			done(mode)
			for k := range out {
				d, s := j.ref.Deriv(v[0], k, j.order)
				j.compare(c, fmt.Sprintf("gradient[%d]", k), out[k], old[k], d, s, j.op)
			}
		case "Divergence":
			j.g.Divergence(f, out[0], j.opt)
			done(mode)
			d, s := make([]float64, j.ref.N()), make([]float64, j.ref.N())
			for k := range f {
				dk, sk := j.ref.Deriv(v[k], k, j.order)
				d, s = sum(d, dk, 1), sum(s, sk, 1)
			}
			j.compare(c, "divergence", out[0], old[0], d, s, geom.None)
		default:
			j.g.Curl(f, out, j.opt)
			done(mode)
			for k := range out {
				a, b := (k+1)%3, (k+2)%3
				d1, s1 := j.ref.Deriv(v[b], a, j.order)
				d2, s2 := j.ref.Deriv(v[a], b, j.order)
				j.compare(c, fmt.Sprintf("curl[%d]", k), out[k], old[k], sum(d1, d2, -1), sum(s1, s2, 1), geom.None)
			}
		}
		c.NonTrivial(true)
		c.Label("%s", mode)
	})
}
