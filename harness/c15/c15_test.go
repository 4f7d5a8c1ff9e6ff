// C15: vector arithmetic.
package c15

import (
	"fmt"
	"math"
	"testing"

	"github.com/phil-mansfield/gotetra/render/geom"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func number(c *vk.C) float32 {
	switch rapid.IntRange(0, 4).Draw(c.T, "kind") {
	case 0:
		return float32(rapid.IntRange(-10, 10).Draw(c.T, "x"))
	case 1:
		return float32(sim.F(c, "x", -100, 100, 1000))
	case 2:
		return float32(math.Pow(10, sim.F(c, "lg", -12, 12, 10))) * float32(1-2*rapid.IntRange(0, 1).Draw(c.T, "sign"))
	case 3:
		x := rapid.Float32Range(-1e10, 1e10).Draw(c.T, "f")
		if math.Abs(float64(x)) < 1e-12 { // no denormal products
			return 0
		}
		return x
	default:
		return 0
	}
}

func vector(c *vk.C) geom.Vec { return geom.Vec{number(c), number(c), number(c)} }

// run calls one operation of two vectors in all of its forms: returning a
// vector, in place, and into a target, which may be one of the operands.
func run(
	c *vk.C, a, b geom.Vec, plain func(x, y *geom.Vec) *geom.Vec,
	self func(x, y *geom.Vec) *geom.Vec, at func(x, y, out *geom.Vec) *geom.Vec,
) (what string, got geom.Vec) {
	x, y := a, b
	form := rapid.IntRange(0, 4).Draw(c.T, "form")
	switch form {
	case 0:
		got = *plain(&x, &y)
		what = "plain"
	case 1:
		r := self(&x, &y)
		if *r != x {
			c.Fatalf("the in-place form returned %v but left %v", *r, x)
		}
		got, x = x, a
		what = "in place"
	case 2:
		out := vector(c)
		r := at(&x, &y, &out)
		if *r != out {
			c.Fatalf("the At form returned %v but wrote %v", *r, out)
		}
		got = out
		what = "into a target"
	case 3:
		at(&x, &y, &x)
		got, x = x, a
		what = "into the first operand"
	default:
		at(&x, &y, &y)
		got, y = y, b
		what = "into the second operand"
	}
	if x != a || y != b {
		c.Fatalf("%s: the operands changed from %v, %v to %v, %v", what, a, b, x, y)
	}
	c.Label("%s", what)
	return what, got
}

func TestArithmetic(t *testing.T) {
	vk.Run(t, 20000, 500000, func(c *vk.C) {
		a, b := vector(c), vector(c)
		c.Desc("%v %v", a, b)
		var want, scale [3]float64
		var got geom.Vec
		var what string
		switch rapid.IntRange(0, 5).Draw(c.T, "op") {
		case 0:
			what, got = run(c, a, b,
				func(x, y *geom.Vec) *geom.Vec { return x.Add(y) },
				func(x, y *geom.Vec) *geom.Vec { return x.AddSelf(y) },
				func(x, y, out *geom.Vec) *geom.Vec { return x.AddAt(y, out) })
			for k := range want {
				want[k] = float64(a[k]) + float64(b[k])
				scale[k] = math.Abs(want[k])
			}
			what = "sum, " + what
		case 1:
			s := sim.F(c, "s", -50, 50, 64)
			c.Desc("scaled by %v", s)
			what, got = run(c, a, b,
				func(x, y *geom.Vec) *geom.Vec { return x.Scale(s) },
				func(x, y *geom.Vec) *geom.Vec { return x.ScaleSelf(s) },
				func(x, y, out *geom.Vec) *geom.Vec { return x.ScaleAt(s, out) })
			for k := range want {
				want[k] = float64(a[k]) * s
				scale[k] = math.Abs(want[k])
			}
			what = "scaled, " + what
		case 2:
			what, got = run(c, a, b,
				func(x, y *geom.Vec) *geom.Vec { return x.Cross(y) },
				func(x, y *geom.Vec) *geom.Vec { return x.CrossSelf(y) },
				func(x, y, out *geom.Vec) *geom.Vec { return x.CrossAt(y, out) })
			for k := range want {
				i, j := (k+1)%3, (k+2)%3
				p, q := float64(a[i])*float64(b[j]), float64(a[j])*float64(b[i])
				want[k] = p - q
				scale[k] = math.Abs(p) + math.Abs(q)
			}
			what = "cross product, " + what
		case 3:
			sum, abs := 0.0, 0.0
			for k := range a {
				p := float64(a[k]) * float64(b[k])
				sum += p
				abs += math.Abs(p)
			}
			x, y := a, b
			c.Near("dot product", x.Dot(&y), sum, 2e-7*abs)
			c.Near("dot product, exchanged", y.Dot(&x), sum, 2e-7*abs)
			if x != a || y != b {
				c.Fatalf("Dot changed its operands to %v, %v", x, y)
			}
			c.NonTrivial(sum != 0)
			return
		default:
			n := math.Sqrt(float64(a[0])*float64(a[0]) + float64(a[1])*float64(a[1]) + float64(a[2])*float64(a[2]))
			x := a
			c.Near("norm", x.Norm(), n, 2e-7*n)
			if x != a {
				c.Fatalf("Norm changed its operand to %v", x)
			}
			c.NonTrivial(n != 0)
			return
		}
		for k := range want {
			c.Near(fmt.Sprintf("%s: component %d", what, k), float64(got[k]), want[k], 2.5e-7*scale[k])
		}
		c.NonTrivial(want != [3]float64{})
	})
}

func width(c *vk.C) float64 {
	switch rapid.IntRange(0, 3).Draw(c.T, "wkind") {
	case 0:
		return float64(rapid.IntRange(1, 1000).Draw(c.T, "w"))
	case 1:
		return math.Pow(2, float64(rapid.IntRange(-6, 20).Draw(c.T, "w")))
	default:
		return sim.F(c, "w", 0.01, 2000, 1000)
	}
}

// a coordinate in [0, w), often near its ends or the middle
func inside(c *vk.C, w float64) float32 {
	w32 := float32(w)
	var x float32
	switch rapid.IntRange(0, 5).Draw(c.T, "xkind") {
	case 0:
		x = 0
	case 1:
		x = math.Nextafter32(w32, 0)
	case 2:
		x = float32(w / 2)
	case 3:
		x = float32(math.Pow(10, -sim.F(c, "lg", 1, 15, 4)))
	default:
		x = float32(w * sim.F(c, "x", 0, 1, 4096))
	}
	if x >= w32 {
		x = math.Nextafter32(w32, 0)
	}
	return x
}

func TestMod(t *testing.T) {
	vk.Run(t, 20000, 500000, func(c *vk.C) {
		w := width(c)
		w32 := float32(w)
		var a geom.Vec
		wrapped := false
		for k := range a {
			n := rapid.SampledFrom([]int{0, 0, 1, -1, -1, 2, -2, 5, -7}).Draw(c.T, "periods")
			a[k] = inside(c, w)
			if rapid.Bool().Draw(c.T, "neg") {
				a[k] = -a[k]
			}
			a[k] = float32(float64(a[k]) + float64(n)*float64(w32))
			wrapped = wrapped || a[k] < 0 || a[k] >= w32
		}
		c.Desc("%v in a box of %v", a, w)
		what, got := run(c, a, geom.Vec{},
			func(x, y *geom.Vec) *geom.Vec { return x.Mod(w) },
			func(x, y *geom.Vec) *geom.Vec { return x.ModSelf(w) },
			func(x, y, out *geom.Vec) *geom.Vec { return x.ModAt(w, out) })
		for k := range a {
			if !(got[k] >= 0 && got[k] < w32) {
				c.Fatalf("modulo, %s: %v is not in [0, %v); from %v", what, got[k], w, a[k])
			}
			if a[k] >= 0 && a[k] < w32 && got[k] != a[k] {
				c.Fatalf("modulo, %s: %v became %v", what, a[k], got[k])
			}
			d := (float64(got[k]) - float64(a[k])) / float64(w32)
			tol := 5e-7 * (1 + math.Abs(d))
			c.Near(fmt.Sprintf("modulo, %s: component %d moved by periods", what, k), d, math.Round(d), tol)
		}
		c.NonTrivial(wrapped)
	})
}

func TestSub(t *testing.T) {
	vk.Run(t, 20000, 500000, func(c *vk.C) {
		w := width(c)
		var a, b geom.Vec
		wrapped := false
		for k := range a {
			a[k], b[k] = inside(c, w), inside(c, w)
			if rapid.IntRange(0, 3).Draw(c.T, "outside") == 0 {
				// A position half a box outside, so that up to one and a
				// half widths lie between the two.
				a[k] = float32(float64(a[k])*2 - w/2)
			}
			wrapped = wrapped || math.Abs(float64(a[k])-float64(b[k])) > w/2
		}
		c.Desc("%v - %v in a box of %v", a, b, w)
		what, got := run(c, a, b,
			func(x, y *geom.Vec) *geom.Vec { return x.Sub(y, w) },
			func(x, y *geom.Vec) *geom.Vec { return x.SubSelf(y, w) },
			func(x, y, out *geom.Vec) *geom.Vec { return x.SubAt(y, w, out) })
		for k := range a {
			d := float64(a[k]) - float64(b[k])
			g := float64(got[k])
			if !(math.Abs(g) <= w/2*(1+1e-6)) {
				c.Fatalf("difference, %s: component %d is %v in a box of %v", what, k, g, w)
			}
			n := math.Round((g - d) / w)
			c.Near(fmt.Sprintf("difference, %s: component %d", what, k), g, d+n*w, 4e-7*w)
			if math.Abs(d) < w/2*(1-1e-6) {
				c.Near(fmt.Sprintf("difference, %s: component %d", what, k), g, d, 2e-7*math.Abs(d))
			}
		}
		c.NonTrivial(wrapped)
	})
}
