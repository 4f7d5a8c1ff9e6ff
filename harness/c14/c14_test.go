// C14: tetrahedra.
package c14

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/phil-mansfield/gotetra/math/rand"
	"github.com/phil-mansfield/gotetra/render/geom"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

type vec [3]float64

func f64(v geom.Vec) vec { return vec{float64(v[0]), float64(v[1]), float64(v[2])} }

func det(a, b, c vec) float64 {
	return a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0])
}

func sub(a, b vec) vec { return vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }

// volume is the signed volume
func volume(p [4]vec) float64 {
	return det(sub(p[1], p[0]), sub(p[2], p[0]), sub(p[3], p[0])) / 6
}

// bary are the barycentric coordinates of x
func bary(p [4]vec, x vec) (b [4]float64) {
	v := volume(p)
	for i := range b {
		q := p
		q[i] = x
		b[i] = volume(q) / v
	}
	return b
}

type tet struct {
	c    [4]geom.Vec
	p    [4]vec
	leg  float64 // longest edge
	size float64 // largest coordinate
}

func draw(c *vk.C) *tet {
	t := &tet{}
	scale := math.Pow(10, sim.F(c, "scale", -3, 3, 2))
	den := rapid.SampledFrom([]float64{1, 2, 8, 100, 997}).Draw(c.T, "den")
	var off [3]float64
	for k := range off {
		off[k] = sim.F(c, "off", -10, 10, 4) * scale
	}
	for i := range t.c {
		for k := 0; k < 3; k++ {
			n := rapid.IntRange(int(-2*den), int(2*den)).Draw(c.T, "x")
			t.c[i][k] = float32(off[k] + scale*float64(n)/den)
		}
	}
	t.set(t.c)
	c.Desc("corners %v", t.c)
	return t
}

func (t *tet) set(c [4]geom.Vec) {
	t.c = c
	t.leg, t.size = 0, 0
	for i := range t.c {
		t.p[i] = f64(t.c[i])
		for k := 0; k < 3; k++ {
			t.size = math.Max(t.size, math.Abs(t.p[i][k]))
		}
	}
	for i := range t.p {
		for j := range t.p {
			d := sub(t.p[i], t.p[j])
			t.leg = math.Max(t.leg, math.Sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]))
		}
	}
}

// fat is how close to regular it is (0.118 at most)
func (t *tet) fat() float64 {
	if t.leg == 0 {
		return 0
	}
	return math.Abs(volume(t.p)) / (t.leg * t.leg * t.leg)
}

func (t *tet) tetra(c *vk.C) *geom.Tetra {
	a := t.c
	if rapid.Bool().Draw(c.T, "new") {
		return geom.NewTetra(&a[0], &a[1], &a[2], &a[3])
	}
	// reused: whatever it has computed before must be forgotten
	o := draw(c)
	for i := range o.c {
		// neighbouring tetrahedra share corners
		if rapid.IntRange(0, 2).Draw(c.T, "shared") == 0 {
			o.c[i] = a[rapid.SampledFrom([]int{i, i, i, 0, 1, 2, 3}).Draw(c.T, "with")]
		}
	}
	x := geom.NewTetra(&o.c[0], &o.c[1], &o.c[2], &o.c[3])
	x.Volume()
	x.Barycenter()
	x.Contains(&a[0])
	x.Init(&a[0], &a[1], &a[2], &a[3])
	return x
}

func TestTetra(t *testing.T) {
	vk.Run(t, 40000, 400000, func(c *vk.C) {
		x := draw(c)
		g := x.tetra(c)
		for n := rapid.IntRange(1, 5).Draw(c.T, "calls"); n > 0; n-- {
			switch rapid.IntRange(0, 3).Draw(c.T, "call") {
			case 0:
				c.Near("volume", g.Volume(), math.Abs(volume(x.p)), 4e-7*x.leg*x.leg*x.leg)
			case 1:
				b := g.Barycenter()
				for k := 0; k < 3; k++ {
					want := (x.p[0][k] + x.p[1][k] + x.p[2][k] + x.p[3][k]) / 4
					c.Near(fmt.Sprintf("barycenter[%d]", k), float64(b[k]), want, 5e-7*x.size)
				}
			case 2:
				x.cellBounds(c, g)
			default:
				x.contains(c, g)
			}
		}
		if g.Corners != x.c {
			c.Fatalf("the corners changed to %v", g.Corners)
		}
		c.NonTrivial(x.fat() > 1e-3)
	})
}

func (x *tet) contains(c *vk.C, g *geom.Tetra) {
	if x.fat() < 0.02 || x.size > 20*x.leg {
		return // too thin for its single precision arithmetic
	}
	var w [4]float64
	tot := 0.0
	in := rapid.Bool().Draw(c.T, "in")
	for i := range w {
		lo := -40
		if in {
			lo = 3
		}
		w[i] = float64(rapid.IntRange(lo, 100).Draw(c.T, "w"))
		tot += w[i]
	}
	if math.Abs(tot) < 20 {
		return
	}
	var v geom.Vec
	for k := 0; k < 3; k++ {
		s := 0.0
		for i := range w {
			s += w[i] / tot * x.p[i][k]
		}
		v[k] = float32(s)
	}
	b := bary(x.p, f64(v))
	lo, hi := b[0], b[0]
	for i := range b {
		lo, hi = math.Min(lo, b[i]), math.Max(hi, b[i])
	}
	if math.Abs(lo) < 1e-3*(1+hi) {
		return
	}
	if got := g.Contains(&v); got != (lo > 0) {
		c.Fatalf("Contains(%v) = %v; barycentric coordinates %.6g", v, got, b)
	}
	c.LabelIf(lo > 0, "a point inside")
	c.LabelIf(lo < 0, "a point outside")
}

// near tells whether rounding can move x across an integer
func near(x float64) bool { return math.Abs(x-math.Round(x)) < 1e-9*(1+math.Abs(x)) }

// cellBounds: the smallest block of cells with all of the corners
func (x *tet) cellBounds(c *vk.C, g *geom.Tetra) {
	cw := x.leg / float64(rapid.IntRange(1, 20).Draw(c.T, "cells")) * 0.731
	exact := rapid.Bool().Draw(c.T, "exact")
	if exact {
		cw = math.Pow(2, math.Ceil(math.Log2(cw)))
	}
	if !(cw > 0) {
		return
	}
	cb := g.CellBounds(cw)
	for k := 0; k < 3; k++ {
		lo, hi := math.Inf(1), math.Inf(-1)
		for i := range x.p {
			lo, hi = math.Min(lo, x.p[i][k]), math.Max(hi, x.p[i][k])
		}
		a, b := math.Floor(lo/cw), math.Floor(hi/cw)
		if !exact && (near(lo/cw) || near(hi/cw)) {
			continue
		}
		if float64(cb.Origin[k]) != a || float64(cb.Origin[k]+cb.Width[k]-1) != b {
			c.Fatalf("CellBounds(%v): cells %d + %d along axis %d, want %v to %v", cw,
				cb.Origin[k], cb.Width[k], k, a, b)
		}
	}
	c.Label("cell bounds")
}

// moments compares the first three moments of barycentric coordinates with
// those of the uniform distribution.
func moments(c *vk.C, what string, bs [][4]float64, tol float64) {
	n := float64(len(bs))
	for i := 0; i < 4; i++ {
		var m1, m3, half float64
		for _, b := range bs {
			m1 += b[i] / n
			m3 += b[i] * b[i] * b[i] / n
			if b[i] > 0.5 {
				half += 1 / n
			}
		}
		c.Near(fmt.Sprintf("%s: mean of coordinate %d", what, i), m1, 0.25, tol)
		c.Near(fmt.Sprintf("%s: mean cube of coordinate %d", what, i), m3, 0.05, tol)
		c.Near(fmt.Sprintf("%s: fraction near corner %d", what, i), half, 0.125, 2*tol)
		for j := 0; j < i; j++ {
			var m2, more float64
			for _, b := range bs {
				m2 += b[i] * b[j] / n
				if b[i] > b[j] {
					more += 1 / n
				}
			}
			c.Near(fmt.Sprintf("%s: mean product of coordinates %d and %d", what, i, j), m2, 0.05, tol)
			c.Near(fmt.Sprintf("%s: fraction nearer to corner %d than %d", what, i, j), more, 0.5, 2.5*tol)
		}
	}
}

func TestSampling(t *testing.T) {
	vk.Run(t, 60, 2000, func(c *vk.C) {
		x := draw(c)
		g := x.tetra(c)
		const K = 20
		seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "seed"))
		random := rapid.Bool().Draw(c.T, "random")
		n := K * K * K
		if random {
			n = 20000
		}
		c.Desc("seed=%d random=%v", seed, random)
		out := make([]geom.Vec, n)
		unit := make([]geom.Vec, n)
		if random {
			gt := rapid.SampledFrom([]rand.GeneratorType{rand.Xorshift, rand.Golang, rand.Tausworthe}).Draw(c.T, "gen")
			buf := make([]float64, 3*n)
			g.RandomSample(rand.New(gt, seed+1), buf, out)
			for i := range unit {
				for k := range unit[i] {
					unit[i][k] = float32(sim.Unit(seed, i, k))
				}
			}
		} else {
			xs, ys, zs := make([]float64, n), make([]float64, n), make([]float64, n)
			for i := range xs {
				xs[i] = (float64(i%K) + sim.Unit(seed, i, 0)) / K
				ys[i] = (float64(i/K%K) + sim.Unit(seed, i, 1)) / K
				zs[i] = (float64(i/K/K) + sim.Unit(seed, i, 2)) / K
				unit[i] = geom.Vec{float32(xs[i]), float32(ys[i]), float32(zs[i])}
			}
			g.Distribute(xs, ys, zs, out)
		}
		err := 2e-6 * (x.size + x.leg) // of a position
		if x.fat() > 1e-3 && x.size < 50*x.leg {
			bs := make([][4]float64, n)
			tol := 2 * err / (x.leg * x.fat())
			for i := range out {
				bs[i] = bary(x.p, f64(out[i]))
				for _, b := range bs[i] {
					if !(b >= -tol) {
						c.Fatalf("sample %v is outside: barycentric coordinates %.6g", out[i], bs[i])
					}
				}
			}
			moments(c, "Distribute", bs, 0.012)
			c.NonTrivial(true)
		}

		geom.DistributeUnit(unit)
		bs := make([][4]float64, n)
		for i, u := range unit {
			b := &bs[i]
			*b = [4]float64{float64(u[0]), float64(u[1]), float64(u[2]), 0}
			b[3] = 1 - b[0] - b[1] - b[2]
			for k := range b {
				if !(b[k] >= -3e-7) {
					c.Fatalf("DistributeUnit: %v is outside of the unit tetrahedron", u)
				}
			}
		}
		moments(c, "DistributeUnit", bs, 0.012)

		// the points of the unit tetrahedron keep their coordinates
		few := 200
		o64 := make([][3]float64, few)
		g.DistributeTetra(unit[:few], out[:few])
		g.DistributeTetra64(unit[:few], o64)
		for i := 0; i < few; i++ {
			for k := 0; k < 3; k++ {
				want := 0.0
				for j := 0; j < 4; j++ {
					want += bs[i][j] * x.p[j][k]
				}
				c.Near("DistributeTetra", float64(out[i][k]), want, err)
				c.Near("DistributeTetra64", o64[i][k], want, err)
			}
		}
	})
}

// The six tetrahedra of a lattice cube tile it, and neighbouring cubes meet in
// the same triangles.
func TestTiling(t *testing.T) {
	vk.Run(t, 1500, 50000, func(c *vk.C) {
		skip := rapid.SampledFrom([]int{1, 1, 2, 3, 4, 8}).Draw(c.T, "skip")
		w := skip + 1 + rapid.IntRange(0, 12).Draw(c.T, "extra")
		var at [3]int
		for k := range at {
			at[k] = rapid.IntRange(0, w-1-skip).Draw(c.T, "at")
		}
		idx := at[0] + w*(at[1]+w*at[2])
		c.Desc("lattice of %d, cube of %d at %v", w, skip, at)
		coords := func(i int64) vec {
			n := int64(w)
			if i < 0 || i >= n*n*n {
				c.Fatalf("index %d in a lattice of %d", i, w)
			}
			return vec{float64(i % n), float64(i / n % n), float64(i / n / n)}
		}
		reuse := &geom.TetraIdxs{}
		var ps [][4]vec
		tot := 0.0
		faces := map[string]int{}
		for dir := 0; dir < geom.TetraDirCount; dir++ {
			ti := geom.NewTetraIdxs(int64(idx), int64(w), int64(skip), dir)
			reuse.Init(int64(idx), int64(w), int64(skip), dir)
			if *ti != *reuse {
				c.Fatalf("NewTetraIdxs: %v, Init: %v", *ti, *reuse)
			}
			if skip == 1 {
				reuse.InitCartesian(int64(at[0]), int64(at[1]), int64(at[2]), int64(w), dir)
				if !same(*ti, *reuse) {
					c.Fatalf("Init: %v, InitCartesian: %v", *ti, *reuse)
				}
			}
			var p [4]vec
			for i := range p {
				p[i] = coords(ti[i])
				for k := 0; k < 3; k++ {
					d := p[i][k] - float64(at[k])
					if d != 0 && d != float64(skip) {
						c.Fatalf("tetrahedron %d has a corner at %v", dir, p[i])
					}
				}
			}
			tot += math.Abs(volume(p))
			ps = append(ps, p)
			for i := range p {
				// the face opposite to corner i, if it is on the surface
				for k := 0; k < 3; k++ {
					on := true
					var rel []string
					for j := range p {
						if j == i {
							continue
						}
						on = on && p[j][k] == p[(i+1)%4][k]
						q := sub(p[j], vec{float64(at[0]), float64(at[1]), float64(at[2])})
						q[k] = 0
						rel = append(rel, fmt.Sprint(q))
					}
					if on {
						sort.Strings(rel)
						faces[fmt.Sprint(k, rel)] += 1
					}
				}
			}
		}
		c.Near("total volume", tot, float64(skip*skip*skip), 1e-9)
		if len(faces) != 6 {
			c.Fatalf("the faces of the cube do not match the opposite ones: %v", faces)
		}
		for f, n := range faces {
			if n != 2 {
				c.Fatalf("triangle %s is on %d sides of the cube", f, n)
			}
		}
		for n := 0; n < 8; n++ {
			var x vec
			for k := range x {
				x[k] = float64(at[k]) + float64(skip)*sim.F(c, "x", 0.001, 0.999, 1009)
			}
			in, edge := 0, false
			for _, p := range ps {
				lo := 1.0
				for _, b := range bary(p, x) {
					lo = math.Min(lo, b)
				}
				edge = edge || math.Abs(lo) < 1e-9
				if lo > 0 {
					in++
				}
			}
			if !edge && in != 1 {
				c.Fatalf("the point %v is in %d of the tetrahedra", x, in)
			}
		}
		c.NonTrivial(true)
		c.LabelIf(skip > 1, "subsampled")
	})
}

func same(a, b geom.TetraIdxs) bool {
	x, y := a[:], b[:]
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// The eight tetrahedra around a lattice point, as far as they are inside of
// the lattice.
func TestCentered(t *testing.T) {
	vk.Run(t, 1500, 50000, func(c *vk.C) {
		skip := rapid.IntRange(1, 4).Draw(c.T, "skip")
		w := rapid.IntRange(1, 10).Draw(c.T, "w")
		var at [3]int
		for k := range at {
			at[k] = rapid.IntRange(0, w-1).Draw(c.T, "at")
		}
		idx := at[0] + w*(at[1]+w*at[2])
		c.Desc("lattice of %d, steps of %d around %v", w, skip, at)
		got := map[string]bool{}
		oks := 0
		for dir := 0; dir < geom.TetraCenteredCount; dir++ {
			ti := &geom.TetraIdxs{}
			ti, ok := ti.InitCentered(int64(idx), int64(w), int64(skip), dir)
			if !ok {
				continue
			}
			oks++
			var sign [3]int
			center := 0
			for i := range ti {
				n := int64(w)
				if ti[i] < 0 || ti[i] >= n*n*n {
					c.Fatalf("index %d in a lattice of %d", ti[i], w)
				}
				x := [3]int{int(ti[i] % n), int(ti[i] / n % n), int(ti[i] / n / n)}
				moved := 0
				for k := range x {
					if d := x[k] - at[k]; d != 0 {
						if d != skip && d != -skip || sign[k] != 0 {
							c.Fatalf("direction %d: corners %v around %d", dir, *ti, idx)
						}
						sign[k] = d / skip
						moved++
					}
				}
				if moved == 0 {
					center++
				} else if moved > 1 {
					c.Fatalf("direction %d: corners %v around %d", dir, *ti, idx)
				}
			}
			if center != 1 {
				c.Fatalf("direction %d: corners %v around %d", dir, *ti, idx)
			}
			if got[fmt.Sprint(sign)] {
				c.Fatalf("octant %v turns up twice", sign)
			}
			got[fmt.Sprint(sign)] = true
		}
		want := 1
		for k := range at {
			n := 0
			if at[k]+skip < w {
				n++
			}
			if at[k]-skip >= 0 {
				n++
			}
			want *= n
		}
		if oks != want {
			c.Fatalf("%d of the tetrahedra are inside of the lattice, want %d", oks, want)
		}
		c.NonTrivial(want > 0 && want < 8)
	})
}
