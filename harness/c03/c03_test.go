package c03

import (
	"fmt"
	"math"
	"os"
	"testing"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func field(c *vk.C, b render.Box, r *rend.Req) [3][]float32 {
	rend.CheckGeometry(c, b, r, b.CellWidth()*float64(r.Cells))
	x, y, z, ok := b.Vals().FinalizedVectorBuffer()
	if !ok {
		c.Fatalf("a velocity render is not a vector field")
	}
	if _, ok := b.Vals().FinalizedScalarBuffer(); ok {
		c.Fatalf("a velocity render claims to be a scalar field")
	}
	span := b.CellSpan()
	n := span[0] * span[1] * span[2]
	if a := r.Axis(); a >= 0 {
		n /= span[a]
	}
	if len(x) != n || len(y) != n || len(z) != n {
		c.Fatalf("%d, %d, %d values for %d pixels", len(x), len(y), len(z), n)
	}
	return [3][]float32{x, y, z}
}

func vmax(s *sim.Sim) float64 {
	m := 0.0
	for _, v := range s.V {
		for k := 0; k < 3; k++ {
			m = math.Max(m, math.Abs(float64(v[k])))
		}
	}
	return m
}

func axis(c *vk.C) string { return rapid.SampledFrom([]string{"", "any"}).Draw(c.T, "kind") }

// The manager: uniform fields come out uniform, others within the extremes of
// what reaches the pixel, empty pixels zero.
func TestManagerVelocity(t *testing.T) {
	vk.Run(t, 250, 1500, func(c *vk.C) { managerVelocity(c, false) })
}

func TestLarge(t *testing.T) {
	vk.Run(t, 12, 300, func(c *vk.C) { managerVelocity(c, true) })
}

func managerVelocity(c *vk.C, large bool) {
	mode := rapid.SampledFrom([]int{1, 0}).Draw(c.T, "uniform")
	dir := rend.TempDir()
	defer os.RemoveAll(dir)
	job := rend.DrawJob(c, dir, large, mode, func() string { return axis(c) })
	boxes := rend.Render(c, job.S.L, job.Files, job.Reqs, density.Velocity, job.Threads, job.Skip)
	s := job.S
	tets := s.Tets(job.Skip)
	tol := 3e-5*vmax(s) + 1e-30
	for i, b := range boxes {
		got := field(c, b, &job.Reqs[i])
		r := rend.VelBounds(s, tets, job.Reqs[i].Cells, b.CellOrigin(), b.CellSpan(), job.Reqs[i].Axis())
		occ := 0
		for j := range got[0] {
			zero := true
			for k := 0; k < 3; k++ {
				v := float64(got[k][j])
				if v != 0 {
					zero = false
				}
				if v != v {
					c.Fatalf("pixel %d axis %d: NaN", j, k)
				}
			}
			if zero && !r.Must[j] {
				continue
			}
			if !r.Can[j] {
				c.Fatalf("pixel %d of %v+%v has a velocity but no mass can reach it",
					j, b.CellOrigin(), b.CellSpan())
			}
			occ++
			for k := 0; k < 3; k++ {
				v := float64(got[k][j])
				if !(v >= r.Min[j][k]-tol && v <= r.Max[j][k]+tol) {
					c.Fatalf("pixel %d of %v+%v proj %q: v[%d] = %g outside of [%g, %g]",
						j, b.CellOrigin(), b.CellSpan(), job.Reqs[i].Conf.ProjectionAxis,
						k, v, r.Min[j][k], r.Max[j][k])
				}
			}
		}
		c.NonTrivial(occ > 0 && tol > 1e-20)
		c.LabelIf(occ > 0, "occupied pixels")
		c.LabelIf(occ < len(got[0]), "empty pixels")
		c.LabelIf(job.Reqs[i].Axis() >= 0, "image")
		c.LabelIf(mode == 1, "uniform")
	}
}

// Fixed sample points, against the reference mean.
func TestFixedSamples(t *testing.T) {
	vk.Run(t, 300, 2000, func(c *vk.C) {
		skip := rapid.SampledFrom([]int{1, 1, 2}).Draw(c.T, "skip")
		s := sim.Draw(c, sim.Opts{Two: true, MaxW: 3 * skip, WMultiple: skip, MaxS: 4, Aligned: true, Tight: true})
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := s.WriteSheets(dir)
		r := rend.DrawReq(c, s, axis(c), 1, 12, 1)
		pts := rend.SymmetricPoints(rend.DrawBary(c, rapid.IntRange(1, 2).Draw(c.T, "nb")))
		workers := rapid.IntRange(1, 3).Draw(c.T, "workers")
		c.Desc("skip=%d workers=%d pts=%v", skip, workers, pts[0])
		box := render.NewBox(s.L, len(pts), r.Cells, density.Velocity, &r.Conf)
		if err := rend.Direct(s, files, box, density.Velocity, pts, workers, skip); err != nil {
			c.Fatalf("%v", err)
		}
		got := field(c, box, &r)
		span := box.CellSpan()
		ref := rend.Reference(s, s.Tets(skip), r.Cells, box.CellOrigin(), span, pts).Flat(span, r.Axis())
		tol := 3e-5*vmax(s) + 1e-30
		exact := 0
		for j := range got[0] {
			for k := 0; k < 3; k++ {
				v := float64(got[k][j])
				n, a := ref.N[j], ref.Amb[j]
				switch {
				case n == 0 && a == 0:
					if v != 0 {
						c.Fatalf("empty pixel %d holds %g", j, v)
					}
				case a == 0:
					want := ref.V[j][k] / n
					if !(math.Abs(v-want) <= tol) {
						c.Fatalf("pixel %d of %v+%v proj %q: v[%d] = %g, want %g",
							j, box.CellOrigin(), span, r.Conf.ProjectionAxis, k, v, want)
					}
					exact++
				default:
					// between leaving out and counting the doubtful points
					m := (math.Abs(ref.V[j][k]) + ref.VAmb[j][k]) / math.Max(n, 1)
					if !(math.Abs(v) <= m+tol) {
						c.Fatalf("pixel %d: v[%d] = %g beyond %g", j, k, v, m)
					}
				}
			}
		}
		c.NonTrivial(exact > 0 && tol > 1e-20)
		c.LabelIf(exact > 3, "several occupied pixels")
		c.LabelIf(r.Axis() >= 0, "image")
		c.LabelIf(skip > 1, "subsampled")
	})
}

// A field that is linear in the position is everywhere that of the place: the
// samples' velocities are those of their own positions.
func TestLinear(t *testing.T) {
	vk.Run(t, 150, 1500, func(c *vk.C) {
		skip := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(c.T, "skip")
		s := sim.Draw(c, sim.Opts{Two: true, MaxW: 4, MaxS: 5, VelMode: 2, WMultiple: skip, Aligned: true, Tight: true})
		f := rend.DrawLinear(c, s)
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := rapid.Permutation(s.WriteSheets(dir)).Draw(c.T, "order")
		reqs := make([]rend.Req, rapid.IntRange(1, 2).Draw(c.T, "boxes"))
		for i := range reqs {
			reqs[i] = rend.DrawReq(c, s, axis(c), 4, 16, 8)
		}
		threads := rapid.IntRange(1, 4).Draw(c.T, "threads")
		c.Desc("skip=%d threads=%d", skip, threads)
		boxes := rend.Render(c, s.L, files, reqs, density.Velocity, threads, skip)
		tets := s.Tets(skip)
		tol := 1e-4*vmax(s) + 1e-30
		told := 0
		for i, b := range boxes {
			got := field(c, b, &reqs[i])
			r := f.Bounds(s, tets, reqs[i].Cells, b.CellOrigin(), b.CellSpan(), reqs[i].Axis())
			for j := range got[0] {
				if !r.Can[j] || got[0][j] == 0 && got[1][j] == 0 && got[2][j] == 0 {
					continue
				}
				told++
				for k := 0; k < 3; k++ {
					v := float64(got[k][j])
					if !(v >= r.Min[j][k]-tol && v <= r.Max[j][k]+tol) {
						c.Fatalf("pixel %d of %v+%v proj %q: v[%d] = %g, the field there is in [%g, %g]",
							j, b.CellOrigin(), b.CellSpan(), reqs[i].Conf.ProjectionAxis, k, v, r.Min[j][k], r.Max[j][k])
					}
				}
			}
			c.LabelIf(reqs[i].Axis() >= 0, "image")
		}
		c.LabelIf(skip > 1, "subsampled")
		c.NonTrivial(told > 0 && tol > 1e-20)
	})
}

// Folded and collapsed sheets that never cross a pixel's edge: the pixels that
// hold mass are known exactly, and move like the sheet does.
func TestFolded(t *testing.T) {
	vk.Run(t, 120, 1500, func(c *vk.C) {
		s, cells, want, flat, ok := rend.Aligned(c)
		if !ok {
			c.Label("segment too wide: skipped")
			return
		}
		var v0 [3]float64
		for k := range v0 {
			v0[k] = float64(rapid.IntRange(1, 2000).Draw(c.T, "v0"))
		}
		for i := range s.V {
			for k := range v0 {
				s.V[i][k] = float32(v0[k])
			}
		}
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := rapid.Permutation(s.WriteSheets(dir)).Draw(c.T, "order")
		reqs := make([]rend.Req, rapid.IntRange(1, 2).Draw(c.T, "boxes"))
		for i := range reqs {
			reqs[i] = rend.DrawReq(c, s, axis(c), cells, cells, 3)
			reqs[i].Pts = rapid.IntRange(4, 6).Draw(c.T, "pts")
		}
		threads := rapid.IntRange(1, 4).Draw(c.T, "threads")
		rend.Thrice(c, func() string {
			boxes := rend.Render(c, s.L, files, reqs, density.Velocity, threads, 1)
			tol := 3e-5 * vmax(s)
			for i, b := range boxes {
				got := field(c, b, &reqs[i])
				exp := rend.Expect(want, cells, b.CellOrigin(), b.CellSpan(), reqs[i].Axis())
				strays := 0
				for j := range exp {
					if exp[j] == 0 {
						// a sample on the pixel's edge can be rounded across it
						if got[0][j] != 0 {
							strays++
						}
						continue
					}
					for k := 0; k < 3; k++ {
						if v := float64(got[k][j]); !(math.Abs(v-v0[k]) <= tol) {
							c.Fatalf("pixel %d of %v+%v proj %q: v[%d] = %g, everything moves with %g",
								j, b.CellOrigin(), b.CellSpan(), reqs[i].Conf.ProjectionAxis, k, v, v0[k])
						}
					}
				}
				if strays > rend.Strays(s, &reqs[i]) {
					return fmt.Sprintf("%d pixels without any mass have velocities", strays)
				}
				c.LabelIf(reqs[i].Axis() >= 0, "image")
			}
			return ""
		})
		c.LabelIf(flat, "collapsed tetrahedra")
		c.NonTrivial(true)
	})
}
