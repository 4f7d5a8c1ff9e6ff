package c01

import (
	"os"
	"testing"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Mass rendered by the manager: conserved, and where the tetrahedra are.
func TestManagerMass(t *testing.T) {
	vk.Run(t, 250, 1200, func(c *vk.C) { managerMass(c, false) })
}

func TestLarge(t *testing.T) {
	vk.Run(t, 12, 300, func(c *vk.C) { managerMass(c, true) })
}

func managerMass(c *vk.C, large bool) {
	dir := rend.TempDir()
	defer os.RemoveAll(dir)
	j := rend.DrawJob(c, dir, large, 2, func() string { return "" })
	boxes := rend.Render(c, j.S.L, j.Files, j.Reqs, density.Density, j.Threads, j.Skip)
	tets := j.S.Tets(j.Skip)
	for i := range boxes {
		checkMass(c, j.S, tets, boxes[i], &j.Reqs[i])
	}
}

func checkMass(c *vk.C, s *sim.Sim, tets []sim.Tet, b render.Box, r *rend.Req) {
	rend.CheckGeometry(c, b, r, s.L)
	vals, ok := b.Vals().ScalarBuffer()
	if !ok {
		c.Fatalf("density is not a scalar field")
	}
	org, span := b.CellOrigin(), b.CellSpan()
	if len(vals) != span[0]*span[1]*span[2] {
		c.Fatalf("%d values for a %v block", len(vals), span)
	}
	lo, hi := rend.Bounds3(s, tets, r.Cells, org, span)
	tol := 1e-9 * float64(r.Cells*r.Cells*r.Cells)
	sum, slo, shi, exact := 0.0, 0.0, 0.0, 0
	for j, v := range vals {
		if !(v >= lo[j]-tol && v <= hi[j]+tol) {
			c.Fatalf("pixel %d of block %v+%v: density %g outside of [%g, %g]",
				j, org, span, v, lo[j], hi[j])
		}
		sum += v
		slo += lo[j]
		shi += hi[j]
		if lo[j] == hi[j] {
			exact++
		}
	}
	c.LabelIf(exact > 0, "some pixels exactly determined")
	whole := true
	for k := range span {
		whole = whole && span[k] == r.Cells
	}
	if whole {
		c.Label("whole box")
		c.Near("total mass of the whole box", sum,
			float64(r.Cells*r.Cells*r.Cells), 10*tol)
	} else {
		c.Label("sub-box")
	}
	if r.Conf.X+r.Conf.XWidth > s.L {
		c.Label("box wraps around")
	}
	c.NonTrivial(shi > 0)

	// sub-blocks of the box
	for n := 0; n < 4; n++ {
		var o, w, g [3]int
		for k := range o {
			o[k] = rapid.IntRange(0, span[k]-1).Draw(c.T, "bo")
			w[k] = rapid.IntRange(1, span[k]-o[k]).Draw(c.T, "bw")
			g[k] = o[k] + org[k]
		}
		if n == 0 {
			o, w, g = [3]int{}, span, org
		}
		l, h := rend.BlockBounds(s, tets, r.Cells, g, w)
		m := 0.0
		for z := o[2]; z < o[2]+w[2]; z++ {
			for y := o[1]; y < o[1]+w[1]; y++ {
				for x := o[0]; x < o[0]+w[0]; x++ {
					m += vals[x+span[0]*(y+span[1]*z)]
				}
			}
		}
		if !(m >= l-10*tol && m <= h+10*tol) {
			c.Fatalf("block %v+%v holds mass %g outside of [%g, %g]", g, w, m, l, h)
		}
	}
}

// The deposit of a fixed set of sample points, against the reference deposit.
func TestFixedSamples(t *testing.T) {
	vk.Run(t, 250, 1500, func(c *vk.C) {
		skip := rapid.SampledFrom([]int{1, 1, 2}).Draw(c.T, "skip")
		s := sim.Draw(c, sim.Opts{Two: true, MaxW: 3 * skip, WMultiple: skip, MaxS: 4, VelMode: 2, Aligned: true, Tight: true})
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := s.WriteSheets(dir)
		r := rend.DrawReq(c, s, "", 1, 12, 1)
		pts := rend.SymmetricPoints(rend.DrawBary(c, rapid.IntRange(1, 2).Draw(c.T, "nb")))
		workers := rapid.IntRange(1, 3).Draw(c.T, "workers")
		c.Desc("skip=%d workers=%d pts=%v", skip, workers, pts[0])

		box := render.NewBox(s.L, len(pts), r.Cells, density.Density, &r.Conf)
		if err := rend.Direct(s, files, box, density.Density, pts, workers, skip); err != nil {
			c.Fatalf("%v", err)
		}
		vals, _ := box.Vals().ScalarBuffer()
		ref := rend.Reference(s, s.Tets(skip), r.Cells, box.CellOrigin(), box.CellSpan(), pts)
		full := 0
		for j, v := range vals {
			lo := ref.N[j] * ref.PerPoint
			hi := (ref.N[j] + ref.Amb[j]) * ref.PerPoint
			tol := 1e-6 * (hi + ref.PerPoint)
			if !(v >= lo-tol && v <= hi+tol) {
				c.Fatalf("pixel %d of block %v+%v: %g, want [%g, %g]", j,
					box.CellOrigin(), box.CellSpan(), v, lo, hi)
			}
			if lo > 0 {
				full++
			}
		}
		c.NonTrivial(full > 0)
		c.LabelIf(full > 1, "several occupied pixels")
	})
}

// Folded and collapsed sheets that never cross a pixel's edge: the mass of
// every pixel is known exactly, planes without any volume included.
func TestFolded(t *testing.T) {
	vk.Run(t, 150, 1500, func(c *vk.C) {
		s, cells, want, flat, ok := rend.Aligned(c)
		if !ok {
			c.Label("segment too wide: skipped")
			return
		}
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := rapid.Permutation(s.WriteSheets(dir)).Draw(c.T, "order")
		reqs := make([]rend.Req, rapid.IntRange(1, 2).Draw(c.T, "boxes"))
		for i := range reqs {
			reqs[i] = rend.DrawReq(c, s, "", cells, cells, 3)
			reqs[i].Pts = rapid.IntRange(4, 6).Draw(c.T, "pts")
		}
		threads := rapid.IntRange(1, 4).Draw(c.T, "threads")
		rend.Thrice(c, func() string {
			boxes := rend.Render(c, s.L, files, reqs, density.Density, threads, 1)
			for i, b := range boxes {
				rend.CheckGeometry(c, b, &reqs[i], s.L)
				got, _ := b.Vals().ScalarBuffer()
				if msg := rend.Compare(c, s, want, b, got, &reqs[i]); msg != "" {
					return msg
				}
			}
			return ""
		})
		c.LabelIf(flat, "collapsed tetrahedra")
		c.NonTrivial(true)
	})
}
