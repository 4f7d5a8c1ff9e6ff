package c02

import (
	"os"
	"testing"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func scalar(c *vk.C, b render.Box, r *rend.Req) []float64 {
	rend.CheckGeometry(c, b, r, b.CellWidth()*float64(r.Cells))
	axis, ok := b.ProjectionAxis()
	if !ok || axis != r.Axis() {
		c.Fatalf("projection axis is (%d, %v), want %d", axis, ok, r.Axis())
	}
	vals, ok := b.Vals().ScalarBuffer()
	if !ok {
		c.Fatalf("a density image is not scalar")
	}
	span := b.CellSpan()
	if len(vals) != span[0]*span[1]*span[2]/span[axis] {
		c.Fatalf("%d values for a %v block along axis %d", len(vals), span, axis)
	}
	return vals
}

// Images rendered by the manager hold the mass of their columns.
func TestManagerImages(t *testing.T) {
	vk.Run(t, 250, 1500, func(c *vk.C) { managerImages(c, false) })
}

func TestLarge(t *testing.T) {
	vk.Run(t, 12, 300, func(c *vk.C) { managerImages(c, true) })
}

func managerImages(c *vk.C, large bool) {
	dir := rend.TempDir()
	defer os.RemoveAll(dir)
	j := rend.DrawJob(c, dir, large, 2, func() string { return "any" })
	boxes := rend.Render(c, j.S.L, j.Files, j.Reqs, density.Density, j.Threads, j.Skip)
	s := j.S
	tets := s.Tets(j.Skip)
	for i, b := range boxes {
		vals := scalar(c, b, &j.Reqs[i])
		org, span, axis := b.CellOrigin(), b.CellSpan(), j.Reqs[i].Axis()
		lo, hi := rend.Bounds3(s, tets, j.Reqs[i].Cells, org, span)
		lo, hi = rend.Project(lo, span, axis), rend.Project(hi, span, axis)
		d := float64(span[axis])
		n := float64(j.Reqs[i].Cells)
		tol := 1e-9 * n * n * n
		sum, any := 0.0, false
		for p, v := range vals {
			if !(v >= lo[p]/d-tol && v <= hi[p]/d+tol) {
				c.Fatalf("pixel %d of image of %v+%v along %d: %g outside of "+
					"[%g, %g]", p, org, span, axis, v, lo[p]/d, hi[p]/d)
			}
			sum += v
			any = any || hi[p] > 0
		}
		c.NonTrivial(any)
		if span == [3]int{j.Reqs[i].Cells, j.Reqs[i].Cells, j.Reqs[i].Cells} {
			c.Label("image of the whole box")
			c.Near("sum over the image of the whole box", sum, n*n, 10*tol)
		}
		c.LabelIf(span[axis] < j.Reqs[i].Cells, "partial depth")
		c.Label("axis %d", axis)
	}
}

// With fixed sample points an image is the column mean of the volume.
func TestImageIsColumnMean(t *testing.T) {
	vk.Run(t, 300, 2000, func(c *vk.C) {
		s := sim.Draw(c, sim.Opts{Two: true, MaxW: 4, MaxS: 4, VelMode: 2, Aligned: true, Tight: true})
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := s.WriteSheets(dir)
		r := rend.DrawReq(c, s, "any", 1, 12, 1)
		pts := rend.SymmetricPoints(rend.DrawBary(c, 1))
		c.Desc("pts=%v", pts[0])

		img := render.NewBox(s.L, len(pts), r.Cells, density.Density, &r.Conf)
		if err := rend.Direct(s, files, img, density.Density, pts, 1, 1); err != nil {
			c.Fatalf("%v", err)
		}
		vals := scalar(c, img, &r)
		span, axis := img.CellSpan(), r.Axis()
		ref := rend.Reference(s, s.Tets(1), r.Cells, img.CellOrigin(), span, pts).Flat(span, axis)
		unit := ref.PerPoint / float64(span[axis])
		full := 0
		for j, v := range vals {
			lo, hi := ref.N[j]*unit, (ref.N[j]+ref.Amb[j])*unit
			tol := 1e-6 * (hi + unit)
			if !(v >= lo-tol && v <= hi+tol) {
				c.Fatalf("pixel %d of image of %v+%v along %d: %g, want [%g, %g]",
					j, img.CellOrigin(), span, axis, v, lo, hi)
			}
			if lo > 0 {
				full++
			}
		}
		c.NonTrivial(full > 0)
		c.LabelIf(full > 1, "several occupied pixels")
		c.LabelIf(span[axis] > 1 && span[axis] < r.Cells, "partial depth")
	})
}

// Folded and collapsed sheets that never cross a pixel's edge: the mass of
// every column is known exactly, planes without any volume included.
func TestFolded(t *testing.T) {
	vk.Run(t, 150, 1500, func(c *vk.C) {
		s, cells, want, flat, ok := rend.Aligned(c)
		if !ok {
			c.Label("segment too wide: skipped")
			return
		}
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := rapid.Permutation(s.WriteSheets(dir)).Draw(c.T, "order")
		reqs := make([]rend.Req, rapid.IntRange(1, 2).Draw(c.T, "boxes"))
		for i := range reqs {
			reqs[i] = rend.DrawReq(c, s, "any", cells, cells, 3)
			reqs[i].Pts = rapid.IntRange(4, 6).Draw(c.T, "pts")
		}
		threads := rapid.IntRange(1, 4).Draw(c.T, "threads")
		rend.Thrice(c, func() string {
			boxes := rend.Render(c, s.L, files, reqs, density.Density, threads, 1)
			for i, b := range boxes {
				if msg := rend.Compare(c, s, want, b, scalar(c, b, &reqs[i]), &reqs[i]); msg != "" {
					return msg
				}
				c.LabelIf(b.CellSpan()[reqs[i].Axis()] < cells, "partial depth")
			}
			return ""
		})
		c.LabelIf(flat, "collapsed tetrahedra")
		c.NonTrivial(true)
	})
}
