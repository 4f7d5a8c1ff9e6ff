// C16: grid indices and cell bounds.
package c16

import (
	"math"
	"testing"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func TestGrid(t *testing.T) {
	vk.Run(t, 3000, 60000, func(c *vk.C) {
		var o, w [3]int
		for k := range o {
			o[k] = rapid.IntRange(-20, 20).Draw(c.T, "origin")
			w[k] = rapid.IntRange(1, 9).Draw(c.T, "width")
		}
		c.Desc("grid %v + %v", o, w)
		var g *geom.Grid
		switch rapid.IntRange(0, 2).Draw(c.T, "make") {
		case 0:
			g = geom.NewGrid(o, w)
		case 1:
			g = geom.NewGrid([3]int{1, 2, 3}, [3]int{3, 2, 1})
			g.Init(o, w)
		default:
			gl := geom.NewGridLocation(o, w, 10, 64)
			if gl.Cells != 64 || gl.BoxWidth != 10 {
				c.Fatalf("GridLocation of %d cells, width %v", gl.Cells, gl.BoxWidth)
			}
			g = &gl.Grid
		}
		if g.Length != w[0] || g.Area != w[0]*w[1] || g.Volume != w[0]*w[1]*w[2] ||
			g.Origin != o || g.Width != w {
			c.Fatalf("grid %+v", *g)
		}
		for z := o[2] - 2; z < o[2]+w[2]+2; z++ {
			for y := o[1] - 2; y < o[1]+w[1]+2; y++ {
				for x := o[0] - 2; x < o[0]+w[0]+2; x++ {
					p := [3]int{x, y, z}
					in := true
					for k := range p {
						in = in && p[k] >= o[k] && p[k] < o[k]+w[k]
					}
					if got := g.BoundsCheck(x, y, z); got != in {
						c.Fatalf("BoundsCheck(%v) = %v", p, got)
					}
					i, ok := g.IdxCheck(x, y, z)
					want := x - o[0] + w[0]*(y-o[1]+w[1]*(z-o[2]))
					if ok != in || in && i != want {
						c.Fatalf("IdxCheck(%v) = %d, %v; want index %d", p, i, ok, want)
					}
					if !in {
						continue
					}
					if i := g.Idx(x, y, z); i != want {
						c.Fatalf("Idx(%v) = %d, want %d", p, i, want)
					}
					if a, b, d := g.Coords(want); a != x || b != y || d != z {
						c.Fatalf("Coords(%d) = %d, %d, %d but Idx(%v) = %d", want, a, b, d, p, want)
					}
				}
			}
		}
		c.NonTrivial(w[0] != w[1] && g.Volume > 1)
	})
}

// offset and relation of two periodic intervals
func shares(o1, w1, o2, w2, n int) (share, gap bool) {
	gap = true
	for i := 0; i < w1; i++ {
		if sim.InBlock(o1+i, o2, w2, n) {
			share = true
		}
		if sim.InBlock(o1+i, o2-1, w2+2, n) {
			gap = false
		}
	}
	return share, gap
}

func TestIntersect(t *testing.T) {
	vk.Run(t, 30000, 600000, func(c *vk.C) {
		n := vk.Size(c, "cells", 1, 24, 3000)
		var a, b geom.CellBounds
		share, gap := true, false
		for k := 0; k < 3; k++ {
			hi := n
			if rapid.Bool().Draw(c.T, "small") && n > 4 {
				hi = 4
			}
			a.Width[k] = rapid.IntRange(1, hi).Draw(c.T, "w")
			b.Width[k] = rapid.IntRange(1, hi).Draw(c.T, "w")
			a.Origin[k] = rapid.IntRange(0, n-1).Draw(c.T, "o")
			b.Origin[k] = rapid.IntRange(0, n-1).Draw(c.T, "o")
			if k > 0 && rapid.Bool().Draw(c.T, "same") {
				b.Origin[k] = a.Origin[k]
			}
			s, g := shares(a.Origin[k], a.Width[k], b.Origin[k], b.Width[k], n)
			share = share && s
			gap = gap || g
		}
		c.Desc("%v and %v in %d cells", a, b, n)
		for _, got := range []bool{a.Intersect(&b, n), b.Intersect(&a, n)} {
			if share && !got {
				c.Fatalf("blocks sharing a cell do not intersect")
			}
			if gap && got {
				c.Fatalf("blocks with a gap between them intersect")
			}
		}
		// without periodicity
		share = true
		for k := 0; k < 3; k++ {
			share = share && a.Origin[k] < b.Origin[k]+b.Width[k] && b.Origin[k] < a.Origin[k]+a.Width[k]
		}
		for _, got := range []bool{a.IntersectUnbounded(&b), b.IntersectUnbounded(&a)} {
			if got != share {
				c.Fatalf("IntersectUnbounded = %v, want %v", got, share)
			}
		}
		c.NonTrivial(share || gap)
		c.LabelIf(share, "shared cells")
		c.LabelIf(gap, "a gap")
	})
}

func TestScale(t *testing.T) {
	vk.Run(t, 10000, 200000, func(c *vk.C) {
		n := vk.Size(c, "cells", 1, 200, 5000)
		L := sim.F(c, "L", 0.1, 500, rapid.SampledFrom([]int{1, 10, 1000}).Draw(c.T, "Lden"))
		if L < 0.1 {
			L = 1
		}
		cw := L / float64(n)
		var seg, dom geom.CellBounds
		for k := 0; k < 3; k++ {
			seg.Origin[k] = rapid.IntRange(0, n-1).Draw(c.T, "o")
			dom.Origin[k] = rapid.IntRange(0, n-1).Draw(c.T, "o")
			seg.Width[k] = rapid.IntRange(1, (n+1)/2).Draw(c.T, "w")
			dom.Width[k] = rapid.IntRange(1, n).Draw(c.T, "w")
		}
		m := rapid.IntRange(1, 8).Draw(c.T, "points")
		xs := make([]geom.Vec, m)
		edge := false
		for i := range xs {
			for k := 0; k < 3; k++ {
				// anywhere in the segment's block, often on a cell's edge
				p := float64(seg.Origin[k] + rapid.IntRange(0, seg.Width[k]-1).Draw(c.T, "cell"))
				if rapid.IntRange(0, 2).Draw(c.T, "edge") == 0 {
					edge = true
				} else {
					p += sim.F(c, "frac", 0, 1, 512)
				}
				x := float32(p * cw)
				if float64(x) >= L {
					x = float32(float64(x) - L)
				}
				if x < 0 || float64(x) >= L {
					x = 0
				}
				// the block must hold it
				if !sim.InBlock(int(math.Floor(float64(x)/cw)), seg.Origin[k], seg.Width[k], n) {
					x = math.Nextafter32(x, float32(L))
				}
				if !sim.InBlock(int(math.Floor(float64(x)/cw)), seg.Origin[k], seg.Width[k], n) {
					x = float32((float64(seg.Origin[k]) + 0.5) * cw)
				}
				xs[i][k] = x
			}
		}
		c.Desc("segment %v, domain %v of %d cells, L=%v, %v", seg, dom, n, L, xs)
		eps := 2e-6 * float64(n)
		if eps < 1e-5 {
			eps = 1e-5
		}
		a, b := append([]geom.Vec{}, xs...), append([]geom.Vec{}, xs...)
		seg.ScaleVecsSegment(a, n, L)
		seg.ScaleVecsDomain(&dom, b, n, L)
		for i := range xs {
			for k := 0; k < 3; k++ {
				off := float64(xs[i][k])/cw - float64(seg.Origin[k])
				d := float64(a[i][k]) - off
				c.Near("offset in the segment's block, modulo the period", d, math.Round(d/float64(n))*float64(n), eps)
				if !(a[i][k] >= 0 && float64(a[i][k]) <= float64(seg.Width[k])+eps) {
					c.Fatalf("axis %d: %v is at %v in its segment's block", k, xs[i][k], a[i][k])
				}
				// in the domain's block the segment keeps its shape, and is
				// at the image closest to the domain's origin
				sh := float64(b[i][k]) - float64(a[i][k])
				want := float64(seg.Origin[k] - dom.Origin[k])
				c.Near("shift to the domain's block, modulo the period", sh-want,
					math.Round((sh-want)/float64(n))*float64(n), eps)
				if math.Abs(sh) > float64(n)/2+eps {
					c.Fatalf("axis %d: the segment is %v cells from the domain's block", k, sh)
				}
			}
		}
		c.NonTrivial(edge)
	})
}

// The cells of a sheet are those its bounding box touches.
func TestHeader(t *testing.T) {
	vk.Run(t, 10000, 200000, func(c *vk.C) {
		hd := &io.SheetHeader{}
		n := vk.Size(c, "cells", 1, 100, 5000)
		hd.TotalWidth = sim.F(c, "L", 1, 500, 8)
		cw := hd.TotalWidth / float64(n)
		for k := 0; k < 3; k++ {
			hd.Origin[k] = float32(hd.TotalWidth * sim.F(c, "o", 0, 0.999, 1000))
			hd.Width[k] = float32(hd.TotalWidth * sim.F(c, "w", 0, 0.5, 1000))
		}
		c.Desc("L=%v, %d cells, sheet %v + %v", hd.TotalWidth, n, hd.Origin, hd.Width)
		cb := hd.CellBounds(n)
		for k := 0; k < 3; k++ {
			lo := float64(hd.Origin[k]) / cw
			hi := (float64(hd.Origin[k]) + float64(hd.Width[k])) / cw
			eps := 3e-7 * float64(n)
			a, b := float64(cb.Origin[k]), float64(cb.Origin[k]+cb.Width[k])
			if !(a <= lo+eps && a > lo-1-eps && b >= hi-eps && b <= hi+1+eps) {
				c.Fatalf("axis %d: cells %v to %v for a sheet from %v to %v", k, a, b, lo, hi)
			}
		}
		c.NonTrivial(true)
	})
}
