// C32: subhalo finding.
package c32

import (
	"fmt"
	"math"
	gosort "sort"
	"testing"

	"github.com/phil-mansfield/gotetra/render/halo"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

type catalogue struct {
	width          float64
	xs, ys, zs, rs []float64
}

func draw(c *vk.C) *catalogue {
	h := &catalogue{width: []float64{1, 62.5, 125, 0.3, 250}[rapid.IntRange(0, 4).Draw(c.T, "width")]}
	n := rapid.IntRange(0, 14).Draw(c.T, "n")
	if rapid.IntRange(0, 5).Draw(c.T, "many") == 0 {
		n = rapid.IntRange(15, 120).Draw(c.T, "n")
		if rapid.IntRange(0, 39).Draw(c.T, "very many") == 0 {
			n = vk.Round(c, "n", 121, 1500)
		}
	}
	size := []float64{0.02, 0.06, 0.12, 0.24, 0.6}[rapid.IntRange(0, 4).Draw(c.T, "size")]
	seed := uint64(0)
	if n > 120 {
		seed = uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "halos"))
	}
	coord := func(i, k int, near float64) float64 {
		name := "xyz"[k : k+1]
		if n > 120 { // drawn numbers are costly
			switch sim.Hash(seed+uint64(3*i+k)) % 12 {
			case 0:
				return h.width * float64(sim.Hash(seed^uint64(3*i+k))%13) / 12
			case 1:
				return near
			}
			return h.width * (1.1*sim.Unit(seed, i, k) - 0.05)
		}
		switch rapid.IntRange(0, 6).Draw(c.T, name+".kind") {
		case 0: // a face of the box
			return h.width * float64(rapid.IntRange(0, 1).Draw(c.T, name))
		case 1: // close to a face, possibly outside
			reach := []float64{0.05, 0.24}[rapid.IntRange(0, 1).Draw(c.T, name+".reach")]
			return h.width*float64(rapid.IntRange(0, 1).Draw(c.T, name)) + h.width*sim.F(c, name+".d", -reach, reach, 1000)
		case 2: // likely a face of grid cells
			return h.width * float64(rapid.IntRange(0, 12).Draw(c.T, name)) / 12
		case 3:
			return near
		}
		return h.width * sim.F(c, name, 0, 1, 100003)
	}
	for i := 0; i < n; i++ {
		var near [3]float64
		if i > 0 {
			near = [3]float64{h.xs[i-1], h.ys[i-1], h.zs[i-1]}
		}
		h.xs = append(h.xs, coord(i, 0, near[0]))
		h.ys = append(h.ys, coord(i, 1, near[1]))
		h.zs = append(h.zs, coord(i, 2, near[2]))
		if n > 120 {
			h.rs = append(h.rs, h.width*size*(0.02+0.3*sim.Unit(seed, i, 3)))
		} else {
			h.rs = append(h.rs, h.width*size*sim.F(c, "r", 0.02, 1, 997))
		}
	}
	if rapid.IntRange(0, 4).Draw(c.T, "sorted") > 0 {
		gosort.Sort(gosort.Reverse(gosort.Float64Slice(h.rs)))
	} else {
		c.Label("radii in no order")
	}
	return h
}

// overlap: -1 apart, 1 overlapping, 0 too close to call.
func (h *catalogue) overlap(i, j int, mult float64) int {
	d2 := 0.0
	for _, xs := range [][]float64{h.xs, h.ys, h.zs} {
		d := math.Mod(math.Abs(xs[i]-xs[j]), h.width)
		d = math.Min(d, h.width-d)
		d2 += d * d
	}
	d, r := math.Sqrt(d2), mult*(h.rs[i]+h.rs[j])
	switch {
	case math.Abs(d-r) < 1e-9*h.width:
		return 0
	case d < r:
		return 1
	}
	return -1
}

func cp(x []float64) []float64 { return append([]float64{}, x...) }

func TestFinder(t *testing.T) {
	vk.Run(t, 4000, 150000, func(c *vk.C) {
		h := draw(c)
		n := len(h.rs)
		cells := rapid.IntRange(1, 12).Draw(c.T, "cells")
		c.Desc("box %g, %d cells; x %v; y %v; z %v; r %v", h.width, cells, h.xs, h.ys, h.zs, h.rs)

		g := halo.NewGrid(cells, h.width, n)
		g.Insert(h.xs, h.ys, h.zs)
		// Every halo is in one cell, the one it is in.
		if g.TotalCells() != cells*cells*cells {
			c.Fatalf("%d cells for %d per side", g.TotalCells(), cells)
		}
		found := make([]int, n)
		max := 0
		for idx := 0; idx < g.TotalCells(); idx++ {
			is := g.ReadIndexes(idx, make([]int, 0, n+1))
			if len(is) != g.Length(idx) {
				c.Fatalf("cell %d lists %d halos of %d", idx, len(is), g.Length(idx))
			}
			if len(is) > max {
				max = len(is)
			}
			for _, i := range is {
				found[i]++
				ix, iy, iz := idx%cells, idx/cells%cells, idx/cells/cells
				for k, x := range []float64{h.xs[i], h.ys[i], h.zs[i]} {
					cw := h.width / float64(cells)
					lo := float64([]int{ix, iy, iz}[k]) * cw
					d := math.Mod(x-lo+2*h.width, h.width)
					if d > cw*(1+1e-9) && d < h.width*(1-1e-9) {
						c.Fatalf("halo %d at %v, %v, %v was put in cell %d", i, h.xs[i], h.ys[i], h.zs[i], idx)
					}
				}
			}
		}
		for i, k := range found {
			if k != 1 {
				c.Fatalf("halo %d is in %d cells", i, k)
			}
		}
		if g.MaxLength() != max {
			c.Fatalf("the fullest cell has %d halos, not %d", max, g.MaxLength())
		}

		sf := halo.NewSubhaloFinder(g)
		runs := rapid.IntRange(1, 2).Draw(c.T, "runs")
		pairs := 0
		for ; runs > 0; runs-- {
			mult := []float64{1, 1, 0.5, 1.0 / 3, 1.7, 3}[rapid.IntRange(0, 5).Draw(c.T, "multiple")]
			for _, r := range h.rs {
				c.LabelIf(2*r*mult > h.width/2, "a search around the whole box")
			}
			c.Desc("radii times %g", mult)
			xs, ys, zs, rs := cp(h.xs), cp(h.ys), cp(h.zs), cp(h.rs)
			sf.FindSubhalos(xs, ys, zs, rs, mult)
			for i := range rs {
				if xs[i] != h.xs[i] || ys[i] != h.ys[i] || zs[i] != h.zs[i] || rs[i] != h.rs[i] {
					c.Fatalf("halo %d was changed: radius %.17g, was %.17g", i, rs[i], h.rs[i])
				}
			}
			for i := 0; i < n; i++ {
				is := sf.Intersects(i)
				hosts, subs := sf.Hosts(i), sf.Subhalos(i)
				if len(is) != sf.IntersectCount(i) || len(hosts) != sf.HostCount(i) || len(subs) != sf.SubhaloCount(i) ||
					len(hosts)+len(subs) != len(is) {
					c.Fatalf("halo %d: %d neighbours (%d), %d hosts (%d), %d subhalos (%d)", i,
						len(is), sf.IntersectCount(i), len(hosts), sf.HostCount(i), len(subs), sf.SubhaloCount(i))
				}
				got := map[int]int{}
				for k, j := range is {
					if k > 0 && is[k-1] >= j {
						c.Fatalf("halo %d: neighbours %v are not in order or repeat", i, is)
					}
					if (k < len(hosts)) != (j < i) || j == i {
						c.Fatalf("halo %d: hosts %v, subhalos %v", i, hosts, subs)
					}
					got[j]++
				}
				for j := 0; j < n; j++ {
					if j == i {
						continue
					}
					o := h.overlap(i, j, mult)
					if o == 1 {
						pairs++
					}
					if (o == 1 && got[j] == 0) || (o == -1 && got[j] != 0) {
						c.Fatalf("halos %d and %d: overlapping %v, listed %v (of %v)", i, j, o == 1, got[j] != 0, is)
					}
				}
			}
		}
		c.LabelIf(n == 0, "no halos")
		c.LabelIf(cells < 3, "one or two cells per side")
		c.NonTrivial(pairs > 0)
		_ = fmt.Sprint
	})
}

// TestBounds: the cells a sphere reaches.
func TestBounds(t *testing.T) {
	vk.Run(t, 3000, 100000, func(c *vk.C) {
		width := []float64{1, 62.5, 0.3, 250}[rapid.IntRange(0, 3).Draw(c.T, "width")]
		cells := rapid.IntRange(1, 20).Draw(c.T, "cells")
		cw := width / float64(cells)
		var pos [3]float64
		for k := range pos {
			pos[k] = width * sim.F(c, "pos", 0, 1, 997)
		}
		r := width * sim.F(c, "r", 0.001, 0.45, 449)
		if rapid.IntRange(0, 4).Draw(c.T, "big") == 0 {
			r = width * sim.F(c, "r", 0.45, 1.3, 449)
		}
		c.Desc("box %g, %d cells, sphere at %v of radius %g", width, cells, pos, r)
		b := &halo.Bounds{}
		b.SphereBounds(pos, r, cw, width)
		crossing := false
		for k := 0; k < 3; k++ {
			if b.Origin[k] < 0 || b.Span[k] < 1 {
				c.Fatalf("the bounds are %v, %v", b.Origin, b.Span)
			}
			for i := 0; i < cells; i++ {
				lo := float64(i)*cw - (pos[k] - r)
				lo -= width * math.Floor(lo/width) // distance up from the sphere's start
				reached := lo <= 2*r*(1-1e-9) || lo+cw >= width*(1+1e-9)
				far := lo > 2*r*(1+1e-9)+1e-9*width && lo+cw < width*(1-1e-9)
				in := b.Inside(i, cells, k)
				if reached && !in || far && in {
					c.Fatalf("cell %d along axis %d: reached %v, inside the bounds (%d, %d) %v", i, k, reached, b.Origin[k], b.Span[k], in)
				}
			}
			crossing = crossing || pos[k]-r < 0 || pos[k]+r > width
		}
		// Offsets of cells within the bounds, also of cells beyond the
		// upper face of the box.
		x, y, z := rapid.IntRange(0, 2*cells-1).Draw(c.T, "cx"), rapid.IntRange(0, 2*cells-1).Draw(c.T, "cy"), rapid.IntRange(0, 2*cells-1).Draw(c.T, "cz")
		bx, by, bz := b.ConvertIndices(x, y, z, cells)
		for k, o := range [3]int{bx, by, bz} {
			v := [3]int{x, y, z}[k]
			if b.Origin[k] >= cells {
				continue // the sphere starts at the end of the box
			}
			if o < 0 || o >= cells || (b.Origin[k]+o)%cells != v%cells {
				c.Fatalf("cell %d along axis %d is at offset %d from %d", v, k, o, b.Origin[k])
			}
			if b.Span[k] <= cells && (o < b.Span[k]) != b.Inside(v, cells, k) {
				c.Fatalf("cell %d along axis %d: offset %d of %d, inside %v", v, k, o, b.Span[k], b.Inside(v, cells, k))
			}
		}
		c.LabelIf(2*r >= width, "around the whole box")
		c.LabelIf(crossing, "across a face of the box")
		c.NonTrivial(true)
	})
}
