// Package sheet generates contents of sheet files.
package sheet

import (
	"math"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Draw generates a header with its positions and velocities. Counts, widths
// and indices are consistent, everything else is arbitrary.
func Draw(c *vk.C) (*io.SheetHeader, []geom.Vec, []geom.Vec) {
	h := &io.SheetHeader{}
	w := rapid.IntRange(1, 6).Draw(c.T, "W")
	if rapid.IntRange(0, 15).Draw(c.T, "wide") == 0 {
		w = rapid.IntRange(7, 20).Draw(c.T, "W")
		if rapid.IntRange(0, 5).Draw(c.T, "wider") == 0 {
			w = vk.Round(c, "W", 21, 50)
		}
	}
	h.SegmentWidth, h.GridWidth = int64(w), int64(w+1)
	h.GridCount = h.GridWidth * h.GridWidth * h.GridWidth
	h.Cells = int64(rapid.IntRange(1, 9).Draw(c.T, "cells"))
	if rapid.IntRange(0, 5).Draw(c.T, "vast") == 0 { // as large as simulations get, and beyond
		h.Cells = int64(rapid.IntRange(10, 20000/w).Draw(c.T, "cells"))
	}
	h.CountWidth = h.Cells * h.SegmentWidth
	h.Count = h.CountWidth * h.CountWidth * h.CountWidth
	h.Idx = int64(rapid.IntRange(0, int(h.Cells*h.Cells*h.Cells)-1).Draw(c.T, "idx"))
	h.Cosmo.Z = sim.F(c, "z", 0, 12, 1000)
	h.Cosmo.OmegaM = sim.F(c, "omM", 0.01, 1, 1000)
	h.Cosmo.OmegaL = sim.F(c, "omL", 0, 1, 1000)
	h.Cosmo.H100 = sim.F(c, "h", 0.3, 1.2, 1000)
	h.Mass = sim.F(c, "mass", 0, 1e9, 7)
	h.TotalWidth = sim.F(c, "L", 0.01, 2000, 1000)
	seed := uint64(rapid.IntRange(0, 1<<24).Draw(c.T, "values"))
	for k := 0; k < 3; k++ {
		h.Origin[k] = float32(h.TotalWidth * 0.999 * sim.Unit(seed, 1, k))
		h.Width[k] = float32(h.TotalWidth / 2 * sim.Unit(seed, 2, k))
		h.VelocityOrigin[k] = float32(5000 * sim.Noise(seed, 3, k))
		h.VelocityWidth[k] = float32(5000 * sim.Unit(seed, 4, k))
	}
	c.Desc("W=%d cells=%d idx=%d z=%g OmM=%g OmL=%g h=%g m=%g L=%g values=%d", w, h.Cells,
		h.Idx, h.Cosmo.Z, h.Cosmo.OmegaM, h.Cosmo.OmegaL, h.Cosmo.H100, h.Mass, h.TotalWidth, seed)
	xs, vs := make([]geom.Vec, h.GridCount), make([]geom.Vec, h.GridCount)
	for i := range xs {
		for k := 0; k < 3; k++ {
			xs[i][k] = float32(h.TotalWidth * sim.Unit(seed+7, i, k))
			switch sim.Hash(seed^uint64(3*i+k)) % 16 {
			case 0:
				vs[i][k] = 0
			case 1:
				vs[i][k] = float32(math.Ldexp(sim.Noise(seed, i, k+9), -130)) // subnormal
			default:
				vs[i][k] = float32(9000 * sim.Noise(seed, i, k+9))
			}
		}
	}
	return h, xs, vs
}
