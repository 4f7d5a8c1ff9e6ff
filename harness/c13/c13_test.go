package c13

import (
	"math"
	"os"
	"path/filepath"
	"testing"

	"gotetraverif/cli"
	"gotetraverif/convert"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
)

func TestHeaders(t *testing.T) {
	vk.Run(t, 300, 3000, func(c *vk.C) {
		s := sim.Draw(c, sim.Opts{MaxS: 5, MaxW: 4, Two: true, Aligned: true})
		j := convert.Draw(c, s)
		root := rend.TempDir()
		defer os.RemoveAll(root)
		in, out := filepath.Join(root, "in"), filepath.Join(root, "out")
		os.Mkdir(in, 0777)
		j.Write(in)
		cfg := filepath.Join(root, "convert.cfg")
		os.WriteFile(cfg, []byte(j.Config("Input = "+in, "Output = "+out)), 0666)
		_, log, code := cli.Run(root, "-ConvertSnapshot", cfg)
		if code != 0 {
			c.Fatalf("gotetra exited with %d: %s", code, cli.Tail(log))
		}
		L := s.L * j.XUnits
		for idx, sh := range convert.Read(c, out, s.S*s.S*s.S) {
			h := &sh.H
			if h.Cosmo.Z != s.Z || h.Cosmo.OmegaM != s.OmM || h.Cosmo.OmegaL != s.OmL || h.Cosmo.H100 != s.H100 {
				c.Fatalf("sheet %d: cosmology %+v", idx, h.Cosmo)
			}
			n, w := int64(s.N), int64(s.W)
			if h.CountWidth != n || h.Count != n*n*n || h.SegmentWidth != w || h.GridWidth != w+1 ||
				h.GridCount != (w+1)*(w+1)*(w+1) || h.Cells != int64(s.S) {
				c.Fatalf("sheet %d: counts %+v for a lattice of %d^3 in %d^3 cells", idx, *h, n, s.S)
			}
			c.Near("mass", h.Mass, s.Mass*j.MUnits, 1e-12*s.Mass*j.MUnits)
			c.Near("box width", h.TotalWidth, L, 1e-12*L)

			o, wid := sim.Bounds(sh.X, L)
			tol := 2e-6 * L
			for k := 0; k < 3; k++ {
				ho, hw := float64(h.Origin[k]), float64(h.Width[k])
				if !(ho >= 0 && ho <= L*(1+1e-7)) {
					c.Fatalf("sheet %d: origin %v outside of the box of width %g", idx, h.Origin, L)
				}
				for i := range sh.X {
					d := math.Mod(float64(sh.X[i][k])-ho+tol, L)
					if d < 0 {
						d += L
					}
					if d > hw+2*tol {
						c.Fatalf("sheet %d axis %d: particle %v is outside of the header's bounds %v + %v",
							idx, k, sh.X[i], h.Origin, h.Width)
					}
				}
				if hw > wid[k]+2*tol {
					c.Fatalf("sheet %d axis %d: width %g in the header, the particles span %g from %g",
						idx, k, hw, wid[k], o[k])
				}
				lo, hi := sh.V[0][k], sh.V[0][k]
				for i := range sh.V {
					lo = float32(math.Min(float64(lo), float64(sh.V[i][k])))
					hi = float32(math.Max(float64(hi), float64(sh.V[i][k])))
				}
				vt := 1e-6 * math.Max(math.Abs(float64(lo)), math.Abs(float64(hi)))
				c.Near("velocity origin", float64(h.VelocityOrigin[k]), float64(lo), vt)
				c.Near("velocity width", float64(h.VelocityWidth[k]), float64(hi)-float64(lo), 2*vt)
			}
		}
		c.NonTrivial(true)
		c.Label("%d cells", s.S)
		c.LabelIf(j.Files > 1, "several files")
		c.LabelIf(j.XUnits != 1, "units")
	})
}
