package c05

import (
	"bytes"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/gtet"
	"gotetraverif/rend"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func close(c *vk.C, what string, got, want float64) {
	c.Near(what, got, want, 1e-12*(math.Abs(want)+1e-300))
}

func TestRoundTrip(t *testing.T) {
	vk.Run(t, 2000, 20000, func(c *vk.C) {
		roundTrip(c, gtet.DrawGrid(c, 9), rapid.IntRange(0, 3).Draw(c.T, "rewritten") == 0)
	})
}

// Grids of many thousand pixels.
func TestLarge(t *testing.T) {
	vk.Run(t, 40, 400, func(c *vk.C) { roundTrip(c, gtet.DrawLarge(c), false) })
}

func roundTrip(c *vk.C, g *gtet.Grid, rewritten bool) {
	w := &bytes.Buffer{}
	io.WriteBuffer(g.Box.Vals(), g.Cosmo, g.Render, g.Loc, w)
	f, ok := gtet.Decode(w.Bytes())
	if !ok {
		c.Fatalf("%d bytes written", w.Len())
	}
	if f.Flag != 0x7ffffffffffffffe {
		c.Fatalf("byte order and version flag %x", f.Flag)
	}
	if f.HeaderSize != gtet.HeaderSize || f.GridType != int64(g.Q) {
		c.Fatalf("header size %d, type %d", f.HeaderSize, f.GridType)
	}
	if want := int64(len(g.Want) / 3); f.IsVector != want {
		c.Fatalf("vector flag of the file is %d, but it has %d components",
			f.IsVector, len(g.Want))
	}
	// header fields
	close(c, "z", f.Z, g.Z)
	close(c, "a", f.A, 1/(1+g.Z))
	close(c, "OmegaM", f.OmM, g.OmM)
	close(c, "OmegaL", f.OmL, g.OmL)
	close(c, "H0", f.H0, g.H0)
	close(c, "box width", f.BoxWidth, g.L)
	close(c, "rho mean", f.RhoM, g.Cosmo.RhoMean)
	close(c, "rho crit", f.RhoC, g.Cosmo.RhoCritical)
	if f.Particles != int64(g.Pts) || f.TotalPixels != int64(g.Cells) ||
		f.Skip != int64(g.Skip) || f.Axis != gtet.AxisIndex(g.Axis) {
		c.Fatalf("render settings %d %d %d %d", f.Particles, f.TotalPixels, f.Skip, f.Axis)
	}
	o, s := g.Box.CellOrigin(), g.Box.CellSpan()
	cw := g.L / float64(g.Cells)
	close(c, "pixel width", f.Loc.PixelWidth, cw)
	for k := 0; k < 3; k++ {
		if f.Loc.PixelOrigin[k] != int64(o[k]) || f.Loc.PixelSpan[k] != int64(s[k]) {
			c.Fatalf("pixel location %v+%v, want %v+%v", f.Loc.PixelOrigin, f.Loc.PixelSpan, o, s)
		}
		close(c, "origin", f.Loc.Origin[k], float64(o[k])*cw)
		close(c, "span", f.Loc.Span[k], float64(s[k])*cw)
	}
	if f.Vel != (gtet.Loc{}) {
		c.Fatalf("velocity location %v of a position grid", f.Vel)
	}
	// values
	n := f.Count()
	if len(f.Vals) != n*len(g.Want) {
		c.Fatalf("%d values for %d components of %d", len(f.Vals), len(g.Want), n)
	}
	for k, w := range g.Want {
		for i := range w {
			if f.Vals[k*n+i] != w[i] {
				c.Fatalf("component %d value %d is %g, want %g", k, i, f.Vals[k*n+i], w[i])
			}
		}
	}
	// the Go readers
	dir := rend.TempDir()
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "x.gtet")
	if rewritten {
		// the file held something else, which was read, too
		old := &bytes.Buffer{}
		o := gtet.DrawGrid(c, 9)
		io.WriteBuffer(o.Box.Vals(), o.Cosmo, o.Render, o.Loc, old)
		if err := os.WriteFile(name, old.Bytes(), 0666); err != nil {
			vk.Harness("%v", err)
		}
		io.ReadGridHeader(name)
		io.ReadGrid(name)
		c.Label("rewritten file")
	}
	if err := os.WriteFile(name, w.Bytes(), 0666); err != nil {
		vk.Harness("%v", err)
	}
	hd, err := io.ReadGridHeader(name)
	if err != nil {
		c.Fatalf("ReadGridHeader: %v", err)
	}
	if hd.EndiannessVersion != f.Flag || hd.Type.HeaderSize != f.HeaderSize ||
		hd.Type.GridType != f.GridType || hd.Type.IsVectorGrid != f.IsVector ||
		hd.Cosmo != g.Cosmo || hd.Render != g.Render || hd.Loc != g.Loc {
		c.Fatalf("header read back as %+v", *hd)
	}
	vals, err := io.ReadGrid(name)
	if len(g.Want) == 3 {
		if err == nil {
			c.Fatalf("ReadGrid read a vector grid as a scalar one")
		}
	} else {
		if err != nil {
			c.Fatalf("ReadGrid: %v", err)
		}
		if len(vals) != n {
			c.Fatalf("ReadGrid gave %d values, want %d", len(vals), n)
		}
		for i := range vals {
			if vals[i] != float64(g.Want[0][i]) {
				c.Fatalf("ReadGrid value %d is %g, want %g", i, vals[i], g.Want[0][i])
			}
		}
	}
	c.NonTrivial(n > 1)
	c.LabelIf(n > 8192, "over 8192 pixels")
	c.LabelIf(n > 1<<16, "over 65536 pixels")
	c.LabelIf(g.Axis != "", "image")
	c.LabelIf(len(g.Want) == 3, "vector")
}
