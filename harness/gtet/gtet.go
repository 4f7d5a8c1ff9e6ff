// Package gtet is an independent decoder of gotetra's output grids, and
// generators for buffers to write.
package gtet

import (
	"encoding/binary"
	"math"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// HeaderSize of version 2 files.
const HeaderSize = 344

// Loc is a location block.
type Loc struct {
	Origin, Span           [3]float64
	PixelOrigin, PixelSpan [3]int64
	PixelWidth             float64
}

// File is a decoded grid file.
type File struct {
	Flag                                      uint64
	HeaderSize, GridType, IsVector            int64
	Z, A, OmM, OmL, H0, RhoM, RhoC, BoxWidth  float64
	Particles, TotalPixels, Skip, Depth, Axis int64
	Loc, Vel                                  Loc
	Vals                                      []float32
}

// Decode takes a file apart, byte by byte.
func Decode(b []byte) (*File, bool) {
	if len(b) < HeaderSize || (len(b)-HeaderSize)%4 != 0 {
		return nil, false
	}
	at := 0
	u := func() uint64 { x := binary.LittleEndian.Uint64(b[at:]); at += 8; return x }
	i := func() int64 { return int64(u()) }
	f := func() float64 { return math.Float64frombits(u()) }
	loc := func() Loc {
		l := Loc{}
		for k := range l.Origin {
			l.Origin[k] = f()
		}
		for k := range l.Span {
			l.Span[k] = f()
		}
		for k := range l.PixelOrigin {
			l.PixelOrigin[k] = i()
		}
		for k := range l.PixelSpan {
			l.PixelSpan[k] = i()
		}
		l.PixelWidth = f()
		return l
	}
	g := &File{}
	g.Flag = u()
	g.HeaderSize, g.GridType, g.IsVector = i(), i(), i()
	g.Z, g.A, g.OmM, g.OmL, g.H0, g.RhoM, g.RhoC, g.BoxWidth = f(), f(), f(), f(), f(), f(), f(), f()
	g.Particles, g.TotalPixels, g.Skip, g.Depth, g.Axis = i(), i(), i(), i(), i()
	g.Loc, g.Vel = loc(), loc()
	for at < len(b) {
		g.Vals = append(g.Vals, math.Float32frombits(binary.LittleEndian.Uint32(b[at:])))
		at += 4
	}
	return g, true
}

// Count is the number of values of one component.
func (g *File) Count() int {
	n := 1
	for k, s := range g.Loc.PixelSpan {
		if int64(k) != g.Axis {
			n *= int(s)
		}
	}
	return n
}

// Grid is a generated output: a filled buffer and its header settings.
type Grid struct {
	Box             render.Box
	Q               density.Quantity
	Axis            string
	Cosmo           io.CosmoInfo
	Render          io.RenderInfo
	Loc             io.LocationInfo
	L               float64
	Cells           int
	Want            [][]float32 // components
	Z, OmM, OmL, H0 float64
	Pts, Skip       int
}

// DrawLarge draws a volume of up to hundred thousands of pixels, or an image.
func DrawLarge(c *vk.C) *Grid {
	return drawGrid(c, 64, 600, true)
}

// DrawGrid draws a box and fills it with generated values.
func DrawGrid(c *vk.C, maxPix int) *Grid {
	return drawGrid(c, maxPix, maxPix, false)
}

func drawGrid(c *vk.C, maxPix, maxImage int, large bool) *Grid {
	g := &Grid{}
	g.Q = density.Quantity(rapid.IntRange(0, int(density.EndQuantity)-1).Draw(c.T, "q"))
	deriv := g.Q == density.DensityGradient || g.Q == density.VelocityDivergence ||
		g.Q == density.VelocityCurl
	minw := 1
	if deriv {
		minw = 5
	} else {
		g.Axis = rapid.SampledFrom([]string{"", "X", "Y", "Z"}).Draw(c.T, "axis")
	}
	low := minw
	if g.Axis != "" && (g.Q == density.Density || g.Q == density.Velocity) {
		maxPix = maxImage
	}
	if large {
		low = maxPix / 2
	}
	if large {
		g.Cells = vk.Round(c, "pixels", low+1, maxPix+minw)
	} else {
		g.Cells = rapid.IntRange(low+1, maxPix+minw).Draw(c.T, "pixels")
	}
	g.L = sim.F(c, "L", 0.5, 500, 16)
	cw := g.L / float64(g.Cells)
	conf := &io.BoxConfig{ProjectionAxis: g.Axis}
	var o, w [3]int
	for k := range o {
		o[k] = rapid.IntRange(0, g.Cells-1).Draw(c.T, "o")
		if large {
			w[k] = vk.Round(c, "w", low, g.Cells)
		} else {
			w[k] = rapid.IntRange(low, g.Cells).Draw(c.T, "w")
		}
	}
	p := func(i int) float64 { return (float64(o[i]) + 0.25) * cw }
	s := func(i int) float64 { return (float64(w[i]) - 0.5) * cw }
	conf.X, conf.Y, conf.Z = p(0), p(1), p(2)
	conf.XWidth, conf.YWidth, conf.ZWidth = s(0), s(1), s(2)
	g.Pts = rapid.IntRange(1, 50).Draw(c.T, "pts")
	g.Skip = 1 << uint(rapid.IntRange(0, 3).Draw(c.T, "skip"))
	g.Box = render.NewBox(g.L, g.Pts, g.Cells, g.Q, conf)
	if g.Box.CellOrigin() != o || g.Box.CellSpan() != w {
		c.Fatalf("box %v+%v, want %v+%v", g.Box.CellOrigin(), g.Box.CellSpan(), o, w)
	}
	seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "values"))
	c.Desc("q=%d axis=%q L=%g pixels=%d block=%v+%v pts=%d skip=%d values=%d",
		g.Q, g.Axis, g.L, g.Cells, o, w, g.Pts, g.Skip, seed)

	buf := g.Box.Vals()
	if xs, ok := buf.ScalarBuffer(); ok {
		for i := range xs {
			xs[i] = math.Exp(8 * sim.Noise(seed, i, 0))
			if sim.Hash(seed+uint64(i))%7 == 0 {
				xs[i] = 0
			}
		}
	}
	if vs, ok := buf.VectorBuffer(); ok {
		num, _ := buf.CountBuffer()
		for i := range vs {
			num[i] = int(sim.Hash(seed+uint64(i)) % 9)
			for k := 0; k < 3 && num[i] > 0; k++ {
				vs[i][k] = 5000 * sim.Noise(seed, i, k+1)
			}
		}
	}
	if xs, ok := buf.FinalizedScalarBuffer(); ok {
		g.Want = [][]float32{xs}
	}
	if x, y, z, ok := buf.FinalizedVectorBuffer(); ok {
		g.Want = append(g.Want, x, y, z)
	}
	if len(g.Want) != 1 && len(g.Want) != 3 {
		c.Fatalf("quantity %d finalizes to %d components", g.Q, len(g.Want))
	}

	g.Z, g.OmM = sim.F(c, "z", 0, 10, 100), sim.F(c, "omM", 0.05, 1, 100)
	g.OmL, g.H0 = sim.F(c, "omL", 0, 1, 100), sim.F(c, "H0", 40, 100, 10)
	c.Desc("z=%g OmM=%g OmL=%g H0=%g", g.Z, g.OmM, g.OmL, g.H0)
	g.Cosmo = io.NewCosmoInfo(g.H0, g.OmM, g.OmL, g.Z, g.L)
	g.Render = io.NewRenderInfo(g.Pts, g.Cells, g.Skip, g.Axis)
	g.Loc = io.NewLocationInfo(g.Box.CellOrigin(), g.Box.CellSpan(), g.Box.CellWidth())
	return g
}

// AxisIndex is -1 for volumes.
func AxisIndex(s string) int64 {
	switch s {
	case "X":
		return 0
	case "Y":
		return 1
	case "Z":
		return 2
	}
	return -1
}
