package c07

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/gtet"
	"gotetraverif/py"
	"gotetraverif/rend"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func v3(v [3]float64) []float64 { return v[:] }
func i3(v [3]int64) []float64 {
	return []float64{float64(v[0]), float64(v[1]), float64(v[2])}
}

func TestPythonReader(t *testing.T) {
	vk.Run(t, 1200, 12000, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "x.gtet")
		g := gtet.DrawGrid(c, 8)
		if rapid.IntRange(0, 3).Draw(c.T, "rewritten") == 0 {
			// the file held something else, which was read, too
			write(gtet.DrawGrid(c, 8), name)
			py.Ask("header", name)
			py.Ask("grid", name)
			c.Label("rewritten file")
		}
		write(g, name)
		read(c, g, name)
	})
}

// Grids of many thousand pixels.
func TestLarge(t *testing.T) {
	vk.Run(t, 40, 400, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "x.gtet")
		g := gtet.DrawLarge(c)
		write(g, name)
		read(c, g, name)
	})
}

func write(g *gtet.Grid, name string) {
	w := &bytes.Buffer{}
	io.WriteBuffer(g.Box.Vals(), g.Cosmo, g.Render, g.Loc, w)
	if err := os.WriteFile(name, w.Bytes(), 0666); err != nil {
		vk.Harness("%v", err)
	}
}

func read(c *vk.C, g *gtet.Grid, name string) {
	vector, axis := len(g.Want) == 3, gtet.AxisIndex(g.Axis)
	isv := 0.0
	if vector {
		isv = 1
	}
	want := map[string][]float64{
		"version":                     {2},
		"type.header_size":            {gtet.HeaderSize},
		"type.grid_type":              {float64(g.Q)},
		"type.is_vector_grid":         {isv},
		"cosmo.redshift":              {g.Cosmo.Redshift},
		"cosmo.scale_factor":          {g.Cosmo.ScaleFactor},
		"cosmo.omega_m":               {g.Cosmo.OmegaM},
		"cosmo.omega_l":               {g.Cosmo.OmegaL},
		"cosmo.h0":                    {g.Cosmo.Hubble},
		"cosmo.rho_mean":              {g.Cosmo.RhoMean},
		"cosmo.rho_critical":          {g.Cosmo.RhoCritical},
		"cosmo.box_width":             {g.Cosmo.BoxWidth},
		"render.particles":            {float64(g.Render.Particles)},
		"render.total_pixels":         {float64(g.Render.TotalPixels)},
		"render.subsample_length":     {float64(g.Render.SubsampleLength)},
		"render.min_projection_depth": {float64(g.Render.MinProjectionDepth)},
		"render.projection_axis":      {float64(axis)},
		"loc.origin":                  v3(g.Loc.Origin),
		"loc.span":                    v3(g.Loc.Span),
		"loc.pixel_origin":            i3(g.Loc.PixelOrigin),
		"loc.pixel_span":              i3(g.Loc.PixelSpan),
		"loc.pixel_width":             {g.Loc.PixelWidth},
		"dim":                         i3(g.Loc.PixelSpan),
		"pw":                          {g.Loc.PixelWidth},
		"axis":                        {float64(axis)},
	}
	names := []string{}
	for n := range want {
		names = append(names, n)
	}
	r := py.Ask("header", name, names...)
	if r.Error != "" {
		c.Fatalf("read_header: %s", r.Error)
	}
	for n, x := range want {
		got := r.Fields[n]
		if len(got) != len(x) {
			c.Fatalf("header.%s is %v, want %v", n, got, x)
		}
		for i := range x {
			if math.Float64bits(got[i]) != math.Float64bits(x[i]+0) &&
				got[i] != x[i] {
				c.Fatalf("header.%s is %v, want %v", n, got, x)
			}
		}
	}
	for _, want := range []string{
		fmt.Sprintf("total_pixels *= %d", g.Cells),
		fmt.Sprintf("subsample_length *= %d", g.Skip),
		"projection_axis *= " + strings.Replace(g.Axis+"None", g.Axis+"None",
			map[bool]string{true: "None", false: g.Axis}[g.Axis == ""], 1),
	} {
		if !regexp.MustCompile("(?m)" + want + "$").MatchString(r.Text) {
			c.Fatalf("the printed header has no line %q:\n%s", want, r.Text)
		}
	}

	r = py.Ask("grid", name)
	if r.Error != "" {
		c.Fatalf("read_grid: %s", r.Error)
	}
	shape := []int{}
	if vector {
		shape = append(shape, 3)
	}
	n := 1
	for k := 2; k >= 0; k-- {
		if int64(k) != axis {
			shape = append(shape, g.Box.CellSpan()[k])
			n *= g.Box.CellSpan()[k]
		}
	}
	a := r.Arrays["grid"]
	if !a.Is(shape...) || !a.Float {
		c.Fatalf("array of shape %v (float: %v), want %v", a.Shape, a.Float, shape)
	}
	vals := a.Vals()
	for k, w := range g.Want {
		for i := range w {
			if vals[k*n+i] != float64(w[i]) {
				c.Fatalf("component %d value %d is %g, want %g", k, i, vals[k*n+i], w[i])
			}
		}
	}
	c.NonTrivial(n > 1)
	c.LabelIf(axis >= 0, "image")
	c.LabelIf(vector, "vector")
	c.LabelIf(n > 1<<16, "over 65536 pixels")
}
