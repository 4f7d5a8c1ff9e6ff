package c10

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/py"
	"gotetraverif/rend"
	"gotetraverif/sheet"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func f3(v geom.Vec) []float64 {
	return []float64{float64(v[0]), float64(v[1]), float64(v[2])}
}

// read writes a sheet and checks what Python makes of it.
func read(c *vk.C, name string, hd *io.SheetHeader, xs, vs []geom.Vec) {
	io.WriteSheet(name, hd, xs, vs)
	d := func(i int64) []float64 { return []float64{float64(i)} }
	want := map[string][]float64{
		"z": {hd.Cosmo.Z}, "omega_m": {hd.Cosmo.OmegaM}, "omega_l": {hd.Cosmo.OmegaL}, "scale": {1 / (1 + hd.Cosmo.Z)}, "h100": {hd.Cosmo.H100},
		"count": d(hd.Count), "count_width": d(hd.CountWidth),
		"segment_width": d(hd.SegmentWidth), "grid_width": d(hd.GridWidth),
		"grid_count": d(hd.GridCount), "file_idx": d(hd.Idx),
		"file_cells": d(hd.Cells), "box_width": {hd.TotalWidth},
		"x_width": d(hd.SegmentWidth), "xn_width": d(hd.GridWidth),
		"x_origin": f3(hd.Origin), "x_span": f3(hd.Width),
		"v_origin": f3(hd.VelocityOrigin), "v_span": f3(hd.VelocityWidth),
	}
	names := []string{}
	for n := range want {
		names = append(names, n)
	}
	r := py.Ask("sheet", name, names...)
	if r.Error != "" {
		c.Fatalf("gtet.File: %s", r.Error)
	}
	for n, x := range want {
		got := r.Fields[n]
		ok := len(got) == len(x)
		for i := 0; ok && i < len(x); i++ {
			ok = got[i] == x[i]
		}
		if !ok {
			c.Fatalf("File.%s is %v, want %v", n, got, x)
		}
	}
	gw := int(hd.GridWidth)
	for _, part := range []struct {
		name string
		w    int
		v    []geom.Vec
	}{{"x", gw - 1, xs}, {"xn", gw, xs}, {"v", gw - 1, vs}, {"vn", gw, vs}} {
		a := r.Arrays[part.name]
		if !a.Is(part.w, part.w, part.w, 3) || !a.Float {
			c.Fatalf("File.%s has shape %v", part.name, a.Shape)
		}
		vals, i := a.Vals(), 0
		for z := 0; z < part.w; z++ {
			for y := 0; y < part.w; y++ {
				for x := 0; x < part.w; x++ {
					for k := 0; k < 3; k++ {
						if vals[i] != float64(part.v[x+gw*(y+gw*z)][k]) {
							c.Fatalf("File.%s[%d,%d,%d,%d] is %g, want %g", part.name, z, y, x, k,
								vals[i], part.v[x+gw*(y+gw*z)][k])
						}
						i++
					}
				}
			}
		}
	}
}

func TestPythonSheets(t *testing.T) {
	vk.Run(t, 1200, 12000, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "sheet.dat")
		hd, xs, vs := sheet.Draw(c)
		if rapid.IntRange(0, 2).Draw(c.T, "rewritten") == 0 {
			// the path held another sheet, which was read
			c.Desc("then, at the same path:")
			read(c, name, hd, xs, vs)
			hd, xs, vs = sheet.Draw(c)
			c.Label("rewritten")
		}
		read(c, name, hd, xs, vs)
		c.NonTrivial(hd.GridWidth > 2)
		c.Label("grid width %d", hd.GridWidth)
	})
}
