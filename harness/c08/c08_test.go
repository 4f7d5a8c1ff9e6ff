package c08

import (
	"bytes"
	"encoding/binary"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/rend"
	"gotetraverif/sheet"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func same(a, b []geom.Vec) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		for k := range a[i] {
			if math.Float32bits(a[i][k]) != math.Float32bits(b[i][k]) {
				return i
			}
		}
	}
	return -1
}

// guarded is a buffer in the middle of a larger one.
func guarded(n int) (whole, mid []geom.Vec) {
	whole = make([]geom.Vec, n+10)
	for i := range whole {
		whole[i] = geom.Vec{-7, -8, -9}
	}
	return whole, whole[5 : 5+n]
}

func checkGuard(c *vk.C, whole []geom.Vec) {
	for i := range whole {
		if (i < 5 || i >= len(whole)-5) && whole[i] != (geom.Vec{-7, -8, -9}) {
			c.Fatalf("the reader wrote outside of the buffer (element %d)", i-5)
		}
	}
}

func checkRead(c *vk.C, name string, hd *io.SheetHeader, xs, vs []geom.Vec, order string) {
	got := &io.SheetHeader{Idx: -3, Mass: -4}
	if err := io.ReadSheetHeaderAt(name, got); err != nil {
		c.Fatalf("%s: ReadSheetHeaderAt: %v", order, err)
	}
	if *got != *hd {
		c.Fatalf("%s header read back as %+v, want %+v", order, *got, *hd)
	}
	reads := []func(){
		func() {
			w, b := guarded(len(xs))
			if err := io.ReadSheetPositionsAt(name, b); err != nil {
				c.Fatalf("%s: ReadSheetPositionsAt: %v", order, err)
			}
			if i := same(b, xs); i >= 0 {
				c.Fatalf("%s: position %d read back as %v, want %v", order, i, b[i], xs[i])
			}
			checkGuard(c, w)
		},
		func() {
			w, b := guarded(len(vs))
			if err := io.ReadSheetVelocitiesAt(name, b); err != nil {
				c.Fatalf("%s: ReadSheetVelocitiesAt: %v", order, err)
			}
			if i := same(b, vs); i >= 0 {
				c.Fatalf("%s: velocity %d read back as %v, want %v", order, i, b[i], vs[i])
			}
			checkGuard(c, w)
		},
	}
	for _, i := range rapid.SampledFrom([][]int{{0, 1}, {1, 0}, {1, 1}, {0, 0}}).Draw(c.T, "reads") {
		reads[i]()
	}
	// buffers of another length
	n := len(xs) + rapid.SampledFrom([]int{-1, 1, -len(xs), 4}).Draw(c.T, "wrong length")
	w, b := guarded(n)
	if io.ReadSheetPositionsAt(name, b) == nil {
		c.Fatalf("%s: positions were read into a buffer of %d, not %d", order, n, len(xs))
	}
	if io.ReadSheetVelocitiesAt(name, b) == nil {
		c.Fatalf("%s: velocities were read into a buffer of %d, not %d", order, n, len(xs))
	}
	checkGuard(c, w)
}

func TestRoundTrip(t *testing.T) {
	vk.Run(t, 1500, 20000, func(c *vk.C) {
		hd, xs, vs := sheet.Draw(c)
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "sheet.dat")
		if rapid.Bool().Draw(c.T, "overwrite") {
			// a longer file that is in the way
			if err := os.WriteFile(name, make([]byte, 9000), 0666); err != nil {
				vk.Harness("%v", err)
			}
		} else if rapid.IntRange(0, 2).Draw(c.T, "another sheet") == 0 {
			// another sheet, which has been read
			c.Desc("after, at the same path:")
			hd, xs, vs := sheet.Draw(c)
			io.WriteSheet(name, hd, xs, vs)
			checkRead(c, name, hd, xs, vs, "written first")
			c.Label("rewritten")
		}
		h0 := *hd
		x0, v0 := append([]geom.Vec{}, xs...), append([]geom.Vec{}, vs...)
		io.WriteSheet(name, hd, xs, vs)
		if *hd != h0 || same(x0, xs) >= 0 || same(v0, vs) >= 0 {
			c.Fatalf("writing changed the caller's header or vectors")
		}
		b, err := os.ReadFile(name)
		if err != nil {
			c.Fatalf("nothing written: %v", err)
		}
		if want := sim.SheetBytes(hd, xs, vs, binary.LittleEndian); !bytes.Equal(b, want) {
			c.Fatalf("the written file (%d bytes) is not the documented layout (%d bytes)",
				len(b), len(want))
		}
		checkRead(c, name, hd, xs, vs, "written")
		swapped := filepath.Join(dir, "swapped.dat")
		b = sim.SheetBytes(hd, xs, vs, binary.BigEndian)
		if err := os.WriteFile(swapped, b, 0666); err != nil {
			vk.Harness("%v", err)
		}
		checkRead(c, swapped, hd, xs, vs, "byte-swapped")
		c.NonTrivial(hd.GridWidth > 2)
		c.Label("grid width %d", hd.GridWidth)
	})
}

// The cell bounds are the range of cells that [origin, origin + width] meets.
func TestCellBounds(t *testing.T) {
	vk.Run(t, 5000, 100000, func(c *vk.C) {
		hd := &io.SheetHeader{TotalWidth: sim.F(c, "L", 0.1, 1000, 64)}
		cells := rapid.IntRange(1, 3000).Draw(c.T, "cells")
		cw := hd.TotalWidth / float64(cells)
		for k := 0; k < 3; k++ {
			if rapid.Bool().Draw(c.T, "aligned") {
				hd.Origin[k] = float32(cw * float64(rapid.IntRange(0, cells-1).Draw(c.T, "o")))
				hd.Width[k] = float32(cw * float64(rapid.IntRange(0, cells).Draw(c.T, "w")))
			} else {
				hd.Origin[k] = float32(sim.F(c, "o", 0, 0.999, 1000) * hd.TotalWidth)
				hd.Width[k] = float32(sim.F(c, "w", 0, 1, 1000) * hd.TotalWidth)
			}
		}
		c.Desc("L=%g cells=%d origin=%v width=%v", hd.TotalWidth, cells, hd.Origin, hd.Width)
		h0 := *hd
		cb := hd.CellBounds(cells)
		if *hd != h0 {
			c.Fatalf("CellBounds changed the header")
		}
		for k := 0; k < 3; k++ {
			o, w := float64(hd.Origin[k]), float64(hd.Width[k])
			tol := 2e-7 * (o + w) / cw // the upper end is computed in float32
			lo, hi := float64(cb.Origin[k]), float64(cb.Origin[k]+cb.Width[k])
			if lo > o/cw+1e-9*float64(cells) || lo+1 < o/cw-1e-9*float64(cells) {
				c.Fatalf("axis %d: origin cell %d, position is at %.9g cells", k, cb.Origin[k], o/cw)
			}
			if hi < (o+w)/cw-tol || hi-1 > (o+w)/cw+tol {
				c.Fatalf("axis %d: last cell %g, upper end is at %.9g cells", k, hi-1, (o+w)/cw)
			}
			c.NonTrivial(cb.Width[k] > 1 && cells > 1)
			c.LabelIf(o+w > hd.TotalWidth, "wraps")
		}
	})
}
