package c11

import (
	"encoding/binary"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/gadget"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func draw(c *vk.C) *gadget.File {
	f := &gadget.File{}
	f.Z = sim.F(c, "z", 0, 20, 100)
	f.Time = gadget.A(f.Z)
	f.L = sim.F(c, "L", 0.1, 2000, 100)
	f.OmM, f.OmL = sim.F(c, "omM", 0.01, 1, 100), sim.F(c, "omL", 0, 1, 100)
	f.H100 = sim.F(c, "h", 0.4, 1, 100)
	f.Mass = sim.F(c, "m", 0.01, 100, 1000)
	f.NumFiles = rapid.IntRange(1, 20).Draw(c.T, "files")
	f.Junk = byte(rapid.IntRange(0, 255).Draw(c.T, "junk"))
	f.X64, f.V64 = rapid.Bool().Draw(c.T, "x64"), rapid.Bool().Draw(c.T, "v64")
	f.IDBits = rapid.SampledFrom([]int{32, 64}).Draw(c.T, "id bits")
	n := rapid.IntRange(0, 40).Draw(c.T, "n")
	if rapid.IntRange(0, 1000).Draw(c.T, "many") == 0 {
		n = vk.Round(c, "n", 41, 40000)
	}
	f.Total = uint64(n)
	if rapid.Bool().Draw(c.T, "many in other files") {
		f.Total = uint64(rapid.Int64Range(1, 1<<rapid.SampledFrom([]int{16, 32, 40}).Draw(c.T, "bits")-1).Draw(c.T, "total"))
	}
	seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "values"))
	c.Desc("n=%d total=%d z=%g L=%g OmM=%g OmL=%g h=%g m=%g files=%d junk=%d x64=%v v64=%v id=%d values=%d",
		n, f.Total, f.Z, f.L, f.OmM, f.OmL, f.H100, f.Mass, f.NumFiles, f.Junk, f.X64, f.V64, f.IDBits, seed)
	for i := 0; i < n; i++ {
		var x, v [3]float64
		for k := 0; k < 3; k++ {
			x[k] = f.L * sim.Unit(seed, i, k)
			switch sim.Hash(seed^uint64(i*3+k)) % 8 {
			case 0: // outside of the box by less than its width
				x[k] -= f.L
				if float64(float32(x[k])) < -f.L { // rounded to more than the width
					x[k] = -f.L / 2
				}
			case 1:
				x[k] += f.L
			case 2:
				x[k] = f.L
			case 3:
				x[k] = -f.L * math.Ldexp(1, -10-int(sim.Hash(seed+uint64(i))%40))
			}
			v[k] = 4000 * sim.Noise(seed+5, i, k)
		}
		id := sim.Hash(seed + 99 + uint64(i))
		if f.IDBits == 32 {
			id &= 1<<32 - 1
		} else {
			id &= 1<<62 - 1
		}
		f.X, f.V, f.ID = append(f.X, x), append(f.V, v), append(f.ID, id)
	}
	return f
}

func TestRead(t *testing.T) {
	vk.Run(t, 5000, 60000, func(c *vk.C) {
		f := draw(c)
		var order binary.ByteOrder = binary.LittleEndian
		if rapid.Bool().Draw(c.T, "big endian") {
			order = binary.BigEndian
		}
		c.Desc("%v", order)
		b, _ := f.Bytes(order)
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "snap")
		if err := os.WriteFile(name, b, 0666); err != nil {
			vk.Harness("%v", err)
		}
		variant := rapid.SampledFrom([]string{"LGadget-2", "Arepo-type-2"}).Draw(c.T, "variant")
		hd := io.ReadGadgetHeader(name, order, variant)
		hd2, xs, vs, ids := io.ReadGadget(name, order, f.IDBits, variant)
		if *hd != *hd2 {
			c.Fatalf("two headers: %+v, %+v", *hd, *hd2)
		}
		if hd.Count != int64(len(f.X)) || hd.TotalCount != int64(f.Total) {
			c.Fatalf("counts %d and %d, want %d and %d", hd.Count, hd.TotalCount, len(f.X), f.Total)
		}
		want := io.CosmologyHeader{Z: f.Z, OmegaM: f.OmM, OmegaL: f.OmL, H100: f.H100}
		if hd.Mass != f.Mass || hd.TotalWidth != f.L || hd.Cosmo != want {
			c.Fatalf("header %+v", *hd)
		}
		if len(xs) != len(f.X) || len(vs) != len(f.X) || len(ids) != len(f.X) {
			c.Fatalf("%d, %d, %d values for %d particles", len(xs), len(vs), len(ids), len(f.X))
		}
		for i := range xs {
			if ids[i] != int64(f.ID[i]) {
				c.Fatalf("id %d is %d, want %d", i, ids[i], f.ID[i])
			}
			for k := 0; k < 3; k++ {
				got := float64(xs[i][k])
				if !(got >= 0 && got < f.L) {
					c.Fatalf("position %d is %v, outside of the box of width %g", i, xs[i], f.L)
				}
				d := math.Abs(got - f.X[i][k])
				d -= f.L * math.Round(d/f.L)
				if math.Abs(d) > 1.3e-7*(math.Abs(f.X[i][k])+f.L) {
					c.Fatalf("position %d is %v, the file has %v", i, xs[i], f.X[i])
				}
				if in := f.X[i][k]; in >= 0 && in < 0.999*f.L && xs[i][k] != float32(in) {
					c.Fatalf("position %d is %v, the file has %v", i, xs[i], f.X[i])
				}
				w := float64(float32(f.V[i][k])) * math.Sqrt(f.Time)
				c.Near("velocity", float64(vs[i][k]), w, 3e-7*math.Abs(w))
			}
		}
		// into buffers of the caller's
		n := len(xs)
		x2, v2, i2 := make([]geom.Vec, n+2), make([]geom.Vec, n+2), make([]int64, n+2)
		io.ReadGadgetParticlesAt(name, order, x2[1:n+1], v2[1:n+1], i2[1:n+1], f.IDBits, variant)
		for i := 0; i < n+2; i++ {
			if i == 0 || i == n+1 {
				if x2[i] != (geom.Vec{}) || v2[i] != (geom.Vec{}) || i2[i] != 0 {
					c.Fatalf("the reader wrote outside of its buffers")
				}
			} else if x2[i] != xs[i-1] || v2[i] != vs[i-1] || i2[i] != ids[i-1] {
				c.Fatalf("particle %d differs when read into a buffer", i-1)
			}
		}
		c.NonTrivial(n > 1)
		c.LabelIf(order == binary.ByteOrder(binary.BigEndian), "big endian")
		c.LabelIf(f.X64, "double positions")
		c.Label("%d-bit ids", f.IDBits)
	})
}
