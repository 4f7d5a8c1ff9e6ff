package c12

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/cli"
	"gotetraverif/convert"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// More particles than gotetra sorts at a time, in files of every size.
func TestManyParticles(t *testing.T) {
	vk.Run(t, 12, 150, func(c *vk.C) {
		s := &sim.Sim{Mass: 1, S: rapid.IntRange(1, 4).Draw(c.T, "S")}
		s.W = rapid.IntRange(17, 28).Draw(c.T, "N")/s.S + 1
		s.N = s.S * s.W
		fill(c, s)
		j := convert.Draw(c, s)
		root := dirs(c, "in", "out")
		defer os.RemoveAll(root)
		j.Write(filepath.Join(root, "in"))
		out := filepath.Join(root, "out")
		cfg := config(root, j.Config("Input = "+filepath.Join(root, "in"), "Output = "+out))
		_, log, code := cli.Run(root, "-Threads", fmt.Sprint(1+s.S), "-ConvertSnapshot", cfg)
		if code != 0 {
			c.Fatalf("gotetra exited with %d: %s", code, cli.Tail(log))
		}
		j.CheckLattice(c, convert.Read(c, out, j.Cells*j.Cells*j.Cells))
		c.NonTrivial(true)
		c.LabelIf(j.Files > 1, "several files")
	})
}

// The buffer which sorts particles by ID, in any number of batches.
func TestBuffer(t *testing.T) {
	vk.Run(t, 3000, 60000, func(c *vk.C) {
		n := rapid.IntRange(0, 60).Draw(c.T, "particles")
		size := rapid.IntRange(1, 20).Draw(c.T, "buffer")
		seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "values"))
		ids := make([]int64, n)
		for i := range ids {
			ids[i] = int64(i + 1)
		}
		if rapid.Bool().Draw(c.T, "shuffled") {
			for i := n - 1; i > 0; i-- {
				k := int(sim.Unit(seed, i, 9) * float64(i+1))
				ids[i], ids[k] = ids[k], ids[i]
			}
		}
		xs, vs := make([]geom.Vec, n), make([]geom.Vec, n)
		want := func(id int64, what int) (v geom.Vec) {
			for k := range v {
				v[k] = float32(sim.Noise(seed, int(id), k+3*what))
			}
			return v
		}
		buf := io.NewParticleBuffer(xs, vs, size)
		batches, sizes := 0, []int{}
		var xb, vb []geom.Vec // used again for every batch, as the callers do
		var ib []int64
		for at := 0; at < n; batches++ {
			b := rapid.IntRange(0, 2*size).Draw(c.T, "batch")
			if b > n-at {
				b = n - at
			}
			xb, vb, ib = xb[:0], vb[:0], ib[:0]
			for _, id := range ids[at : at+b] {
				xb, vb, ib = append(xb, want(id, 0)), append(vb, want(id, 1)), append(ib, id)
			}
			buf.Append(xb, vb, ib)
			for i := range xb {
				xb[i], vb[i], ib[i] = geom.Vec{-9, -9, -9}, geom.Vec{-9, -9, -9}, -9
			}
			at += b
			sizes = append(sizes, b)
			if rapid.IntRange(0, 5).Draw(c.T, "flush") == 0 {
				buf.Flush()
				for _, id := range ids[:at] {
					if xs[id-1] != want(id, 0) {
						c.Fatalf("particle %d is not in place after a flush", id)
					}
				}
			}
		}
		buf.Flush()
		c.Desc("%d particles in batches of %v through a buffer of %d, values=%d", n, sizes, size, seed)
		for i := range xs {
			if id := int64(i + 1); xs[i] != want(id, 0) || vs[i] != want(id, 1) {
				c.Fatalf("particle %d is (%v, %v), want (%v, %v)", id, xs[i], vs[i], want(id, 0), want(id, 1))
			}
		}
		c.NonTrivial(n > size && batches > 1)
		c.LabelIf(n > size, "more particles than fit")
		c.LabelIf(n <= size, "all fit")
	})
}
