package c12

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"gotetraverif/cli"
	"gotetraverif/convert"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// random draws a snapshot with particles anywhere in the box.
func random(c *vk.C, maxS, maxW int) *sim.Sim {
	s := &sim.Sim{Mass: sim.F(c, "mass", 0.01, 10, 100)}
	s.S = rapid.IntRange(1, maxS).Draw(c.T, "S")
	s.W = rapid.IntRange(1, maxW).Draw(c.T, "W")
	s.N = s.S * s.W
	fill(c, s)
	return s
}

func fill(c *vk.C, s *sim.Sim) {
	s.L = sim.F(c, "L", 0.5, 2000, 16)
	s.Z, s.OmM, s.OmL = sim.F(c, "z", 0, 9, 8), sim.F(c, "omM", 0.1, 1, 20), sim.F(c, "omL", 0, 1, 20)
	s.H100 = sim.F(c, "h", 0.5, 1, 20)
	seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "values"))
	c.Desc("S=%d W=%d L=%g z=%g OmM=%g OmL=%g h=%g m=%g values=%d", s.S, s.W, s.L, s.Z, s.OmM, s.OmL,
		s.H100, s.Mass, seed)
	n := s.N * s.N * s.N
	s.X, s.V = s.X[:0], s.V[:0]
	for i := 0; i < n; i++ {
		var x, v [3]float32
		for k := 0; k < 3; k++ {
			x[k] = sim.ToPeriodic(s.L*sim.Unit(seed, i, k), s.L)
			v[k] = float32(3000 * sim.Noise(seed, i, k))
		}
		s.X, s.V = append(s.X, x), append(s.V, v)
	}
}

func dirs(c *vk.C, names ...string) (root string) {
	root = rend.TempDir()
	for _, n := range names {
		if err := os.MkdirAll(filepath.Join(root, n), 0777); err != nil {
			vk.Harness("%v", err)
		}
	}
	return root
}

func config(root, text string) string {
	name := filepath.Join(root, "convert.cfg")
	if err := os.WriteFile(name, []byte(text), 0666); err != nil {
		vk.Harness("%v", err)
	}
	return name
}

func TestConvert(t *testing.T) {
	vk.Run(t, 250, 3000, func(c *vk.C) {
		s := random(c, 4, 4)
		j := convert.Draw(c, s)
		root := dirs(c, "in", "out")
		defer os.RemoveAll(root)
		j.Write(filepath.Join(root, "in"))
		out := filepath.Join(root, "out")
		if rapid.Bool().Draw(c.T, "new directory") {
			out = filepath.Join(out, "new", "er")
		}
		cfg := config(root, j.Config("Input = "+filepath.Join(root, "in"), "Output = "+out))
		threads := vk.Size(c, "threads", 1, 4, 24)
		_, log, code := cli.Run(root, "-Threads", fmt.Sprint(threads), "-ConvertSnapshot", cfg)
		if code != 0 {
			c.Fatalf("gotetra exited with %d: %s", code, cli.Tail(log))
		}
		j.CheckLattice(c, convert.Read(c, out, j.Cells*j.Cells*j.Cells))
		c.NonTrivial(s.N > 1)
		c.Label("%d cells", j.Cells)
		c.LabelIf(j.Files > 1, "several files")
		c.LabelIf(j.XUnits != 1, "units")
	})
}

// More than ten cells per side.
func TestManyCells(t *testing.T) {
	vk.Run(t, 4, 40, func(c *vk.C) {
		s := &sim.Sim{Mass: 1, S: rapid.IntRange(9, 13).Draw(c.T, "S"), W: 1}
		s.N = s.S
		fill(c, s)
		j := convert.Draw(c, s)
		root := dirs(c, "in", "out")
		defer os.RemoveAll(root)
		j.Write(filepath.Join(root, "in"))
		out := filepath.Join(root, "out")
		cfg := config(root, j.Config("Input = "+filepath.Join(root, "in"), "Output = "+out))
		_, log, code := cli.Run(root, "-ConvertSnapshot", cfg)
		if code != 0 {
			c.Fatalf("gotetra exited with %d: %s", code, cli.Tail(log))
		}
		j.CheckLattice(c, convert.Read(c, out, j.Cells*j.Cells*j.Cells))
		c.NonTrivial(true)
		c.Label("%d cells", j.Cells)
	})
}

// Several snapshots in a run, each in its own directory.
func TestIterations(t *testing.T) {
	vk.Run(t, 80, 800, func(c *vk.C) {
		root := dirs(c)
		defer os.RemoveAll(root)
		first := rapid.SampledFrom([]int{0, 0, 1, 3, 99}).Draw(c.T, "first")
		n := rapid.IntRange(1, 4).Draw(c.T, "snapshots")
		start := first + rapid.IntRange(0, n-1).Draw(c.T, "start")
		end := rapid.IntRange(start, first+n-1).Draw(c.T, "end")
		open := rapid.IntRange(0, 2).Draw(c.T, "open") == 0 // no IterationEnd
		if open {
			end = first + n - 1
		}
		c.Desc("snapshots %d..%d, converting %d..%d open=%v", first, first+n-1, start, end, open)
		s := random(c, 2, 2)
		j := convert.Draw(c, s)
		jobs := map[int]*convert.Job{}
		for i := first; i < first+n; i++ {
			si := &sim.Sim{Mass: s.Mass, S: s.S, W: s.W, N: s.N}
			fill(c, si)
			jc := *j
			jc.S = si
			jobs[i] = &jc
			dir := filepath.Join(root, fmt.Sprintf("snapdir_%03d", i))
			os.Mkdir(dir, 0777)
			jc.Write(dir)
		}
		// Without its first snapshot, or without one of a closed range, the run
		// fails.
		missing := -1
		if rapid.IntRange(0, 3).Draw(c.T, "a snapshot is missing") == 0 {
			missing = start
			if !open {
				missing = rapid.IntRange(start, end).Draw(c.T, "missing")
			}
			os.RemoveAll(filepath.Join(root, fmt.Sprintf("snapdir_%03d", missing)))
			c.Label("a snapshot is missing")
			c.Desc("snapshot %d missing", missing)
		}
		lines := []string{"IteratedInput = " + filepath.Join(root, "snapdir_%03d"),
			"IteratedOutput = " + filepath.Join(root, "out", "s%d")}
		if start != 0 || rapid.Bool().Draw(c.T, "spell start") {
			lines = append(lines, fmt.Sprintf("IterationStart = %d", start))
		}
		if !open {
			lines = append(lines, fmt.Sprintf("IterationEnd = %d", end))
		}
		_, log, code := cli.Run(root, "-ConvertSnapshot", config(root, j.Config(lines...)))
		if missing >= 0 {
			if code == 0 {
				c.Fatalf("gotetra exited with 0 without snapshot %d", missing)
			}
			infos, _ := os.ReadDir(filepath.Join(root, "out", fmt.Sprintf("s%d", missing)))
			if len(infos) > 0 {
				c.Fatalf("%d sheets of the missing snapshot %d", len(infos), missing)
			}
			c.NonTrivial(true)
			return
		}
		if code != 0 {
			c.Fatalf("gotetra exited with %d: %s", code, cli.Tail(log))
		}
		infos, _ := os.ReadDir(filepath.Join(root, "out"))
		if len(infos) != end-start+1 {
			c.Fatalf("%d output directories for %d snapshots", len(infos), end-start+1)
		}
		for i := start; i <= end; i++ {
			out := convert.Read(c, filepath.Join(root, "out", fmt.Sprintf("s%d", i)), j.Cells*j.Cells*j.Cells)
			jobs[i].CheckLattice(c, out)
		}
		c.NonTrivial(end > start)
		c.LabelIf(open, "no IterationEnd")
	})
}

// Snapshots that do not make up a whole lattice are turned down.
func TestIncomplete(t *testing.T) {
	vk.Run(t, 60, 600, func(c *vk.C) {
		s := random(c, 3, 3)
		j := convert.Draw(c, s)
		root := dirs(c, "in", "out")
		defer os.RemoveAll(root)
		in, out := filepath.Join(root, "in"), filepath.Join(root, "out")
		if rapid.Bool().Draw(c.T, "cells do not divide the lattice") {
			j.Cells = s.N + rapid.IntRange(-1, 3).Draw(c.T, "cells")
			if j.Cells < 1 || s.N%j.Cells == 0 {
				j.Cells = s.N + 1
			}
			c.Desc("%d cells for a lattice of %d", j.Cells, s.N)
			j.Write(in)
		} else {
			j.Files = rapid.IntRange(2, 5).Draw(c.T, "files")
			j.Write(in)
			big, size := "", int64(0)
			infos, _ := os.ReadDir(in)
			for _, f := range infos {
				if fi, _ := f.Info(); fi.Size() > size {
					big, size = f.Name(), fi.Size()
				}
			}
			c.Desc("%s of %d files missing", big, j.Files)
			os.Remove(filepath.Join(in, big))
		}
		cfg := config(root, j.Config("Input = "+in, "Output = "+out))
		_, _, code := cli.Run(root, "-ConvertSnapshot", cfg)
		infos, _ := os.ReadDir(out)
		if code == 0 {
			c.Fatalf("gotetra exited with 0 and wrote %d sheets", len(infos))
		}
		if len(infos) != 0 {
			c.Fatalf("gotetra failed, but wrote %d sheets", len(infos))
		}
		c.NonTrivial(true)
	})
}
