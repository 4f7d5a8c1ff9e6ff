// Package convert runs the program's conversion mode on generated snapshots.
package convert

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/gadget"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Job is a snapshot and the settings it is converted with.
type Job struct {
	S                      *sim.Sim // in the units of the snapshot
	Cells                  int
	XUnits, VUnits, MUnits float64
	IDBits, Files          int
	X64, V64               bool
	Format                 string
	Shuffle                uint64
	Raw                    [][3]float64 // velocities in the files
	Explicit               bool         // spell out defaults
}

// Draw generates the settings for s, which is converted to s.S cells.
func Draw(c *vk.C, s *sim.Sim) *Job {
	j := &Job{S: s, Cells: s.S, XUnits: 1, VUnits: 1, MUnits: 1}
	if rapid.Bool().Draw(c.T, "units") {
		j.XUnits = rapid.SampledFrom([]float64{1e-3, 1, 0.7, 1000, 0.5, 3.0856}).Draw(c.T, "xu")
		j.VUnits = rapid.SampledFrom([]float64{1, 2, 1e-3, 100, 0.9}).Draw(c.T, "vu")
		j.MUnits = rapid.SampledFrom([]float64{1, 1e10, 0.7}).Draw(c.T, "mu")
	}
	j.IDBits = rapid.SampledFrom([]int{64, 32}).Draw(c.T, "id")
	j.X64, j.V64 = rapid.IntRange(0, 3).Draw(c.T, "x64") == 0, rapid.IntRange(0, 3).Draw(c.T, "v64") == 0
	j.Files = rapid.IntRange(1, 5).Draw(c.T, "files")
	j.Format = rapid.SampledFrom([]string{"LGadget-2", "Arepo-type-2"}).Draw(c.T, "format")
	j.Shuffle = uint64(rapid.IntRange(0, 1<<16).Draw(c.T, "shuffle"))
	j.Explicit = rapid.Bool().Draw(c.T, "explicit")
	c.Desc("cells=%d units=%g,%g,%g id=%d x64=%v v64=%v files=%d %s shuffle=%d", j.Cells, j.XUnits,
		j.VUnits, j.MUnits, j.IDBits, j.X64, j.V64, j.Files, j.Format, j.Shuffle)
	return j
}

// Write writes the snapshot's files into dir.
func (j *Job) Write(dir string) {
	s, n := j.S, len(j.S.X)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	if j.Shuffle != 0 { // 0: in order
		for i := n - 1; i > 0; i-- {
			k := int(sim.Hash(j.Shuffle+uint64(i)) % uint64(i+1))
			perm[i], perm[k] = perm[k], perm[i]
		}
	}
	// uneven files, empty ones included
	cuts := []int{0}
	for i := 1; i < j.Files; i++ {
		cuts = append(cuts, int(sim.Hash(j.Shuffle*31+uint64(i))%uint64(n+1)))
	}
	for i := range cuts {
		for k := i; k > 0 && cuts[k] < cuts[k-1]; k-- {
			cuts[k], cuts[k-1] = cuts[k-1], cuts[k]
		}
	}
	cuts = append(cuts, n)
	for i := 0; i < j.Files; i++ {
		f := &gadget.File{Time: gadget.A(s.Z), Z: s.Z, L: s.L, OmM: s.OmM, OmL: s.OmL,
			H100: s.H100, Mass: s.Mass, Total: uint64(n), NumFiles: j.Files, X64: j.X64,
			V64: j.V64, IDBits: j.IDBits, Junk: byte(j.Shuffle)}
		for _, p := range perm[cuts[i]:cuts[i+1]] {
			var x, v [3]float64
			for k := 0; k < 3; k++ {
				x[k], v[k] = float64(s.X[p][k]), float64(s.V[p][k])
			}
			f.X, f.V, f.ID = append(f.X, x), append(f.V, v), append(f.ID, uint64(p+1))
		}
		b, _ := f.Bytes(binary.LittleEndian)
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("snap.%d", i)), b, 0666); err != nil {
			vk.Harness("%v", err)
		}
	}
}

// Config is the configuration file but for its inputs and outputs.
func (j *Job) Config(lines ...string) string {
	b := &strings.Builder{}
	fmt.Fprintf(b, "[ConvertSnapshot]\nInputFormat = %s\nCells = %d\n", j.Format, j.Cells)
	if j.Explicit || j.IDBits != 64 {
		fmt.Fprintf(b, "Gadget2IDSize = %d\n", j.IDBits)
	}
	if j.Explicit || j.XUnits != 1 {
		fmt.Fprintf(b, "XUnits = %g\n", j.XUnits)
	}
	if j.Explicit || j.VUnits != 1 {
		fmt.Fprintf(b, "VUnits = %g\n", j.VUnits)
	}
	if j.Explicit || j.MUnits != 1 {
		fmt.Fprintf(b, "MUnits = %g\n", j.MUnits)
	}
	return b.String() + strings.Join(lines, "\n") + "\n"
}

// Sheet is a decoded sheet file.
type Sheet struct {
	H    io.SheetHeader
	X, V []geom.Vec
}

// Read decodes every file of dir and returns them by their index.
func Read(c *vk.C, dir string, want int) map[int]*Sheet {
	infos, err := os.ReadDir(dir)
	if err != nil {
		c.Fatalf("no output directory: %v", err)
	}
	if len(infos) != want {
		c.Fatalf("%d files written, want %d", len(infos), want)
	}
	out := map[int]*Sheet{}
	for _, in := range infos {
		b, err := os.ReadFile(filepath.Join(dir, in.Name()))
		if err != nil {
			vk.Harness("%v", err)
		}
		r := bytes.NewReader(b)
		var flag, size int32
		sh := &Sheet{}
		binary.Read(r, binary.LittleEndian, &flag)
		binary.Read(r, binary.LittleEndian, &size)
		if err := binary.Read(r, binary.LittleEndian, &sh.H); err != nil || flag != 0 || size != 152 {
			c.Fatalf("%s is not a sheet: flag %d, header size %d, %v", in.Name(), flag, size, err)
		}
		n := r.Len() / 24
		if int64(n) != sh.H.GridCount || r.Len()%24 != 0 {
			c.Fatalf("%s has %d bytes of particles, its header says %d particles", in.Name(), r.Len(), sh.H.GridCount)
		}
		sh.X, sh.V = make([]geom.Vec, n), make([]geom.Vec, n)
		binary.Read(r, binary.LittleEndian, sh.X)
		binary.Read(r, binary.LittleEndian, sh.V)
		idx := int(sh.H.Idx)
		if out[idx] != nil {
			c.Fatalf("two files with the index %d", idx)
		}
		out[idx] = sh
	}
	return out
}

// CheckLattice compares every sheet with the particles it has to hold.
func (j *Job) CheckLattice(c *vk.C, out map[int]*Sheet) {
	s := j.S
	rootA := math.Sqrt(gadget.A(s.Z))
	L := s.L * j.XUnits
	w := s.N / j.Cells
	for idx := 0; idx < j.Cells*j.Cells*j.Cells; idx++ {
		sh := out[idx]
		if sh == nil {
			c.Fatalf("no sheet has the index %d", idx)
		}
		if len(sh.X) != (w+1)*(w+1)*(w+1) {
			c.Fatalf("sheet %d holds %d particles, want %d^3", idx, len(sh.X), w+1)
		}
		o := [3]int{idx % j.Cells * w, idx / j.Cells % j.Cells * w, idx / j.Cells / j.Cells * w}
		i := 0
		for z := 0; z <= w; z++ {
			for y := 0; y <= w; y++ {
				for x := 0; x <= w; x++ {
					p := s.Idx(o[0]+x, o[1]+y, o[2]+z)
					for k := 0; k < 3; k++ {
						wx := float64(s.X[p][k]) * j.XUnits
						d := float64(sh.X[i][k]) - wx
						d -= L * math.Round(d/L)
						if !(math.Abs(d) <= 3e-7*L) || sh.X[i][k] < 0 || float64(sh.X[i][k]) > L*(1+1e-7) {
							c.Fatalf("sheet %d, particle (%d, %d, %d): position %v, want %v times %g",
								idx, x, y, z, sh.X[i], s.X[p], j.XUnits)
						}
						wv := float64(s.V[p][k]) * rootA * j.VUnits
						if !(math.Abs(float64(sh.V[i][k])-wv) <= 5e-7*math.Abs(wv)) {
							c.Fatalf("sheet %d, particle (%d, %d, %d): velocity %v, want %v times %g",
								idx, x, y, z, sh.V[i], s.V[p], rootA*j.VUnits)
						}
					}
					i++
				}
			}
		}
	}
}
