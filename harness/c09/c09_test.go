package c09

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"testing"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/halo"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/cli"
	"gotetraverif/convert"
	"gotetraverif/gadget"
	"gotetraverif/gtet"
	"gotetraverif/py"
	"gotetraverif/rend"
	"gotetraverif/sheet"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func put(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0666); err != nil {
		vk.Harness("%v", err)
	}
	return p
}

// mustErr: a reader with an error result has to use it.
func mustErr(c *vk.C, what string, f func() error) {
	var err error
	if r := vk.Panics(func() { err = f() }); r != nil {
		c.Fatalf("%s: panicked instead of returning an error: %v", what, r)
	}
	if err == nil {
		c.Fatalf("%s: no error", what)
	}
}

// mustPanic: a reader without one has to panic on purpose.
func mustPanic(c *vk.C, what string, f func()) {
	r := vk.Panics(f)
	if r == nil {
		c.Fatalf("%s: returned normally", what)
	}
	if e, ok := r.(runtime.Error); ok {
		c.Fatalf("%s: crashed: %v", what, e)
	}
}

func wreck(c *vk.C, full int, marks ...int) int {
	// where to cut: anywhere, or near one of the marks
	if rapid.Bool().Draw(c.T, "near a block") {
		m := rapid.SampledFrom(marks).Draw(c.T, "block") + rapid.IntRange(-3, 1).Draw(c.T, "off")
		if m >= 0 && m < full {
			return m
		}
	}
	return rapid.IntRange(0, full-1).Draw(c.T, "cut")
}

const sheetHead = 8 + 152

func drawSheet(c *vk.C) (hd *io.SheetHeader, le, be []byte) {
	hd, xs, vs := sheet.Draw(c)
	return hd, sim.SheetBytes(hd, xs, vs, binary.LittleEndian), sim.SheetBytes(hd, xs, vs, binary.BigEndian)
}

func sheetReads(c *vk.C, what, name string, n, size int) {
	if size < sheetHead {
		mustErr(c, "ReadSheetHeaderAt of "+what, func() error {
			return io.ReadSheetHeaderAt(name, &io.SheetHeader{})
		})
	}
	if size < sheetHead+12*n {
		mustErr(c, "ReadSheetPositionsAt of "+what, func() error {
			return io.ReadSheetPositionsAt(name, make([]geom.Vec, n))
		})
	}
	mustErr(c, "ReadSheetVelocitiesAt of "+what, func() error {
		return io.ReadSheetVelocitiesAt(name, make([]geom.Vec, n))
	})
}

func TestSheets(t *testing.T) {
	vk.Run(t, 4000, 40000, func(c *vk.C) {
		hd, le, be := drawSheet(c)
		n := int(hd.GridCount)
		b := le
		if rapid.Bool().Draw(c.T, "big endian") {
			b = be
		}
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		switch kind := rapid.IntRange(0, 4).Draw(c.T, "kind"); kind {
		case 0, 1:
			cut := wreck(c, len(b), 0, 4, 8, sheetHead, sheetHead+12*n, len(b))
			c.Desc("cut to %d of %d bytes", cut, len(b))
			sheetReads(c, "a truncated file", put(dir, "x", b[:cut]), n, cut)
			c.Label("truncated")
		case 2:
			flag := int32(rapid.OneOf(rapid.Int32Range(1, 300), rapid.Int32Range(-300, -2),
				rapid.Int32()).Draw(c.T, "flag"))
			if flag == 0 || flag == -1 {
				flag = 5
			}
			c.Desc("byte order flag %d", flag)
			b = append([]byte{}, b...)
			binary.LittleEndian.PutUint32(b, uint32(flag))
			sheetReads(c, "a file with an unknown byte order flag", put(dir, "x", b), n, 0)
			c.Label("flag")
		case 3:
			size := int32(rapid.SampledFrom([]int{0, 1, 151, 153, 148, 256, -1, 1 << 30}).Draw(c.T, "size"))
			c.Desc("header size %d", size)
			b = append([]byte{}, b...)
			if &b[0] != &le[0] && b[0] == 0xff {
				binary.BigEndian.PutUint32(b[4:], uint32(size))
			} else {
				binary.LittleEndian.PutUint32(b[4:], uint32(size))
			}
			sheetReads(c, "a file with another header size", put(dir, "x", b), n, 0)
			c.Label("header size")
		default:
			c.Desc("missing")
			name := filepath.Join(dir, "none")
			if rapid.Bool().Draw(c.T, "directory") {
				name = dir
			}
			sheetReads(c, "no file", name, n, 0)
			c.Label("missing")
		}
		c.NonTrivial(true)
	})
}

func TestGrids(t *testing.T) {
	vk.Run(t, 3000, 30000, func(c *vk.C) {
		g := gtet.DrawGrid(c, 5)
		w := &bytes.Buffer{}
		io.WriteBuffer(g.Box.Vals(), g.Cosmo, g.Render, g.Loc, w)
		b := w.Bytes()
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		head := func(what, name string) {
			mustErr(c, "ReadGridHeader of "+what, func() error { _, err := io.ReadGridHeader(name); return err })
		}
		grid := func(what, name string) {
			mustErr(c, "ReadGrid of "+what, func() error { _, err := io.ReadGrid(name); return err })
		}
		switch rapid.IntRange(0, 2).Draw(c.T, "kind") {
		case 0:
			cut := wreck(c, len(b), 0, 8, 32, gtet.HeaderSize, len(b))
			c.Desc("cut to %d of %d bytes", cut, len(b))
			name := put(dir, "x", b[:cut])
			if cut < gtet.HeaderSize {
				head("a truncated file", name)
			}
			grid("a truncated file", name)
			c.Label("truncated")
		case 1:
			seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "bytes"))
			what := "another kind of file"
			if rapid.Bool().Draw(c.T, "sheet") {
				_, b, _ = drawSheet(c)
				what = "a sheet file"
			} else {
				b = make([]byte, len(b))
				for i := range b {
					b[i] = byte(sim.Hash(seed + uint64(i)))
				}
				if sim.Hash(seed)%3 == 0 {
					b = make([]byte, len(b))
				}
			}
			c.Desc("%s, %d bytes", what, len(b))
			name := put(dir, "x", b)
			head(what, name)
			grid(what, name)
			c.Label("other kind")
		default:
			name := filepath.Join(dir, "none")
			if rapid.Bool().Draw(c.T, "directory") {
				name = dir
			}
			c.Desc("missing")
			head("no file", name)
			grid("no file", name)
			c.Label("missing")
		}
		c.NonTrivial(true)
	})
}

func TestGadget(t *testing.T) {
	vk.Run(t, 4000, 40000, func(c *vk.C) {
		f := &gadget.File{Time: 1, L: 100, OmM: 0.3, OmL: 0.7, H100: 0.7, Mass: 1, NumFiles: 1}
		f.X64, f.V64 = rapid.Bool().Draw(c.T, "x64"), rapid.Bool().Draw(c.T, "v64")
		f.IDBits = rapid.SampledFrom([]int{32, 64}).Draw(c.T, "id bits")
		n := rapid.IntRange(1, 20).Draw(c.T, "n")
		f.Total = uint64(n)
		for i := 0; i < n; i++ {
			f.X = append(f.X, [3]float64{1, 2, 3})
			f.V = append(f.V, [3]float64{4, 5, 6})
			f.ID = append(f.ID, uint64(i+1))
		}
		var order, other binary.ByteOrder = binary.LittleEndian, binary.BigEndian
		if rapid.Bool().Draw(c.T, "big endian") {
			order, other = other, order
		}
		b, l := f.Bytes(order)
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		read := func(what, name string, o binary.ByteOrder, bits int, head bool) {
			if head {
				mustPanic(c, "ReadGadgetHeader of "+what, func() { io.ReadGadgetHeader(name, o, "LGadget-2") })
				mustPanic(c, "ReadGadget of "+what, func() { io.ReadGadget(name, o, bits, "LGadget-2") })
			}
			mustPanic(c, "ReadGadgetParticlesAt of "+what, func() {
				io.ReadGadgetParticlesAt(name, o, make([]geom.Vec, n), make([]geom.Vec, n), make([]int64, n),
					bits, "LGadget-2")
			})
		}
		c.Desc("n=%d x64=%v v64=%v id=%d %v", n, f.X64, f.V64, f.IDBits, order)
		switch rapid.IntRange(0, 4).Draw(c.T, "kind") {
		case 0, 1:
			cut := wreck(c, l.End, 0, 4, 260, l.X, l.V, l.ID, l.End)
			c.Desc("cut to %d of %d bytes", cut, len(b))
			read("a truncated file", put(dir, "x", b[:cut]), order, f.IDBits, cut < 260)
			c.Label("truncated")
		case 2:
			c.Desc("read in the wrong byte order")
			read("a file in the other byte order", put(dir, "x", b), other, f.IDBits, true)
			c.Label("byte order")
		case 3:
			c.Desc("read with the wrong id size")
			bits := rapid.SampledFrom([]int{96 - f.IDBits, 0, 16, 128}).Draw(c.T, "bits")
			read("a file with other ids", put(dir, "x", b), order, bits, false)
			c.Label("id size")
		default:
			name := filepath.Join(dir, "none")
			what := "no file"
			if rapid.Bool().Draw(c.T, "sheet") {
				_, le, _ := drawSheet(c)
				name, what = put(dir, "x", le), "a sheet file"
			}
			c.Desc(what)
			read(what, name, order, f.IDBits, true)
			c.Label(what)
		}
		c.NonTrivial(true)
	})
}

// 62 columns of n values behind an int64 count.
const haloCols = 62

func TestHalos(t *testing.T) {
	vk.Run(t, 3000, 30000, func(c *vk.C) {
		n := rapid.IntRange(1, 12).Draw(c.T, "n")
		w := &bytes.Buffer{}
		binary.Write(w, binary.LittleEndian, int64(n))
		for i := 0; i < n*haloCols; i++ {
			binary.Write(w, binary.LittleEndian, float64(i))
		}
		b := w.Bytes()
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		cos := &io.CosmologyHeader{OmegaM: 0.3, OmegaL: 0.7, H100: 0.7}
		flags := []halo.Val{}
		for i := rapid.IntRange(0, 4).Draw(c.T, "columns"); i > 0; i-- {
			flags = append(flags, halo.Val(rapid.IntRange(0, haloCols-1).Draw(c.T, "column")))
		}
		read := func(what, name string) {
			mustErr(c, "ReadBinaryRockstarVals of "+what, func() error {
				_, _, err := halo.ReadBinaryRockstarVals(name, cos, flags...)
				return err
			})
		}
		c.Desc("n=%d columns=%v", n, flags)
		switch rapid.IntRange(0, 2).Draw(c.T, "kind") {
		case 0:
			last := int(halo.ID)
			for _, f := range flags {
				if int(f) > last {
					last = int(f)
				}
			}
			cut := rapid.IntRange(0, 8+8*n*(last+1)-1).Draw(c.T, "cut")
			if rapid.Bool().Draw(c.T, "short") {
				cut = rapid.IntRange(0, 20).Draw(c.T, "cut")
			}
			c.Desc("cut to %d of %d bytes", cut, len(b))
			read("a truncated file", put(dir, "x", b[:cut]))
			c.Label("truncated")
		case 1:
			bad := rapid.SampledFrom([]int64{-1, math.MinInt64, math.MaxInt64, 1 << 40, int64(n) + 1,
				1 << 60, 1 << 61}).Draw(c.T, "count")
			c.Desc("count %d", bad)
			binary.LittleEndian.PutUint64(b, uint64(bad))
			if bad > int64(n) && bad < 1<<20 {
				flags = append(flags, halo.Val(haloCols-1))
			}
			read("a file with an impossible count", put(dir, "x", b))
			c.Label("count")
		default:
			c.Desc("missing")
			name := filepath.Join(dir, "none")
			if rapid.Bool().Draw(c.T, "directory") {
				name = dir
			}
			read("no file", name)
			c.Label("missing")
		}
		c.NonTrivial(true)
	})
}

func TestPython(t *testing.T) {
	vk.Run(t, 1200, 12000, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		mustFail := func(op, what string, b []byte) {
			if r := py.Ask(op, put(dir, "x", b)); r.Error == "" {
				c.Fatalf("%s of %s: no error", op, what)
			}
		}
		hd, le, _ := drawSheet(c)
		n := int(hd.GridCount)
		g := gtet.DrawGrid(c, 4)
		w := &bytes.Buffer{}
		io.WriteBuffer(g.Box.Vals(), g.Cosmo, g.Render, g.Loc, w)
		b := w.Bytes()
		switch rapid.IntRange(0, 3).Draw(c.T, "kind") {
		case 0:
			cut := wreck(c, len(le), 0, 4, 8, sheetHead, sheetHead+12*n, len(le))
			c.Desc("sheet cut to %d of %d bytes", cut, len(le))
			mustFail("sheet", fmt.Sprintf("%d of %d bytes", cut, len(le)), le[:cut])
		case 1:
			cut := wreck(c, len(b), 0, 8, 32, gtet.HeaderSize, len(b))
			c.Desc("grid cut to %d of %d bytes", cut, len(b))
			mustFail("grid", "a truncated file", b[:cut])
			if cut < gtet.HeaderSize {
				mustFail("header", "a truncated file", b[:cut])
			}
		case 2:
			c.Desc("sheet read as a grid")
			mustFail("header", "a sheet file", le)
			mustFail("grid", "a sheet file", le)
		default:
			c.Desc("grid read as a sheet")
			mustFail("sheet", "a grid file", b)
		}
		c.NonTrivial(true)
	})
}

// The program stops at a broken input file and writes nothing from it.
func TestProgram(t *testing.T) {
	vk.Run(t, 150, 1500, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		in, out, snap := filepath.Join(dir, "in"), filepath.Join(dir, "out"), filepath.Join(dir, "snap")
		for _, d := range []string{in, out, snap} {
			os.Mkdir(d, 0777)
		}
		s := sim.Draw(c, sim.Opts{MaxS: 3, MaxW: 2})
		names := s.WriteSheets(in)
		grid := filepath.Join(dir, "grid.gtet")
		writeGrid(grid, s.L)
		j := &convert.Job{S: s, IDBits: 64, Files: 2, Shuffle: 5, Cells: s.S, XUnits: 1, VUnits: 1,
			MUnits: 1, Format: "LGadget-2"}
		j.Write(snap)
		mode := rapid.SampledFrom([]string{"Render", "Velocity", "TetraHist", "ConvertSnapshot"}).Draw(c.T, "mode")
		text := fmt.Sprintf("[Render]\nQuantity = %s\nInput = %s\nOutput = %s\nTotalPixels = 6\nParticles = 2\n",
			map[bool]string{true: "Velocity", false: "Density"}[mode == "Velocity"], in, out)
		flag := "-Render"
		victims := names
		switch mode {
		case "TetraHist":
			text = fmt.Sprintf("[TetraHist]\nQuantity = Density\nInput = %s\nOutput = %s\nGridFile = %s\n"+
				"HistMin = 0.1\nHistMax = 10\nHistBins = 4\nHistScale = Log\nParticles = 2\n", in, out, grid)
			flag = "-TetraHist"
			victims = append(victims, grid, grid, grid, grid, grid, grid)
		case "ConvertSnapshot":
			text = j.Config("Input = "+snap, "Output = "+out)
			flag = "-ConvertSnapshot"
			victims = []string{filepath.Join(snap, "snap.0"), filepath.Join(snap, "snap.1")}
		}
		cfg, bounds := filepath.Join(dir, "a.cfg"), filepath.Join(dir, "b.cfg")
		os.WriteFile(cfg, []byte(text), 0666)
		os.WriteFile(bounds, []byte(fmt.Sprintf("[Box \"x\"]\nX = 0\nY = 0\nZ = 0\nXWidth = %g\n"+
			"YWidth = %g\nZWidth = %g\n", s.L, s.L, s.L)), 0666)

		victim := rapid.SampledFrom(victims).Draw(c.T, "victim")
		b, err := os.ReadFile(victim)
		if err != nil {
			vk.Harness("%v", err)
		}
		need := len(b)
		if mode == "ConvertSnapshot" {
			need -= 4 // the size behind the last block
		} else if mode == "Render" || mode == "TetraHist" && victim != grid {
			need = sheetHead + (len(b)-sheetHead)/2 // no velocities needed
		}
		healthy := false
		switch rapid.IntRange(0, 4).Draw(c.T, "damage") {
		case 0:
			healthy = true
			c.Desc("%s, undamaged", mode)
		case 1:
			c.Desc("%s, %s replaced by a directory", mode, filepath.Base(victim))
			os.Remove(victim)
			os.Mkdir(victim, 0777)
		case 2:
			junk := make([]byte, len(b))
			for i := range junk {
				junk[i] = byte(sim.Hash(uint64(i)))
			}
			c.Desc("%s, %s replaced by junk", mode, filepath.Base(victim))
			os.WriteFile(victim, junk, 0666)
		default:
			cut := wreck(c, need, 0, 4, 8, sheetHead, 260, 264, 344, need)
			c.Desc("%s, %s cut to %d of %d bytes", mode, filepath.Base(victim), cut, len(b))
			os.WriteFile(victim, b[:cut], 0666)
		}
		args := []string{"-Threads", fmt.Sprint(rapid.IntRange(1, 3).Draw(c.T, "threads")), flag, cfg}
		if mode != "ConvertSnapshot" {
			args = append(args, bounds)
		}
		_, log, code := cli.Run(dir, args...)
		infos, _ := os.ReadDir(out)
		if healthy {
			if code != 0 || len(infos) == 0 {
				c.Fatalf("undamaged input: status %d: %s", code, cli.Tail(log))
			}
		} else if code == 0 {
			c.Fatalf("the program exited with 0, %d files written: %s", len(infos), cli.Tail(log))
		} else if len(infos) > 0 {
			c.Fatalf("the program exited with %d after writing %d files", code, len(infos))
		}
		c.NonTrivial(!healthy)
		c.Label("%s", mode)
	})
}

func writeGrid(name string, L float64) {
	xs := make([]float64, 64)
	for i := range xs {
		xs[i] = 1
	}
	f, err := os.Create(name)
	if err != nil {
		vk.Harness("%v", err)
	}
	defer f.Close()
	io.WriteBuffer(density.WrapperDensityBuffer(xs), io.NewCosmoInfo(70, 0.3, 0.7, 0, L),
		io.NewRenderInfo(1, 4, 1, ""), io.NewLocationInfo([3]int{}, [3]int{4, 4, 4}, L/4), f)
}
