// Package runs sets up runs of the program in each of its modes.
package runs

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"

	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/cli"
	"gotetraverif/convert"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Job is a run: its inputs are below the directory Root, its outputs in Out.
type Job struct {
	Root, In, Out string
	Mode          string
	Text          string // the configuration, but for its output directory
	Boxes         []Box  // none in conversions
}

// Box is a box or a ball.
type Box struct{ Name, Text string }

// Mkdir makes a directory.
func Mkdir(elem ...string) string {
	d := filepath.Join(elem...)
	if err := os.MkdirAll(d, 0777); err != nil {
		vk.Harness("%v", err)
	}
	return d
}

// Write writes a file and returns its name.
func Write(dir, name, text string) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(text), 0666); err != nil {
		vk.Harness("%v", err)
	}
	return p
}

// New makes the directories of a job.
func New() *Job {
	root := rend.TempDir()
	return &Job{Root: root, In: Mkdir(root, "in"), Out: Mkdir(root, "out")}
}

// Config writes the configuration, with more lines.
func (j *Job) Config(name string, lines ...string) string {
	s := j.Text + "Output = " + j.Out + "\n"
	for _, l := range lines {
		s += l + "\n"
	}
	return Write(j.Root, name, s)
}

// Bounds writes boxes into a bounds file.
func (j *Job) Bounds(name string, boxes ...Box) string {
	s := ""
	for _, b := range boxes {
		s += b.Text
	}
	return Write(j.Root, name, s)
}

// Args are the program's arguments for the whole job in plain.
func (j *Job) Args() []string {
	args := []string{"-Threads", "2", "-" + j.Mode, j.Config("config")}
	if len(j.Boxes) > 0 {
		args = append(args, j.Bounds("bounds", j.Boxes...))
	}
	return args
}

// Run runs it, see cli.Limited.
func (j *Job) Run(size, open int) (log string, code int) {
	_, log, code = cli.Limited(j.Root, size, open, j.Args()...)
	return log, code
}

// Clear removes the outputs.
func (j *Job) Clear() {
	if err := os.RemoveAll(j.Out); err != nil {
		vk.Harness("%v", err)
	}
	Mkdir(j.Out)
}

// DrawBoxes draws n boxes (and balls).
func DrawBoxes(c *vk.C, s *sim.Sim, n int, axes bool) (bs []Box) {
	for i := 0; i < n; i++ {
		w := s.L * float64(rapid.IntRange(1, 10).Draw(c.T, "w")) / 10
		x := s.L * float64(rapid.IntRange(0, 9).Draw(c.T, "x")) / 10
		name := fmt.Sprintf("b%d", i)
		t := ""
		if rapid.IntRange(0, 3).Draw(c.T, "ball") == 0 {
			t = fmt.Sprintf("[Ball \"%s\"]\nX = %.17g\nY = %.17g\nZ = 0\nRadius = %.17g\n", name, x, x, w/2)
		} else {
			t = fmt.Sprintf("[Box \"%s\"]\nX = %.17g\nY = %.17g\nZ = 0\nXWidth = %.17g\nYWidth = %.17g\nZWidth = %.17g\n",
				name, x, x, w, w, s.L/2)
		}
		if axes && rapid.Bool().Draw(c.T, "projected") {
			t += "ProjectionAxis = Z\n"
		}
		bs = append(bs, Box{name, t})
	}
	return bs
}

// Draw draws a small simulation.
func Draw(c *vk.C, maxS int) *sim.Sim {
	return sim.Draw(c, sim.Opts{MinS: 3, MaxS: maxS, MaxW: 1})
}

// Render sets up the rendering of n boxes.
func Render(c *vk.C, s *sim.Sim, n int) *Job {
	j := New()
	j.Mode = "Render"
	s.WriteSheets(j.In)
	q := rapid.SampledFrom([]string{"Density", "Velocity"}).Draw(c.T, "quantity")
	pix := rapid.IntRange(1, 12).Draw(c.T, "pixels")
	j.Text = fmt.Sprintf("[Render]\nQuantity = %s\nInput = %s\nTotalPixels = %d\nParticles = 2\n", q, j.In, pix)
	j.Boxes = DrawBoxes(c, s, n, true)
	c.Desc("render of %s in %d boxes, %d pixels", q, n, pix)
	return j
}

// Grid writes a gtet file of the whole of a box of width L.
func Grid(dir string, L float64, cells int) string {
	hd := &io.GridHeader{}
	hd.EndiannessVersion = io.EndiannessVersionFlag(binary.LittleEndian)
	hd.Type.HeaderSize = int64(binary.Size(hd))
	hd.Cosmo = io.NewCosmoInfo(70, 0.27, 0.73, 0, L)
	hd.Render = io.NewRenderInfo(10, cells, 1, "")
	hd.Loc = io.NewLocationInfo([3]int{}, [3]int{cells, cells, cells}, L/float64(cells))
	v := make([]float32, cells*cells*cells)
	for i := range v {
		v[i] = float32(1 + i%40)
	}
	b := &bytes.Buffer{}
	binary.Write(b, binary.LittleEndian, hd)
	binary.Write(b, binary.LittleEndian, v)
	return Write(dir, "grid.gtet", b.String())
}

// Hist sets up histograms of n boxes. Its outputs are lines of text.
func Hist(c *vk.C, s *sim.Sim, n int) *Job {
	j := New()
	j.Mode = "TetraHist"
	s.WriteSheets(j.In)
	bins := rapid.IntRange(1, 40).Draw(c.T, "bins")
	j.Text = fmt.Sprintf("[TetraHist]\nQuantity = Density\nInput = %s\nGridFile = %s\n"+
		"HistMin = 0.5\nHistMax = 50\nHistBins = %d\nHistScale = Log\nParticles = 2\n",
		j.In, Grid(j.Root, s.L, 4), bins)
	j.Boxes = DrawBoxes(c, s, n, false)
	c.Desc("histograms of %d boxes, %d bins", n, bins)
	return j
}

// Convert sets up a conversion.
func Convert(c *vk.C, maxS, maxW int) *Job {
	j := New()
	j.Mode = "ConvertSnapshot"
	s := &sim.Sim{L: 10, Z: 1, OmM: 0.3, OmL: 0.7, H100: 0.7, Mass: 1}
	s.S = rapid.IntRange(1, maxS).Draw(c.T, "S")
	s.W = rapid.IntRange(1, maxW).Draw(c.T, "W")
	s.N = s.S * s.W
	for i := 0; i < s.N*s.N*s.N; i++ {
		var x, v [3]float32
		for k := range x {
			x[k], v[k] = float32(10*sim.Unit(7, i, k)), float32(sim.Noise(8, i, k))
		}
		s.X, s.V = append(s.X, x), append(s.V, v)
	}
	cj := &convert.Job{S: s, Cells: s.S, XUnits: 1, VUnits: 1, MUnits: 1, IDBits: 64,
		Files: rapid.IntRange(1, 3).Draw(c.T, "files"), Format: "LGadget-2"}
	cj.Write(j.In)
	j.Text = cj.Config("Input = " + j.In)
	c.Desc("conversion to %d sheets of width %d from %d files", s.S*s.S*s.S, s.W, cj.Files)
	return j
}
