// C19: tetrahedron histograms count every tetrahedron once.
package c19

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/cli"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// a generated histogram job
type job struct {
	s         *sim.Sim
	info      render.HistInfo
	cells     int // pixels per side of the box
	org, span [3]int
	bin       []int // bin of each pixel; -1: none of them
	vals      []float64
	pts, skip int
	threads   int
	round     bool
	boxes     []rend.Req
}

func draw(c *vk.C, maxW, maxPix int) *job {
	j := &job{}
	j.skip = rapid.SampledFrom([]int{1, 1, 1, 2, 2, 4}).Draw(c.T, "skip")
	if j.skip > maxW {
		j.skip = 1
	}
	o := sim.Opts{MaxW: maxW, WMultiple: j.skip, Aligned: true, Snap: true, Tight: true, VelMode: 2}
	if maxW >= 4 && rapid.IntRange(0, 2).Draw(c.T, "large") == 0 {
		o.MinS = 4
	}
	j.s = sim.Draw(c, o)

	j.info.Bins = vk.Size(c, "bins", 1, 12, 300)
	j.info.Scale = rapid.SampledFrom([]string{"Linear", "Log"}).Draw(c.T, "scale")
	if j.info.Scale == "Log" {
		j.info.Min = float64(float32(math.Pow(10, sim.F(c, "min", -4, 3, 4))))
		j.info.Max = j.info.Min * math.Pow(10, sim.F(c, "range", 0.25, 6, 4))
	} else {
		j.info.Min = sim.F(c, "min", -10, 10, 4)
		j.info.Max = j.info.Min + sim.F(c, "range", 0.25, 100, 4)
		if rapid.Bool().Draw(c.T, "round") { // bins whose edges are known exactly
			j.round = true
			for j.info.Bins&(j.info.Bins-1) != 0 {
				j.info.Bins &= j.info.Bins - 1
			}
			j.info.Max = j.info.Min + math.Ldexp(1, rapid.IntRange(-2, 6).Draw(c.T, "range"))
		}
	}
	j.pts = vk.Size(c, "pts", 1, 8, 70)
	j.threads = vk.Size(c, "threads", 1, 6, 40)

	// the grid: the whole box, or a part of it
	j.cells = rapid.IntRange(1, maxPix).Draw(c.T, "pixels")
	whole := rapid.IntRange(0, 2).Draw(c.T, "whole") > 0
	n := 1
	for k := range j.span {
		j.span[k] = j.cells
		if !whole {
			j.org[k] = rapid.IntRange(0, j.cells-1).Draw(c.T, "org")
			j.span[k] = rapid.IntRange(1, j.cells).Draw(c.T, "span")
		}
		n *= j.span[k]
	}
	kind := rapid.IntRange(0, 3).Draw(c.T, "kind")
	seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "gridseed"))
	axis := rapid.IntRange(0, 2).Draw(c.T, "gridaxis")
	block := rapid.IntRange(1, j.cells).Draw(c.T, "block")
	outside := kind < 3 && rapid.Bool().Draw(c.T, "outside")
	j.bin, j.vals = make([]int, n), make([]float64, n)
	i := 0
	for z := 0; z < j.span[2]; z++ {
		for y := 0; y < j.span[1]; y++ {
			for x := 0; x < j.span[0]; x++ {
				p := [3]int{x, y, z}
				h := uint64(0)
				switch kind {
				case 0: // every pixel on its own
					h = sim.Hash(seed + uint64(i))
				case 1: // slabs
					h = sim.Hash(seed + uint64(p[axis]/block))
				case 2: // blocks
					h = sim.Hash(seed + uint64(p[0]/block) + 64*uint64(p[1]/block) + 4096*uint64(p[2]/block))
				default: // one value
					h = seed
				}
				u := float64(h>>20%1000)/1000*0.8 + 0.1
				b := int(h % uint64(j.info.Bins))
				if outside && h>>40%4 == 0 {
					b = -1
				}
				j.bin[i] = b
				j.vals[i] = j.value(b, u, h>>44%2 == 0)
				// the edges of the bins: the lower one is in it, the upper one is not
				if h>>50%4 == 0 {
					switch {
					case b == 0:
						j.vals[i] = j.info.Min
					case b > 0 && j.round:
						j.vals[i] = j.value(b, 0, false)
					case b < 0 && j.round:
						j.vals[i] = j.info.Max
					}
				}
				i++
			}
		}
	}
	c.Desc("bins=%d %s [%.6g, %.6g] pts=%d threads=%d skip=%d", j.info.Bins, j.info.Scale,
		j.info.Min, j.info.Max, j.pts, j.threads, j.skip)
	c.Desc("grid of %d pixels at %v, %d in all, kind=%d seed=%d axis=%d block=%d outside=%v",
		j.span, j.org, j.cells, kind, seed, axis, block, outside)

	for nb := vk.Size(c, "boxes", 0, 2, 12); nb > 0; nb-- {
		j.boxes = append(j.boxes, rend.DrawReq(c, j.s, "", 4, 4, 1))
	}
	r := rend.Req{Full: true}
	r.Conf = io.BoxConfig{XWidth: j.s.L, YWidth: j.s.L, ZWidth: j.s.L}
	j.boxes = append(j.boxes, r)
	return j
}

// value is at fraction u of bin b, or above or below all of them.
func (j *job) value(b int, u float64, above bool) float64 {
	lo, hi, n := j.info.Min, j.info.Max, float64(j.info.Bins)
	lg := j.info.Scale == "Log"
	if lg {
		lo, hi = math.Log10(lo), math.Log10(hi)
	}
	d := (hi - lo) / n
	x := lo + d*(float64(b)+u)
	if b < 0 {
		x = lo - d*(0.02+3*u)
		if above {
			x = hi + d*(0.02+3*u)
		} else if lg && u > 0.8 {
			return 0
		}
	}
	if lg {
		return math.Pow(10, x)
	}
	return x
}

func (j *job) grid(name string) {
	f, err := os.Create(name)
	if err != nil {
		vk.Harness("%v", err)
	}
	defer f.Close()
	io.WriteBuffer(density.WrapperDensityBuffer(j.vals),
		io.NewCosmoInfo(70, 0.3, 0.7, 0, j.s.L), io.NewRenderInfo(1, j.cells, 1, ""),
		io.NewLocationInfo(j.org, j.span, j.s.L/float64(j.cells)), f)
}

// interval: where a tetrahedron lies with respect to a periodic interval
func interval(lo, hi, o, w, L, eps float64) (touch, inside bool) {
	if w >= L {
		return true, true
	}
	for n := -3.0; n <= 3; n++ {
		a, b := o+n*L, o+n*L+w
		if hi >= a-eps && lo <= b+eps {
			touch = true
		}
		if lo >= a+eps && hi <= b-eps {
			inside = true
		}
	}
	return touch, inside
}

// bounds: how many samples the bins must and may hold; the total likewise
func (j *job) bounds(r *rend.Req) (lo, hi []int, tlo, thi int) {
	lo, hi = make([]int, j.info.Bins), make([]int, j.info.Bins)
	s := j.s
	cw := s.L / float64(j.cells)
	eps := s.L * 1e-5
	o := [3]float64{r.Conf.X, r.Conf.Y, r.Conf.Z}
	w := [3]float64{r.Conf.XWidth, r.Conf.YWidth, r.Conf.ZWidth}
	seen := make([]bool, j.info.Bins+1)
	for _, t := range s.Tets(j.skip) {
		touch, inside := true, true
		for k := 0; k < 3; k++ {
			a, b := t.X[0][k], t.X[0][k]
			for i := 1; i < 4; i++ {
				a, b = math.Min(a, t.X[i][k]), math.Max(b, t.X[i][k])
			}
			tc, in := interval(a, b, o[k], w[k], s.L, eps)
			touch, inside = touch && tc, inside && in
		}
		if !touch {
			continue
		}
		// which bins, or none (-1), do the pixels it can touch belong to?
		for i := range seen {
			seen[i] = false
		}
		a, b := t.CellRange(cw, rend.Slop(j.cells))
		for z := a[2]; z <= b[2] && z < a[2]+j.cells; z++ {
			for y := a[1]; y <= b[1] && y < a[1]+j.cells; y++ {
				for x := a[0]; x <= b[0] && x < a[0]+j.cells; x++ {
					p, in := [3]int{x, y, z}, true
					for k := 0; k < 3; k++ {
						p[k] = sim.Mod(p[k]-j.org[k], j.cells)
						in = in && p[k] < j.span[k]
					}
					bin := -1
					if in {
						bin = j.bin[p[0]+j.span[0]*(p[1]+j.span[1]*p[2])]
					}
					seen[bin+1] = true
				}
			}
		}
		n := 0
		for i := range seen {
			if seen[i] {
				n++
			}
		}
		if n > 1 || !seen[0] {
			thi += j.pts
			if inside && !seen[0] {
				tlo += j.pts
			}
		}
		for i := 1; i < len(seen); i++ {
			if seen[i] {
				hi[i-1] += j.pts
				if inside && n == 1 {
					lo[i-1] += j.pts
				}
			}
		}
	}
	return lo, hi, tlo, thi
}

func (j *job) check(c *vk.C, ib int, centers []float64, counts []int, rel float64) {
	if len(centers) != j.info.Bins || len(counts) != j.info.Bins {
		c.Fatalf("box %d: %d centers and %d counts for %d bins", ib, len(centers), len(counts), j.info.Bins)
	}
	for i := range centers {
		want := j.value(i, 0.5, false)
		tol := rel * math.Max(math.Abs(want), (j.info.Max-j.info.Min)/1e3)
		c.Near(fmt.Sprintf("box %d: center of bin %d", ib, i), centers[i], want, tol)
	}
	lo, hi, tlo, thi := j.bounds(&j.boxes[ib])
	tot := 0
	for i := range counts {
		tot += counts[i]
		if counts[i] < lo[i] || counts[i] > hi[i] {
			c.Fatalf("box %d: bin %d counts %d samples, %d to %d are possible; counts %d",
				ib, i, counts[i], lo[i], hi[i], counts)
		}
	}
	if tot < tlo || tot > thi {
		c.Fatalf("box %d: %d samples in all, %d to %d are possible; counts %d", ib, tot, tlo, thi, counts)
	}
	c.NonTrivial(tot > 0 && tlo > 0)
	c.LabelIf(tlo == thi && tot > 0, "total known exactly")
	c.LabelIf(tlo < thi, "total known within bounds")
	c.LabelIf(j.skip > 1, "subsampled")
}

func TestHist(t *testing.T) {
	vk.Run(t, 800, 12000, func(c *vk.C) {
		j := draw(c, 4, 8)
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := j.s.WriteSheets(dir)
		grid := filepath.Join(dir, "grid.gtet")
		j.grid(grid)
		render.NumCores = j.threads
		boxes := make([]render.HistBox, len(j.boxes))
		for i := range boxes {
			boxes[i] = render.NewHistBox(&j.boxes[i].Conf, j.info.Bins)
		}
		man, err := render.NewHistManager(files, boxes, j.pts, "Density", grid)
		if err != nil {
			c.Fatalf("NewHistManager: %v", err)
		}
		man.Subsample(j.skip)
		info := j.info
		for n := rapid.IntRange(1, 2).Draw(c.T, "runs"); n > 0; n-- {
			if err = man.Hist(&info); err != nil {
				c.Fatalf("Hist: %v", err)
			}
			for i := range boxes {
				j.check(c, i, boxes[i].Centers, boxes[i].Counts, 1e-9)
			}
		}
	})
}

// The text files the program writes.
func TestProgram(t *testing.T) {
	vk.Run(t, 25, 400, func(c *vk.C) {
		j := draw(c, 2, 6)
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
		os.Mkdir(in, 0777)
		os.Mkdir(out, 0777)
		j.s.WriteSheets(in)
		grid := filepath.Join(dir, "grid.gtet")
		j.grid(grid)
		pre := rapid.SampledFrom([]string{"", "p_"}).Draw(c.T, "pre")
		app := rapid.SampledFrom([]string{"", "_a"}).Draw(c.T, "app")
		text := fmt.Sprintf("[TetraHist]\nQuantity = Density\nInput = %s\nOutput = %s\nGridFile = %s\n"+
			"HistMin = %.17g\nHistMax = %.17g\nHistBins = %d\nHistScale = %s\nParticles = %d\nSubsampleLength = %d\n",
			in, out, grid, j.info.Min, j.info.Max, j.info.Bins, j.info.Scale, j.pts, j.skip)
		if pre != "" {
			text += "PrependName = " + pre + "\n"
		}
		if app != "" {
			text += "AppendName = " + app + "\n"
		}
		btext := ""
		for i := range j.boxes {
			b := &j.boxes[i].Conf
			btext += fmt.Sprintf("[Box \"b%d\"]\nX = %.17g\nY = %.17g\nZ = %.17g\nXWidth = %.17g\nYWidth = %.17g\nZWidth = %.17g\n",
				i, b.X, b.Y, b.Z, b.XWidth, b.YWidth, b.ZWidth)
		}
		cfg, bounds := filepath.Join(dir, "a.cfg"), filepath.Join(dir, "b.cfg")
		os.WriteFile(cfg, []byte(text), 0666)
		os.WriteFile(bounds, []byte(btext), 0666)
		_, log, code := cli.Run(dir, "-Threads", fmt.Sprint(j.threads), "-TetraHist", cfg, bounds)
		if code != 0 {
			c.Fatalf("the program exited with %d: %s", code, cli.Tail(log))
		}
		infos, _ := os.ReadDir(out)
		if len(infos) != len(j.boxes) {
			c.Fatalf("%d files written for %d boxes", len(infos), len(j.boxes))
		}
		for i := range j.boxes {
			b, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("%sb%d%s.txt", pre, i, app)))
			if err != nil {
				c.Fatalf("box %d: %v", i, err)
			}
			var centers []float64
			var counts []int
			for _, line := range strings.Split(string(b), "\n") {
				if strings.TrimSpace(line) == "" || line[0] == '#' {
					continue
				}
				f := strings.Fields(line)
				if len(f) != 2 {
					c.Fatalf("box %d: line %q", i, line)
				}
				x, err1 := strconv.ParseFloat(f[0], 64)
				n, err2 := strconv.Atoi(f[1])
				if err1 != nil || err2 != nil {
					c.Fatalf("box %d: line %q", i, line)
				}
				centers, counts = append(centers, x), append(counts, n)
			}
			j.check(c, i, centers, counts, 1e-3)
		}
	})
}
