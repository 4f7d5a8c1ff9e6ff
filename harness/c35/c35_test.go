// C35: line profiles through a grid (render/scripts/profile.go).
package c35

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

const lines = 1000

type grid struct {
	dir    string
	T, S   int // pixels of the box, of the (cubical) block
	o      [3]int
	L, cw  float64
	vals   []float64 // with the removed pixels as NaN
	sphere [][4]float64
	nans   int
}

func (g *grid) at(x, y, z int) float64 { return g.vals[x+g.S*(y+g.S*z)] }

// write writes the grid file (before removals) and the list of halos.
func (g *grid) write(vector bool) (gtet, list string) {
	hd := &io.GridHeader{}
	hd.EndiannessVersion = io.EndiannessVersionFlag(binary.LittleEndian)
	hd.Type.HeaderSize = int64(binary.Size(hd))
	hd.Cosmo = io.NewCosmoInfo(70, 0.27, 0.73, 0, g.L)
	hd.Render = io.NewRenderInfo(10, g.T, 1, "")
	hd.Loc = io.NewLocationInfo(g.o, [3]int{g.S, g.S, g.S}, g.cw)
	v := make([]float32, len(g.vals))
	for i := range v {
		v[i] = float32(g.vals[i])
	}
	b := &bytes.Buffer{}
	if vector {
		hd.Type.IsVectorGrid = 1
		v = append(append(v, v...), v...)
	}
	binary.Write(b, binary.LittleEndian, hd)
	binary.Write(b, binary.LittleEndian, v)
	gtet = filepath.Join(g.dir, "grid.gtet")
	list = filepath.Join(g.dir, "list.txt")
	if err := os.WriteFile(gtet, b.Bytes(), 0666); err != nil {
		vk.Harness("%v", err)
	}
	s := ""
	for i, h := range g.sphere {
		s += fmt.Sprintf("%10d %.17g %.17g %.17g %.17g\n", i+3, h[0], h[1], h[2], h[3])
	}
	if err := os.WriteFile(list, []byte(s), 0666); err != nil {
		vk.Harness("%v", err)
	}
	return gtet, list
}

// run runs the script in the grid's directory.
func run(dir string, args ...string) (log string, code int) {
	bin := os.Getenv("VK_SCRIPT")
	if bin == "" {
		vk.Harness("VK_SCRIPT is not set")
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		vk.Harness("%v", err)
	}
	return string(b), cmd.ProcessState.ExitCode()
}

func draw(c *vk.C) *grid {
	g := &grid{dir: rend.TempDir()}
	g.S = vk.Size(c, "span", 2, 14, 80)
	g.T = g.S + rapid.IntRange(0, 2*g.S).Draw(c.T, "more")
	for k := range g.o {
		g.o[k] = rapid.IntRange(0, g.T-1).Draw(c.T, "o")
		if rapid.IntRange(0, 2).Draw(c.T, "o0") == 0 {
			g.o[k] = 0
		}
	}
	g.L = sim.F(c, "L", 0.5, 300, 16)
	g.cw = g.L / float64(g.T)
	seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "values"))
	g.vals = make([]float64, g.S*g.S*g.S)
	for i := range g.vals {
		g.vals[i] = float64(float32(2 + sim.Noise(seed, i, 0)))
	}
	c.Desc("box %g of %d pixels, block of %d from %v, values %d", g.L, g.T, g.S, g.o, seed)
	return g
}

// spheres draws the list of halos: the first one is not to be removed.
func (g *grid) spheres(c *vk.C) {
	n := rapid.IntRange(0, 4).Draw(c.T, "subhalos")
	for i := 0; i <= n; i++ {
		var h [4]float64
		// The sphere in pixels; its edges keep off the pixels' edges.
		rad := float64(rapid.IntRange(1, 1+g.S).Draw(c.T, "r4"))/4 + 0.03
		for 2*rad+2 > float64(g.T) {
			rad /= 2
		}
		for k := 0; k < 3; k++ {
			x := float64(g.o[k]) + float64(rapid.IntRange(0, 4*g.S-1).Draw(c.T, "pos4"))/4 + 0.11
			switch rapid.IntRange(0, 7).Draw(c.T, "place") {
			case 0:
				x = float64(rapid.IntRange(0, 4*g.T-1).Draw(c.T, "anywhere"))/4 + 0.11
			case 1: // about the face of the box
				x = float64(g.T) - 0.14
			case 2:
				x = 0.11
			}
			x = math.Mod(x, float64(g.T))
			for _, e := range []float64{x - rad, x + rad} {
				if math.Abs(e-math.Round(e)) < 1e-3 {
					rad += 0.0071
				}
			}
			h[k] = x
		}
		ok := true
		for k := 0; k < 3; k++ {
			for _, e := range []float64{h[k] - rad, h[k] + rad} {
				ok = ok && math.Abs(e-math.Round(e)) > 1e-4
			}
		}
		if !ok {
			continue
		}
		if len(g.sphere) > 0 {
			g.remove(h, rad)
		}
		g.sphere = append(g.sphere, [4]float64{h[0] * g.cw, h[1] * g.cw, h[2] * g.cw, rad * g.cw})
	}
	if len(g.sphere) == 0 {
		g.sphere = append(g.sphere, [4]float64{0.3 * g.L, 0.4 * g.L, 0.7 * g.L, 0.1 * g.L})
	}
	c.Desc("halos %v", g.sphere)
}

// remove marks the pixels of the sphere's bounds.
func (g *grid) remove(x [4]float64, rad float64) {
	var lo, hi [3]int
	for k := range lo {
		lo[k], hi[k] = int(math.Floor(x[k]-rad)), int(math.Floor(x[k]+rad))
	}
	in := func(k, i int) bool {
		return sim.Mod(g.o[k]+i-lo[k], g.T) <= hi[k]-lo[k]
	}
	for z := 0; z < g.S; z++ {
		for y := 0; y < g.S; y++ {
			for x := 0; x < g.S; x++ {
				if in(0, x) && in(1, y) && in(2, z) {
					g.vals[x+g.S*(y+g.S*z)] = math.NaN()
					g.nans++
				}
			}
		}
	}
}

// parse reads a file of lines.
func parse(c *vk.C, file string) [][]float64 {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fatalf("%v", err)
	}
	var rows [][]float64
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "#") {
			continue
		}
		var row []float64
		for _, t := range strings.Fields(l) {
			x, err := strconv.ParseFloat(t, 64)
			if err != nil {
				c.Fatalf("%s: %v", file, err)
			}
			row = append(row, x)
		}
		if len(row) > 0 {
			rows = append(rows, row)
		}
	}
	for i, r := range rows {
		if len(r) != 2*lines {
			c.Fatalf("row %d of %s has %d values", i, filepath.Base(file), len(r))
		}
	}
	if len(rows) < 3 {
		c.Fatalf("%s has %d rows", filepath.Base(file), len(rows))
	}
	return rows
}

// check judges one file. axis is the one its lines are perpendicular to, or -1.
func (g *grid) check(c *vk.C, name string, axis int) (rows int) {
	table := parse(c, filepath.Join(g.dir, name))
	prof := table[3:]
	octants := map[int]bool{}
	minLo, minHi := math.MaxInt32, math.MaxInt32
	for l := 0; l < lines; l++ {
		var u [3]float64
		norm, oct := 0.0, 0
		for k := range u {
			u[k] = table[k][2*l]
			norm += u[k] * u[k]
			if u[k] > 0 {
				oct |= 1 << uint(k)
			}
			if !math.IsNaN(table[k][2*l+1]) {
				c.Fatalf("%s: direction %d is followed by %g", name, l, table[k][2*l+1])
			}
		}
		octants[oct] = true
		c.Near(name+": length of a direction", norm, 1, 1e-3)
		if axis >= 0 && u[axis] != 0 {
			c.Fatalf("%s: direction %d is %v", name, l, u)
		}
		// The line steps a pixel at a time along its steepest axis.
		a0 := 0
		for k := range u {
			if math.Abs(u[k]) > math.Abs(u[a0]) {
				a0 = k
			}
		}
		a1, a2 := (a0+1)%3, (a0+2)%3
		if math.Abs(u[a0]) < math.Max(math.Abs(u[a1]), math.Abs(u[a2]))+3e-4 {
			// either of two axes: not judged, but of about the same length
			continue
		}
		center := float64(g.S) / 2
		nlo, nhi := 0, 0
		for j := 0; j < g.S/2; j++ {
			d0 := math.Copysign(float64(j), u[a0])
			d1, d2 := d0*u[a1]/u[a0], d0*u[a2]/u[a0]
			err := 2.5e-4*float64(j) + 1e-9
			p0, p1, p2 := center+d0, center+d1, center+d2
			leaves := func(e float64) bool {
				last := float64(g.S - 1)
				return p0 < 0 || p0 >= last || p1 < -e || p1 >= last+e || p2 < -e || p2 >= last+e
			}
			if !leaves(-err) && nlo == j {
				nlo = j + 1
			}
			if !leaves(err) && nhi == j {
				nhi = j + 1
			}
			if j >= len(prof) || leaves(-err) {
				continue
			}
			r, rho := prof[j][2*l], prof[j][2*l+1]
			want := g.cw * math.Sqrt(d0*d0+d1*d1+d2*d2)
			c.Near(fmt.Sprintf("%s: radius %d of line %d", name, j, l), r, want, 2e-3*want+1e-12)

			i0, i1, i2 := int(p0), int(math.Floor(p1)), int(math.Floor(p2))
			sum, most, least := 0.0, math.Inf(-1), math.Inf(1)
			nan, maybe := false, false
			for _, e1 := range []int{-1, 0, 1, 2} {
				for _, e2 := range []int{-1, 0, 1, 2} {
					x := [3]int{}
					x[a0], x[a1], x[a2] = i0, i1+e1, i2+e2
					if x[a1] < 0 || x[a1] >= g.S || x[a2] < 0 || x[a2] >= g.S {
						continue
					}
					w1, w2 := 1-math.Abs(p1-float64(x[a1])), 1-math.Abs(p2-float64(x[a2]))
					if w1 < -2*err || w2 < -2*err {
						continue
					}
					v := g.at(x[0], x[1], x[2])
					if math.IsNaN(v) {
						if w1 > 2*err && w2 > 2*err {
							nan = true
						} else {
							maybe = true
						}
						continue
					}
					most, least = math.Max(most, v), math.Min(least, v)
					if w1 > 0 && w2 > 0 {
						sum += w1 * w2 * v
					}
				}
			}
			if nan && !math.IsNaN(rho) {
				c.Fatalf("%s: line %d along %v has density %g at step %d, on removed pixels", name, l, u, rho, j)
			}
			if !nan && !maybe {
				tol := 4*err*(most-least) + 1e-3*math.Abs(sum)
				if math.IsNaN(tol) || math.IsInf(tol, 0) {
					vk.Harness("no pixels about %v %v %v", p0, p1, p2)
				}
				c.Near(fmt.Sprintf("%s: density %d of line %d along %v", name, j, l, u), rho, sum, tol)
			}
		}
		if nlo < minLo {
			minLo = nlo
		}
		if nhi < minHi {
			minHi = nhi
		}
	}
	if len(prof) < minLo-1 || len(prof) > minHi {
		c.Fatalf("%s: profiles of %d steps, want %d to %d", name, len(prof), minLo, minHi)
	}
	if len(prof) < minLo {
		c.Fatalf("%s: profiles of %d steps, want %d", name, len(prof), minLo)
	}
	want := 8
	if axis >= 0 {
		want = 4
	}
	if len(octants) < want {
		c.Fatalf("%s: the lines go into %d of %d octants", name, len(octants), want)
	}
	return len(prof)
}

func TestLines(t *testing.T) {
	vk.Run(t, 100, 6000, func(c *vk.C) {
		g := draw(c)
		defer os.RemoveAll(g.dir)
		all := append([]float64{}, g.vals...)
		g.spheres(c)
		marked := g.vals
		g.vals = all
		gtet, list := g.write(false)
		g.vals = marked
		log, code := run(g.dir, gtet, list, filepath.Join(g.dir, "out"))
		if code != 0 {
			c.Fatalf("status %d: %s", code, log)
		}
		rows := 0
		for axis, name := range []string{"out_lines.txt", "out_x_lines.txt", "out_y_lines.txt", "out_z_lines.txt"} {
			rows += g.check(c, name, axis-1)
		}
		c.LabelIf(g.nans > 0, "with removed pixels")
		c.NonTrivial(rows >= 4)
	})
}

// Inputs which are not what the script needs are refused.
func TestRefused(t *testing.T) {
	vk.Run(t, 60, 1500, func(c *vk.C) {
		g := draw(c)
		defer os.RemoveAll(g.dir)
		g.sphere = [][4]float64{{0.1, 0.1, 0.1, 0.1}}
		what := rapid.SampledFrom([]string{"vector", "short", "no grid", "no list", "arguments"}).Draw(c.T, "what")
		c.Desc("%s", what)
		gtet, list := g.write(what == "vector")
		args := []string{gtet, list, filepath.Join(g.dir, "out")}
		switch what {
		case "short":
			st, _ := os.Stat(gtet)
			n := int64(rapid.IntRange(0, int(st.Size())-1).Draw(c.T, "length"))
			c.Desc("%d of %d bytes", n, st.Size())
			os.Truncate(gtet, n)
		case "no grid":
			os.Remove(gtet)
		case "no list":
			os.Remove(list)
		case "arguments":
			n := rapid.SampledFrom([]int{0, 1, 2, 4}).Draw(c.T, "count")
			args = append(args, "x")[:n]
		}
		_, code := run(g.dir, args...)
		fs, _ := filepath.Glob(filepath.Join(g.dir, "out*"))
		if code == 0 || len(fs) > 0 {
			c.Fatalf("status %d, wrote %v", code, fs)
		}
		c.NonTrivial(true)
	})
}
