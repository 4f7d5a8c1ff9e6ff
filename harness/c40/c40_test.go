// C40: the Python tools a user runs on grids: python/render.py,
// python/example.py, python/gotetra.py and render/scripts/add_densities.py.
package c40

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/gtet"
	"gotetraverif/py"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func write(g *gtet.Grid, name string) {
	w := &bytes.Buffer{}
	io.WriteBuffer(g.Box.Vals(), g.Cosmo, g.Render, g.Loc, w)
	if err := os.WriteFile(name, w.Bytes(), 0666); err != nil {
		vk.Harness("%v", err)
	}
}

func has(c *vk.C, text, sub string) {
	if !strings.Contains(text, sub) {
		c.Fatalf("%q is not in %q", sub, text)
	}
}

var number = regexp.MustCompile(`= *\$([-+.0-9e]+)\$`)

// near4 compares with a number printed with four digits.
func near4(c *vk.C, what string, got, want, more float64) {
	if !(math.Abs(got-want) <= math.Abs(want)*6e-4+more) {
		c.Fatalf("%s is %g, want %g", what, got, want)
	}
}

// plotted finds the calls of a function.
func plotted(r *py.Reply, name string) (ps []py.Plot, at []int) {
	for i, p := range r.Plots {
		if p.Name == name || p.Name == "set_"+name {
			ps, at = append(ps, p), append(at, i)
		}
	}
	return ps, at
}

const xyz = "xyz"

func TestImages(t *testing.T) {
	vk.Run(t, 500, 8000, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "x.gtet")
		g := gtet.DrawGrid(c, vk.Size(c, "pixels", 8, 8, 40))
		write(g, name)
		axis := int(gtet.AxisIndex(g.Axis))
		n := g.Box.CellSpan()

		// file [axis [depth [colours [output]]]]
		args := []string{name}
		num := rapid.IntRange(0, 4).Draw(c.T, "arguments")
		dim := 2
		if axis >= 0 && rapid.IntRange(0, 7).Draw(c.T, "another axis") > 0 {
			dim = axis
			if axis != 2 && num == 0 {
				num = 1
			}
		} else if num > 0 {
			dim = rapid.IntRange(0, 2).Draw(c.T, "dim")
		}
		depth := int(g.Render.MinProjectionDepth)
		save, colours := "", "afmhot"
		if num > 0 {
			args = append(args, string("XYZ"[dim]))
		}
		if num > 1 {
			depth = rapid.IntRange(0, n[dim]+4).Draw(c.T, "depth")
			args = append(args, fmt.Sprint(depth))
		}
		if num > 2 {
			colours = rapid.SampledFrom([]string{"afmhot", "ocean", "RdBu_r", "cubehelix", "test"}).Draw(c.T, "colours")
			args = append(args, colours)
		}
		if num > 3 {
			save = filepath.Join(dir, "image.png")
			args = append(args, save)
		}
		c.Desc("arguments %v", args[1:])
		r := py.Run("python/render.py", args...)
		if axis >= 0 && axis != dim {
			if r.Error != "" || r.Fields["status"][0] != 1 || len(r.Arrays) > 0 {
				c.Fatalf("an image along %s is shown along %c: %s %v", g.Axis, "XYZ"[dim], r.Error, r.Text)
			}
			has(c, r.Text, "'"+string("XYZ"[dim])+"'")
			has(c, r.Text, "'"+g.Axis+"'")
			c.NonTrivial(true)
			c.Label("another axis")
			return
		}
		if r.Error != "" || r.Fields["status"][0] != 0 {
			c.Fatalf("render.py fails: %s %v", r.Error, r.Text)
		}

		// The axes across and down, and the layers.
		h, v := 0, 1
		if dim == 0 {
			h = 1
		}
		if dim != 2 {
			v = 2
		}
		lo, hi := n[dim]/2-depth/2, n[dim]/2+depth/2+1
		if lo < 0 {
			lo = 0
		}
		if hi > n[dim] {
			hi = n[dim]
		}
		stride := [3]int{1, n[0], n[0] * n[1]}
		if axis >= 0 {
			lo, hi = 0, 1
			stride[h], stride[v] = 1, n[h]
		}
		shown, at := plotted(r, "imshow")
		if len(shown) != len(g.Want) {
			c.Fatalf("%d images, want %d", len(shown), len(g.Want))
		}
		vector := len(g.Want) == 3
		for i, p := range shown {
			a := r.Arrays[fmt.Sprint(at[i])]
			if !a.Is(n[v], n[h]) {
				c.Fatalf("the image is %v pixels, want %d by %d", a.Shape, n[v], n[h])
			}
			low, high := p.Numbers["vmin"], p.Numbers["vmax"]
			if len(low) != 1 || len(high) != 1 || !(low[0] < high[0]) {
				c.Fatalf("the range of the colours is %v to %v", low, high)
			}
			vals := a.Vals()
			for y := 0; y < n[v]; y++ {
				for x := 0; x < n[h]; x++ {
					want := 0.0
					for z := lo; z < hi; z++ {
						u := float64(g.Want[i][x*stride[h]+y*stride[v]+z*stride[dim]])
						if !vector {
							u = math.Log10(math.Abs(u))
						}
						want += math.Min(math.Max(u, low[0]), high[0]) / float64(hi-lo)
					}
					c.Near(fmt.Sprintf("component %d: pixel %d, %d of the image, the mean over layers %d to %d", i, x, y, lo, hi-1),
						vals[y*n[h]+x], want, 2e-6*(high[0]-low[0])*float64(4+hi-lo))
				}
			}
			// matplotlib's left, right, bottom, top; row 0 is on top
			e, o, s := p.Numbers["extent"], g.Loc.Origin, g.Loc.Span
			if len(e) != 4 {
				c.Fatalf("extent %v", e)
			}
			for k, w := range []float64{o[h], o[h] + s[h], o[v] + s[v], o[v]} {
				c.Near(fmt.Sprintf("extent %d", k), e[k], w, 1e-9*g.L)
			}
			want := "cmap=" + colours
			if colours == "test" {
				want = "cmap=RdGy_r"
			}
			has(c, strings.Join(p.Text, " "), want)
		}
		if save != "" {
			out, _ := plotted(r, "savefig")
			fig, _ := plotted(r, "figure")
			if len(out) != len(shown) || len(fig) != len(shown) {
				c.Fatalf("%d files and %d figures for %d images", len(out), len(fig), len(shown))
			}
			for i := range out {
				has(c, strings.Join(out[i].Text, " "), save)
				dpi, size := out[i].Numbers["dpi"], fig[i].Numbers["figsize"]
				if len(dpi) != 1 || len(size) != 2 {
					c.Fatalf("dpi %v size %v", dpi, size)
				}
				c.Near("pixels across in the file", dpi[0]*size[0], float64(n[h]), 1e-6)
				c.Near("pixels down in the file", dpi[0]*size[1], float64(n[v]), 1e-6)
			}
			if show, _ := plotted(r, "show"); len(show) != 0 {
				c.Fatalf("shown, too")
			}
		} else {
			text := func(what string) string {
				p, _ := plotted(r, what)
				if len(p) != len(shown) {
					c.Fatalf("%d of %s for %d images", len(p), what, len(shown))
				}
				return strings.Join(p[len(p)-1].Text, " ")
			}
			has(c, text("xlabel"), "$"+xyz[h:h+1]+"$")
			has(c, text("ylabel"), "$"+xyz[v:v+1]+"$")
			title := text("title")
			has(c, title, "$"+xyz[dim:dim+1]+"$")
			m := number.FindAllStringSubmatch(title, -1)
			if len(m) != 2 {
				c.Fatalf("title %q", title)
			}
			mid, _ := strconv.ParseFloat(m[0][1], 64)
			thick, _ := strconv.ParseFloat(m[1][1], 64)
			o, pw := g.Loc.Origin[dim], g.Loc.PixelWidth
			if axis >= 0 {
				near4(c, "the middle in the title", mid, o+g.Loc.Span[dim]/2, 1e-9)
				near4(c, "the depth in the title", thick, g.Loc.Span[dim], 1e-9)
			} else {
				a, b := o+pw*float64(lo), o+pw*float64(hi)
				near4(c, "the middle in the title", mid, (a+b)/2, (b-a)/2*1.001+1e-9)
				if depth <= n[dim] {
					near4(c, "the depth in the title", thick, b-a, pw*1.001)
				}
			}
			if show, _ := plotted(r, "show"); len(show) != 1 {
				c.Fatalf("show is called %d times", len(show))
			}
		}
		c.NonTrivial(axis >= 0 || hi-lo > 1)
		c.LabelIf(axis >= 0, "image")
		c.LabelIf(axis < 0, "volume along "+xyz[dim:dim+1])
		c.LabelIf(vector, "vector")
		c.LabelIf(axis < 0 && depth > n[dim], "deeper than the volume")
	})
}

var kinds = map[density.Quantity]string{
	density.Density: "density grid", density.DensityGradient: "gradient grid", density.Velocity: "velocity grid",
	density.VelocityDivergence: "divergence grid", density.VelocityCurl: "curl grid",
}

// example.py tells what a file is, and gotetra.py prints its header.
func TestDescriptions(t *testing.T) {
	vk.Run(t, 300, 5000, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "x.gtet")
		g := gtet.DrawGrid(c, 8)
		write(g, name)
		describe(c, g, name)
		r := py.Run("python/gotetra.py", name)
		if r.Error != "" || r.Fields["status"][0] != 0 {
			c.Fatalf("gotetra.py: %s %s", r.Error, r.Text)
		}
		g4 := func(v ...float64) (s []string) {
			for _, x := range v {
				s = append(s, fmt.Sprint(x))
			}
			return s
		}
		i3 := func(v [3]int64) []string {
			return g4(float64(v[0]), float64(v[1]), float64(v[2]))
		}
		co, re, lo := g.Cosmo, g.Render, g.Loc
		want := map[string][]string{
			"header_size": g4(gtet.HeaderSize), "redshift": g4(co.Redshift), "scale_factor": g4(co.ScaleFactor),
			"omega_m": g4(co.OmegaM), "omega_l": g4(co.OmegaL), "h0": g4(co.Hubble), "rho_mean": g4(co.RhoMean),
			"rho_critical": g4(co.RhoCritical), "box_width": g4(co.BoxWidth), "particles": g4(float64(re.Particles)),
			"total_pixels": g4(float64(re.TotalPixels)), "subsample_length": g4(float64(re.SubsampleLength)),
			"min_projection_depth": g4(float64(re.MinProjectionDepth)), "origin": g4(lo.Origin[:]...),
			"span": g4(lo.Span[:]...), "pixel_origin": i3(lo.PixelOrigin), "pixel_span": i3(lo.PixelSpan),
			"pixel_width": g4(lo.PixelWidth),
		}
		lines := map[string]string{}
		for _, l := range strings.Split(r.Text, "\n") {
			if kv := strings.SplitN(l, "=", 2); len(kv) == 2 {
				lines[strings.TrimSpace(kv[0])] = strings.Trim(kv[1], " []")
			}
		}
		for k, w := range want {
			got := strings.Split(lines[k], ",")
			if len(got) != len(w) {
				c.Fatalf("%s is printed as %q", k, lines[k])
			}
			for i := range w {
				x, err := strconv.ParseFloat(strings.TrimSpace(got[i]), 64)
				y, _ := strconv.ParseFloat(w[i], 64)
				if err != nil {
					c.Fatalf("%s is printed as %q", k, lines[k])
				}
				near4(c, k, x, y, 0)
			}
		}
		c.NonTrivial(true)
		c.Label("q=%d axis=%s", g.Q, g.Axis)
	})
}

// describe runs example.py, which ends where it looks for a pixel the grid
// does not have.
func describe(c *vk.C, g *gtet.Grid, name string) string {
	r := py.Run("python/example.py", name)
	has(c, r.Text, fmt.Sprintf("width of %s Mpc/h", py.Format(g.Loc.PixelWidth)))
	s := g.Loc.PixelSpan
	if !regexp.MustCompile(fmt.Sprintf(`grid are \[ *%d, * %d, * %d *\]|grid are \[ *%d +%d +%d *\]`, s[0], s[1], s[2], s[0], s[1], s[2])).MatchString(r.Text) {
		c.Fatalf("dimensions %v are not in %q", s, r.Text)
	}
	if a := gtet.AxisIndex(g.Axis); a < 0 {
		has(c, r.Text, "not a projection")
	} else {
		has(c, r.Text, "along the "+xyz[a:a+1]+"-axis")
	}
	if len(g.Want) == 3 {
		has(c, r.Text, "is a vector grid")
	} else {
		has(c, r.Text, "is a scalar grid")
	}
	for q, k := range kinds {
		if strings.Contains(r.Text, "is a "+k) != (q == g.Q) {
			c.Fatalf("quantity %d, described as %q", g.Q, r.Text)
		}
	}
	return r.Text
}

// The pixel the example shows.
func TestPixel(t *testing.T) {
	vk.Run(t, 6, 40, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "x.gtet")
		g := &gtet.Grid{Q: density.Density, L: 100, Cells: 240}
		if rapid.Bool().Draw(c.T, "vector") {
			g.Q = density.Velocity
		}
		var w [3]int
		for k := range w {
			w[k] = rapid.IntRange([]int{201, 201, 21}[k], []int{215, 215, 30}[k]).Draw(c.T, "w")
		}
		cw := g.L / float64(g.Cells)
		seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "seed"))
		c.Desc("%d of %v pixels, seed %d", g.Q, w, seed)
		g.Box = render.NewBox(g.L, 2, g.Cells, g.Q, &io.BoxConfig{
			XWidth: (float64(w[0]) - 0.5) * cw, YWidth: (float64(w[1]) - 0.5) * cw, ZWidth: (float64(w[2]) - 0.5) * cw,
			X: cw / 4, Y: cw / 4, Z: cw / 4})
		if g.Box.CellSpan() != w {
			c.Fatalf("box of %v pixels, want %v", g.Box.CellSpan(), w)
		}
		at := 200 + w[0]*(200+w[1]*20)
		var want float64
		if xs, ok := g.Box.Vals().ScalarBuffer(); ok {
			for i := range xs {
				xs[i] = 9 * sim.Unit(seed, i, 0)
			}
		}
		if vs, ok := g.Box.Vals().VectorBuffer(); ok {
			num, _ := g.Box.Vals().CountBuffer()
			for i := range vs {
				num[i] = 1
				for k := range vs[i] {
					vs[i][k] = 9 * sim.Noise(seed, i, k)
				}
			}
		}
		if xs, ok := g.Box.Vals().FinalizedScalarBuffer(); ok {
			g.Want, want = [][]float32{xs}, float64(xs[at])
		} else if x, y, z, ok := g.Box.Vals().FinalizedVectorBuffer(); ok {
			g.Want, want = [][]float32{x, y, z}, float64(x[at])
		}
		g.Cosmo = io.NewCosmoInfo(70, 0.3, 0.7, 0, g.L)
		g.Render = io.NewRenderInfo(2, g.Cells, 1, "")
		g.Loc = io.NewLocationInfo(g.Box.CellOrigin(), g.Box.CellSpan(), g.Box.CellWidth())
		write(g, name)
		text := describe(c, g, name)
		has(c, text, "X = 200, Y = 200, Z = 20 is ")
		got, err := strconv.ParseFloat(strings.TrimSpace(strings.SplitN(strings.SplitN(text, "Z = 20 is ", 2)[1], "\n", 2)[0]), 64)
		if err != nil {
			c.Fatalf("%v", err)
		}
		c.Near("the pixel the example shows", got, want, 1e-5*math.Abs(want))
		c.NonTrivial(true)
	})
}

// The sum of grids.
func TestSum(t *testing.T) {
	vk.Run(t, 200, 3000, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		w := rapid.IntRange(1, 7).Draw(c.T, "width")
		k := rapid.IntRange(1, 5).Draw(c.T, "files")
		seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "seed"))
		out := filepath.Join(dir, "out")
		c.Desc("%d files of width %d, seed %d", k, w, seed)
		args := []string{fmt.Sprint(w), out}
		sum := make([]float64, w*w*w)
		for i := 0; i < k; i++ {
			b := &bytes.Buffer{}
			for j := range sum {
				x := sim.Noise(seed, i, j) * 5
				sum[j] += x
				binary.Write(b, binary.LittleEndian, x)
			}
			args = append(args, filepath.Join(dir, fmt.Sprint("in", i)))
			if err := os.WriteFile(args[len(args)-1], b.Bytes(), 0666); err != nil {
				vk.Harness("%v", err)
			}
		}
		if r := py.Run("render/scripts/add_densities.py", args...); r.Error != "" || r.Fields["status"][0] != 0 {
			c.Fatalf("add_densities.py: %s %s", r.Error, r.Text)
		}
		b, err := os.ReadFile(out)
		if err != nil || len(b) != 8*len(sum) {
			c.Fatalf("%d bytes for %d pixels: %v", len(b), len(sum), err)
		}
		for j := range sum {
			c.Near("sum", math.Float64frombits(binary.LittleEndian.Uint64(b[8*j:])), sum[j], 1e-12)
		}
		c.NonTrivial(k > 1)
	})
}
