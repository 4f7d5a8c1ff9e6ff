package c06

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/render/density"
	"gotetraverif/cli"
	"gotetraverif/gtet"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

type request struct {
	name   string
	o, w   [3]float64
	axis   string
	isBall bool
}

var quantities = []density.Quantity{density.Density, density.Density, density.Density,
	density.Velocity, density.Velocity, density.DensityGradient,
	density.VelocityDivergence, density.VelocityCurl}

func qname(q density.Quantity) string {
	return [...]string{"Density", "DensityGradient", "Velocity",
		"VelocityDivergence", "VelocityCurl"}[q]
}

func TestRenderRun(t *testing.T) {
	vk.Run(t, 250, 2500, func(c *vk.C) {
		skip := rapid.SampledFrom([]int{1, 1, 2}).Draw(c.T, "skip")
		s := sim.Draw(c, sim.Opts{MaxW: 2 * skip, MaxS: 4, WMultiple: skip})
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
		os.Mkdir(in, 0777)
		os.Mkdir(out, 0777)
		s.WriteSheets(in)

		q := rapid.SampledFrom(quantities).Draw(c.T, "quantity")
		deriv := q == density.DensityGradient || q == density.VelocityDivergence ||
			q == density.VelocityCurl

		// pixels
		total := rapid.IntRange(1, 12).Draw(c.T, "totalPixels")
		if deriv {
			total += 10
		}
		image := 0
		if rapid.IntRange(0, 2).Draw(c.T, "useImage") == 0 {
			image = rapid.IntRange(1, 6).Draw(c.T, "imagePixels")
			if deriv {
				image += 5
			}
		}
		// boxes
		n := vk.Size(c, "boxes", 1, 4, 20)
		reqs := make([]request, n)
		tiny := n > 4 && rapid.Bool().Draw(c.T, "tiny boxes")
		for i := range reqs {
			r := &reqs[i]
			r.name = fmt.Sprintf("b%d_%s", i, rapid.StringMatching("[a-zA-Z0-9_.-]{0,4}").Draw(c.T, "name"))
			r.axis = rapid.SampledFrom([]string{"", "X", "Y", "Z"}).Draw(c.T, "axis")
			r.isBall = rapid.IntRange(0, 3).Draw(c.T, "ball") == 0
			lo := 30
			if deriv {
				lo = 500
			}
			f := 0.0
			for k := range r.o {
				r.o[k] = s.L * float64(rapid.IntRange(0, 999).Draw(c.T, "o")) / 1000
				f = float64(rapid.IntRange(lo, 1000).Draw(c.T, "w")) / 1000
				if rapid.IntRange(0, 14).Draw(c.T, "wide") == 0 { // wider than the simulation
					f += 2 * float64(rapid.IntRange(1, 1000).Draw(c.T, "w")) / 1000
				}
				r.w[k] = s.L * f
			}
			if image > 0 && !deriv && rapid.IntRange(0, 3).Draw(c.T, "zoom") == 0 {
				// a small region at a high resolution
				for k := range r.w {
					r.w[k] *= 0.02
				}
			}
			if n > 4 && !deriv && tiny { // few of them reach any one sheet
				for k := range r.w {
					r.w[k] *= 0.12
				}
			}
			if r.isBall || deriv { // fourth-order stencils need five pixels
				r.w[1], r.w[2] = r.w[0], r.w[0]
			}
			c.Desc("%q o=%.5g w=%.5g axis=%q ball=%v", r.name, r.o, r.w, r.axis, r.isBall)
		}
		pts := rapid.IntRange(1, 9).Draw(c.T, "particles")
		depth, auto := 0, false
		switch rapid.IntRange(0, 3).Draw(c.T, "sampling") {
		case 0:
			depth = rapid.IntRange(1, 5).Draw(c.T, "depth")
		case 1:
			auto = true
		}
		pre := rapid.SampledFrom([]string{"", "", "pre_"}).Draw(c.T, "pre")
		app := rapid.SampledFrom([]string{"", "", "_app"}).Draw(c.T, "app")
		threads := vk.Size(c, "threads", 1, 4, 24)
		c.Desc("%s total=%d image=%d particles=%d depth=%d auto=%v skip=%d threads=%d",
			qname(q), total, image, pts, depth, auto, skip, threads)

		// files
		cfg := &strings.Builder{}
		fmt.Fprintf(cfg, "[Render]\nQuantity = %s\nInput = %s\nOutput = %s\n", qname(q), in, out)
		if image > 0 {
			fmt.Fprintf(cfg, "ImagePixels = %d\n", image)
		} else {
			fmt.Fprintf(cfg, "TotalPixels = %d\n", total)
		}
		if depth > 0 {
			fmt.Fprintf(cfg, "ProjectionDepth = %d\n", depth)
		} else if auto {
			fmt.Fprintf(cfg, "AutoParticles = true\n")
		} else {
			fmt.Fprintf(cfg, "Particles = %d\n", pts)
		}
		if skip > 1 {
			fmt.Fprintf(cfg, "SubsampleLength = %d\n", skip)
		}
		if pre != "" {
			fmt.Fprintf(cfg, "PrependName = %s\n", pre)
		}
		if app != "" {
			fmt.Fprintf(cfg, "AppendName = %s\n", app)
		}
		cfgName := filepath.Join(dir, "render.cfg")
		os.WriteFile(cfgName, []byte(cfg.String()), 0666)
		bounds := []string{filepath.Join(dir, "b0.cfg"), filepath.Join(dir, "b1.cfg")}
		var bb [2]strings.Builder
		for i := range reqs {
			r := &reqs[i]
			b := &bb[i%2]
			if r.isBall {
				rad := r.w[0] / 2
				var x [3]float64
				for k := range x {
					x[k] = math.Mod(r.o[k]+rad, s.L)
				}
				fmt.Fprintf(b, "[Ball \"%s\"]\nX = %.17g\nY = %.17g\nZ = %.17g\nRadius = %.17g\n",
					r.name, x[0], x[1], x[2], rad)
				if r.axis != "" {
					fmt.Fprintf(b, "ProjectionAxis = %s\n", r.axis)
				}
			} else {
				fmt.Fprintf(b, "[Box \"%s\"]\nX = %.17g\nY = %.17g\nZ = %.17g\nXWidth = %.17g\n"+
					"YWidth = %.17g\nZWidth = %.17g\n", r.name, r.o[0], r.o[1], r.o[2],
					r.w[0], r.w[1], r.w[2])
				if r.axis != "" {
					fmt.Fprintf(b, "ProjectionAxis = %s\n", r.axis)
				}
			}
		}
		args := []string{"-Threads", fmt.Sprint(threads), "-Render", cfgName}
		for i := range bounds {
			if bb[i].Len() > 0 {
				os.WriteFile(bounds[i], []byte(bb[i].String()), 0666)
				args = append(args, bounds[i])
			}
		}
		wide := false
		for i := range reqs {
			for k := range reqs[i].w {
				wide = wide || reqs[i].w[k] > s.L
			}
		}
		_, log, code := cli.Run(dir, args...)
		if wide && image > 0 {
			// an image cannot be wider than the simulation
			if left, _ := os.ReadDir(out); code == 0 || len(left) > 0 {
				c.Fatalf("exit status %d and %d files for an image wider than the simulation", code, len(left))
			}
			c.Label("image wider than the simulation")
			c.NonTrivial(true)
			return
		}
		if code != 0 {
			c.Fatalf("gotetra exited with %d: %s", code, cli.Tail(log))
		}

		infos, err := os.ReadDir(out)
		if err != nil {
			vk.Harness("%v", err)
		}
		if len(infos) != n {
			c.Fatalf("%d files written for %d boxes", len(infos), n)
		}
		tets := s.Tets(skip)
		for i := range reqs {
			checkFile(c, s, tets, &reqs[i], filepath.Join(out, pre+reqs[i].name+app+".gtet"),
				q, total, image, pts, depth > 0 || auto, skip)
		}
	})
}

func checkFile(c *vk.C, s *sim.Sim, tets []sim.Tet, r *request, name string,
	q density.Quantity, total, image, pts int, otherPts bool, skip int) {
	b, err := os.ReadFile(name)
	if err != nil {
		c.Fatalf("%v", err)
	}
	f, ok := gtet.Decode(b)
	if !ok {
		c.Fatalf("%s: %d bytes", r.name, len(b))
	}
	vector := q != density.Density && q != density.VelocityDivergence
	if f.GridType != int64(q) || f.IsVector != map[bool]int64{false: 0, true: 1}[vector] {
		c.Fatalf("%s: grid type %d, vector %d", r.name, f.GridType, f.IsVector)
	}
	rel := func(what string, got, want float64) {
		c.Near(r.name+": "+what, got, want, 1e-6*math.Abs(want)+1e-12)
	}
	rel("z", f.Z, s.Z)
	rel("a", f.A, 1/(1+s.Z))
	rel("OmegaM", f.OmM, s.OmM)
	rel("OmegaL", f.OmL, s.OmL)
	rel("H0", f.H0, 100*s.H100)
	rel("box width", f.BoxWidth, s.L)

	// pixels
	w := math.Max(r.w[0], math.Max(r.w[1], r.w[2]))
	cells := int(f.TotalPixels)
	if image > 0 {
		want := s.L / w * float64(image)
		if !(math.Abs(float64(cells)-want) <= 0.5+1e-9*want) {
			c.Fatalf("%s: header says %d pixels per side, the image needs %g", r.name, cells, want)
		}
	} else if cells != total {
		c.Fatalf("%s: header says %d pixels per side, the run was asked for %d", r.name, cells, total)
	}
	cw := s.L / float64(cells)
	rel("pixel width", f.Loc.PixelWidth, cw)
	var org, span [3]int
	tol := 1e-7 * float64(cells)
	for k := range org {
		org[k], span[k] = int(f.Loc.PixelOrigin[k]), int(f.Loc.PixelSpan[k])
		c.Near(r.name+": origin", f.Loc.Origin[k], float64(org[k])*cw, 1e-9*s.L)
		c.Near(r.name+": span", f.Loc.Span[k], float64(span[k])*cw, 1e-9*s.L)
		if span[k] < 1 || span[k] > cells {
			c.Fatalf("%s: %d pixels along axis %d of a simulation of %d", r.name, span[k], k, cells)
		}
		c.LabelIf(r.w[k] > s.L, "wider than the simulation")
		if span[k] == cells {
			continue
		}
		lo := r.o[k] / cw
		hi := lo + r.w[k]/cw
		a, e := float64(org[k]), float64(org[k]+span[k])
		if r.isBall && a > lo+float64(cells)/2 {
			a, e = a-float64(cells), e-float64(cells)
		}
		if !(a <= lo+tol && a > lo-1-tol && e >= hi-tol && e <= hi+1+tol) {
			c.Fatalf("%s axis %d: pixels [%g, %g) for the region [%g, %g)", r.name, k, a, e, lo, hi)
		}
	}
	// settings
	canProject := q == density.Density || q == density.Velocity
	axis := int64(-1)
	if canProject {
		axis = gtet.AxisIndex(r.axis)
	}
	if f.Axis != axis {
		c.Fatalf("%s: projection axis %d, want %d", r.name, f.Axis, axis)
	}
	if f.Skip != int64(skip) {
		c.Fatalf("%s: subsample length %d, want %d", r.name, f.Skip, skip)
	}
	if f.Particles < 1 || (!otherPts && f.Particles != int64(pts)) {
		c.Fatalf("%s: header says %d particles per tetrahedron, asked for %d", r.name,
			f.Particles, pts)
	}
	ncomp := 1
	if vector {
		ncomp = 3
	}
	if len(f.Vals) != ncomp*f.Count() {
		c.Fatalf("%s: %d values for %d components of %d pixels", r.name, len(f.Vals), ncomp, f.Count())
	}

	// values
	switch q {
	case density.Density:
		d := 1.0
		if axis >= 0 {
			d = float64(span[axis])
		}
		sample := float64(cells*cells*cells) / float64(len(tets)) / float64(f.Particles) / d
		if cells <= 40 {
			lo, hi := rend.Bounds3(s, tets, cells, org, span)
			if axis >= 0 {
				lo, hi = rend.Project(lo, span, int(axis)), rend.Project(hi, span, int(axis))
			}
			for i, v := range f.Vals {
				x := float64(v)
				if !(x >= lo[i]/d*(1-1e-5)-1e-9 && x <= hi[i]/d*(1+1e-5)+1e-9) {
					c.Fatalf("%s: pixel %d is %g, outside of [%g, %g]", r.name, i, x, lo[i]/d, hi[i]/d)
				}
			}
		}
		occ := 0
		for i, v := range f.Vals {
			k := float64(v) / sample
			if k < 0 || (k < 1e4 && math.Abs(k-math.Round(k)) > 1e-2) {
				c.Fatalf("%s: pixel %d is %g, not a multiple of the mass of a sample, %g",
					r.name, i, v, sample)
			}
			if k > 0.5 {
				occ++
			}
		}
		c.NonTrivial(occ > 0)
		c.LabelIf(occ > 0, "density, occupied")
		c.LabelIf(f.Particles > 1 && otherPts, "derived particle count above one")
	case density.Velocity:
		if cells > 40 {
			break
		}
		r2 := rend.VelBounds(s, tets, cells, org, span, int(axis))
		n := f.Count()
		for i := 0; i < n; i++ {
			v := [3]float64{float64(f.Vals[i]), float64(f.Vals[n+i]), float64(f.Vals[2*n+i])}
			if v == [3]float64{} && !r2.Must[i] {
				continue
			}
			for k := range v {
				if !r2.Can[i] || !(v[k] >= r2.Min[i][k]-0.1 && v[k] <= r2.Max[i][k]+0.1) {
					c.Fatalf("%s: pixel %d velocity %v outside of %v .. %v", r.name, i, v,
						r2.Min[i], r2.Max[i])
				}
			}
			c.NonTrivial(true)
		}
		c.Label("velocity")
	default:
		for i, v := range f.Vals {
			if v != v {
				c.Fatalf("%s: value %d is NaN", r.name, i)
			}
		}
		c.Label("derived quantity")
	}
	c.LabelIf(image > 0, "ImagePixels")
	c.LabelIf(axis >= 0, "image")
	c.LabelIf(r.isBall, "ball")
}
