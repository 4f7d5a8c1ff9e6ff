// Package rend drives gotetra's renderer on generated simulations and holds
// the oracles for what it may produce.
package rend

import (
	"math"
	"os"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Req is one generated rendering request.
type Req struct {
	Conf  io.BoxConfig
	Cells int // total pixels per side
	Pts   int
	Full  bool // the request spans the whole periodic box
}

// DrawReq draws a box to render. axis: "" for a volume, "any" for an image.
func DrawReq(c *vk.C, s *sim.Sim, axis string, minPix, maxPix, maxPts int) Req {
	r := Req{}
	if s.S == 2 { // a segment and a pixel on either side fit into the box
		minPix = max(minPix, 8)
		maxPix = max(maxPix, 12)
	}
	r.Cells = rapid.IntRange(minPix, maxPix).Draw(c.T, "pixels")
	r.Pts = rapid.IntRange(1, maxPts).Draw(c.T, "pts")
	r.Full = rapid.IntRange(0, 3).Draw(c.T, "full") == 0
	o, w := [3]float64{}, [3]float64{}
	for k := 0; k < 3; k++ {
		if r.Full {
			o[k], w[k] = 0, s.L
			continue
		}
		o[k] = s.L * float64(rapid.IntRange(0, 999).Draw(c.T, "origin")) / 1000
		switch rapid.IntRange(0, 3).Draw(c.T, "wkind") {
		case 0:
			w[k] = s.L * float64(rapid.IntRange(1, 999).Draw(c.T, "width")) / 1000
		case 1: // a few pixels
			w[k] = s.L / float64(r.Cells) *
				float64(rapid.IntRange(1, 5*r.Cells/2).Draw(c.T, "width")) / 5
		case 2: // a whole number of pixels
			n := rapid.IntRange(1, r.Cells).Draw(c.T, "wpix")
			w[k] = s.L / float64(r.Cells) * (float64(n) - 0.5)
			o[k] = s.L / float64(r.Cells) * (0.25 +
				float64(rapid.IntRange(0, r.Cells-1).Draw(c.T, "opix")))
		default:
			w[k] = s.L
		}
		if w[k] > s.L {
			w[k] = s.L
		}
		if rapid.IntRange(0, 19).Draw(c.T, "wide") == 0 { // wider than the box
			w[k] = s.L * float64(rapid.IntRange(1001, 3000).Draw(c.T, "wide")) / 1000
		}
	}
	r.Conf = io.BoxConfig{X: o[0], Y: o[1], Z: o[2],
		XWidth: w[0], YWidth: w[1], ZWidth: w[2]}
	if axis == "any" {
		r.Conf.ProjectionAxis = rapid.SampledFrom([]string{"X", "Y", "Z"}).Draw(c.T, "axis")
	}
	c.Desc("box o=%.6g w=%.6g axis=%q pixels=%d pts=%d", o, w,
		r.Conf.ProjectionAxis, r.Cells, r.Pts)
	return r
}

// Axis is 0, 1, 2 or -1.
func (r *Req) Axis() int {
	switch r.Conf.ProjectionAxis {
	case "X":
		return 0
	case "Y":
		return 1
	case "Z":
		return 2
	}
	return -1
}

// TempDir makes a scratch directory for one case.
func TempDir() string {
	d, err := os.MkdirTemp(vk.Scratch(), "case")
	if err != nil {
		vk.Harness("%v", err)
	}
	return d
}

// Render renders the requests over the given files with the manager.
func Render(
	c *vk.C, L float64, files []string, reqs []Req, q density.Quantity,
	threads, skip int,
) []render.Box {
	render.NumCores = threads
	boxes := make([]render.Box, len(reqs))
	for i := range reqs {
		boxes[i] = render.NewBox(L, reqs[i].Pts, reqs[i].Cells, q, &reqs[i].Conf)
	}
	man, err := render.NewManager(files, boxes, false, q)
	if err != nil {
		c.Fatalf("NewManager: %v", err)
	}
	man.Subsample(skip)
	if err = man.RenderDensity(); err != nil {
		c.Fatalf("RenderDensity: %v", err)
	}
	return boxes
}

// CheckGeometry: the pixel block of a box covers the requested region, with
// no more than a pixel to spare on either side, and never wraps onto itself.
func CheckGeometry(c *vk.C, b render.Box, r *Req, L float64) {
	cw := L / float64(r.Cells)
	o := [3]float64{r.Conf.X, r.Conf.Y, r.Conf.Z}
	w := [3]float64{r.Conf.XWidth, r.Conf.YWidth, r.Conf.ZWidth}
	org, span := b.CellOrigin(), b.CellSpan()
	if b.Cells() != r.Cells {
		c.Fatalf("box has %d total pixels, asked for %d", b.Cells(), r.Cells)
	}
	if math.Abs(b.CellWidth()-cw) > 1e-12*cw {
		c.Fatalf("pixel width %g, want %g", b.CellWidth(), cw)
	}
	tol := 1e-9
	for k := 0; k < 3; k++ {
		lo, hi := o[k]/cw, (o[k]+w[k])/cw
		if span[k] < 1 || span[k] > r.Cells {
			c.Fatalf("axis %d: %d pixels in a box of %d", k, span[k], r.Cells)
		}
		if span[k] == r.Cells && org[k] >= 0 && org[k] < r.Cells {
			continue // the whole period
		}
		f := float64(org[k])
		if !(f <= lo+tol && f > lo-1-tol) {
			c.Fatalf("axis %d: pixel origin %d for edge %g", k, org[k], lo)
		}
		e := float64(org[k] + span[k])
		if !(e >= hi-tol && e <= hi+1+tol) {
			c.Fatalf("axis %d: pixel end %g for edge %g", k, e, hi)
		}
	}
}

// Slop is how close (in pixels) to a pixel's edge float32 arithmetic may move
// a point across it.
func Slop(cells int) float64 { return 1e-4 + float64(cells)*4e-6 }

// Bounds3 is the mass each pixel of the box must hold at least and may hold
// at most, in units of the mean density times pixel volume.
func Bounds3(s *sim.Sim, tets []sim.Tet, cells int, org, span [3]int) (lo, hi []float64) {
	n := span[0] * span[1] * span[2]
	lo, hi = make([]float64, n), make([]float64, n)
	cw := s.L / float64(cells)
	m := float64(cells*cells*cells) / float64(len(tets))
	sl := Slop(cells)
	for i := range tets {
		a, b := tets[i].CellRange(cw, sl)
		single := a == b
		for z := a[2]; z <= b[2] && z < a[2]+cells; z++ {
			rz := sim.Mod(z-org[2], cells)
			if rz >= span[2] {
				continue
			}
			for y := a[1]; y <= b[1] && y < a[1]+cells; y++ {
				ry := sim.Mod(y-org[1], cells)
				if ry >= span[1] {
					continue
				}
				for x := a[0]; x <= b[0] && x < a[0]+cells; x++ {
					rx := sim.Mod(x-org[0], cells)
					if rx >= span[0] {
						continue
					}
					j := rx + span[0]*(ry+span[1]*rz)
					hi[j] += m
					if single {
						lo[j] += m
					}
				}
			}
		}
	}
	return lo, hi
}

// BlockBounds is the same for a sub-block of pixels (global coordinates).
func BlockBounds(s *sim.Sim, tets []sim.Tet, cells int, o, w [3]int) (lo, hi float64) {
	cw := s.L / float64(cells)
	m := float64(cells*cells*cells) / float64(len(tets))
	sl := Slop(cells)
	for i := range tets {
		a, b := tets[i].CellRange(cw, sl)
		touch, inside := true, true
		for k := 0; k < 3 && touch; k++ {
			t, in := sim.RangeVsBlock(a[k], b[k], o[k], w[k], cells)
			touch = touch && t
			inside = inside && in
		}
		if touch {
			hi += m
			if inside {
				lo += m
			}
		}
	}
	return lo, hi
}

// SymmetricPoints turns drawn barycentric seeds into a set of points of the
// unit tetrahedron closed under relabelling of its corners.
func SymmetricPoints(bary [][4]float64) []geom.Vec {
	out := []geom.Vec{}
	var rec func(b [4]float64, k int)
	rec = func(b [4]float64, k int) {
		if k == 4 {
			out = append(out, geom.Vec{float32(b[0]), float32(b[1]), float32(b[2])})
			return
		}
		for j := k; j < 4; j++ {
			b[k], b[j] = b[j], b[k]
			rec(b, k+1)
			b[k], b[j] = b[j], b[k]
		}
	}
	for _, b := range bary {
		rec(b, 0)
	}
	return out
}

// DrawBary draws barycentric coordinates (multiples of 1/997).
func DrawBary(c *vk.C, n int) [][4]float64 {
	out := make([][4]float64, n)
	for i := range out {
		var ns [4]int
		tot := 0
		for k := range ns {
			ns[k] = rapid.IntRange(1, 250).Draw(c.T, "bary")
			tot += ns[k]
		}
		for k := range ns {
			out[i][k] = float64(ns[k]) / float64(tot)
		}
	}
	return out
}

// Direct runs the tetrahedron interpolation over all the segments without the
// manager: fixed sample points, given worker split.
func Direct(
	s *sim.Sim, files []string, box render.Box, q density.Quantity,
	pts []geom.Vec, workers, skip int,
) error {
	for _, file := range files {
		hd := &io.SheetHeader{}
		if err := io.ReadSheetHeaderAt(file, hd); err != nil {
			return err
		}
		xs := make([]geom.Vec, hd.GridCount)
		vs := make([]geom.Vec, hd.GridCount)
		if err := io.ReadSheetPositionsAt(file, xs); err != nil {
			return err
		}
		if err := io.ReadSheetVelocitiesAt(file, vs); err != nil {
			return err
		}
		cb := hd.CellBounds(box.Cells())
		dom := &geom.CellBounds{Origin: box.CellOrigin(), Width: box.CellSpan()}
		if !cb.Intersect(dom, box.Cells()) {
			continue
		}
		over := box.Overlap(hd)
		over.ScaleVecs(xs, cb)
		g := geom.NewGridLocation(box.CellOrigin(), box.CellSpan(), s.L, box.Cells())
		ptVal := 1.0
		if !q.RequiresVelocity() {
			ptVal = math.Pow(float64(box.Cells())/float64(hd.CountWidth), 3)
		}
		n := int(hd.SegmentWidth) / skip
		for w := 0; w < workers; w++ {
			buf := density.NewBuffer(q, over.BufferSize(), len(pts), g)
			intr := density.MonteCarlo(hd.SegmentWidth, len(pts), box.Cells(),
				int64(skip), [][]geom.Vec{pts}, over)
			intr.Interpolate(buf, xs, vs, ptVal, density.NilBuffer, w, n*n*n, workers)
			over.Add(buf, box.Vals())
		}
	}
	return nil
}

// Ref is the reference result of Direct: per pixel of the (3D) block, the
// number of sample points and the velocity sum; Amb counts the points too
// close to the pixel's edge to tell.
type Ref struct {
	N, Amb   []float64
	V        [][3]float64
	VAmb     [][3]float64 // sum of |v| over the doubtful points
	PerPoint float64      // mass of one sample point
}

// Reference deposits every sample point of every tetrahedron.
func Reference(s *sim.Sim, tets []sim.Tet, cells int, org, span [3]int, pts []geom.Vec) *Ref {
	n := span[0] * span[1] * span[2]
	r := &Ref{N: make([]float64, n), Amb: make([]float64, n),
		V: make([][3]float64, n), VAmb: make([][3]float64, n)}
	r.PerPoint = float64(cells*cells*cells) / float64(len(tets)) / float64(len(pts))
	cw := s.L / float64(cells)
	sl := Slop(cells)
	add := func(x [3]int, v [3]float64, amb bool) {
		j, st := 0, 1
		for k := 0; k < 3; k++ {
			p := sim.Mod(x[k]-org[k], cells)
			if p >= span[k] {
				return
			}
			j += p * st
			st *= span[k]
		}
		if amb {
			r.Amb[j]++
			for k := range v {
				r.VAmb[j][k] += math.Abs(v[k])
			}
		} else {
			r.N[j]++
			for k := range v {
				r.V[j][k] += v[k]
			}
		}
	}
	for i := range tets {
		t := &tets[i]
		for _, p := range pts {
			b := [4]float64{float64(p[0]), float64(p[1]), float64(p[2]), 0}
			b[3] = 1 - b[0] - b[1] - b[2]
			var x, v [3]float64
			var lo, hi [3]int
			amb := false
			for k := 0; k < 3; k++ {
				for j := 0; j < 4; j++ {
					x[k] += b[j] * t.X[j][k]
					v[k] += b[j] * t.V[j][k]
				}
				lo[k] = int(math.Floor(x[k]/cw - sl))
				hi[k] = int(math.Floor(x[k]/cw + sl))
				amb = amb || lo[k] != hi[k]
			}
			if !amb {
				add(lo, v, false)
				continue
			}
			for a := lo[0]; a <= hi[0]; a++ {
				for b := lo[1]; b <= hi[1]; b++ {
					for d := lo[2]; d <= hi[2]; d++ {
						add([3]int{a, b, d}, v, true)
					}
				}
			}
		}
	}
	return r
}

// Project sums a per-pixel array of a 3D block along an axis. The remaining
// axes keep their order, the lower one fastest.
func Project(vals []float64, span [3]int, axis int) []float64 {
	a, b := 0, 1
	if axis == 0 {
		a, b = 1, 2
	} else if axis == 1 {
		a, b = 0, 2
	}
	out := make([]float64, span[a]*span[b])
	i := 0
	for z := 0; z < span[2]; z++ {
		for y := 0; y < span[1]; y++ {
			for x := 0; x < span[0]; x++ {
				p := [3]int{x, y, z}
				out[p[a]+span[a]*p[b]] += vals[i]
				i++
			}
		}
	}
	return out
}

// Flat projects the reference along an axis (-1: not at all).
func (r *Ref) Flat(span [3]int, axis int) *Ref {
	if axis < 0 {
		return r
	}
	o := &Ref{PerPoint: r.PerPoint}
	o.N = Project(r.N, span, axis)
	o.Amb = Project(r.Amb, span, axis)
	o.V = make([][3]float64, len(o.N))
	o.VAmb = make([][3]float64, len(o.N))
	for k := 0; k < 3; k++ {
		v, w := make([]float64, len(r.N)), make([]float64, len(r.N))
		for i := range v {
			v[i], w[i] = r.V[i][k], r.VAmb[i][k]
		}
		v, w = Project(v, span, axis), Project(w, span, axis)
		for i := range v {
			o.V[i][k], o.VAmb[i][k] = v[i], w[i]
		}
	}
	return o
}

// VelRange is the range of velocities that may turn up in each pixel, and
// whether a pixel must be (lo) or can be (hi) occupied.
type VelRange struct {
	Min, Max  []([3]float64)
	Must, Can []bool
}

// VelBounds bounds the velocity field in every pixel of the block.
func VelBounds(s *sim.Sim, tets []sim.Tet, cells int, org, span [3]int, axis int) *VelRange {
	n := span[0] * span[1] * span[2]
	if axis >= 0 {
		n /= span[axis]
	}
	a, b := 0, 1
	if axis == 0 {
		a, b = 1, 2
	} else if axis == 1 {
		a, b = 0, 2
	}
	r := &VelRange{make([][3]float64, n), make([][3]float64, n),
		make([]bool, n), make([]bool, n)}
	cw := s.L / float64(cells)
	sl := Slop(cells)
	for i := range tets {
		lo, hi := tets[i].CellRange(cw, sl)
		var vlo, vhi [3]float64
		for k := 0; k < 3; k++ {
			vlo[k], vhi[k] = math.Inf(1), math.Inf(-1)
			for j := 0; j < 4; j++ {
				vlo[k] = math.Min(vlo[k], tets[i].V[j][k])
				vhi[k] = math.Max(vhi[k], tets[i].V[j][k])
			}
		}
		single := lo == hi
		for z := lo[2]; z <= hi[2] && z < lo[2]+cells; z++ {
			for y := lo[1]; y <= hi[1] && y < lo[1]+cells; y++ {
				for x := lo[0]; x <= hi[0] && x < lo[0]+cells; x++ {
					p := [3]int{sim.Mod(x-org[0], cells), sim.Mod(y-org[1], cells), sim.Mod(z-org[2], cells)}
					if p[0] >= span[0] || p[1] >= span[1] || p[2] >= span[2] {
						continue
					}
					j := p[0] + span[0]*(p[1]+span[1]*p[2])
					if axis >= 0 {
						j = p[a] + span[a]*p[b]
					}
					if !r.Can[j] {
						r.Min[j], r.Max[j] = vlo, vhi
					}
					r.Can[j] = true
					r.Must[j] = r.Must[j] || single
					for k := 0; k < 3; k++ {
						r.Min[j][k] = math.Min(r.Min[j][k], vlo[k])
						r.Max[j][k] = math.Max(r.Max[j][k], vhi[k])
					}
				}
			}
		}
	}
	return r
}
