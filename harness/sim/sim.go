// Package sim generates small N-body "snapshots" (a displaced Lagrangian
// lattice in a periodic box) and holds independent reference code for what
// gotetra is supposed to make of them. Nothing in here calls gotetra code
// except for the plain data types.
package sim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Sim is a snapshot: N^3 particles, x fastest, positions in [0, L).
type Sim struct {
	L       float64
	S, W, N int // segments per side, particles per segment side, S*W
	X, V    []geom.Vec
	Z       float64
	OmM     float64
	OmL     float64
	H100    float64
	Mass    float64
	Tight   bool // headers without any margin around the particles
}

// Opts bounds the generated simulations.
type Opts struct {
	MinS, MaxS int
	MinW, MaxW int
	WMultiple  int  // W is a multiple of this
	Aligned    bool // allow undisplaced, unshifted lattices
	Two        bool // allow 2^3 segments, which span up to 3/4 of the box
	Snap       bool // allow positions snapped to a coarse grid
	Tight      bool // allow headers without margins
	VelMode    int  // 0: any, 1: uniform, 2: none
}

// Hash is a fixed mixing function: deterministic noise from a drawn integer.
func Hash(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// Noise is in [-1, 1).
func Noise(seed uint64, i, k int) float64 {
	h := Hash(seed ^ Hash(uint64(i)*31+uint64(k)))
	return 2*float64(h>>11)/float64(1<<53) - 1
}

// Unit is in [0, 1).
func Unit(seed uint64, i, k int) float64 {
	h := Hash(seed ^ Hash(uint64(i)*37+uint64(k)+1))
	return float64(h>>11) / float64(1<<53)
}

// ToPeriodic wraps a position into [0, L) as a float32.
func ToPeriodic(x, L float64) float32 {
	x = math.Mod(x, L)
	if x < 0 {
		x += L
	}
	f := float32(x)
	if f >= float32(L) || f < 0 {
		f = 0
	}
	return f
}

// F draws a float64 on a grid of 1/den (short decimal numbers shrink well).
func F(c *vk.C, label string, lo, hi float64, den int) float64 {
	a, b := int(math.Ceil(lo*float64(den))), int(math.Floor(hi*float64(den)))
	return float64(rapid.IntRange(a, b).Draw(c.T, label)) / float64(den)
}

// Draw generates a simulation.
func Draw(c *vk.C, o Opts) *Sim {
	s := &Sim{}
	if o.MinS == 0 {
		o.MinS = 3
	}
	if o.MaxS == 0 {
		o.MaxS = 4
	}
	if o.WMultiple == 0 {
		o.WMultiple = 1
	}
	s.S = rapid.IntRange(o.MinS, o.MaxS).Draw(c.T, "S")
	minW := max(1, (o.MinW+o.WMultiple-1)/o.WMultiple)
	s.W = o.WMultiple * rapid.IntRange(minW, max(minW, o.MaxW/o.WMultiple)).Draw(c.T, "W")
	if o.Two && o.WMultiple <= 2 && rapid.IntRange(0, 7).Draw(c.T, "two segments") == 0 {
		s.S, s.W = 2, 4
		c.Label("segments span half of the box or more")
	}
	s.N = s.S * s.W
	switch rapid.IntRange(0, 2).Draw(c.T, "Lkind") {
	case 0:
		s.L = float64(rapid.IntRange(1, 64).Draw(c.T, "L"))
	case 1:
		s.L = F(c, "L", 0.5, 300, 16)
	default:
		s.L = F(c, "L", 0.5, 300, 1000)
	}
	s.Z = F(c, "z", 0, 4, 8)
	s.OmM = F(c, "omM", 0.1, 1, 20)
	s.OmL = 1 - s.OmM
	s.H100 = F(c, "h", 0.5, 1, 20)
	s.Mass = float64(rapid.IntRange(1, 1000).Draw(c.T, "mass")) * 1e7

	// Displacements, in particle spacings, such that no segment spans half
	// of the box (or 3/4 of it if there are but 2 of them).
	limit := 0.9 * (float64(s.N)/2 - float64(s.W)) / 2
	if s.S == 2 {
		limit = 0.9
	}
	amp := limit * float64(rapid.IntRange(0, 16).Draw(c.T, "amp")) / 16
	if o.Snap && rapid.Bool().Draw(c.T, "violent") {
		amp = limit
	}
	if amp > 3 {
		amp = 3
	}
	waveFrac := float64(rapid.IntRange(0, 2).Draw(c.T, "waveFrac")) / 2
	kx := rapid.IntRange(0, 2).Draw(c.T, "kx")
	ky := rapid.IntRange(0, 2).Draw(c.T, "ky")
	noise := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "noise"))
	var off [3]float64
	for k := range off {
		off[k] = F(c, "offset", 0, 1, 32)
		if !o.Aligned {
			// keep the unperturbed lattice off the cell boundaries
			off[k] += 0.0137 * float64(k+1)
		}
	}
	if !o.Aligned && amp == 0 {
		amp = 0.01
	}
	snap := 0.0
	if o.Snap && rapid.IntRange(0, 2).Draw(c.T, "snapped") == 0 {
		snap = float64(int(64) << uint(rapid.IntRange(0, 2).Draw(c.T, "snap")))
		c.Desc("positions snapped to L/%g", snap)
	}
	s.Tight = o.Tight && rapid.Bool().Draw(c.T, "tight")
	c.Desc("tight=%v L=%g S=%d W=%d amp=%.3g wave=%g k=(%d,%d) noise=%d off=%.4g "+
		"z=%g OmM=%g h=%g m=%g", s.Tight, s.L, s.S, s.W, amp, waveFrac, kx, ky, noise,
		off, s.Z, s.OmM, s.H100, s.Mass)

	d := s.L / float64(s.N)
	s.X = make([]geom.Vec, s.N*s.N*s.N)
	s.V = make([]geom.Vec, s.N*s.N*s.N)
	vmode := o.VelMode
	if vmode == 0 {
		vmode = rapid.IntRange(1, 4).Draw(c.T, "vmode")
	}
	v0 := [3]float64{}
	vamp := 0.0
	if vmode != 2 {
		for k := range v0 {
			v0[k] = float64(rapid.IntRange(-2000, 2000).Draw(c.T, "v0"))
		}
		if vmode >= 3 {
			vamp = float64(rapid.IntRange(0, 3000).Draw(c.T, "vamp"))
		}
		c.Desc("v0=%v vamp=%g", v0, vamp)
	}

	i := 0
	for z := 0; z < s.N; z++ {
		for y := 0; y < s.N; y++ {
			for x := 0; x < s.N; x++ {
				q := [3]int{x, y, z}
				ph := 2 * math.Pi * (float64(kx*x+ky*y) + float64(z)) / float64(s.N)
				for k := 0; k < 3; k++ {
					w := waveFrac*math.Sin(ph+float64(k)) +
						(1-waveFrac)*Noise(noise, i, k)
					x := (float64(q[k]) + off[k] + amp*w) * d
					if snap > 0 {
						x = math.Round(x/s.L*snap) / snap * s.L
					}
					s.X[i][k] = ToPeriodic(x, s.L)
					s.V[i][k] = float32(v0[k] + vamp*Noise(noise+77, i, k))
				}
				i++
			}
		}
	}
	return s
}

// Idx is the index of a lattice point (periodic).
func (s *Sim) Idx(x, y, z int) int {
	m := func(a int) int {
		a %= s.N
		if a < 0 {
			a += s.N
		}
		return a
	}
	return m(x) + s.N*m(y) + s.N*s.N*m(z)
}

// Near unwraps x to the image closest to ref.
func Near(x, ref, L float64) float64 {
	return x - L*math.Round((x-ref)/L)
}

// Segment returns the particles of segment idx, (W+1)^3 of them.
func (s *Sim) Segment(idx int) (xs, vs []geom.Vec) {
	sx, sy, sz := idx%s.S, (idx/s.S)%s.S, idx/(s.S*s.S)
	for z := 0; z <= s.W; z++ {
		for y := 0; y <= s.W; y++ {
			for x := 0; x <= s.W; x++ {
				i := s.Idx(sx*s.W+x, sy*s.W+y, sz*s.W+z)
				xs = append(xs, s.X[i])
				vs = append(vs, s.V[i])
			}
		}
	}
	return xs, vs
}

// Bounds is the tight periodic bounding box of points: all of the period but
// for the widest gap between them.
func Bounds(xs []geom.Vec, L float64) (origin, width [3]float64) {
	for k := 0; k < 3; k++ {
		u := make([]float64, len(xs))
		for i := range xs {
			u[i] = float64(xs[i][k])
		}
		sort.Float64s(u)
		n := len(u)
		gap := u[0] + L - u[n-1]
		origin[k], width[k] = u[0], u[n-1]-u[0]
		for i := 1; i < n; i++ {
			if u[i]-u[i-1] > gap {
				gap = u[i] - u[i-1]
				origin[k], width[k] = u[i], u[i-1]+L-u[i]
			}
		}
		if origin[k] >= L {
			origin[k] -= L
		}
	}
	return origin, width
}

// Header builds the sheet header of segment idx.
func (s *Sim) Header(idx int, xs, vs []geom.Vec) *io.SheetHeader {
	h := &io.SheetHeader{}
	h.Cosmo = io.CosmologyHeader{Z: s.Z, OmegaM: s.OmM, OmegaL: s.OmL, H100: s.H100}
	h.CountWidth = int64(s.N)
	h.Count = int64(s.N * s.N * s.N)
	h.SegmentWidth = int64(s.W)
	h.GridWidth = int64(s.W + 1)
	h.GridCount = h.GridWidth * h.GridWidth * h.GridWidth
	h.Idx = int64(idx)
	h.Cells = int64(s.S)
	h.Mass = s.Mass
	h.TotalWidth = s.L
	o, w := Bounds(xs, s.L)
	pad := 4e-7 * s.L // float32 headers must still enclose the particles
	if s.Tight {
		pad = 0
	}
	for k := 0; k < 3; k++ {
		h.Origin[k] = float32(o[k] - pad)
		if h.Origin[k] < 0 {
			h.Origin[k] = float32(s.L + float64(h.Origin[k]))
			if float64(h.Origin[k]) >= s.L {
				h.Origin[k] = math.Nextafter32(float32(s.L), 0)
			}
		}
		if s.Tight && float64(h.Origin[k]) > o[k] {
			h.Origin[k] = math.Nextafter32(h.Origin[k], -1)
		}
		w[k] += o[k] - math.Min(o[k], float64(h.Origin[k]))
		h.Width[k] = float32(w[k] + 2*pad)
		if float64(h.Width[k]) < w[k] {
			h.Width[k] = math.Nextafter32(h.Width[k], math.MaxFloat32)
		}
		vlo, vhi := vs[0][k], vs[0][k]
		for i := range vs {
			if vs[i][k] < vlo {
				vlo = vs[i][k]
			}
			if vs[i][k] > vhi {
				vhi = vs[i][k]
			}
		}
		h.VelocityOrigin[k], h.VelocityWidth[k] = vlo, vhi-vlo
	}
	return h
}

// SheetBytes is a reference encoder of the sheet format.
func SheetBytes(h *io.SheetHeader, xs, vs []geom.Vec, order binary.ByteOrder) []byte {
	buf := &bytes.Buffer{}
	flag := int32(0)
	if order == binary.ByteOrder(binary.BigEndian) {
		flag = -1
	}
	binary.Write(buf, order, flag)
	binary.Write(buf, order, int32(binary.Size(h)))
	binary.Write(buf, order, h)
	binary.Write(buf, order, xs)
	binary.Write(buf, order, vs)
	return buf.Bytes()
}

// WriteSheets writes all segments into dir.
func (s *Sim) WriteSheets(dir string) []string {
	names := []string{}
	for i := 0; i < s.S*s.S*s.S; i++ {
		xs, vs := s.Segment(i)
		h := s.Header(i, xs, vs)
		name := filepath.Join(dir, fmt.Sprintf("sheet%04d.dat", i))
		err := os.WriteFile(name, SheetBytes(h, xs, vs, binary.LittleEndian), 0666)
		if err != nil {
			vk.Harness("%v", err)
		}
		names = append(names, name)
	}
	return names
}

// Tet is one tetrahedron of the tessellation: unwrapped positions (not
// confined to the box) and velocities of its corners.
type Tet struct {
	X, V [4][3]float64
}

// the six tetrahedra of a cube: one per ordering of the axes
var perms = [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// Tets lists the tessellation of the whole box using every skip-th particle.
func (s *Sim) Tets(skip int) []Tet {
	out := make([]Tet, 0, 6*s.N*s.N*s.N/(skip*skip*skip))
	for z := 0; z < s.N; z += skip {
		for y := 0; y < s.N; y += skip {
			for x := 0; x < s.N; x += skip {
				for _, p := range perms {
					at := [3]int{x, y, z}
					t := Tet{}
					for j := 0; j < 4; j++ {
						i := s.Idx(at[0], at[1], at[2])
						for k := 0; k < 3; k++ {
							u := float64(s.X[i][k])
							if j > 0 {
								u = Near(u, t.X[0][k], s.L)
							}
							t.X[j][k] = u
							t.V[j][k] = float64(s.V[i][k])
						}
						if j < 3 {
							at[p[j]] += skip
						}
					}
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// CellRange is the range of cells (unwrapped, inclusive) a tetrahedron can
// touch along each axis, widened by eps cells.
func (t *Tet) CellRange(cw, eps float64) (lo, hi [3]int) {
	for k := 0; k < 3; k++ {
		a, b := t.X[0][k], t.X[0][k]
		for j := 1; j < 4; j++ {
			a, b = math.Min(a, t.X[j][k]), math.Max(b, t.X[j][k])
		}
		lo[k] = int(math.Floor(a/cw - eps))
		hi[k] = int(math.Floor(b/cw + eps))
	}
	return lo, hi
}

// Mod is the positive remainder.
func Mod(a, n int) int {
	a %= n
	if a < 0 {
		a += n
	}
	return a
}

// InBlock tells whether cell x is in the periodic block [o, o+w).
func InBlock(x, o, w, cells int) bool { return w >= cells || Mod(x-o, cells) < w }

// RangeVsBlock: can a tetrahedron covering cells [lo,hi] touch the block, and
// is it inside of it for certain?
func RangeVsBlock(lo, hi, o, w, cells int) (touch, inside bool) {
	inside = true
	for x := lo; x <= hi; x++ {
		if InBlock(x, o, w, cells) {
			touch = true
		} else {
			inside = false
		}
	}
	return touch, inside
}
