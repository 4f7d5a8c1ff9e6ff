package rend

import (
	"math"

	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Linear is a velocity field that is linear in the position in the box:
// v = A x + B. It has a seam at the faces of the box.
type Linear struct {
	A [3][3]float64
	B [3]float64
}

// DrawLinear draws a field and gives the particles of s its velocities.
func DrawLinear(c *vk.C, s *sim.Sim) *Linear {
	f := &Linear{}
	for k := range f.A {
		for m := range f.A[k] {
			f.A[k][m] = float64(rapid.IntRange(-40, 40).Draw(c.T, "a")) * 10 / s.L
		}
		f.B[k] = float64(rapid.IntRange(-300, 300).Draw(c.T, "b"))
	}
	c.Desc("velocities %.4g x + %.4g", f.A, f.B)
	for i := range s.X {
		for k := range s.V[i] {
			v := f.B[k]
			for m := range s.X[i] {
				v += f.A[k][m] * float64(s.X[i][m])
			}
			s.V[i][k] = float32(v)
		}
	}
	return f
}

// Bounds is the range of the field in every pixel of the block, or column of
// pixels along an axis. Can is false for those that a tetrahedron across the
// seam may reach.
func (f *Linear) Bounds(s *sim.Sim, tets []sim.Tet, cells int, org, span [3]int, axis int) *VelRange {
	n := span[0] * span[1] * span[2]
	cw, sl := s.L/float64(cells), Slop(cells)
	bad := make([]float64, n)
	for i := range tets {
		t := &tets[i]
		seam := false
		for k := 0; k < 3; k++ {
			for j := 1; j < 4; j++ {
				seam = seam || math.Floor(t.X[j][k]/s.L) != math.Floor(t.X[0][k]/s.L)
			}
		}
		if !seam {
			continue
		}
		lo, hi := t.CellRange(cw, sl)
		for z := lo[2]; z <= hi[2] && z < lo[2]+cells; z++ {
			for y := lo[1]; y <= hi[1] && y < lo[1]+cells; y++ {
				for x := lo[0]; x <= hi[0] && x < lo[0]+cells; x++ {
					p := [3]int{sim.Mod(x-org[0], cells), sim.Mod(y-org[1], cells), sim.Mod(z-org[2], cells)}
					if p[0] < span[0] && p[1] < span[1] && p[2] < span[2] {
						bad[p[0]+span[0]*(p[1]+span[1]*p[2])] = 1
					}
				}
			}
		}
	}
	a, b := 0, 1
	if axis == 0 {
		a, b = 1, 2
	} else if axis == 1 {
		a, b = 0, 2
	}
	if axis >= 0 {
		bad = Project(bad, span, axis)
		n /= span[axis]
	}
	r := &VelRange{Min: make([][3]float64, n), Max: make([][3]float64, n), Can: make([]bool, n)}
	seen := make([]bool, n)
	for z := 0; z < span[2]; z++ {
		for y := 0; y < span[1]; y++ {
			for x := 0; x < span[0]; x++ {
				p := [3]int{x, y, z}
				j := x + span[0]*(y+span[1]*z)
				if axis >= 0 {
					j = p[a] + span[a]*p[b]
				}
				r.Can[j] = bad[j] == 0
				for k := 0; k < 3; k++ {
					lo, hi := f.B[k], f.B[k]
					for m := 0; m < 3; m++ {
						q := float64(sim.Mod(p[m]+org[m], cells))
						u, w := f.A[k][m]*(q-sl)*cw, f.A[k][m]*(q+1+sl)*cw
						lo += math.Min(u, w)
						hi += math.Max(u, w)
					}
					if !seen[j] || lo < r.Min[j][k] {
						r.Min[j][k] = lo
					}
					if !seen[j] || hi > r.Max[j][k] {
						r.Max[j][k] = hi
					}
				}
				seen[j] = true
			}
		}
	}
	return r
}
