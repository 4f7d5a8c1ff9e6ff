// C26: dense linear algebra in both precisions.
package c26

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/phil-mansfield/gotetra/math/mat"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// M is a matrix of the harness, row by row.
type M struct {
	h, w int
	v    []float64
}

func (m M) at(i, j int) float64 { return m.v[i*m.w+j] }

// single rounds the matrix to single precision.
func (m M) single() M {
	for i := range m.v {
		m.v[i] = float64(float32(m.v[i]))
	}
	return m
}

func draw(c *vk.C, name string, h, w int) M {
	m := M{h, w, make([]float64, h*w)}
	kind := rapid.IntRange(0, 2).Draw(c.T, name+".kind")
	for i := range m.v {
		switch kind {
		case 0:
			m.v[i] = float64(rapid.IntRange(-4, 4).Draw(c.T, name))
		case 1:
			m.v[i] = sim.F(c, name, -10, 10, 1000)
		default:
			m.v[i] = math.Pow(10, sim.F(c, name+".lg", -3, 3, 60)) * float64(1-2*rapid.IntRange(0, 1).Draw(c.T, name+".sign"))
		}
	}
	return m
}

// square draws a square matrix. Diagonally dominant ones have their rows
// shuffled, so that solving them takes exchanges of rows.
func square(c *vk.C, n int) M {
	m := M{n, n, make([]float64, n*n)}
	kind := rapid.IntRange(0, 3).Draw(c.T, "kind")
	for i := range m.v {
		if kind == 0 {
			m.v[i] = float64(rapid.IntRange(-3, 3).Draw(c.T, "a"))
		} else {
			m.v[i] = sim.F(c, "a", -1, 1, 200)
		}
	}
	if kind >= 2 {
		rows := rapid.Permutation(seq(n)).Draw(c.T, "rows")
		for i, r := range rows {
			s := 0.3
			for j := 0; j < n; j++ {
				s += math.Abs(m.at(r, j))
			}
			m.v[r*n+i] = s * float64(1-2*rapid.IntRange(0, 1).Draw(c.T, "sign"))
		}
	}
	if kind == 3 { // rows of very different size
		for i := 0; i < n; i++ {
			f := math.Pow(2, float64(rapid.IntRange(-6, 6).Draw(c.T, "lg row")))
			for j := 0; j < n; j++ {
				m.v[i*n+j] *= f
			}
		}
	}
	return m
}

// det is the exact determinant; inv the inverse (nil if singular).
func det(m M) (float64, []float64) {
	n := m.h
	a := make([][]*big.Float, n)
	f := func(x float64) *big.Float { return new(big.Float).SetPrec(400).SetFloat64(x) }
	for i := range a {
		for j := 0; j < n; j++ {
			a[i] = append(a[i], f(m.at(i, j)))
		}
		for j := 0; j < n; j++ {
			x := 0.0
			if i == j {
				x = 1
			}
			a[i] = append(a[i], f(x))
		}
	}
	d := f(1)
	tiny := f(math.Pow(2, -300))
	for k := 0; k < n; k++ {
		p := k
		for i := k; i < n; i++ {
			if new(big.Float).Abs(a[i][k]).Cmp(new(big.Float).Abs(a[p][k])) > 0 {
				p = i
			}
		}
		if new(big.Float).Abs(a[p][k]).Cmp(tiny) < 0 {
			return 0, nil
		}
		if p != k {
			a[p], a[k] = a[k], a[p]
			d.Neg(d)
		}
		d.Mul(d, a[k][k])
		for i := 0; i < n; i++ {
			if i == k {
				continue
			}
			q := f(0).Quo(a[i][k], a[k][k])
			for j := k; j < 2*n; j++ {
				a[i][j].Sub(a[i][j], f(0).Mul(q, a[k][j]))
			}
		}
	}
	inv := make([]float64, n*n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			inv[i*n+j], _ = f(0).Quo(a[i][n+j], a[i][i]).Float64()
		}
	}
	x, _ := d.Float64()
	return x, inv
}

func norm(v []float64, n int) float64 {
	m := 0.0
	for i := 0; i < n; i++ {
		s := 0.0
		for j := 0; j < n; j++ {
			s += math.Abs(v[i*n+j])
		}
		m = math.Max(m, s)
	}
	return m
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// check compares a product with the definition.
func product(c *vk.C, what string, a, b M, got []float64, eps float64) {
	if len(got) != a.h*b.w {
		c.Fatalf("%s: %d values for a %d by %d matrix", what, len(got), a.h, b.w)
	}
	for i := 0; i < a.h; i++ {
		for j := 0; j < b.w; j++ {
			sum, scale := 0.0, 0.0
			for k := 0; k < a.w; k++ {
				p := a.at(i, k) * b.at(k, j)
				sum += p
				scale += math.Abs(p)
			}
			c.Near(fmt.Sprintf("%s: row %d, column %d", what, i, j), got[i*b.w+j], sum, eps*float64(a.w+2)*scale)
		}
	}
}

func to32(v []float64) []float32 {
	out := make([]float32, len(v))
	for i := range v {
		out[i] = float32(v[i])
	}
	return out
}

func to64(v []float32) []float64 {
	out := make([]float64, len(v))
	for i := range v {
		out[i] = float64(v[i])
	}
	return out
}

func same(c *vk.C, what string, got, want []float64) {
	for i := range want {
		if got[i] != want[i] {
			c.Fatalf("%s was changed: element %d is %g, was %g", what, i, got[i], want[i])
		}
	}
}

const (
	eps64 = 2.3e-16
	eps32 = 1.2e-7
)

func junk(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = 1e3 + float64(i)
	}
	return out
}

func TestProducts(t *testing.T) {
	vk.Run(t, 4000, 200000, func(c *vk.C) {
		h, w, w2 := vk.Size(c, "h", 1, 7, 45), vk.Size(c, "w", 1, 7, 45), vk.Size(c, "w2", 1, 7, 45)
		single := rapid.IntRange(0, 2).Draw(c.T, "single") == 0
		a, b := draw(c, "a", h, w), draw(c, "b", w, w2)
		if single {
			a, b = a.single(), b.single()
		}
		c.Desc("%d by %d %v times %d by %d %v (single: %v)", a.h, a.w, a.v, b.h, b.w, b.v, single)
		c.LabelIf(w != w2, "second factor not square")
		reuse := rapid.Bool().Draw(c.T, "output given")
		if single {
			m1, m2 := mat.NewMatrix32(to32(a.v), w, h), mat.NewMatrix32(to32(b.v), w2, w)
			var out *mat.Matrix32
			if reuse {
				out = mat.NewMatrix32(to32(junk(h*w2)), w2, h)
				if r := m1.MultAt(m2, out); r != out {
					c.Fatalf("MultAt did not return its target")
				}
			} else {
				out = m1.Mult(m2)
			}
			if out.Width != w2 || out.Height != h {
				c.Fatalf("the product is %d by %d", out.Height, out.Width)
			}
			product(c, "product", a, b, to64(out.Vals), eps32)
			same(c, "the first factor", to64(m1.Vals), a.v)
			same(c, "the second factor", to64(m2.Vals), b.v)
			if w+1 != h && vk.Panics(func() { m1.Mult(mat.NewMatrix32(make([]float32, w+1), 1, w+1)) }) == nil {
				c.Fatalf("no complaint about factors that do not fit")
			}
			c.NonTrivial(w > 1)
			return
		}
		m1, m2 := mat.NewMatrix(append([]float64{}, a.v...), w, h), mat.NewMatrix(append([]float64{}, b.v...), w2, w)
		var out *mat.Matrix
		if reuse {
			out = mat.NewMatrix(junk(h*w2), w2, h)
			if r := m1.MultAt(m2, out); r != out {
				c.Fatalf("MultAt did not return its target")
			}
		} else {
			out = m1.Mult(m2)
		}
		if out.Width != w2 || out.Height != h {
			c.Fatalf("the product is %d by %d", out.Height, out.Width)
		}
		product(c, "product", a, b, out.Vals, eps64)
		if vk.Panics(func() { m1.Mult(mat.NewMatrix(make([]float64, w+1), 1, w+1)) }) == nil {
			c.Fatalf("no complaint about factors that do not fit")
		}

		v := M{w, 1, b.v[:w]}
		res := junk(h)
		mat.MultVec(m1, v.v, res)
		product(c, "matrix times vector", a, v, res, eps64)
		u := draw(c, "u", 1, h)
		res = junk(w)
		mat.VecMult(u.v, m1, res)
		product(c, "vector times matrix", u, a, res, eps64)

		tr := m1.Transpose()
		if reuse {
			tr = mat.NewMatrix(junk(h*w), h, w)
			m1.TransposeAt(tr)
		}
		if tr.Width != h || tr.Height != w {
			c.Fatalf("the transpose of a %d by %d matrix is %d by %d", h, w, tr.Height, tr.Width)
		}
		for i := 0; i < h; i++ {
			for j := 0; j < w; j++ {
				if tr.Vals[j*h+i] != a.at(i, j) {
					c.Fatalf("transpose: row %d, column %d is %g, want %g", j, i, tr.Vals[j*h+i], a.at(i, j))
				}
			}
		}
		same(c, "the first factor", m1.Vals, a.v)
		same(c, "the second factor", m2.Vals, b.v)
		c.NonTrivial(w > 1)
	})
}

// Very wide and very tall matrices are transposed in pieces.
func TestHugeTranspose(t *testing.T) {
	vk.Run(t, 2, 6, func(c *vk.C) {
		n := 16000001 + rapid.IntRange(0, 1000).Draw(c.T, "extra")
		w, h := n, 1
		if rapid.Bool().Draw(c.T, "tall") {
			w, h = 1, n
		}
		c.Desc("%d by %d", h, w)
		v := make([]float64, n)
		for i := range v {
			v[i] = float64(i)
		}
		tr := mat.NewMatrix(v, w, h).Transpose()
		for i := range v {
			if tr.Vals[i] != float64(i) {
				c.Fatalf("transpose: element %d is %g", i, tr.Vals[i])
			}
		}
		c.NonTrivial(true)
	})
}

// solver is the operations on a square matrix in one precision.
type solver interface {
	decompose(fresh bool, reuseOf M)
	vector(b []float64, how int) []float64
	matrix(b []float64, how int) []float64
	invert(how int) []float64
	determinant(direct bool) float64
	vals() []float64
}

type s64 struct {
	m  *mat.Matrix
	lu *mat.LUFactors
}

func (s *s64) vals() []float64 { return s.m.Vals }
func (s *s64) decompose(fresh bool, old M) {
	if fresh {
		s.lu = s.m.LU()
		return
	}
	s.lu = mat.NewLUFactors(s.m.Width)
	mat.NewMatrix(append([]float64{}, old.v...), old.w, old.h).LUFactorsAt(s.lu)
	s.m.LUFactorsAt(s.lu)
}
func (s *s64) vector(b []float64, how int) []float64 {
	in := append([]float64{}, b...)
	var out []float64
	switch how {
	case 0:
		out = s.m.SolveVector(in)
	case 1:
		out = s.lu.SolveVector(in, junk(len(b)))
	default:
		return s.lu.SolveVector(in, in)
	}
	copy(b, in) // so that a change shows
	return out
}
func (s *s64) matrix(b []float64, how int) []float64 {
	n := s.m.Width
	in := mat.NewMatrix(append([]float64{}, b...), n, n)
	var out *mat.Matrix
	switch how {
	case 0:
		out = s.m.SolveMatrix(in)
	case 1:
		out = s.lu.SolveMatrix(in, mat.NewMatrix(junk(n*n), n, n))
	default:
		return s.lu.SolveMatrix(in, in).Vals
	}
	copy(b, in.Vals)
	return out.Vals
}
func (s *s64) invert(how int) []float64 {
	n := s.m.Width
	if how == 0 {
		return s.m.Invert().Vals
	}
	return s.lu.InvertAt(mat.NewMatrix(junk(n*n), n, n)).Vals
}
func (s *s64) determinant(direct bool) float64 {
	if direct {
		return s.m.Determinant()
	}
	return s.lu.Determinant()
}

type s32 struct {
	m  *mat.Matrix32
	lu *mat.LUFactors32
}

func (s *s32) vals() []float64 { return to64(s.m.Vals) }
func (s *s32) decompose(fresh bool, old M) {
	if fresh {
		s.lu = s.m.LU()
		return
	}
	s.lu = mat.NewLUFactors32(s.m.Width)
	mat.NewMatrix32(to32(old.v), old.w, old.h).LUFactorsAt(s.lu)
	s.m.LUFactorsAt(s.lu)
}
func (s *s32) vector(b []float64, how int) []float64 {
	in := to32(b)
	var out []float32
	switch how {
	case 0:
		out = s.m.SolveVector(in)
	case 1:
		out = s.lu.SolveVector(in, to32(junk(len(b))))
	default:
		return to64(s.lu.SolveVector(in, in))
	}
	copy(b, to64(in))
	return to64(out)
}
func (s *s32) matrix(b []float64, how int) []float64 {
	n := s.m.Width
	in := mat.NewMatrix32(to32(b), n, n)
	var out *mat.Matrix32
	switch how {
	case 0:
		out = s.m.SolveMatrix(in)
	case 1:
		out = s.lu.SolveMatrix(in, mat.NewMatrix32(to32(junk(n*n)), n, n))
	default:
		return to64(s.lu.SolveMatrix(in, in).Vals)
	}
	copy(b, to64(in.Vals))
	return to64(out.Vals)
}
func (s *s32) invert(how int) []float64 {
	n := s.m.Width
	if how == 0 {
		return to64(s.m.Invert().Vals)
	}
	return to64(s.lu.InvertAt(mat.NewMatrix32(to32(junk(n*n)), n, n)).Vals)
}
func (s *s32) determinant(direct bool) float64 {
	if direct {
		return float64(s.m.Determinant())
	}
	return float64(s.lu.Determinant())
}

func TestSystems(t *testing.T) {
	vk.Run(t, 5000, 200000, func(c *vk.C) {
		n := vk.Size(c, "n", 1, 8, 26)
		single := rapid.IntRange(0, 2).Draw(c.T, "single") == 0
		a := square(c, n)
		eps := eps64
		if single {
			a, eps = a.single(), eps32
		}
		d, inv := det(a)
		cond := math.Inf(1)
		if inv != nil {
			cond = norm(a.v, n) * norm(inv, n)
		}
		c.Desc("%d by %d %v (single: %v)", n, n, a.v, single)
		rows, prod := true, 1.0
		for i := 0; i < n; i++ {
			s := 0.0
			for j := 0; j < n; j++ {
				s += math.Abs(a.at(i, j))
			}
			rows = rows && s > 0
			prod *= s
		}
		if !rows {
			return // "Singular Matrix."
		}

		var s solver
		if single {
			s = &s32{m: mat.NewMatrix32(to32(a.v), n, n)}
		} else {
			s = &s64{m: mat.NewMatrix(append([]float64{}, a.v...), n, n)}
		}
		fresh := rapid.Bool().Draw(c.T, "fresh factors")
		old := a
		if !fresh {
			old = square(c, n)
			if single {
				old = old.single()
			}
			for i := 0; i < n; i++ { // no zero rows
				old.v[i*n+(i+1)%n] = 7
			}
		}
		s.decompose(fresh, old)
		same(c, "the matrix", s.vals(), a.v)

		// The determinant, of singular matrices too. The pivots are good to
		// about eps times what the rows could have grown to.
		direct := rapid.Bool().Draw(c.T, "direct")
		tol := 8 * eps * float64(n*n) * prod * float64(int(1)<<(n/2))
		c.Near("determinant", s.determinant(direct), d, tol+1e-18)
		c.LabelIf(inv == nil, "singular")
		if cond > 0.01/eps/float64(n*n) {
			c.Label("not well-conditioned")
			return
		}
		if rel := 20 * eps * float64(n*n) * cond; rel < 0.5 {
			c.Near("determinant, relative to its value", s.determinant(direct)/d, 1, rel)
		}

		// Solutions: small residuals.
		grow := eps * float64(n*n) * 20
		residual := func(what string, b, x []float64, w int) {
			if len(x) != n*w {
				c.Fatalf("%s: %d values", what, len(x))
			}
			for i := 0; i < n; i++ {
				for k := 0; k < w; k++ {
					sum, scale := 0.0, math.Abs(b[i*w+k])
					for j := 0; j < n; j++ {
						p := a.at(i, j) * x[j*w+k]
						sum += p
						scale += math.Abs(p)
					}
					// Rows are scaled for pivoting, so that all of them
					// have the errors that their own size calls for, times
					// what the elimination mixes in from others.
					mixed := 0.0
					rs := 0.0
					for j := 0; j < n; j++ {
						rs = math.Max(rs, math.Abs(a.at(i, j)))
					}
					for j := 0; j < n; j++ {
						mixed += rs * math.Abs(x[j*w+k])
					}
					c.Near(fmt.Sprintf("%s: row %d, column %d of the residual", what, i, k),
						sum-b[i*w+k], 0, grow*(scale+mixed))
				}
			}
		}
		names := []string{"afresh", "from factors", "in place"}
		b := draw(c, "b", n, 1)
		if single {
			b = b.single()
		}
		how := rapid.IntRange(0, 2).Draw(c.T, "how vector")
		c.Desc("right side %v, %s", b.v, names[how])
		in := append([]float64{}, b.v...)
		x := s.vector(in, how)
		same(c, "the right side", in, b.v)
		residual("vector "+names[how], b.v, x, 1)
		for i := range x { // forward error
			want, big := 0.0, 0.0
			for j := 0; j < n; j++ {
				want += inv[i*n+j] * b.v[j]
			}
			for j := range x {
				big = math.Max(big, math.Abs(x[j]))
			}
			c.Near(fmt.Sprintf("vector %s: unknown %d", names[how], i), x[i], want, 40*eps*float64(n*n)*cond*big+1e-300)
		}

		b = draw(c, "b", n, n)
		if single {
			b = b.single()
		}
		how = rapid.IntRange(0, 2).Draw(c.T, "how matrix")
		c.Desc("right sides %v, %s", b.v, names[how])
		in = append([]float64{}, b.v...)
		x = s.matrix(in, how)
		same(c, "the right sides", in, b.v)
		residual("matrix "+names[how], b.v, x, n)

		how = rapid.IntRange(0, 1).Draw(c.T, "how inverse")
		x = s.invert(how)
		id := make([]float64, n*n)
		for i := 0; i < n; i++ {
			id[i*n+i] = 1
		}
		residual("inverse "+names[how], id, x, n)

		// The factors can be used again.
		x2 := s.vector(append([]float64{}, b.v[:n]...), 1)
		residual("vector, later", b.v[:n], x2, 1)
		same(c, "the matrix", s.vals(), a.v)
		c.NonTrivial(n > 1)
	})
}

// TestShapes: shapes that do not fit are refused, not worked with.
func TestShapes(t *testing.T) {
	vk.Run(t, 3000, 60000, func(c *vk.C) {
		n := rapid.IntRange(1, 6).Draw(c.T, "n")
		k := rapid.IntRange(1, 7).Draw(c.T, "other")
		if k >= n {
			k++
		}
		id := func(n int) []float64 {
			m := make([]float64, n*n)
			for i := 0; i < n; i++ {
				m[i*n+i] = float64(2 + i)
			}
			return m
		}
		id32 := func(n int) []float32 {
			m := make([]float32, n*n)
			for i := 0; i < n; i++ {
				m[i*n+i] = float32(2 + i)
			}
			return m
		}
		v := func(n int) []float64 { return make([]float64, n) }
		v32 := func(n int) []float32 { return make([]float32, n) }
		a, a32 := mat.NewMatrix(id(n), n, n), mat.NewMatrix32(id32(n), n, n)
		b, b32 := mat.NewMatrix(id(k), k, k), mat.NewMatrix32(id32(k), k, k)
		ok, ok32 := mat.NewMatrix(id(n), n, n), mat.NewMatrix32(id32(n), n, n)
		lu, lu32 := a.LU(), a32.LU()
		ops := []struct {
			name string
			f    func()
		}{
			{"NewMatrix of too many or too few values", func() { mat.NewMatrix(v(k), n, 1) }},
			{"NewMatrix of negative sizes", func() { mat.NewMatrix(v(n*k), -n, -k) }},
			{"NewMatrix of width zero", func() { mat.NewMatrix(nil, 0, k) }},
			{"NewMatrix of height zero", func() { mat.NewMatrix(nil, k, 0) }},
			{"Init of too many or too few values", func() { new(mat.Matrix).Init(v(k), 1, n) }},
			{"Mult", func() { a.Mult(b) }},
			{"MultVec, vector", func() { mat.MultVec(a, v(k), v(n)) }},
			{"MultVec, output", func() { mat.MultVec(a, v(n), v(k)) }},
			{"VecMult, vector", func() { mat.VecMult(v(k), a, v(n)) }},
			{"VecMult, output", func() { mat.VecMult(v(n), a, v(k)) }},
			{"LU of a rectangle", func() { mat.NewMatrix(v(n*k), n, k).LU() }},
			{"Invert of a rectangle", func() { mat.NewMatrix(v(n*k), n, k).Invert() }},
			{"Determinant of a rectangle", func() { mat.NewMatrix(v(n*k), n, k).Determinant() }},
			{"LUFactorsAt", func() { b.LUFactorsAt(lu) }},
			{"LUFactors.SolveVector, b", func() { lu.SolveVector(v(k), v(n)) }},
			{"LUFactors.SolveVector, x", func() { lu.SolveVector(v(n), v(k)) }},
			{"SolveVector", func() { a.SolveVector(v(k)) }},
			{"LUFactors.SolveMatrix, b", func() { lu.SolveMatrix(b, ok) }},
			{"LUFactors.SolveMatrix, x", func() { lu.SolveMatrix(ok, b) }},
			{"SolveMatrix", func() { a.SolveMatrix(b) }},
			{"InvertAt", func() { lu.InvertAt(b) }},

			{"NewMatrix32 of too many or too few values", func() { mat.NewMatrix32(v32(k), n, 1) }},
			{"NewMatrix32 of negative sizes", func() { mat.NewMatrix32(v32(n*k), -n, -k) }},
			{"NewMatrix32 of width zero", func() { mat.NewMatrix32(nil, 0, k) }},
			{"NewMatrix32 of height zero", func() { mat.NewMatrix32(nil, k, 0) }},
			{"32-bit Init of too many or too few values", func() { new(mat.Matrix32).Init(v32(k), 1, n) }},
			{"32-bit Mult", func() { a32.Mult(b32) }},
			{"32-bit LU of a rectangle", func() { mat.NewMatrix32(v32(n*k), n, k).LU() }},
			{"32-bit LUFactorsAt", func() { b32.LUFactorsAt(lu32) }},
			{"32-bit LUFactors.SolveVector, b", func() { lu32.SolveVector(v32(k), v32(n)) }},
			{"32-bit LUFactors.SolveVector, x", func() { lu32.SolveVector(v32(n), v32(k)) }},
			{"32-bit SolveVector", func() { a32.SolveVector(v32(k)) }},
			{"32-bit LUFactors.SolveMatrix, b", func() { lu32.SolveMatrix(b32, ok32) }},
			{"32-bit LUFactors.SolveMatrix, x", func() { lu32.SolveMatrix(ok32, b32) }},
			{"32-bit SolveMatrix", func() { a32.SolveMatrix(b32) }},
			{"32-bit InvertAt", func() { lu32.InvertAt(b32) }},
		}
		op := ops[rapid.IntRange(0, len(ops)-1).Draw(c.T, "op")]
		c.Desc("%s with sizes %d and %d", op.name, n, k)
		if vk.Panics(op.f) == nil {
			c.Fatalf("%s of sizes %d and %d was not refused", op.name, n, k)
		}
		c.NonTrivial(true)
	})
}
