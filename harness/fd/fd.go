// Package fd is a reference implementation of finite differences on grids.
package fd

import "math"

// weights of the first derivative at 0 for the given (distinct) nodes
func weights(nodes []int) []float64 {
	w := make([]float64, len(nodes))
	for i, xi := range nodes {
		// derivative at 0 of the Lagrange polynomial of node i
		sum := 0.0
		for j := range nodes {
			if j == i {
				continue
			}
			p := 1 / float64(xi-nodes[j])
			for k, xk := range nodes {
				if k != i && k != j {
					p *= float64(-xk) / float64(xi-xk)
				}
			}
			sum += p
		}
		w[i] = sum
	}
	return w
}

// Grid is a block of values, x fastest.
type Grid struct {
	W    [3]int
	Dx   float64
	Wrap [3]bool // the axis spans the whole period
}

// N is the number of values.
func (g *Grid) N() int { return g.W[0] * g.W[1] * g.W[2] }

// Deriv returns the derivative along an axis and the size of the terms that
// it is the sum of.
func (g *Grid) Deriv(v []float64, axis, order int) (d, scale []float64) {
	step := [3]int{1, g.W[0], g.W[0] * g.W[1]}[axis]
	n := g.W[axis]
	d, scale = make([]float64, len(v)), make([]float64, len(v))
	for i := range v {
		p := i / step % n
		first := -order / 2
		if !g.Wrap[axis] {
			if p+first < 0 {
				first = -p
			}
			if p+first+order > n-1 {
				first = n - 1 - order - p
			}
		}
		nodes := make([]int, order+1)
		for j := range nodes {
			nodes[j] = first + j
		}
		for j, w := range weights(nodes) {
			q := (p + nodes[j] + 2*n) % n
			t := w * v[i+(q-p)*step] / g.Dx
			d[i] += t
			scale[i] += math.Abs(t)
		}
	}
	return d, scale
}
