// C41: Metropolis sampling (render/scripts/mcarlo.py).
package c41

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"gotetraverif/py"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

type arrays = map[string][]float64
type numbers = map[string]float64

func eval(c *vk.C, expr string, a arrays, n numbers) [][]float64 {
	r := py.Eval("mcarlo.py", expr, "", a, n)
	if r.Error != "" {
		c.Fatalf("%s: %s", expr, r.Error)
	}
	out := make([][]float64, int(r.Arrays["n"].Vals()[0]))
	for i := range out {
		out[i] = r.Arrays[fmt.Sprint(i)].Vals()
	}
	return out
}

func stats(xs []float64) (mean, variance float64) {
	for _, x := range xs {
		mean += x / float64(len(xs))
	}
	for _, x := range xs {
		variance += (x - mean) * (x - mean) / float64(len(xs))
	}
	return mean, variance
}

// Chains in one dimension have the moments of exp(-f/T).
func TestPotential(t *testing.T) {
	vk.Run(t, 16, 300, func(c *vk.C) {
		T, k, mid := sim.F(c, "T", 0.2, 4, 19), sim.F(c, "k", 0.3, 5, 47), sim.F(c, "middle", -3, 3, 24)
		well := rapid.SampledFrom([]string{"harmonic", "linear", "box"}).Draw(c.T, "well")
		seed := rapid.IntRange(0, 1<<20).Draw(c.T, "seed")
		f := map[string]string{"harmonic": "lambda x: k * (x - m)**2 / 2.", "linear": "lambda x: k * abs(x - m)",
			"box": "lambda x: 0. if abs(x - m) < k else 1e9"}[well]
		sigma := map[string]float64{"harmonic": math.Sqrt(T / k), "linear": math.Sqrt2 * T / k, "box": k / math.Sqrt(3)}[well]
		steps := 24000
		c.Desc("%s well, k %g, T %g, about %g, seed %d", well, k, T, mid, seed)
		got := eval(c, "(lambda p: (lambda r: [np.array(r[0], dtype=float), [r[1], p.state(), p.tracks_stats()]])(p.sample(steps, T)))((rand.seed(seed), Potential1D("+f+", m, dx))[1])",
			nil, numbers{"k": k, "m": mid, "T": T, "dx": 2.5 * sigma, "steps": float64(steps), "seed": float64(seed)})
		xs := got[0]
		if len(xs) != steps {
			c.Fatalf("%d snapshots of %d steps", len(xs), steps)
		}
		moved, prev := 0, mid
		for _, x := range xs {
			if x != prev {
				moved++
			}
			if !(math.Abs(x-prev) <= 2.5*sigma*(1+1e-9)) {
				c.Fatalf("a step from %g to %g is longer than %g", prev, x, 2.5*sigma)
			}
			prev = x
		}
		if float64(moved) != got[1][0] {
			c.Fatalf("%v moves are reported, and %d made", got[1][0], moved)
		}
		c.Near("last state", got[1][1], prev, 0)
		mean, v := stats(xs)
		// 24000 steps are worth a tenth as many independent ones, at least
		// (the fourth moment of exp(-|x|) is 24, so its variance spreads more).
		c.Near("mean over the width", (mean-mid)/sigma, 0, 0.17)
		c.Near("variance over that of the Boltzmann distribution", v/sigma/sigma, 1, map[bool]float64{true: 0.35, false: 0.2}[well == "linear"])
		c.NonTrivial(true)
		c.Label(well)
	})
}

type membrane struct {
	rs, ths []float64
	bins    int
	first   []float64 // of the points in each bin, NaN without
}

func draw(c *vk.C) membrane {
	m := membrane{bins: rapid.IntRange(2, 9).Draw(c.T, "bins")}
	n := vk.Size(c, "points", 1, 12, 60)
	m.first = make([]float64, m.bins)
	for i := range m.first {
		m.first[i] = math.NaN()
	}
	for i := 0; i < n; i++ {
		r := sim.F(c, "r", 0.2, 3, 28)
		b := rapid.IntRange(0, m.bins-1).Draw(c.T, "bin")
		th := 2 * math.Pi * (float64(b) + sim.F(c, "in the bin", 0.1, 0.9, 8)) / float64(m.bins)
		if rapid.Bool().Draw(c.T, "turned") {
			th -= 2 * math.Pi
		}
		m.rs, m.ths = append(m.rs, r), append(m.ths, th)
		if !(m.first[b] <= r) {
			m.first[b] = r
		}
	}
	c.Desc("%d bins, r %v theta %v", m.bins, m.rs, m.ths)
	return m
}

// energy of the springs between neighbours, and to the innermost points.
func (m *membrane) energy(rs []float64) float64 {
	e := 0.0
	for i, r := range rs {
		d := r - rs[(i+1)%len(rs)]
		e += d * d
		if !math.IsNaN(m.first[i]) {
			e += (r - m.first[i]) * (r - m.first[i])
		}
	}
	return e
}

func TestMembrane(t *testing.T) {
	vk.Run(t, 300, 6000, func(c *vk.C) {
		m := draw(c)
		got := eval(c, "(lambda m: [m.rs, m.angle_edges, m.weights, [m.tracks_stats()]])(Membrane(rs, ths, bins))",
			arrays{"rs": m.rs, "ths": m.ths}, numbers{"bins": float64(m.bins)})
		mean, _ := stats(m.rs)
		start := append([]float64{}, got[0]...)
		if len(start) != m.bins || len(got[1]) != m.bins+1 {
			c.Fatalf("%d radii and %d edges", len(start), len(got[1]))
		}
		for i := range start {
			want := m.first[i]
			if math.IsNaN(want) {
				want = mean
			}
			c.Near(fmt.Sprintf("radius %d at the start", i), start[i], want, 1e-12)
		}
		for i, e := range got[1] {
			c.Near("edge", e, 2*math.Pi*float64(i)/float64(m.bins), 1e-12)
		}
		// Changes of the energy.
		state := make([]float64, m.bins)
		for i := range state {
			state[i] = sim.F(c, "state", 0, 4, 32)
		}
		i, r1 := rapid.IntRange(0, m.bins-1).Draw(c.T, "change"), sim.F(c, "to", 0, 4, 32)
		c.Desc("state %v, %d to %g", state, i, r1)
		got = eval(c, "(lambda m: (setattr(m, 'rs', state.copy()), [[m.dE((i, r1))], (m.change((i, r1)), m.state()[0])[1]])[1])(Membrane(rs, ths, bins))",
			arrays{"rs": m.rs, "ths": m.ths, "state": state}, numbers{"bins": float64(m.bins), "i": float64(i), "r1": r1})
		next := append([]float64{}, state...)
		next[i] = r1
		c.Near("change of the energy", got[0][0], m.energy(next)-m.energy(state), 1e-9)
		for k := range next {
			c.Near("state after the change", got[1][k], next[k], 0)
		}
		c.NonTrivial(len(m.rs) > 1)
		c.LabelIf(m.bins == 2, "two bins")
	})
}

func TestMembraneSample(t *testing.T) {
	vk.Run(t, 60, 1500, func(c *vk.C) {
		m := draw(c)
		steps := rapid.IntRange(1, 300).Draw(c.T, "steps")
		rate := rapid.IntRange(1, 5).Draw(c.T, "rate")
		burn := rapid.IntRange(0, steps-1).Draw(c.T, "burn in")
		T, dr := sim.F(c, "T", 0.01, 2, 40), sim.F(c, "dr", 0.1, 2, 19)
		seed := rapid.IntRange(0, 1<<20).Draw(c.T, "seed")
		warm := rapid.SampledFrom([]int{0, 0, 1, 7, 40}).Draw(c.T, "steps before")
		c.Desc("%d steps after %d others, T %g, dr %g, every %d, from %d, seed %d", steps, warm, T, dr, rate, burn, seed)
		a := arrays{"rs": m.rs, "ths": m.ths}
		n := numbers{"bins": float64(m.bins), "steps": float64(steps), "T": T, "dr": dr, "rate": float64(rate),
			"burn": float64(burn), "seed": float64(seed), "warm": float64(warm)}
		expr := "(lambda m, before: (lambda r: [[r[1]], m.get_mean(), m.get_std(), m.state()[0]] + [s[0] for s in r[0]])(m.sample(steps, T, sample_rate=%s, burn_in=burn)))" +
			"(*(lambda m: (m, m.sample(warm, T)))((rand.seed(seed), Membrane(rs, ths, bins, dr=dr))[1]))"
		all := eval(c, fmt.Sprintf(expr, "1"), a, n)
		some := eval(c, fmt.Sprintf(expr, "rate"), a, n)
		states := all[4:]
		if len(states) != steps || len(some) != 4+(steps+rate-1)/rate {
			c.Fatalf("%d and %d snapshots of %d steps", len(states), len(some)-4, steps)
		}
		for i := range some[4:] {
			for k := range some[4+i] {
				c.Near(fmt.Sprintf("snapshot %d of those of every %d", i, rate), some[4+i][k], states[i*rate][k], 0)
			}
		}
		prev := eval(c, "(lambda m: (m.sample(warm, T), [m.rs])[1])((rand.seed(seed), Membrane(rs, ths, bins, dr=dr))[1])", a, n)[0]
		moves := 0
		for s, x := range states {
			changed := 0
			for k := range x {
				if x[k] != prev[k] {
					changed++
					if !(math.Abs(x[k]-prev[k]) <= dr*(1+1e-9)) {
						c.Fatalf("step %d: %g to %g with steps of %g", s, prev[k], x[k], dr)
					}
				}
			}
			if changed > 1 {
				c.Fatalf("step %d changes %d radii", s, changed)
			}
			moves += changed
			prev = x
		}
		if float64(moves) != all[0][0] {
			c.Fatalf("%v moves are reported, and %d made", all[0][0], moves)
		}
		for k := 0; k < m.bins; k++ {
			c.Near("state at the end", all[3][k], prev[k], 0)
			xs := []float64{}
			for _, x := range states[burn:] {
				xs = append(xs, x[k])
			}
			mean, v := stats(xs)
			c.Near(fmt.Sprintf("mean of radius %d", k), all[1][k], mean, 1e-9)
			sd := all[2][k] // of the square root of what may round to below zero
			if math.IsNaN(sd) {
				sd = 0
			}
			c.Near(fmt.Sprintf("standard deviation of radius %d", k), sd*sd, v, 1e-9)
		}
		c.NonTrivial(moves > 1)
		c.LabelIf(burn > 0, "burn in")
		c.LabelIf(warm > 0, "sampled before")
	})
}

// At a low temperature membranes end at the minimum of the energy.
func TestCold(t *testing.T) {
	vk.Run(t, 12, 200, func(c *vk.C) {
		m := draw(c)
		seed := rapid.IntRange(0, 1<<20).Draw(c.T, "seed")
		c.Desc("seed %d", seed)
		got := eval(c, "(lambda m: (m.sample(steps, 1e-9, sample_rate=None), [m.state()[0]])[1])((rand.seed(seed), Membrane(rs, ths, bins, dr=0.1))[1])",
			arrays{"rs": m.rs, "ths": m.ths}, numbers{"bins": float64(m.bins), "steps": 20000, "seed": float64(seed)})[0]
		// Relaxation finds it, too.
		best := append([]float64{}, got...)
		for it := 0; it < 20000; it++ {
			for i := range best {
				sum, w := best[(i+1)%m.bins]+best[(i+m.bins-1)%m.bins], 2.0
				if !math.IsNaN(m.first[i]) {
					sum, w = sum+m.first[i], 3
				}
				best[i] = sum / w
			}
		}
		c.Near("energy of the cold membrane", m.energy(got), m.energy(best), 5e-3)
		s := append([]float64{}, m.first...)
		sort.Float64s(s)
		c.NonTrivial(m.energy(best) > 1e-6)
	})
}
