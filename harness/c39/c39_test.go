// C39: shells and lines of sight in the Python analysis scripts
// (render/scripts: kde.py, 2d_kde.py, penna.py, mcarlo.py, profile.py,
// plot_savgol_profile.py).
package c39

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"gotetraverif/py"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

type arrays = map[string][]float64
type numbers = map[string]float64

func eval(c *vk.C, script, expr string, a arrays, n numbers) [][]float64 {
	return evalText(c, script, expr, "", a, n)
}

func evalText(c *vk.C, script, expr, text string, a arrays, n numbers) [][]float64 {
	r := py.Eval(script, expr, text, a, n)
	if r.Error != "" {
		c.Fatalf("%s: %s: %s", script, expr, r.Error)
	}
	k := r.Arrays["n"]
	out := make([][]float64, int(k.Vals()[0]))
	for i := range out {
		out[i] = r.Arrays[fmt.Sprint(i)].Vals()
	}
	return out
}

func same(c *vk.C, what string, got, want []float64, tol float64) {
	if len(got) != len(want) {
		c.Fatalf("%s: %d values, want %d: %v, want %v", what, len(got), len(want), got, want)
	}
	for i := range got {
		c.Near(fmt.Sprintf("%s %d", what, i), got[i], want[i], tol)
	}
}

// --- Shells ---

// basis is sin^(i+j)(theta) cos^k(theta) sin^j(phi) cos^i(phi).
func basis(n int, phi, theta float64) []float64 {
	out := []float64{}
	for k := 0; k < 2; k++ {
		for j := 0; j <= n; j++ {
			for i := 0; i <= n; i++ {
				out = append(out, math.Pow(math.Sin(theta), float64(i+j))*math.Pow(math.Cos(theta), float64(k))*
					math.Pow(math.Sin(phi), float64(j))*math.Pow(math.Cos(phi), float64(i)))
			}
		}
	}
	return out
}

func dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

var shells = []struct{ script, fit string }{
	{"kde.py", "penna_coeff"}, {"2d_kde.py", "penna_coeffs"}, {"penna.py", "penna_coeff"},
	{"penna.py", "fast_penna_coeffs"},
}

// directions draws points on the sphere.
func directions(seed uint64, n int) (phi, theta []float64) {
	for i := 0; i < n; i++ {
		phi = append(phi, math.Pi*sim.Noise(seed, i, 0))
		theta = append(theta, math.Acos(sim.Noise(seed, i, 1)))
	}
	return phi, theta
}

func TestShells(t *testing.T) {
	vk.Run(t, 250, 5000, func(c *vk.C) {
		s := shells[rapid.IntRange(0, len(shells)-1).Draw(c.T, "fit")]
		n := rapid.IntRange(0, 3).Draw(c.T, "n")
		terms := 2 * (n + 1) * (n + 1)
		pts := terms*4 + rapid.IntRange(0, 3*terms).Draw(c.T, "points")
		seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "seed"))
		scale := sim.F(c, "scale", 0.2, 3, 16)
		noise := 0.0
		if rapid.Bool().Draw(c.T, "noisy") {
			noise = 0.2
		}
		co := make([]float64, terms)
		left := 0.6
		for i := range co {
			x := 0.0
			if rapid.Bool().Draw(c.T, "term") {
				x = left / 2 * sim.F(c, "coefficient", -1, 1, 8)
			}
			left -= math.Abs(x)
			co[i] = scale * x
		}
		co[0] += scale
		c.Desc("%s %s n=%d, %d points, seed %d, coefficients %.4g, noise %g", s.script, s.fit, n, pts, seed, co, noise)
		phi, theta := directions(seed, pts)
		xyz := [3][]float64{make([]float64, pts), make([]float64, pts), make([]float64, pts)}
		r := make([]float64, pts)
		for i := range r {
			r[i] = dot(co, basis(n, phi[i], theta[i])) * (1 + noise*sim.Noise(seed, i, 2))
			xyz[0][i] = r[i] * math.Sin(theta[i]) * math.Cos(phi[i])
			xyz[1][i] = r[i] * math.Sin(theta[i]) * math.Sin(phi[i])
			xyz[2][i] = r[i] * math.Cos(theta[i])
		}
		phi2, theta2 := directions(seed+7, 20)
		got := eval(c, s.script, s.fit+"(n, xs, ys, zs)", arrays{"xs": xyz[0], "ys": xyz[1], "zs": xyz[2]}, numbers{"n": float64(n)})
		fit := make([]float64, len(got))
		for i := range fit {
			fit[i] = got[i][0]
		}
		if len(fit) != terms {
			c.Fatalf("%d coefficients, want %d", len(fit), terms)
		}
		// The shell of the coefficients is the sum of its terms.
		got = eval(c, s.script, "[penna_func(co, n)(phis, thetas)]", arrays{"co": co, "phis": phi2, "thetas": theta2}, numbers{"n": float64(n)})
		want := make([]float64, len(phi2))
		for i := range want {
			want[i] = dot(co, basis(n, phi2[i], theta2[i]))
		}
		same(c, "radius of the shell", got[0], want, 1e-12*scale)
		// Its curve in a plane.
		axis, steps := rapid.IntRange(0, 2).Draw(c.T, "axis"), rapid.IntRange(2, 60).Draw(c.T, "steps")
		got = eval(c, s.script, "(plot_func(penna_func(co, n), axis, pts=steps), plt.plot.call_args[0])[1][:2]",
			arrays{"co": co}, numbers{"n": float64(n), "axis": float64(axis), "steps": float64(steps)})
		if len(got) != 2 || len(got[0]) != steps || len(got[1]) != steps {
			c.Fatalf("the curve in the plane is %v", got)
		}
		for i := 0; i < steps; i++ {
			a := 2 * math.Pi * float64(i) / float64(steps-1)
			x, y := math.Cos(a), math.Sin(a)
			u := [3][3]float64{{0, x, y}, {x, 0, y}, {x, y, 0}}[axis]
			r := dot(co, basis(n, math.Atan2(u[1], u[0]), math.Acos(math.Max(-1, math.Min(1, u[2])))))
			c.Near("first coordinate of the curve", got[0][i], x*r, 1e-6*scale)
			c.Near("second coordinate of the curve", got[1][i], y*r, 1e-6*scale)
		}
		if noise == 0 {
			for i := range want {
				c.Near("fitted radius", dot(fit, basis(n, phi2[i], theta2[i])), want[i], 1e-4*scale)
			}
		} else {
			// No other coefficients fit better: the residuals are
			// orthogonal to the terms.
			fast := s.fit == "fast_penna_coeffs"
			var norm float64
			grad := make([]float64, terms)
			for i := range r {
				b, w := basis(n, phi[i], theta[i]), 1.0
				if fast { // weighted by r^N
					w = math.Pow(r[i]/scale, float64(2*n+1))
				}
				d := w * (r[i] - dot(fit, b))
				norm += w * w * r[i] * r[i]
				for k := range grad {
					grad[k] += d * w * b[k]
				}
			}
			for k := range grad {
				c.Near(fmt.Sprintf("correlation of the residuals with term %d", k), grad[k]/math.Sqrt(norm*float64(pts)), 0, 1e-5)
			}
		}
		c.NonTrivial(n > 0)
		c.Label("%s %s", s.script, s.fit)
	})
}

// Points around a circle.
func TestPolar(t *testing.T) {
	vk.Run(t, 600, 12000, func(c *vk.C) {
		script := rapid.SampledFrom([]string{"kde.py", "2d_kde.py", "mcarlo.py", "penna.py"}).Draw(c.T, "script")
		n := vk.Size(c, "points", 1, 12, 400)
		bins := vk.Size(c, "bins", 1, 9, 130)
		x, y, r, th := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
		width := 2 * math.Pi / float64(bins)
		for i := range x {
			x[i], y[i] = sim.F(c, "x", -9, 9, 8), sim.F(c, "y", -9, 9, 8)
			r[i], th[i] = math.Hypot(x[i], y[i]), math.Atan2(y[i], x[i])
			switch rapid.IntRange(0, 9).Draw(c.T, "turned") {
			case 0:
				th[i] += 2 * math.Pi
			case 1:
				th[i] -= 4 * math.Pi
			case 2: // next to a border
				th[i] = float64(rapid.IntRange(-bins, bins).Draw(c.T, "border")) * width
				th[i] += rapid.SampledFrom([]float64{-1e-17, 1e-17, -1e-13, 1e-13, 0}).Draw(c.T, "off")
			}
		}
		c.Desc("%s %d bins, r %v theta %v", script, bins, r, th)
		got := eval(c, script, "to_radial(xs, ys) + to_cartesian(rs, ths)", arrays{"xs": x, "ys": y, "rs": r, "ths": th}, nil)
		same(c, "radius", got[0], r, 1e-12)
		for i := range x {
			c.Near("angle", got[1][i], math.Atan2(y[i], x[i]), 1e-12)
			c.Near("x", got[2][i], r[i]*math.Cos(th[i]), 1e-11)
			c.Near("y", got[3][i], r[i]*math.Sin(th[i]), 1e-11)
		}
		if script == "penna.py" {
			c.NonTrivial(n > 1)
			return
		}
		got = eval(c, script, "(lambda b: [b[0]] + b[1])(bin_by_thetas(rs, ths, bins))", arrays{"rs": r, "ths": th}, numbers{"bins": float64(bins)})
		if len(got) != bins+1 {
			c.Fatalf("%d bins, want %d", len(got)-1, bins)
		}
		for i, a := range got[0] {
			c.Near("middle of the bin", a, (float64(i)+0.5)*width, 1e-12)
		}
		// Every point is in the bin of its angle.
		next, total := make([]int, bins), 0
		for i := range r {
			ok := false
			u := math.Mod(th[i], 2*math.Pi)
			for _, e := range []float64{0, -1e-11, 1e-11} {
				b := int(math.Floor((u + e) / width))
				b = (b%bins + bins) % bins
				if next[b] < len(got[b+1]) && got[b+1][next[b]] == r[i] {
					next[b]++
					ok = true
					break
				}
			}
			if !ok {
				c.Fatalf("point %d (r %v, angle %v) is not in its place in the bin of its angle: %v", i, r[i], th[i], got[1:])
			}
			total++
		}
		for b := range next {
			if next[b] != len(got[b+1]) {
				c.Fatalf("bin %d has %d points, want %d", b, len(got[b+1]), next[b])
			}
		}
		c.NonTrivial(n > 1 && bins > 1)
	})
}

// The estimate for many points is the mean of those for each, a Gaussian about
// the point.
func TestDensityEstimate(t *testing.T) {
	vk.Run(t, 300, 6000, func(c *vk.C) {
		script := rapid.SampledFrom([]string{"kde.py", "2d_kde.py", "mcarlo.py"}).Draw(c.T, "script")
		n := vk.Size(c, "points", 1, 8, 200)
		xs := make([]float64, n)
		lo := sim.F(c, "low", -2, 2, 8)
		hi := lo + sim.F(c, "width", 0.5, 4, 8)
		for i := range xs {
			xs[i] = lo + (hi-lo)*sim.F(c, "x", 0, 1, 20)
		}
		bins := rapid.IntRange(5, 60).Draw(c.T, "bins")
		h := (hi - lo) * sim.F(c, "h", 0.05, 0.5, 8)
		c.Desc("%s xs %v h %g range %g to %g bins %d", script, xs, h, lo, hi, bins)
		at := make([]float64, bins)
		for i := range at {
			at[i] = lo + (hi-lo)*float64(i)/float64(bins-1)
		}
		got := eval(c, script, "[gaussian_kde_spline(xs, h, (lo, hi), bins=bins)(at), gaussian_kde_spline(one, h, (lo, hi), bins=bins)(at)]",
			arrays{"xs": xs, "at": at, "one": at[1:2]}, numbers{"h": h, "lo": lo, "hi": hi, "bins": float64(bins)})
		peak := got[1][1]
		if !(peak > 0) {
			c.Fatalf("a point's estimate at the point is %v", peak)
		}
		for i := range at {
			want := 0.0
			for _, x := range xs {
				want += math.Exp(-(x-at[i])*(x-at[i])/h/h) / float64(n)
			}
			c.Near("estimate, in units of that at one point", got[0][i]/peak, want, 1e-9)
		}
		c.NonTrivial(n > 1)
	})
}

// Files of points: unit vectors and radii.
func TestPoints(t *testing.T) {
	vk.Run(t, 300, 6000, func(c *vk.C) {
		axis := rapid.IntRange(0, 2).Draw(c.T, "axis")
		n := vk.Size(c, "points", 2, 8, 300)
		var sb strings.Builder
		x := [3][]float64{make([]float64, n), make([]float64, n), make([]float64, n)}
		for i := 0; i < n; i++ {
			a := sim.F(c, "angle", 0.1, 1.4, 40)
			if i > 0 && rapid.Bool().Draw(c.T, "turn") {
				a += math.Pi
			}
			r := sim.F(c, "r", 0.1, 3, 40)
			x[(axis+1)%3][i], x[(axis+2)%3][i] = math.Cos(a), math.Sin(a)
			if i > 0 {
				sb.WriteString("\n")
			}
			for k := range x {
				fmt.Fprintf(&sb, "%.17g ", x[k][i])
				x[k][i] *= r
			}
			pad := strings.Repeat(" ", rapid.IntRange(0, 4).Draw(c.T, "pad"))
			fmt.Fprintf(&sb, "%s%.17g", pad, r)
			if rapid.Bool().Draw(c.T, "label") {
				sb.WriteString("   Red")
			}
		}
		c.Desc("axis %d points %v", axis, x)
		file := filepath.Join(vk.Scratch(), "points.txt")
		if err := os.WriteFile(file, []byte(sb.String()), 0666); err != nil {
			vk.Harness("%v", err)
		}
		u, v := x[0], x[1]
		if axis == 0 {
			u = x[1]
		}
		if axis < 2 {
			v = x[2]
		}
		for _, script := range []string{"kde.py", "2d_kde.py", "penna.py"} {
			got := evalText(c, script, "read_plane(text)[:2] + ([read_plane(text)[2]],)", file, nil, nil)
			same(c, script+": first coordinate in the plane", got[0], u, 1e-12)
			same(c, script+": second coordinate in the plane", got[1], v, 1e-12)
			if int(got[2][0]) != axis {
				c.Fatalf("%s: the plane's axis is %v", script, got[2])
			}
			full := "read_pts"
			if script == "2d_kde.py" {
				got = evalText(c, script, "read_pts(text)", file, nil, nil)
				same(c, script+": first coordinate", got[0], u, 1e-12)
				same(c, script+": second coordinate", got[1], v, 1e-12)
				full = "read_full"
			}
			got = evalText(c, script, full+"(text)", file, nil, nil)
			for k := range x {
				same(c, fmt.Sprintf("%s: coordinate %d", script, k), got[k], x[k], 1e-12)
			}
		}
		c.NonTrivial(n > 2)
	})
}

// --- Lines of sight ---

// The lines between missing values.
func TestSplit(t *testing.T) {
	vk.Run(t, 600, 12000, func(c *vk.C) {
		script := rapid.SampledFrom([]string{"profile.py", "plot_savgol_profile.py", "plot_profile.py"}).Draw(c.T, "script")
		n := vk.Size(c, "n", 1, 14, 300)
		xs, ys := make([]float64, n), make([]float64, n)
		var want [][2][]float64
		open := false
		for i := range xs {
			xs[i], ys[i] = float64(i)+0.5, sim.F(c, "y", 0, 9, 8)
			if rapid.IntRange(0, 2).Draw(c.T, "missing") == 0 {
				if script == "profile.py" && rapid.Bool().Draw(c.T, "abscissa") {
					xs[i] = math.NaN()
				} else {
					ys[i] = math.NaN()
				}
				open = false
				continue
			}
			if !open {
				want = append(want, [2][]float64{})
			}
			open = true
			w := &want[len(want)-1]
			w[0], w[1] = append(w[0], xs[i]), append(w[1], ys[i])
		}
		c.Desc("%s xs %v ys %v", script, xs, ys)
		got := eval(c, script, "(lambda g: list(g[0]) + list(g[1]))(nan_split(xs, ys))", arrays{"xs": xs, "ys": ys}, nil)
		if len(got) != 2*len(want) {
			c.Fatalf("%d parts, want %d: %v", len(got)/2, len(want), got)
		}
		for i := range want {
			same(c, "abscissa", got[i], want[i][0], 0)
			same(c, "ordinate", got[len(want)+i], want[i][1], 0)
		}
		c.NonTrivial(len(want) > 1)
	})
}

// Rebinned curves are the means over the bins.
func TestRebin(t *testing.T) {
	vk.Run(t, 600, 12000, func(c *vk.C) {
		class := rapid.SampledFrom([][2]string{{"profile.py", "BinConverter"}, {"plot_savgol_profile.py", "SplinedBinConverter"}, {"plot_profile.py", "SplinedBinConverter"}}).Draw(c.T, "class")
		bins := vk.Size(c, "bins", 1, 12, 200)
		// edges and nodes on eighths, so that they can coincide
		low := float64(rapid.IntRange(-24, 8).Draw(c.T, "low")) / 8
		high := low + float64(bins)*float64(rapid.IntRange(1, 8).Draw(c.T, "bin"))/8
		n := vk.Size(c, "n", 1, 12, 150)
		xs := make([]float64, n)
		x := low + float64(rapid.IntRange(-16, 16).Draw(c.T, "start"))/8
		fine := rapid.Bool().Draw(c.T, "off the grid")
		for i := range xs {
			xs[i] = x
			x += float64(rapid.IntRange(1, 6).Draw(c.T, "step")) / 8
			if fine {
				x += sim.F(c, "more", 0, 0.1, 8)
			}
		}
		var co [4]float64
		for i := range co {
			co[i] = sim.F(c, "coefficient", -2, 2, 8)
		}
		mid, span := (xs[0]+xs[n-1])/2, xs[n-1]-xs[0]+1
		f := func(x float64) float64 {
			u := (x - mid) / span
			return co[0] + u*(co[1]+u*(co[2]+u*co[3]))
		}
		F := func(x float64) float64 {
			u := (x - mid) / span
			return span * u * (co[0] + u*(co[1]/2+u*(co[2]/3+u*co[3]/4)))
		}
		ys := make([]float64, n)
		var in []float64
		for i := range xs {
			ys[i] = f(xs[i])
			if xs[i] >= low && xs[i] <= high {
				in = append(in, xs[i])
			}
		}
		c.Desc("%v %d bins from %g to %g, cubic %v at %v", class, bins, low, high, co, xs)
		got := eval(c, class[0], "(lambda r: [] if r[0] is None and r[1] is None else list(r))("+class[1]+"(lo, hi, bins).convert(xs, ys))",
			arrays{"xs": xs, "ys": ys}, numbers{"lo": low, "hi": high, "bins": float64(bins)})
		if len(in) <= 3 {
			if len(got) != 0 {
				c.Fatalf("a curve of %d nodes within the bins is converted to %v", len(in), got)
			}
			c.NonTrivial(false)
			return
		}
		if len(got) != 2 || len(got[0]) != len(got[1])+1 {
			c.Fatalf("the edges and values of the bins are %v", got)
		}
		// The bins the curve reaches, whole; or, of a curve within one bin,
		// its ends.
		width := (high - low) / float64(bins)
		var edges []float64
		for i := 0; i < bins; i++ {
			a, b := low+width*float64(i), low+width*float64(i+1)
			if b > in[0] && a < in[len(in)-1] {
				if len(edges) == 0 {
					edges = append(edges, a)
				}
				edges = append(edges, b)
			}
		}
		if len(edges) == 2 && (len(got[0]) != 2 || got[0][0] != edges[0] || got[0][1] != edges[1]) {
			edges = []float64{in[0], in[len(in)-1]}
		}
		same(c, "edge", got[0], edges, 1e-9)
		for i, v := range got[1] {
			a, b := math.Max(edges[i], in[0]), math.Min(edges[i+1], in[len(in)-1])
			c.Near(fmt.Sprintf("mean over bin %d", i), v, (F(b)-F(a))/(b-a), 1e-7*(1+span/(b-a)))
		}
		c.NonTrivial(len(edges) > 2)
		c.LabelIf(in[0] != edges[0] || in[len(in)-1] != edges[len(edges)-1], "bins covered in part")
		c.LabelIf(in[0] == edges[0], "from an edge")
	})
}

// Splashback radii: the steepest of the local minima of the slope below the
// limit where the density is the lowest so far.
func splashback(rhos, ds []float64, lim float64) int {
	best, low := -1, math.Inf(1)
	for i := range rhos {
		low = math.Min(low, rhos[i])
		if i == 0 || i == len(rhos)-1 || !(ds[i] < ds[i-1] && ds[i] < ds[i+1]) {
			continue
		}
		if rhos[i] <= low && ds[i] < lim && (best < 0 || ds[i] < ds[best]) {
			best = i
		}
	}
	return best
}

func TestSplashback(t *testing.T) {
	vk.Run(t, 800, 16000, func(c *vk.C) {
		n := vk.Size(c, "n", 3, 16, 200)
		rs, rhos, ds := make([]float64, n), make([]float64, n), make([]float64, n)
		rho := 50.0
		for i := range rs {
			rs[i] = 0.1 * float64(i+1)
			rho -= float64(rapid.IntRange(-4, 8).Draw(c.T, "drop")) / 2
			rhos[i] = rho
			ds[i] = -float64(rapid.IntRange(0, 12).Draw(c.T, "slope"))
		}
		lim := -float64(rapid.IntRange(0, 8).Draw(c.T, "limit"))
		c.Desc("rhos %v slopes %v limit %g", rhos, ds, lim)
		want := splashback(rhos, ds, lim)
		got := eval(c, "plot_savgol_profile.py", "[[r_sp(rs, rhos, ds, lim)]]", arrays{"rs": rs, "rhos": rhos, "ds": ds}, numbers{"lim": lim})[0][0]
		if want < 0 && !math.IsNaN(got) || want >= 0 && got != rs[want] {
			c.Fatalf("r_sp is %v, want that of %d", got, want)
		}
		want = splashback(rhos, ds, -5)
		got = eval(c, "profile.py", `(lambda p: [[-1. if p.r_sp(0) is None else p.r_sp(0), p.contains_caustic(), p.segments(), p.r_sp(0) or -1]])(
			type("P", (AbstractProfile,), {"__init__": AbstractProfile.__init__})([rs], [rhos + 4096], [1, 0, 0], [ds]))`,
			arrays{"rs": rs, "rhos": rhos, "ds": ds}, nil)[0][0]
		if want < 0 && got != -1 || want >= 0 && got != rs[want] {
			c.Fatalf("profile.py: r_sp is %v, want that of %d", got, want)
		}
		// plot_profile.py has the variants without the conditions.
		if n > 2 {
			got := eval(c, "plot_profile.py", "caustic_min(rs, rhos, ds, lim) + local_caustic_min(rs, rhos, ds) + naive_caustic_min(rs, rhos, ds)",
				arrays{"rs": rs, "rhos": rhos, "ds": ds}, numbers{"lim": lim})
			none := make([]float64, n)
			best := 0
			for i := range ds {
				if ds[i] < ds[best] {
					best = i
				}
			}
			if best == n-1 || best == 0 {
				best = -1
			}
			for v, w := range []int{splashback(rhos, ds, lim), splashback(none, ds, math.Inf(1)), best} {
				for k, a := range [][]float64{rs, ds, rhos} {
					if w < 0 {
						same(c, fmt.Sprintf("plot_profile.py, variant %d", v), got[3*v+k], nil, 0)
					} else {
						same(c, fmt.Sprintf("plot_profile.py, variant %d", v), got[3*v+k], a[w:w+1], 0)
					}
				}
			}
		}
		c.NonTrivial(want >= 0)
	})
}

// curve is a profile with a drop: radii evenly spaced in the logarithm.
func curve(c *vk.C, n int) (rs, rhos []float64) {
	rs, rhos = make([]float64, n), make([]float64, n)
	seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "seed"))
	steep := sim.F(c, "steep", 3, 14, 22)
	at, wide := sim.F(c, "at", 0.2, 0.9, 14), sim.F(c, "wide", 0.02, 0.2, 9)
	noise := sim.F(c, "noise", 0, 0.1, 4)
	lr, lrho := -1.0+1e-3, 4.0
	d := 1.4 / float64(n-1)
	for i := range rs {
		rs[i], rhos[i] = math.Pow(10, lr), math.Pow(10, lrho+noise*sim.Noise(seed, i, 0))
		u := (float64(i)/float64(n-1) - at) / wide
		lrho -= d * (1 + steep*math.Exp(-u*u))
		lr += d
	}
	c.Desc("drop of %g at %g, %g wide, noise %g, seed %d, n %d", steep, at, wide, noise, seed, n)
	return rs, rhos
}

// logs are numpy's: the last digits decide about extrema of symmetric curves.
func logs(c *vk.C, x []float64) []float64 {
	return eval(c, "plot_savgol_profile.py", "[np.log10(x)]", arrays{"x": x}, nil)[0]
}

const smooth = "[signal.savgol_filter(y, w, 4), signal.savgol_filter(y, w, 4, deriv=1, delta=(x[-1] - x[0]) / (len(x) - 1))]"

// at is the radius of the splashback of a curve smoothed over a window.
func at(c *vk.C, x, y []float64, w int, lim float64) (float64, bool) {
	s := eval(c, "plot_savgol_profile.py", smooth, arrays{"x": x, "y": y}, numbers{"w": float64(w)})
	i := splashback(s[0], s[1], lim)
	if i < 0 {
		return math.NaN(), false
	}
	return x[i], true
}

func TestWindows(t *testing.T) {
	vk.Run(t, 60, 1500, func(c *vk.C) {
		n := rapid.IntRange(20, 90).Draw(c.T, "n")
		rs, rhos := curve(c, n)
		x, y := logs(c, rs), logs(c, rhos)
		max := rapid.IntRange(8, 101).Draw(c.T, "range")
		window := 2*rapid.IntRange(2, 20).Draw(c.T, "window") + 1
		found := 0
		if window < n {
			want, ok := at(c, x, y, window, -5)
			got := eval(c, "plot_savgol_profile.py", "[[find_splashback(x, y, w)]]", arrays{"x": x, "y": y}, numbers{"w": float64(window)})[0][0]
			if ok != !math.IsNaN(got) || ok && got != want {
				c.Fatalf("splashback with window %d: %v, want %v", window, got, want)
			}
			if ok {
				found++
			}
		}
		// The radii of all windows until one has none.
		var want []float64
		for w := 5; w/2 < max/2 && w < n; w += 2 {
			r, ok := at(c, x, y, w, -5)
			if !ok {
				break
			}
			want = append(want, math.Pow(10, r))
		}
		got := eval(c, "plot_savgol_profile.py", "[splashback_range(rs, rhos, range_max=m)]", arrays{"rs": rs, "rhos": rhos}, numbers{"m": float64(max)})
		same(c, "radius", got[0], want, 1e-9)

		// Profiles smoothed over many windows, on their own bins.
		maxWindow := rapid.IntRange(window+2, 83).Draw(c.T, "max window")
		p := eval(c, "profile.py", `(lambda raw: (lambda m: [raw.rs(0), raw.rhos(0), [m.segments(), m.full_segments()],
			[m.r_sp(i) or -1 for i in range(m.segments())], m.smoothed_full_profiles(0)[0],
			[p.r_sp(0) or -1 for p in m.smoothed_full_profiles(0)[1]], [p.sg_window() for p in m.smoothed_full_profiles(0)[1]]])
			(raw.multi_smoothed_profile(w, max_window=m)))(RawProfile(rs, rhos, [0, 0, 1], BinConverter(-2, 1, 200)))`,
			arrays{"rs": rs, "rhos": rhos}, numbers{"w": float64(window), "m": float64(maxWindow)})
		bx, by := logs(c, p[0]), logs(c, p[1])
		var radii, windows []float64
		valid := true
		for w := 5; w < maxWindow; w += 2 {
			if len(bx) <= w {
				break
			}
			r, ok := at(c, bx, by, w, -5)
			if !ok {
				break
			}
			r = math.Pow(10, r)
			if k := len(radii); k > 0 && math.Abs(r-radii[k-1])/r > 0.1 {
				valid = false
				break
			}
			radii, windows = append(radii, r), append(windows, float64(w))
		}
		valid = valid && len(radii) > (window-5)/2
		same(c, "radius of the smoothed profiles", p[5], radii, 1e-9)
		same(c, "window", p[4], windows, 0)
		same(c, "window of the smoothed profiles", p[6], windows, 0)
		segments := 0.0
		if valid {
			segments = 1
			same(c, "radius of the segment", p[3], radii[(window-5)/2:(window-5)/2+1], 1e-9)
		}
		same(c, "segments", p[2], []float64{segments, 1}, 0)
		c.NonTrivial(found > 0 && len(want) > 1)
		c.LabelIf(valid, "same radius in all windows")
		c.LabelIf(!valid && len(radii) > 1, "radii that differ")
	})
}

// The script that turns the lines of sight of profile.go into a file of
// splashback points.
func TestLines(t *testing.T) {
	vk.Run(t, 40, 800, func(c *vk.C) {
		lines, n := rapid.IntRange(1, 9).Draw(c.T, "lines"), rapid.IntRange(40, 90).Draw(c.T, "n")
		window := 2*rapid.IntRange(2, 12).Draw(c.T, "window") + 1
		plane := rapid.IntRange(-1, 2).Draw(c.T, "plane")
		round := func(x float64) (string, float64) {
			s := fmt.Sprintf("%9.4g", x)
			v, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
			if err != nil {
				vk.Harness("%v", err)
			}
			return s, v
		}
		u := make([][3]float64, lines)
		rows := make([]string, 3+n)
		rs, rhos := make([][]float64, lines), make([][]float64, lines)
		nan := fmt.Sprintf("%9.4g", math.NaN())
		for i := range u {
			r, rho := curve(c, n)
			if rapid.IntRange(0, 3).Draw(c.T, "missing") == 0 {
				rho[rapid.IntRange(0, n-1).Draw(c.T, "missing at")] = math.NaN()
			}
			a, z := sim.F(c, "angle", 0.1, 6.1, 60), sim.F(c, "z", -0.9, 0.9, 18)
			u[i] = [3]float64{math.Cos(a) * math.Sqrt(1-z*z), math.Sin(a) * math.Sqrt(1-z*z), z}
			if plane >= 0 {
				u[i][(plane+1)%3], u[i][(plane+2)%3], u[i][plane] = math.Cos(a), math.Sin(a), 0
			}
			for k := range u[i] {
				s, v := round(u[i][k])
				rows[k] += s + " " + nan + " "
				u[i][k] = v
			}
			for j := range r {
				s, v := round(r[j])
				s2, v2 := round(rho[j])
				rows[3+j] += s + " " + s2 + " "
				r[j], rho[j] = v, v2
			}
			rs[i], rhos[i] = r, rho
		}
		file := filepath.Join(vk.Scratch(), "lines.txt")
		out := filepath.Join(vk.Scratch(), "caustic.txt")
		os.Remove(out)
		if err := os.WriteFile(file, []byte("# The first three rows are unit vector components.\n"+strings.Join(rows, "\n")+"\n"), 0666); err != nil {
			vk.Harness("%v", err)
		}
		c.Desc("%d lines, plane %d, window %d, directions %v", lines, plane, window, u)
		var want [][]float64
		found := 0
		for i := range u {
			p := eval(c, "profile.py", "(lambda p: [[p.r_sp(i) or -1 for i in range(p.segments())]])(RawProfile(rs, rhos, [0, 0, 1]).smoothed_profile(w))",
				arrays{"rs": rs[i], "rhos": rhos[i]}, numbers{"w": float64(window)})
			any := false
			for _, r := range p[0] {
				if r > 0 {
					want = append(want, []float64{u[i][0] * r, u[i][1] * r, u[i][2] * r, float64(found)})
					any = true
				}
			}
			if any {
				found++
			}
		}
		flat := false
		for k := 0; k < 3; k++ {
			all := true
			for i := range u {
				all = all && u[i][k] == 0
			}
			flat = flat || all
		}
		if flat && len(want) == 0 {
			c.NonTrivial(false) // there is no group to plot
			return
		}
		r := py.Run("render/scripts/plot_filament_remover.py", file, filepath.Join(vk.Scratch(), "plot"), fmt.Sprint(window), out)
		if r.Error != "" || r.Fields["status"][0] != 0 {
			c.Fatalf("plot_filament_remover.py: %s %s", r.Error, r.Text)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if len(want) == 0 {
			if strings.TrimSpace(string(b)) != "" {
				c.Fatalf("points %q where there are none", b)
			}
			c.NonTrivial(false)
			return
		}
		for _, script := range []string{"kde.py", "penna.py"} {
			got := evalText(c, script, "read_pts(text)", out, nil, nil)
			for k := range got {
				if len(got[k]) != len(want) {
					c.Fatalf("%s reads %d points, want %d", script, len(got[k]), len(want))
				}
				for i := range want {
					c.Near(fmt.Sprintf("%s: coordinate %d of point %d", script, k, i), got[k][i], want[i][k], 1e-3*(1+math.Abs(want[i][k])))
				}
			}
		}
		// The points of a line have its colour.
		colours := map[string]float64{}
		for i, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			f := strings.Fields(l)
			if v, ok := colours[f[len(f)-1]]; len(f) != 5 || ok && v != want[i][3] {
				c.Fatalf("line %q has the colour of another", l)
			}
			colours[f[4]] = want[i][3]
		}
		c.NonTrivial(len(want) > 1)
		c.LabelIf(plane >= 0, "in a plane")
	})
}

// A tree of density estimates follows points on a circle.
func TestTree(t *testing.T) {
	vk.Run(t, 25, 600, func(c *vk.C) {
		seed := uint64(rapid.IntRange(0, 1<<20).Draw(c.T, "seed"))
		n := rapid.IntRange(300, 900).Draw(c.T, "points")
		splits := rapid.IntRange(1, 4).Draw(c.T, "splits")
		a, turn := sim.F(c, "wobble", 0, 0.15, 6), sim.F(c, "turn", -3, 3, 30)
		scale := sim.F(c, "scale", 0.2, 3, 14)
		c.Desc("%d points, seed %d, wobble %g turned by %g, scale %g, %d splits", n, seed, a, turn, scale, splits)
		shell := func(th float64) float64 { return scale * (1 + a*math.Cos(th-turn)) }
		rs, ths := make([]float64, n), make([]float64, n)
		for i := range rs {
			ths[i] = math.Pi * (2*(float64(i)+0.5)/float64(n) - 1)
			rs[i] = shell(ths[i]) * (1 + 0.04*sim.Noise(seed, i, 0))
			if i%17 == 0 { // elsewhere
				rs[i] = scale * (1.5 + 0.3*sim.Unit(seed, i, 1))
			}
		}
		got := eval(c, "2d_kde.py", `(lambda t: [t.get_conn_maxes(splits)[0], t.get_conn_maxes(splits)[1], t.get_spline(splits)(at)] +
			list(t.filter_nearby(rs, ths, splits)))(KDETree(rs, ths, splits))`, arrays{"rs": rs, "ths": ths, "at": ths}, numbers{"splits": float64(splits)})
		bins := 1 << uint(splits)
		if len(got[0]) != bins || len(got[1]) != bins {
			c.Fatalf("%d maxima in %d bins, want %d", len(got[0]), len(got[1]), bins)
		}
		for i, th := range got[1] {
			c.Near("middle of the bin", th, 2*math.Pi*(float64(i)+0.5)/float64(bins), 1e-12)
			// The points of a bin are spread by the wobble over its width.
			c.Near("maximum", got[0][i], shell(th), scale*(0.05+a*math.Min(1, math.Pi/float64(bins))))
		}
		h := 0.0
		for _, r := range rs {
			h = math.Max(h, r/10)
		}
		var kr, kt []float64
		for i, r := range rs {
			if math.Abs(r-got[2][i]) < h {
				kr, kt = append(kr, r), append(kt, ths[i])
			}
		}
		same(c, "radius nearby", got[3], kr, 0)
		same(c, "angle nearby", got[4], kt, 0)
		if splits >= 3 {
			for i, th := range ths {
				c.Near("spline", got[2][i], shell(th), scale*(0.06+1.1*a*math.Pi/float64(bins)))
			}
		}
		c.NonTrivial(splits > 1)
	})
}

// Profiles which are power laws have their slope everywhere, smoothed or not.
func TestPowerLaw(t *testing.T) {
	vk.Run(t, 200, 4000, func(c *vk.C) {
		k, A := sim.F(c, "slope", -6, 3, 16), sim.F(c, "A", 0.1, 90, 8)
		n := vk.Size(c, "n", 30, 300, 1000)
		r0 := sim.F(c, "r0", 0.011, 0.1, 16)
		r1 := sim.F(c, "r1", 0.5, 9, 16)
		if rapid.Bool().Draw(c.T, "linear") {
			r0 = 0
		}
		rs, rhos := make([]float64, n), make([]float64, n)
		gap := 0
		if rapid.Bool().Draw(c.T, "gap") {
			gap = rapid.IntRange(n/3, 2*n/3).Draw(c.T, "missing")
			if rapid.IntRange(0, 2).Draw(c.T, "near the start") == 0 {
				gap = rapid.IntRange(1, 8).Draw(c.T, "missing")
			}
		}
		for i := range rs {
			f := float64(i) / float64(n-1)
			if r0 > 0 {
				rs[i] = r0 * math.Pow(r1/r0, f)
			} else {
				rs[i] = r1 * f
			}
			rhos[i] = A * math.Pow(rs[i], k)
			if i == gap && gap > 0 {
				rhos[i] = rapid.SampledFrom([]float64{0, math.NaN()}).Draw(c.T, "value")
			}
		}
		if rs[0] == 0 {
			rhos[0] = 0
		}
		window := 2*rapid.IntRange(2, 12).Draw(c.T, "window") + 1
		c.Desc("%g r^%g, %d radii from %g to %g, without %d, window %d", A, k, n, r0, r1, gap, window)
		expr := `(lambda p: [f(i) for i in range(p.segments()) for f in (p.rs, p.rhos, p.lderivs)])(RawProfile(rs, rhos, [1, 0, 0])%s)`
		a := arrays{"rs": rs, "rhos": rhos}
		nums := numbers{"window": float64(window)}
		raw := eval(c, "profile.py", fmt.Sprintf(expr, ""), a, nums)
		smooth := eval(c, "profile.py", fmt.Sprintf(expr, ".smoothed_profile(window)"), a, nums)
		check := func(what string, p [][]float64, edge int) int {
			seen := 0
			for s := 0; s+2 < len(p); s += 3 {
				if len(p[s]) != len(p[s+1]) || len(p[s]) != len(p[s+2]) {
					c.Fatalf("%s: %d radii, %d densities, %d slopes", what, len(p[s]), len(p[s+1]), len(p[s+2]))
				}
				for i := edge; i < len(p[s])-edge; i++ {
					seen++
					// the ends of a curve cover their bins in part
					c.Near(what+": slope", p[s+2][i], k, 1e-5*(1+math.Abs(k)))
					c.Near(what+": density over the power law", p[s+1][i]/(A*math.Pow(p[s][i], k)), 1, 1e-6)
				}
			}
			return seen
		}
		seen := check("raw", raw, 5)
		seen2 := check("smoothed", smooth, window/2+2)
		// A segment of more bins than the window is smoothed, others are not.
		long := 0
		for s := 0; s+2 < len(raw); s += 3 {
			if len(raw[s]) > window {
				if 3*long >= len(smooth) || len(smooth[3*long]) != len(raw[s]) {
					c.Fatalf("segment %d of %d bins is lost in smoothing", s/3, len(raw[s]))
				}
				same(c, "smoothed radius", smooth[3*long], raw[s], 1e-9)
				long++
			}
		}
		if len(smooth) != 3*long {
			c.Fatalf("%d smoothed segments, want %d", len(smooth)/3, long)
		}
		c.NonTrivial(seen > 0 && seen2 > 0)
		c.LabelIf(len(raw) > 3, "several segments")
	})
}

// Shells in a plane: coordinates and angles of the lines of sight.
func TestPlane(t *testing.T) {
	vk.Run(t, 300, 6000, func(c *vk.C) {
		axis := rapid.IntRange(0, 2).Draw(c.T, "axis")
		n := vk.Size(c, "lines", 2, 6, 60)
		angles, rs := make([]float64, n), make([]float64, n)
		u := [3][]float64{make([]float64, n), make([]float64, n), make([]float64, n)}
		j0, j1 := 0, 1
		if axis == 0 {
			j0 = 1
		}
		if axis < 2 {
			j1 = 2
		}
		for i := range angles {
			angles[i] = sim.F(c, "angle", -3, 3, 60)
			if i == 0 {
				angles[i] = 1
			}
			rs[i] = sim.F(c, "r", 0.1, 3, 40)
			u[j0][i], u[j1][i] = math.Cos(angles[i]), math.Sin(angles[i])
		}
		c.Desc("axis %d angles %v radii %v", axis, angles, rs)
		got := eval(c, "profile.py", `(lambda g: [g.rs(), g.angles(), [g.axis()]] + list(g.coords(np.array(g.rs()), np.array(g.angles()))))(ProfileGroup2D(
			[type("P", (object,), {"segments": lambda s: 2, "r_sp": lambda s, i: (None, s.r)[i], "unit": lambda s: s.u, "r": r, "u": np.array(u)})()
			for r, u in zip(rs, zip(ux, uy, uz))]))`, arrays{"rs": rs, "ux": u[0], "uy": u[1], "uz": u[2]}, nil)
		same(c, "radius", got[0], rs, 0)
		same(c, "angle", got[1], angles, 1e-12)
		// The line a profile is in a file of points.
		line := eval(c, "profile.py", `[[float(x) for x in type("P", (AbstractProfile,), {"__init__": lambda s: None, "r_sp": lambda s, i: rs[0], "_unit": [ux[0], uy[0], uz[0]]})().string(0, "Red").split()[:4]]]`,
			arrays{"rs": rs, "ux": u[0], "uy": u[1], "uz": u[2]}, nil)
		same(c, "field of the line", line[0], []float64{u[0][0], u[1][0], u[2][0], rs[0]}, 1e-3)
		if int(got[2][0]) != axis {
			c.Fatalf("axis %v", got[2])
		}
		for k := range u {
			for i := range rs {
				c.Near("coordinate", got[3+k][i], rs[i]*u[k][i], 1e-12)
			}
		}
		c.NonTrivial(n > 2)
	})
}

// Values are kept by what goes with them.
func TestFilter(t *testing.T) {
	vk.Run(t, 300, 6000, func(c *vk.C) {
		n := vk.Size(c, "n", 1, 10, 200)
		v, f := make([]float64, n), make([]float64, n)
		target, eta := sim.F(c, "target", 0.5, 4, 8), sim.F(c, "eta", 0.1, 0.9, 7)
		var want []float64
		for i := range v {
			v[i], f[i] = float64(i), sim.F(c, "by", 0, 8, 50)
			if f[i] < target*(1+eta) && f[i] > target*(1-eta) {
				want = append(want, v[i])
			}
		}
		c.Desc("by %v around %g, %g", f, target, eta)
		got := eval(c, "penna.py", "[filter_around(v, f, target, eta=eta)]", arrays{"v": v, "f": f}, numbers{"target": target, "eta": eta})
		same(c, "kept", got[0], want, 0)
		// Chi squared per degree of freedom.
		var sum, mean float64
		for i := range f {
			sum += (v[i] - f[i]) * (v[i] - f[i])
			mean += f[i] / float64(n)
		}
		if k := rapid.IntRange(0, 3).Draw(c.T, "parameters"); n > k+1 && mean > 0 {
			dof := float64(n - 1 - k)
			got = eval(c, "penna.py", "[[chi2(lambda p, t: p + t, v - 1, 1, f, k)]]", arrays{"v": v, "f": f}, numbers{"k": float64(k)})
			c.Near("chi squared over the mean radius", got[0][0], sum/dof/mean/mean, 1e-9*(1+sum/mean/mean))
			got = eval(c, "kde.py", "[[chi2(v, f, k)]]", arrays{"v": v, "f": f}, numbers{"k": float64(k)})
			c.Near("chi squared", got[0][0], sum/dof, 1e-9*(1+sum))
		}
		// Local maxima.
		m := append([]float64{}, f...)
		var peaks []float64
		for i := 1; i+1 < n; i++ {
			if m[i] > m[i-1] && m[i] > m[i+1] {
				peaks = append(peaks, float64(i))
			}
		}
		if n >= 3 {
			same(c, "maximum", eval(c, "2d_kde.py", "[argmaxes(f)]", arrays{"f": f}, nil)[0], peaks, 0)
		}
		c.NonTrivial(len(want) > 0)
	})
}
