// C33: halo radius and mass definitions.
package c33

import (
	"math"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/render/halo"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

type def struct {
	r     halo.Radius
	name  string
	delta float64
	mean  bool
	col   int
	mass  bool
}

var defs = []def{
	{halo.RVirial, "vir", 18 * math.Pi * math.Pi, false, 11, false},
	{halo.R200c, "200c", 200, false, 37, true},
	{halo.R200m, "200m", 200, true, 36, true},
	{halo.R500c, "500c", 500, false, 38, true},
	{halo.R2500c, "2500c", 2500, false, 39, true},
}

func TestRadii(t *testing.T) {
	vk.Run(t, 4000, 200000, func(c *vk.C) {
		d := defs[rapid.IntRange(0, len(defs)-1).Draw(c.T, "definition")]
		hd := &io.CosmologyHeader{}
		hd.OmegaM = sim.F(c, "omega_m", 0.05, 1, 95)
		hd.OmegaL = 1 - hd.OmegaM
		if rapid.IntRange(0, 4).Draw(c.T, "curved") == 0 {
			hd.OmegaL = sim.F(c, "omega_l", 0, 1.2, 120)
		}
		hd.H100 = sim.F(c, "h", 0.4, 1.2, 80)
		if rapid.Bool().Draw(c.T, "past") {
			hd.Z = sim.F(c, "z", 0, 15, 1500)
		}
		n := rapid.IntRange(0, 8).Draw(c.T, "n")
		seed := -1
		if rapid.IntRange(0, 99).Draw(c.T, "many") == 0 {
			n = vk.Round(c, "n", 9, 6000)
			seed = rapid.IntRange(0, 1<<20).Draw(c.T, "masses")
		}
		ms, in := make([]float64, n), make([]float64, n)
		for i := range ms {
			if seed >= 0 {
				ms[i] = math.Pow(10, 6+10*sim.Unit(uint64(seed), i, 0))
				in[i] = ms[i]
				continue
			}
			ms[i] = math.Pow(10, sim.F(c, "log mass", 6, 16, 1000))
			if rapid.IntRange(0, 19).Draw(c.T, "none") == 0 {
				ms[i] = 0
			}
			in[i] = ms[i]
		}
		c.Desc("%s at z = %g, omega_m %g, omega_l %g, h %g; masses %v", d.name, hd.Z, hd.OmegaM, hd.OmegaL, hd.H100, ms)

		h0 := 100 * hd.H100
		rho := d.delta * cosmo.RhoCritical(h0, hd.OmegaM, hd.OmegaL, hd.Z)
		if d.mean {
			rho = d.delta * cosmo.RhoAverage(h0, hd.OmegaM, hd.OmegaL, hd.Z)
		}
		// Radii are comoving, densities per physical volume.
		vol := func(r float64) float64 { return 4 * math.Pi / 3 * math.Pow(r/(1+hd.Z), 3) }

		rs := make([]float64, n)
		for i := range rs {
			rs[i] = -1
		}
		d.r.Radius(hd, in, rs)
		for i := range ms {
			if in[i] != ms[i] {
				c.Fatalf("mass %d was changed from %g to %g", i, ms[i], in[i])
			}
			c.Near("mass within the radius", vol(rs[i])*rho, ms[i], 1e-5*ms[i])
		}
		back := make([]float64, n)
		d.r.Mass(hd, rs, back)
		for i := range ms {
			c.Near("mass of the radius of a mass", back[i], ms[i], 1e-10*ms[i])
			c.Near("mass within the radius", back[i], vol(rs[i])*rho, 1e-5*ms[i])
		}
		// In place.
		d.r.Radius(hd, in, in)
		for i := range ms {
			if in[i] != rs[i] {
				c.Fatalf("radius %d in place is %g, not %g", i, in[i], rs[i])
			}
		}
		d.r.Mass(hd, in, in)
		for i := range ms {
			if in[i] != back[i] {
				c.Fatalf("mass %d in place is %g, not %g", i, in[i], back[i])
			}
		}
		// Denser definitions are smaller.
		for _, e := range defs {
			if e.mean != d.mean || e.delta <= d.delta {
				continue
			}
			out := make([]float64, n)
			e.r.Radius(hd, ms, out)
			for i := range out {
				if ms[i] > 0 && !(out[i] < rs[i]) {
					c.Fatalf("for mass %g, %s is %g and %s is %g", ms[i], d.name, rs[i], e.name, out[i])
				}
			}
		}
		// The same for any header that was used before.
		other := *hd
		switch rapid.IntRange(0, 3).Draw(c.T, "change") {
		case 0:
			other.H100 *= 1.25
		case 1:
			other.OmegaL = other.OmegaL/2 + 0.1
		case 2:
			other.OmegaM = other.OmegaM/2 + 0.1
		default:
			other.Z += 0.5
		}
		mass, rad := make([]float64, n), make([]float64, n)
		d.r.Radius(&other, ms, rad)
		d.r.Mass(&other, rad, mass)
		for i := range ms {
			c.Near("mass of the radius of a mass, in another cosmology", mass[i], ms[i], 1e-10*ms[i])
		}
		d.r.Radius(hd, ms, rad)
		d.r.Mass(hd, rad, mass)
		for i := range ms {
			if rad[i] != rs[i] || mass[i] != back[i] {
				c.Fatalf("mass %g: radius %g and mass %g, before another cosmology they were %g, %g", ms[i],
					rad[i], mass[i], rs[i], back[i])
			}
		}
		c.LabelIf(hd.Z > 0, "before today")
		c.NonTrivial(n > 0)
	})
}

func TestNames(t *testing.T) {
	vk.Run(t, 2000, 20000, func(c *vk.C) {
		d := defs[rapid.IntRange(0, len(defs)-1).Draw(c.T, "definition")]
		c.Desc("%s", d.name)
		if r, ok := halo.RadiusFromString(d.r.String()); !ok || r != d.r {
			c.Fatalf("%q reads as %d, %v", d.r.String(), r, ok)
		}
		if d.r.RockstarColumn() != d.col || d.r.RockstarMass() != d.mass {
			c.Fatalf("catalogue column %d (mass: %v)", d.r.RockstarColumn(), d.r.RockstarMass())
		}
		// Any capitals, with or without the R.
		s := []byte(d.name)
		if rapid.Bool().Draw(c.T, "r") {
			s = append([]byte("r"), s...)
		}
		for i := range s {
			if rapid.Bool().Draw(c.T, "upper") {
				s[i] = strings.ToUpper(string(s[i]))[0]
			}
		}
		c.Desc("name %q", s)
		if r, ok := halo.RadiusFromString(string(s)); !ok || r != d.r {
			c.Fatalf("%q reads as %d, %v", s, int(r), ok)
		}
		// Names that are none.
		j := rapid.StringOfN(rapid.RuneFrom([]rune("rRvi2050cm ")), 0, 6, -1).Draw(c.T, "junk")
		if rapid.Bool().Draw(c.T, "almost") { // one character more, less or different
			r := string(s)
			at := rapid.IntRange(0, len(r)).Draw(c.T, "at")
			one := rapid.SampledFrom([]string{"", "r", "R", "0", "2", "5", "m", "c", "v", " ", "200m"}).Draw(c.T, "one")
			end := at + rapid.IntRange(0, 1).Draw(c.T, "cut")
			if end > len(r) {
				end = at
			}
			j = r[:at] + one + r[end:]
		}
		known := false
		for _, e := range defs {
			l := strings.ToLower(j)
			known = known || l == e.name || l == "r"+e.name
		}
		if _, ok := halo.RadiusFromString(j); ok != known {
			c.Fatalf("%q is taken for a radius: %v", j, ok)
		}
		c.NonTrivial(true)
	})
}
