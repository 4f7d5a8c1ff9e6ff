// C30: cosmological densities.
package c30

import (
	"math"
	"testing"

	"github.com/phil-mansfield/gotetra/cosmo"
	"gotetraverif/py"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// In units of (Msun/h) / (Mpc/h)^3: 3 (100 km/s/Mpc)^2 / (8 pi G).
const rho0 = 2.775e11

func TestDensities(t *testing.T) {
	vk.Run(t, 5000, 300000, func(c *vk.C) {
		om, ol := sim.F(c, "omega_m", 0.01, 1.5, 149), sim.F(c, "omega_l", 0, 1.5, 150)
		if rapid.Bool().Draw(c.T, "flat") {
			om = sim.F(c, "omega_m", 0.01, 1, 99)
			ol = 1 - om
		}
		z := sim.F(c, "z", 0, 20, 2000)
		if rapid.IntRange(0, 5).Draw(c.T, "future") == 0 {
			z = sim.F(c, "z", -0.9, 0, 90)
		}
		if rapid.IntRange(0, 4).Draw(c.T, "early") == 0 {
			z = math.Pow(10, sim.F(c, "log z", 1, 3.5, 250))
		}
		h := sim.F(c, "H0", 30, 150, 120)
		c.Desc("H0 %g, omega_m %g, omega_l %g, z %g", h, om, ol, z)
		e2 := om*(1+z)*(1+z)*(1+z) + ol

		frac := cosmo.HubbleFrac(om, ol, z)
		c.Near("h(z)^2", frac*frac, e2, 1e-12*e2)
		if !(frac > 0) {
			c.Fatalf("h(z) is %g", frac)
		}
		crit, crit0 := cosmo.RhoCritical(h, om, ol, z), cosmo.RhoCritical(h, om, ol, 0)
		c.Near("critical density", crit, rho0*e2, 5e-3*rho0*e2)
		c.Near("growth of the critical density", crit/crit0, e2/(om+ol), 1e-12*e2/(om+ol))
		avg := cosmo.RhoAverage(h, om, ol, z)
		want := om * (1 + z) * (1 + z) * (1 + z)
		if math.Abs(om+ol-1) < 1e-9 {
			c.Label("flat")
			c.Near("mean density", avg, rho0*want, 5e-3*rho0*want)
			c.Near("mean over critical density", avg/crit, want/e2, 1e-9*want/e2)
		}
		c.Near("growth of the mean density", avg/cosmo.RhoAverage(h, om, ol, 0),
			(1+z)*(1+z)*(1+z), 1e-12*(1+z)*(1+z)*(1+z))
		c.Near("mean over critical density today", cosmo.RhoAverage(h, om, ol, 0)/crit0, om, 1e-12*om)
		// Both are per h^2: the Hubble constant does not matter.
		h2 := sim.F(c, "other H0", 30, 150, 120)
		c.Near("critical density for another H0", cosmo.RhoCritical(h2, om, ol, z), crit, 1e-12*crit)
		c.Near("mean density for another H0", cosmo.RhoAverage(h2, om, ol, z), avg, 1e-12*avg)
		c.NonTrivial(z != 0)
	})
}

// The units of G, Mpc and the solar mass, to the accuracy of the constants.
func TestConstants(t *testing.T) {
	vk.Run(t, 1, 1, func(c *vk.C) {
		rapid.Bool().Draw(c.T, "x")
		c.Desc("constants")
		c.Near("G", cosmo.GMks, 6.6743e-11, 1e-3*6.67e-11)
		c.Near("Mpc", cosmo.MpcMks, 3.0857e22, 1e-3*3e22)
		c.Near("solar mass", cosmo.MSunMks, 1.989e30, 1e-3*2e30)
		c.Near("speed of light", cosmo.CMks, 2.99792458e8, 1e-4*3e8)
		c.NonTrivial(true)
	})
}

// The densities of render/scripts/read_halo.py, which has its own cosmology.
func TestScript(t *testing.T) {
	vk.Run(t, 300, 5000, func(c *vk.C) {
		const h, om, ol = 0.7, 0.27, 0.73
		z := sim.F(c, "z", 0, 20, 2000)
		m, rho := math.Pow(10, sim.F(c, "log m", 6, 16, 100)), math.Pow(10, sim.F(c, "log rho", 8, 16, 100))
		c.Desc("z %g, m %g, rho %g", z, m, rho)
		r := py.Eval("read_halo.py", "[[hubble_frac(z), rho_c_h(z), rho_m_h(z), rho_c(z), rho_m(z), m_to_r(m, rho)]]", "",
			nil, map[string]float64{"z": z, "m": m, "rho": rho})
		if r.Error != "" {
			c.Fatalf("%s", r.Error)
		}
		got := r.Arrays["0"].Vals()
		e2, g := om*math.Pow(1+z, 3)+ol, math.Pow(1+z, 3)
		for i, want := range []float64{math.Sqrt(e2), rho0 * e2, rho0 * om * g, rho0 * h * h * e2, rho0 * h * h * om * g,
			math.Cbrt(m / rho * 3 / 4 / math.Pi)} {
			what := []string{"h(z)", "critical density in h units", "mean density in h units", "critical density", "mean density", "radius"}[i]
			c.Near("read_halo.py: "+what, got[i], want, 5e-3*want)
		}
		c.NonTrivial(z != 0)
	})
}
