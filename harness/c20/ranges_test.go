package c20

import (
	"testing"

	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Every setting is valid just when it is in its range.
func TestRanges(t *testing.T) {
	vk.Run(t, 6000, 100000, func(c *vk.C) {
		num := func(name string) int {
			if rapid.IntRange(0, 1).Draw(c.T, name+".kind") == 0 {
				return rapid.IntRange(-5, 70).Draw(c.T, name)
			}
			p := 1 << rapid.IntRange(0, 30).Draw(c.T, name)
			return rapid.SampledFrom([]int{1, 1, -1}).Draw(c.T, name+".sign")*p +
				rapid.SampledFrom([]int{0, 0, 1, -1}).Draw(c.T, name+".off")
		}
		val := func(name string) float64 {
			return rapid.SampledFrom([]float64{-1, -1e-9, 0, 1e-9, 0.1, 1, 10, sim.F(c, name+".x", -20, 20, 1000)}).Draw(c.T, name)
		}
		word := func(name string, ws ...string) string { return rapid.SampledFrom(ws).Draw(c.T, name) }
		pow2 := func(x int) bool {
			for p := 1; p > 0 && p <= x; p *= 2 {
				if p == x {
					return true
				}
			}
			return false
		}
		check := func(what string, got, want bool) {
			if got != want {
				c.Fatalf("%s is valid: %v, want %v", what, got, want)
			}
			c.LabelIf(!want, "out of range: "+what)
		}

		h := &io.DefaultTetraHistWrapper().TetraHist
		h.Input, h.Output = word("in", "", "x", "a/b"), word("out", "", "x", "a/b")
		h.GridFile = word("grid", "", "g")
		h.Quantity = word("quantity", "", "Density", "Density", "Mass", "density", "Velocity")
		h.HistScale = word("scale", "Log", "Linear", "", "log", "Loglog", "Cubic")
		h.HistMin, h.HistMax, h.HistBins = val("min"), val("max"), num("bins")
		h.Particles, h.SubsampleLength = num("histParticles"), num("histSkip")
		c.Desc("%+v", *h)
		check("TetraHist Input", h.ValidInput(), h.Input != "")
		check("TetraHist Output", h.ValidOutput(), h.Output != "")
		check("GridFile", h.ValidGridFile(), h.GridFile != "")
		check("TetraHist Quantity", h.ValidQuantity(), h.Quantity == "Density")
		check("HistScale", h.ValidHistScale(), h.HistScale == "Log" || h.HistScale == "Linear")
		check("the range of the histogram", h.ValidHistScale() && h.ValidHistMin() && h.ValidHistMax(),
			h.HistMin < h.HistMax && (h.HistScale == "Linear" || (h.HistScale == "Log" && h.HistMin > 0)))
		check("HistBins", h.ValidHistBins(), h.HistBins > 0)
		check("TetraHist Particles", h.ValidParticles(), h.Particles > 0)
		check("TetraHist SubsampleLength", h.ValidSubsampleLength(), pow2(h.SubsampleLength))

		r := &io.DefaultRenderWrapper().Render
		r.Input, r.Output = h.Input, h.Output
		r.LogFile, r.ProfileFile = word("log", "", "l"), word("prof", "", "p")
		r.TotalPixels, r.Particles, r.ImagePixels = num("total"), num("particles"), num("image")
		r.ProjectionDepth, r.SubsampleLength = num("depth"), num("skip")
		c.Desc("%+v", *r)
		check("Input", r.ValidInput(), r.Input != "")
		check("Output", r.ValidOutput(), r.Output != "")
		check("LogFile", r.ValidLogFile(), r.LogFile != "")
		check("ProfileFile", r.ValidProfileFile(), r.ProfileFile != "")
		check("TotalPixels", r.ValidTotalPixels(), r.TotalPixels > 0)
		check("Particles", r.ValidParticles(), r.Particles > 0)
		check("ImagePixels", r.ValidImagePixels(), r.ImagePixels > 0)
		check("ProjectionDepth", r.ValidProjectionDepth(), r.ProjectionDepth > 0)
		check("SubsampleLength", r.ValidSubsampleLength(), pow2(r.SubsampleLength))

		s := &io.DefaultConvertSnapshotWrapper().ConvertSnapshot
		s.Cells, s.Gadget2IDSize = num("cells"), num("ids")
		s.IteratedInput, s.IteratedOutput = word("itin", "", "x"), word("itout", "", "x")
		s.IterationStart, s.IterationEnd = num("start"), num("end")
		c.Desc("%+v", *s)
		check("Cells", s.ValidCells(), s.Cells > 0)
		check("Gadget2IDSize", s.ValidGadget2IDSize(), s.Gadget2IDSize == 32 || s.Gadget2IDSize == 64)
		check("IteratedInput", s.ValidIteratedInput(), s.IteratedInput != "")
		check("IteratedOutput", s.ValidIteratedOutput(), s.IteratedOutput != "")
		check("IterationStart", s.ValidIterationStart(), s.IterationStart >= 0)
		check("IterationEnd", s.ValidIterationEnd(), s.IterationEnd >= 0)
		c.NonTrivial(true)
	})
}
