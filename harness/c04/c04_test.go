package c04

import (
	"math"
	"os"
	"testing"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

func TestScheduleIndependence(t *testing.T) {
	vk.Run(t, 120, 1500, func(c *vk.C) {
		s, cells, want, flat, ok := rend.Aligned(c)
		if !ok {
			c.Label("segment too wide: skipped")
			return
		}
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		files := s.WriteSheets(dir)
		target := rend.DrawReq(c, s, rapid.SampledFrom([]string{"", "any"}).Draw(c.T, "kind"),
			cells, cells, 3)
		target.Cells = cells
		target.Pts = rapid.IntRange(4, 8).Draw(c.T, "pts")

		n := rapid.IntRange(2, 4).Draw(c.T, "runs")
		multi := false
		for run := 0; run < n; run++ {
			threads := rapid.IntRange(1, 8).Draw(c.T, "threads")
			if rapid.IntRange(0, 39).Draw(c.T, "many threads") == 0 {
				threads = rapid.IntRange(9, 24).Draw(c.T, "threads")
			}
			fs := rapid.Permutation(files).Draw(c.T, "order")
			reqs := []rend.Req{target}
			at := 0
			for k := rapid.IntRange(0, 2).Draw(c.T, "companions"); k > 0; k-- {
				// companions differ in kind, resolution and sample count
				r := rend.DrawReq(c, s, rapid.SampledFrom([]string{"", "any"}).Draw(c.T, "kind"), 1, 8, 9)
				if rapid.Bool().Draw(c.T, "before") {
					reqs = append([]rend.Req{r}, reqs...)
					at++
				} else {
					reqs = append(reqs, r)
				}
			}
			if rapid.Bool().Draw(c.T, "prune") && len(reqs) == 1 {
				fs = prune(s, fs, &target)
				c.LabelIf(len(fs) < len(files), "files outside of the box left out")
			}
			if len(fs) == 0 {
				continue
			}
			c.Desc("threads=%d files=%d boxes=%d", threads, len(fs), len(reqs))
			multi = multi || threads > 1
			rend.Thrice(c, func() string {
				b := rend.Render(c, s.L, fs, reqs, density.Density, threads, 1)[at]
				rend.CheckGeometry(c, b, &target, s.L)
				got, _ := b.Vals().ScalarBuffer()
				return rend.Compare(c, s, want, b, got, &target)
			})
			c.LabelIf(len(reqs) > 1, "companion boxes")
		}
		c.LabelIf(multi, "several threads")
		c.LabelIf(flat, "collapsed tetrahedra")
		c.NonTrivial(multi && n > 1)
	})
}

// prune drops the sheets that come nowhere near the box.
func prune(s *sim.Sim, files []string, r *rend.Req) []string {
	cw := s.L / float64(r.Cells)
	o := [3]float64{r.Conf.X, r.Conf.Y, r.Conf.Z}
	w := [3]float64{r.Conf.XWidth, r.Conf.YWidth, r.Conf.ZWidth}
	out := []string{}
	for _, f := range files {
		hd := &io.SheetHeader{}
		if err := io.ReadSheetHeaderAt(f, hd); err != nil {
			vk.Harness("%v", err)
		}
		touch := true
		for k := 0; k < 3 && touch; k++ {
			lo, hi := o[k]-2.1*cw, o[k]+w[k]+2.1*cw
			if hi-lo >= s.L {
				continue
			}
			a := math.Mod(float64(hd.Origin[k])-lo+2*s.L, s.L)
			// sheet [a, a+width] against box [0, hi-lo], periodically
			touch = a <= hi-lo || a+float64(hd.Width[k]) >= s.L
		}
		if touch {
			out = append(out, f)
		}
	}
	return out
}
