package c06

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"gotetraverif/cli"
	"gotetraverif/gtet"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// A box rendered with others has the settings it has when rendered by itself.
func TestAlone(t *testing.T) {
	vk.Run(t, 60, 600, func(c *vk.C) {
		skip := rapid.SampledFrom([]int{1, 2}).Draw(c.T, "skip")
		s := sim.Draw(c, sim.Opts{MaxW: skip, MaxS: 3, WMultiple: skip})
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		in := filepath.Join(dir, "in")
		os.Mkdir(in, 0777)
		s.WriteSheets(in)

		image := rapid.IntRange(1, 8).Draw(c.T, "imagePixels")
		total := rapid.IntRange(1, 700).Draw(c.T, "totalPixels")
		useTotal := rapid.Bool().Draw(c.T, "useTotal")
		kind := rapid.IntRange(0, 3).Draw(c.T, "sampling")
		depth := rapid.IntRange(1, 5).Draw(c.T, "depth")
		n := rapid.IntRange(2, 4).Draw(c.T, "boxes")
		text := make([]string, n)
		for i := range text {
			axis := rapid.SampledFrom([]string{"", "X", "Y", "Z"}).Draw(c.T, "axis")
			var o, w [3]float64
			for k := range o {
				o[k] = s.L * float64(rapid.IntRange(0, 999).Draw(c.T, "o")) / 1000
				w[k] = s.L * float64(rapid.IntRange(2, 20).Draw(c.T, "w")) / 1000
			}
			c.Desc("b%d o=%.5g w=%.5g axis=%q", i, o, w, axis)
			text[i] = fmt.Sprintf("[Box \"b%d\"]\nX = %.17g\nY = %.17g\nZ = %.17g\nXWidth = %.17g\n"+
				"YWidth = %.17g\nZWidth = %.17g\n", i, o[0], o[1], o[2], w[0], w[1], w[2])
			if axis != "" {
				text[i] += "ProjectionAxis = " + axis + "\n"
			}
		}
		c.Desc("image=%d total=%d useTotal=%v sampling=%d depth=%d skip=%d", image, total, useTotal, kind, depth, skip)
		render := func(name string, boxes []int) map[int]*gtet.File {
			out := filepath.Join(dir, name)
			os.Mkdir(out, 0777)
			cfg := &strings.Builder{}
			fmt.Fprintf(cfg, "[Render]\nQuantity = Density\nInput = %s\nOutput = %s\n", in, out)
			if useTotal {
				fmt.Fprintf(cfg, "TotalPixels = %d\n", total)
			} else {
				fmt.Fprintf(cfg, "ImagePixels = %d\n", image)
			}
			switch kind {
			case 0:
				fmt.Fprintf(cfg, "ProjectionDepth = %d\n", depth)
			case 1:
				fmt.Fprintf(cfg, "Particles = %d\n", depth)
			default:
				fmt.Fprintf(cfg, "AutoParticles = true\n")
			}
			fmt.Fprintf(cfg, "SubsampleLength = %d\n", skip)
			cfgName, bName := filepath.Join(dir, name+".cfg"), filepath.Join(dir, name+"_b.cfg")
			os.WriteFile(cfgName, []byte(cfg.String()), 0666)
			b := ""
			for _, i := range boxes {
				b += text[i]
			}
			os.WriteFile(bName, []byte(b), 0666)
			_, log, code := cli.Run(dir, "-Render", cfgName, bName)
			if code != 0 {
				c.Fatalf("gotetra exited with %d: %s", code, cli.Tail(log))
			}
			files := map[int]*gtet.File{}
			for _, i := range boxes {
				b, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("b%d.gtet", i)))
				if err != nil {
					c.Fatalf("%v", err)
				}
				f, ok := gtet.Decode(b)
				if !ok {
					c.Fatalf("box %d: %d bytes", i, len(b))
				}
				files[i] = f
			}
			return files
		}
		all := make([]int, n)
		for i := range all {
			all[i] = i
		}
		got := render("all", all)
		differ := false
		for i := range all {
			f, w := got[i], render(fmt.Sprintf("b%d", i), all[i:i+1])[i]
			if len(f.Vals) != len(w.Vals) {
				c.Fatalf("box %d has %d values, and %d by itself", i, len(f.Vals), len(w.Vals))
			}
			fh, wh := *f, *w
			fh.Vals, wh.Vals = nil, nil
			if a, b := fmt.Sprint(fh), fmt.Sprint(wh); a != b {
				c.Fatalf("box %d: header %s, by itself it is %s", i, a, b)
			}
			differ = differ || f.Particles != got[0].Particles
		}
		c.NonTrivial(differ || kind == 1)
		c.LabelIf(differ, "boxes with different particle counts")
	})
}
