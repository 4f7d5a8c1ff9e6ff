package c20

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"gopkg.in/gcfg.v1"

	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/cli"
	"gotetraverif/convert"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// One setting of a mode: its documented values.
type setting struct {
	name string
	kind string // s, i, f, b
	good func(c *vk.C) string
}

func pick(xs ...string) func(*vk.C) string {
	return func(c *vk.C) string { return rapid.SampledFrom(xs).Draw(c.T, "v") }
}
func ints(lo, hi int) func(*vk.C) string {
	return func(c *vk.C) string { return fmt.Sprint(rapid.IntRange(lo, hi).Draw(c.T, "i")) }
}
func floats(lo, hi float64) func(*vk.C) string {
	return func(c *vk.C) string {
		x := sim.F(c, "f", lo, hi, 1000)
		return rapid.SampledFrom([]string{fmt.Sprintf("%g", x), fmt.Sprintf("%e", x), fmt.Sprintf("%.6f", x)}).Draw(c.T, "fmt")
	}
}
func words(c *vk.C) string {
	return rapid.StringMatching("[a-z/_]{1,4}[a-zA-Z0-9_./%-]{0,6}").Draw(c.T, "word")
}

var modes = map[string][]setting{
	"Render": {
		{"Quantity", "s", pick("Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl")},
		{"Input", "s", words}, {"Output", "s", words},
		{"TotalPixels", "i", ints(1, 5000)}, {"ImagePixels", "i", ints(1, 5000)},
		{"Particles", "i", ints(1, 500)}, {"ProjectionDepth", "i", ints(1, 500)},
		{"AutoParticles", "b", pick("true", "false")},
		{"SubsampleLength", "i", pick("1", "2", "4", "8", "64")},
		{"PrependName", "s", words}, {"AppendName", "s", words},
		{"ProfileFile", "s", words}, {"LogFile", "s", words},
	},
	"ConvertSnapshot": {
		{"Input", "s", words}, {"Output", "s", words},
		{"InputFormat", "s", pick("LGadget-2", "Arepo-type-2")},
		{"Cells", "i", ints(1, 64)}, {"Gadget2IDSize", "i", pick("32", "64")},
		{"ProfileFile", "s", words}, {"LogFile", "s", words},
		{"IteratedInput", "s", words}, {"IteratedOutput", "s", words},
		{"IterationStart", "i", ints(0, 200)}, {"IterationEnd", "i", ints(0, 200)},
		{"XUnits", "f", floats(0.001, 1000)}, {"VUnits", "f", floats(0.001, 1000)},
		{"MUnits", "f", floats(0.001, 1000)},
	},
	"TetraHist": {
		{"Quantity", "s", pick("Density")}, {"HistMin", "f", floats(0.01, 1)},
		{"HistMax", "f", floats(2, 1000)}, {"HistBins", "i", ints(1, 500)},
		{"HistScale", "s", pick("Log", "Linear")}, {"Particles", "i", ints(1, 500)},
		{"Input", "s", words}, {"Output", "s", words}, {"GridFile", "s", words},
		{"SubsampleLength", "i", pick("1", "2", "4", "8", "64")},
		{"PrependName", "s", words}, {"AppendName", "s", words},
		{"ProfileFile", "s", words}, {"LogFile", "s", words},
	},
	"Box": {
		{"X", "f", floats(0, 100)}, {"Y", "f", floats(0, 100)}, {"Z", "f", floats(0, 100)},
		{"XWidth", "f", floats(0.001, 100)}, {"YWidth", "f", floats(0.001, 100)},
		{"ZWidth", "f", floats(0.001, 100)}, {"ProjectionAxis", "s", pick("X", "Y", "Z")},
	},
	"Ball": {
		{"X", "f", floats(0, 100)}, {"Y", "f", floats(0, 100)}, {"Z", "f", floats(0, 100)},
		{"Radius", "f", floats(0.001, 100)}, {"RadiusMultiplier", "f", floats(0.001, 100)},
		{"ProjectionAxis", "s", pick("X", "Y", "Z")},
	},
}

var defaults = map[string]map[string]string{
	"Render": {"SubsampleLength": "1"},
	"ConvertSnapshot": {"IterationStart": "0", "IterationEnd": "-1", "Gadget2IDSize": "64",
		"XUnits": "1", "VUnits": "1", "MUnits": "1"},
	"TetraHist": {"SubsampleLength": "1"},
}

var examples = map[string]string{
	"Render": io.ExampleRenderFile, "ConvertSnapshot": io.ExampleConvertSnapshotFile,
	"TetraHist": io.ExampleTetraHistFile, "Box": io.ExampleBoxFile, "Ball": io.ExampleBallFile,
}

// parse parses a config text as the program does.
func parse(mode, text string) (reflect.Value, error) {
	switch mode {
	case "Render":
		w := io.DefaultRenderWrapper()
		err := gcfg.ReadStringInto(w, text)
		return reflect.ValueOf(&w.Render).Elem(), err
	case "ConvertSnapshot":
		w := io.DefaultConvertSnapshotWrapper()
		err := gcfg.ReadStringInto(w, text)
		return reflect.ValueOf(&w.ConvertSnapshot).Elem(), err
	case "TetraHist":
		w := io.DefaultTetraHistWrapper()
		err := gcfg.ReadStringInto(w, text)
		return reflect.ValueOf(&w.TetraHist).Elem(), err
	}
	w := &io.BoundsConfig{}
	if err := gcfg.ReadStringInto(w, text); err != nil {
		return reflect.Value{}, err
	}
	for _, b := range w.Box {
		return reflect.ValueOf(b).Elem(), nil
	}
	for _, b := range w.Ball {
		return reflect.ValueOf(b).Elem(), nil
	}
	return reflect.Value{}, fmt.Errorf("no section")
}

func same(v reflect.Value, kind, want string) bool {
	switch kind {
	case "s":
		return v.String() == want
	case "i":
		x, err := strconv.Atoi(want)
		return (err == nil && v.Int() == int64(x)) || (want == "" && v.Int() == 0)
	case "b":
		return v.Bool() == (want == "true")
	}
	if want == "" {
		return v.Float() == 0
	}
	x, err := strconv.ParseFloat(want, 64)
	return err == nil && v.Float() == x
}

// invalid calls every Valid* method except those of settings left unset.
func invalid(mode string, v reflect.Value, set map[string]string) string {
	p := v.Addr()
	for i := 0; i < p.NumMethod(); i++ {
		n := p.Type().Method(i).Name
		if !strings.HasPrefix(n, "Valid") || p.Type().Method(i).Type.NumIn() != 1 {
			continue
		}
		if _, ok := set[strings.TrimPrefix(n, "Valid")]; !ok {
			continue
		}
		if !p.Method(i).Call(nil)[0].Bool() {
			return n
		}
	}
	return ""
}

func checkInit(v reflect.Value, L float64) error {
	switch b := v.Addr().Interface().(type) {
	case *io.BoxConfig:
		return b.CheckInit("x", L)
	case *io.BallConfig:
		return b.CheckInit("x", L)
	}
	return nil
}

// A file parses into what it spells, and all of it is valid.
func TestSpelledValues(t *testing.T) {
	vk.Run(t, 6000, 60000, func(c *vk.C) {
		mode := rapid.SampledFrom([]string{"Render", "ConvertSnapshot", "TetraHist", "Box", "Ball"}).Draw(c.T, "mode")
		ss := rapid.Permutation(modes[mode]).Draw(c.T, "order")
		set := map[string]string{}
		b := &strings.Builder{}
		if mode == "Box" || mode == "Ball" {
			fmt.Fprintf(b, "[%s \"x\"]\n", mode)
		} else {
			fmt.Fprintf(b, "[%s]\n", mode)
		}
		for _, s := range ss {
			if rapid.IntRange(0, 3).Draw(c.T, "unset") == 0 {
				continue
			}
			val := s.good(c)
			set[s.name] = val
			fmt.Fprintf(b, "%s%s\n", s.name, rapid.SampledFrom([]string{" = ", "=", "  =  "}).Draw(c.T, "eq")+val)
			if rapid.IntRange(0, 5).Draw(c.T, "comment") == 0 {
				fmt.Fprintf(b, "# %s = 7\n\n", s.name)
			}
		}
		c.Desc("%q", b.String())
		v, err := parse(mode, b.String())
		if err != nil {
			c.Fatalf("%v", err)
		}
		for _, s := range ss {
			want, ok := set[s.name]
			if !ok {
				want = defaults[mode][s.name]
			}
			f := v.FieldByName(s.name)
			if !f.IsValid() {
				c.Fatalf("%s has no setting %s", mode, s.name)
			}
			if !same(f, s.kind, want) {
				c.Fatalf("%s is %v, the file says %q", s.name, f.Interface(), want)
			}
		}
		if n := invalid(mode, v, set); n != "" && !(mode == "TetraHist" && strings.HasPrefix(n, "ValidHistM")) {
			c.Fatalf("%s() is false", n)
		}
		c.NonTrivial(len(set) > 2)
		c.Label("%s", mode)
	})
}

var optional = regexp.MustCompile(`^# ([A-Z][A-Za-z0-9]*) +=(.*)$`)

// The example files parse with any of their optional settings switched on.
func TestExamples(t *testing.T) {
	vk.Run(t, 1500, 10000, func(c *vk.C) {
		mode := rapid.SampledFrom([]string{"Render", "ConvertSnapshot", "TetraHist", "Box", "Ball"}).Draw(c.T, "mode")
		lines := strings.Split(examples[mode], "\n")
		set := map[string]string{}
		on := []string{}
		for i, l := range lines {
			if m := optional.FindStringSubmatch(l); m != nil {
				if rapid.Bool().Draw(c.T, "on") {
					lines[i] = strings.TrimPrefix(l, "# ")
					on = append(on, m[1])
				} else {
					continue
				}
			}
			if k := strings.Index(lines[i], "="); k > 0 && lines[i][0] != '#' && lines[i][0] != '[' {
				set[strings.TrimSpace(lines[i][:k])] = strings.TrimSpace(lines[i][k+1:])
			}
		}
		c.Desc("%s with %v", mode, on)
		text := strings.Join(lines, "\n")
		v, err := parse(mode, text)
		if err != nil {
			c.Fatalf("the example with %v does not parse: %v", on, err)
		}
		if len(set) < 4 {
			c.Fatalf("the example of %s sets only %v", mode, set)
		}
		for _, s := range modes[mode] {
			if want, ok := set[s.name]; ok && !same(v.FieldByName(s.name), s.kind, want) {
				c.Fatalf("%s is %v, the example says %q", s.name, v.FieldByName(s.name).Interface(), want)
			}
		}
		if n := invalid(mode, v, set); n != "" {
			c.Fatalf("the example with %v is rejected by %s", on, n)
		}
		if err := checkInit(v, 125); err != nil {
			c.Fatalf("the example with %v is rejected: %v", on, err)
		}
		c.NonTrivial(len(on) > 0)
		c.Label("%s", mode)
	})
}

// Bounds are accepted exactly if the region is one.
func TestBounds(t *testing.T) {
	vk.Run(t, 20000, 200000, func(c *vk.C) {
		L := sim.F(c, "L", 0.5, 300, 16)
		coord := func() float64 {
			switch rapid.IntRange(0, 7).Draw(c.T, "ckind") {
			case 0:
				return L
			case 1:
				return math.Nextafter(L, 0)
			case 2:
				return -L * float64(rapid.IntRange(1, 1000).Draw(c.T, "neg")) / 1000
			case 3:
				return L * (1 + float64(rapid.IntRange(0, 1000).Draw(c.T, "big"))/1000)
			case 4:
				return 0
			case 5:
				if rapid.IntRange(0, 3).Draw(c.T, "odd") == 0 {
					return rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(c.T, "x")
				}
			}
			return L * float64(rapid.IntRange(0, 9999).Draw(c.T, "in")) / 10000
		}
		width := func() float64 {
			switch rapid.IntRange(0, 7).Draw(c.T, "wkind") {
			case 0:
				return 0
			case 1:
				return -L * float64(rapid.IntRange(1, 1000).Draw(c.T, "neg")) / 1000
			case 2:
				if rapid.IntRange(0, 3).Draw(c.T, "odd") == 0 {
					return rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(c.T, "x")
				}
			}
			return L * float64(rapid.IntRange(1, 1000).Draw(c.T, "pos")) / 1000
		}
		x := [3]float64{coord(), coord(), coord()}
		ok := true
		for k := range x {
			ok = ok && x[k] >= 0 && x[k] < L
		}
		axis := rapid.SampledFrom([]string{"", "X", "Y", "Z", "x", "z", " Y ", "W", "XY", "0", "-"}).Draw(c.T, "axis")
		norm := strings.TrimSpace(strings.ToUpper(axis))
		ok = ok && (norm == "" || norm == "X" || norm == "Y" || norm == "Z")
		var err error
		var got, name string
		if rapid.Bool().Draw(c.T, "ball") {
			rad, mult := width(), width()/L
			ok = ok && rad > 0 && mult >= 0 && !math.IsInf(rad+mult, 0)
			c.Desc("L=%g ball %v rad=%g mult=%g axis=%q", L, x, rad, mult, axis)
			b := &io.BallConfig{X: x[0], Y: x[1], Z: x[2], Radius: rad,
				RadiusMultiplier: mult, ProjectionAxis: axis}
			err = b.CheckInit("nm", L)
			got, name = b.ProjectionAxis, b.Name
		} else {
			w := [3]float64{width(), width(), width()}
			for k := range w {
				ok = ok && w[k] > 0 && !math.IsInf(w[k], 0)
			}
			c.Desc("L=%g box %v+%v axis=%q", L, x, w, axis)
			b := &io.BoxConfig{X: x[0], Y: x[1], Z: x[2], XWidth: w[0],
				YWidth: w[1], ZWidth: w[2], ProjectionAxis: axis}
			err = b.CheckInit("nm", L)
			got, name = b.ProjectionAxis, b.Name
			if err == nil && b.IsProjection() != (norm != "") {
				c.Fatalf("IsProjection() = %v", b.IsProjection())
			}
		}
		if ok && err != nil {
			c.Fatalf("rejected: %v", err)
		}
		if !ok && err == nil {
			c.Fatalf("accepted")
		}
		if ok && (got != norm || name != "nm") {
			c.Fatalf("axis %q and name %q", got, name)
		}
		c.NonTrivial(true)
		c.LabelIf(ok, "valid")
		c.LabelIf(!ok, "invalid")
	})
}

// The program turns down a run with one bad setting, and writes nothing.
func TestProgramRejects(t *testing.T) {
	vk.Run(t, 200, 2000, func(c *vk.C) {
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
		os.Mkdir(in, 0777)
		os.Mkdir(out, 0777)
		s := tiny()
		s.WriteSheets(in)
		mode := rapid.SampledFrom([]string{"Render", "TetraHist", "ConvertSnapshot", "Bounds"}).Draw(c.T, "mode")
		set := map[string]string{"Input": in, "Output": out}
		box := map[string]string{"X": "0.5", "Y": "1", "Z": "1.5", "XWidth": "2", "YWidth": "2", "ZWidth": "1"}
		var bad [][2]string
		good := false
		switch mode {
		case "Render", "Bounds":
			set["Quantity"], set["TotalPixels"], set["Particles"] = "Density", "8", "2"
			bad = [][2]string{{"Input", ""}, {"Output", ""}, {"TotalPixels", ""}, {"TotalPixels", "0"},
				{"TotalPixels", "-3"}, {"TotalPixels", "many"}, {"Particles", ""}, {"Particles", "0"},
				{"Particles", "-1"}, {"SubsampleLength", "0"}, {"SubsampleLength", "-2"},
				{"SubsampleLength", "3"}, {"SubsampleLength", "6"}, {"Quantity", ""},
				{"SubsampleLength", "2"}, {"SubsampleLength", "64"}, // the segments have a width of 1
				{"Quantity", "Mass"}, {"Colour", "red"}, {"AutoParticles", "perhaps"}}
		case "TetraHist":
			for k, v := range map[string]string{"Quantity": "Density", "HistMin": "0.1",
				"HistMax": "10", "HistBins": "5", "HistScale": "Log", "Particles": "2",
				"GridFile": filepath.Join(dir, "grid.gtet")} {
				set[k] = v
			}
			writeGrid(filepath.Join(dir, "grid.gtet"))
			bad = [][2]string{{"Input", ""}, {"Output", ""}, {"HistMin", "20"}, {"HistMin", "10"},
				{"HistMin", "-1"}, {"HistMin", "0"}, {"HistMax", "-5"}, {"HistBins", "0"},
				{"HistBins", ""}, {"HistBins", "-3"}, {"HistScale", ""}, {"HistScale", "Cubic"},
				{"SubsampleLength", "0"}, {"SubsampleLength", "3"}, {"GridFile", ""}, {"SubsampleLength", "2"},
				{"GridFile", "/nonexistent/grid"}, {"Quantity", "Velocity"}, {"Quantity", ""},
				{"Particles", "0"}, {"Particles", ""}, {"Particles", "-2"}}
		case "ConvertSnapshot":
			set["InputFormat"], set["Cells"] = "LGadget-2", "2"
			snap := filepath.Join(dir, "snap")
			os.Mkdir(snap, 0777)
			(&convert.Job{S: s, IDBits: 64, Files: 2, Shuffle: 5}).Write(snap)
			set["Input"] = snap
			bad = [][2]string{{"Input", ""}, {"Output", ""}, {"Cells", ""}, {"Cells", "0"},
				{"Cells", "-2"}, {"InputFormat", ""}, {"InputFormat", "HDF5"},
				{"Gadget2IDSize", "16"}, {"Gadget2IDSize", "0"},
				{"IteratedInput", "x%d"}, {"IteratedOutput", "x%d"}, {"Colour", "red"}}
			if rapid.IntRange(0, 5).Draw(c.T, "good") == 0 {
				bad = [][2]string{{"Cells", "4"}, {"XUnits", "2"}} // these are fine
				good = true
			}
		}
		if mode == "Bounds" {
			bad = [][2]string{{"X", "4"}, {"X", "-1"}, {"Y", "7"}, {"Z", "-0.5"}, {"XWidth", "0"},
				{"XWidth", ""}, {"YWidth", "-1"}, {"ZWidth", "0"}, {"ProjectionAxis", "W"}, {"Radius", "1"},
				{"X", "nan"}, {"YWidth", "nan"}, {"ZWidth", "inf"}}
		}
		if mode != "ConvertSnapshot" && rapid.IntRange(0, 5).Draw(c.T, "good") == 0 {
			good = true
			bad = map[string][][2]string{
				"Render":    {{"TotalPixels", "5"}, {"SubsampleLength", "1"}, {"AutoParticles", "true"}, {"AppendName", "x"}},
				"TetraHist": {{"HistScale", "Linear"}, {"HistBins", "1"}, {"SubsampleLength", "1"}},
				"Bounds":    {{"ProjectionAxis", "x"}, {"XWidth", "4"}, {"Z", "0"}},
			}[mode]
		}
		c.Desc("%s, good %v", mode, good)
		n := 8 // settings to try, from one on
		first := rapid.IntRange(0, len(bad)-1).Draw(c.T, "bad")
		for i := 0; i < n && i < len(bad); i++ {
			one := bad[(first+i)%len(bad)]
			set, box := maps(set), maps(box)
			m, section := set, mode
			if mode == "Bounds" {
				m, section = box, "Render"
			}
			if one[1] == "" {
				delete(m, one[0])
			} else {
				m[one[0]] = one[1]
			}
			cfg := filepath.Join(dir, "a.cfg")
			b := "[" + section + "]\n"
			for _, k := range keys(set) {
				b += k + " = " + set[k] + "\n"
			}
			os.WriteFile(cfg, []byte(b), 0666)
			b = "[Box \"x\"]\n"
			for _, k := range keys(box) {
				b += k + " = " + box[k] + "\n"
			}
			bounds := filepath.Join(dir, "b.cfg")
			os.WriteFile(bounds, []byte(b), 0666)
			args := []string{"-Threads", "2", "-" + section, cfg}
			if section != "ConvertSnapshot" {
				args = append(args, bounds)
			}
			_, log, code := cli.Run(dir, args...)
			infos, _ := os.ReadDir(out)
			if good {
				if code != 0 || len(infos) == 0 {
					c.Fatalf("%s=%q: the program rejected a valid file (status %d): %s", one[0], one[1], code, cli.Tail(log))
				}
				c.Label("valid")
				for _, f := range infos {
					os.RemoveAll(filepath.Join(out, f.Name()))
				}
				continue
			}
			if code == 0 {
				c.Fatalf("%s=%q: the program accepted it (%d files written): %s", one[0], one[1], len(infos), cli.Tail(log))
			}
			if len(infos) != 0 {
				c.Fatalf("%s=%q: rejected, but %d files were written", one[0], one[1], len(infos))
			}
		}
		c.NonTrivial(true)
		c.Label("%s", mode)
	})
}

func maps(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func keys(m map[string]string) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	for i := range out { // short lists
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}
