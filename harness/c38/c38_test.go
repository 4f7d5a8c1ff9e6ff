// C38: the program's command line.
package c38

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/cli"
	"gotetraverif/convert"
	"gotetraverif/runs"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

var modes = []string{"Render", "TetraHist", "ConvertSnapshot"}

func draw(c *vk.C, boxes int, modes ...string) *runs.Job {
	switch rapid.SampledFrom(modes).Draw(c.T, "mode") {
	case "Render":
		return runs.Render(c, runs.Draw(c, 3), boxes)
	case "TetraHist":
		return runs.Hist(c, runs.Draw(c, 3), boxes)
	}
	return runs.Convert(c, 3, 2)
}

// files lists the files below a directory, with their sizes.
func files(dir string) map[string]int64 {
	all := map[string]int64{}
	err := filepath.Walk(dir, func(p string, in os.FileInfo, err error) error {
		if err == nil && !in.IsDir() {
			all[strings.TrimPrefix(p, dir+"/")] = in.Size()
		}
		return err
	})
	if err != nil {
		vk.Harness("%v", err)
	}
	return all
}

// refused runs the program, which is to fail with a message and without
// writing anything.
func refused(c *vk.C, root string, args ...string) {
	before := fmt.Sprint(files(root))
	out, log, code := cli.Run(root, args...)
	if code == 0 {
		c.Fatalf("accepted: %s", cli.Tail(out+log))
	}
	if strings.TrimSpace(log+out) == "" {
		c.Fatalf("no message")
	}
	if strings.Contains(log, "goroutine 1 [") {
		c.Fatalf("no message but a panic: %s", cli.Tail(log))
	}
	if after := fmt.Sprint(files(root)); after != before {
		c.Fatalf("refused, but the files are %s, after %s", after, before)
	}
}

func TestRefused(t *testing.T) {
	vk.Run(t, 300, 5000, func(c *vk.C) {
		j := draw(c, rapid.IntRange(1, 2).Draw(c.T, "boxes"), modes...)
		defer os.RemoveAll(j.Root)
		var args []string
		kind := rapid.IntRange(0, 8).Draw(c.T, "kind")
		cfg := j.Config("config")
		bounds := []string{}
		if len(j.Boxes) > 0 {
			bounds = []string{j.Bounds("bounds", j.Boxes...)}
		}
		mode := "-" + j.Mode
		switch kind {
		case 0:
			args = bounds
			c.Desc("no mode")
			if rapid.Bool().Draw(c.T, "threads") {
				args = append([]string{"-Threads", "2"}, bounds...)
			}
		case 1:
			// several modes
			perm := rapid.Permutation([]string{"Render", "TetraHist", "ConvertSnapshot", "ExampleConfig"}).Draw(c.T, "modes")
			n := rapid.IntRange(2, 4).Draw(c.T, "n")
			perm = perm[:n]
			for _, m := range perm {
				f := cfg
				if m == "ExampleConfig" {
					f = "Render"
				}
				args = append(args, "-"+m, f)
			}
			args = append(args, bounds...)
			c.Desc("several modes %v", perm)
		case 2:
			args = append([]string{"-" + rapid.SampledFrom([]string{"render", "Density", "Bounds", "Thread", "Renders"}).Draw(c.T, "flag"), cfg}, bounds...)
			c.Desc("unknown flag %s", args[0])
		case 3:
			args = append([]string{mode, filepath.Join(j.Root, "missing")}, bounds...)
			c.Desc("missing configuration")
		case 4:
			if len(bounds) == 0 {
				return
			}
			args = []string{mode, cfg}
			c.Desc("no bounds")
		case 5:
			if len(bounds) == 0 {
				return
			}
			bounds = append(bounds, filepath.Join(j.Root, "missing"))
			if rapid.Bool().Draw(c.T, "first") {
				bounds[0], bounds[1] = bounds[1], bounds[0]
			}
			args = append([]string{mode, cfg}, bounds...)
			c.Desc("missing bounds")
		case 6:
			name := rapid.SampledFrom([]string{"Bounds", "box", "render", "Tetra", "All", "Convert"}).Draw(c.T, "example")
			args = []string{"-ExampleConfig", name}
			c.Desc("example %s", name)
		case 7:
			n := rapid.IntRange(-3, 0).Draw(c.T, "threads")
			args = append([]string{"-Threads", fmt.Sprint(n), mode, cfg}, bounds...)
			c.Desc("%d threads", n)
		default:
			other := modes[(indexOf(j.Mode)+rapid.IntRange(1, 2).Draw(c.T, "other"))%3]
			args = append([]string{"-" + other, cfg}, bounds...)
			c.Desc("the configuration of another mode, %s", other)
		}
		c.Label("kind %d", kind)
		refused(c, j.Root, args...)
		c.NonTrivial(true)
	})
}

func indexOf(mode string) int {
	for i, m := range modes {
		if m == mode {
			return i
		}
	}
	return -1
}

// set changes (or adds) a setting of a configuration.
func set(c *vk.C, text, key, value string) string {
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		f := strings.SplitN(l, "=", 2)
		if len(f) == 2 && strings.TrimSpace(f[0]) == key {
			lines[i] = key + " = " + value
			return strings.Join(lines, "\n")
		}
	}
	c.Fatalf("the example does not set %s", key)
	return ""
}

func example(c *vk.C, root, name, section string) string {
	out, log, code := cli.Run(root, "-ExampleConfig", name)
	if code != 0 {
		c.Fatalf("-ExampleConfig %s ended with status %d: %s", name, code, cli.Tail(log))
	}
	if !strings.Contains(out, "["+section) {
		c.Fatalf("-ExampleConfig %s: %s", name, cli.Tail(out))
	}
	return out
}

// What ExampleConfig prints is accepted in its mode, and does what it says.
func TestExamples(t *testing.T) {
	vk.Run(t, 12, 200, func(c *vk.C) {
		j := runs.New()
		defer os.RemoveAll(j.Root)
		if rapid.IntRange(0, 2).Draw(c.T, "conversion") == 0 {
			text := example(c, j.Root, "ConvertSnapshot", "ConvertSnapshot")
			s := &sim.Sim{L: 10, Z: 1, OmM: 0.3, OmL: 0.7, H100: 0.7, Mass: 1, S: 8, W: rapid.IntRange(1, 2).Draw(c.T, "W")}
			s.N = s.S * s.W
			for i := 0; i < s.N*s.N*s.N; i++ {
				s.X, s.V = append(s.X, [3]float32{float32(10 * sim.Unit(3, i, 0))}), append(s.V, [3]float32{})
			}
			(&convert.Job{S: s, Cells: 8, XUnits: 1, VUnits: 1, MUnits: 1, IDBits: 64, Files: 2, Format: "LGadget-2"}).Write(j.In)
			text = set(c, set(c, text, "Input", j.In), "Output", j.Out)
			c.Desc("conversion of %d^3 particles", s.N)
			_, log, code := cli.Run(j.Root, "-ConvertSnapshot", runs.Write(j.Root, "cfg", text))
			if code != 0 {
				c.Fatalf("the example ended with status %d: %s", code, cli.Tail(log))
			}
			if n := len(files(j.Out)); n != 512 {
				c.Fatalf("%d sheets", n)
			}
			c.Label("conversion")
			c.NonTrivial(true)
			return
		}
		s := runs.Draw(c, 3)
		for i := range s.X { // a box that the example bounds fit into
			for k := range s.X[i] {
				s.X[i][k] = sim.ToPeriodic(float64(s.X[i][k])/s.L*200, 200)
			}
		}
		s.L = 200
		s.WriteSheets(j.In)
		mode := rapid.SampledFrom([]string{"Render", "TetraHist"}).Draw(c.T, "mode")
		text := set(c, set(c, example(c, j.Root, mode, mode), "Input", j.In), "Output", j.Out)
		ext := ".gtet"
		if mode == "TetraHist" {
			text = set(c, text, "GridFile", runs.Grid(j.Root, s.L, 4))
			ext = ".txt"
		}
		args := []string{"-" + mode, runs.Write(j.Root, "cfg", text)}
		want := []string{}
		for i, kind := range rapid.Permutation([]string{"Box", "Ball"}).Draw(c.T, "bounds")[:rapid.IntRange(1, 2).Draw(c.T, "n")] {
			text := example(c, j.Root, kind, kind+" \"")
			args = append(args, runs.Write(j.Root, fmt.Sprint("b", i), text))
			name := strings.SplitN(strings.SplitN(text, "\"", 2)[1], "\"", 2)[0]
			want = append(want, name+ext)
		}
		c.Desc("%s of %v", mode, want)
		_, log, code := cli.Run(j.Root, args...)
		if code != 0 {
			c.Fatalf("the example ended with status %d: %s", code, cli.Tail(log))
		}
		same(c, j.Out, want)
		c.Label("%s", mode)
		c.NonTrivial(true)
	})
}

// same checks the names of the files in a directory.
func same(c *vk.C, dir string, want []string) {
	got := []string{}
	for name, n := range files(dir) {
		got = append(got, name)
		if n == 0 {
			c.Fatalf("%s is empty", name)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fatalf("files %v, want %v", got, want)
	}
}

// Boxes spread over bounds files, and boxes of the same name.
func TestBounds(t *testing.T) {
	vk.Run(t, 150, 2500, func(c *vk.C) {
		n := vk.Size(c, "boxes", 1, 6, 24)
		j := draw(c, n, "Render", "TetraHist")
		defer os.RemoveAll(j.Root)
		if rapid.Bool().Draw(c.T, "names") {
			names := map[string]bool{}
			for i := range j.Boxes {
				b := &j.Boxes[i]
				name := rapid.SampledFrom([]string{"a", "A", "b0", "a b", "%s", "100%", "h.1", "\u03b1", "-x", "b"}).Draw(c.T, "name")
				for names[name] {
					name += rapid.SampledFrom([]string{"a", "A", " ", "%", "0"}).Draw(c.T, "more") + "_"
				}
				names[name] = true
				b.Text = strings.Replace(b.Text, strconv.Quote(b.Name), strconv.Quote(name), 1)
				b.Name = name
			}
		}
		k := rapid.IntRange(1, 4).Draw(c.T, "files")
		parts := make([][]runs.Box, k)
		for _, b := range j.Boxes {
			i := rapid.IntRange(0, k-1).Draw(c.T, "file")
			parts[i] = append(parts[i], b)
		}
		pre := rapid.SampledFrom([]string{"", "pre_", "1.5-", "50%_", "%s", "%d-", "\u00fc", "."}).Draw(c.T, "prefix")
		app := rapid.SampledFrom([]string{"", "_app", ".x", "%", "%v", ".gtet", "-\u00e9"}).Draw(c.T, "suffix")
		var lines []string
		if pre != "" {
			lines = append(lines, "PrependName = "+pre)
		}
		if app != "" {
			lines = append(lines, "AppendName = "+app)
		}
		twice := -1
		if n > 0 && rapid.IntRange(0, 2).Draw(c.T, "same name") == 0 {
			twice = rapid.IntRange(0, n-1).Draw(c.T, "which")
			b := j.Boxes[twice]
			if strings.HasPrefix(b.Text, "[Ball") && rapid.Bool().Draw(c.T, "other kind") {
				// a box of the same name as the ball
				b.Text = fmt.Sprintf("[Box \"%s\"]\nX = 0\nY = 0\nZ = 0\nXWidth = 0.1\nYWidth = 0.1\nZWidth = 0.1\n", b.Name)
				i := rapid.IntRange(0, k-1).Draw(c.T, "file")
				parts[i] = append(parts[i], b)
			} else {
				parts = append(parts, []runs.Box{b})
			}
		}
		args := []string{"-" + j.Mode, j.Config("config", lines...)}
		filled, dirs := 0, rapid.IntRange(0, 2).Draw(c.T, "directories") == 0
		for i, p := range parts {
			if len(p) > 0 {
				name := fmt.Sprint("bounds", i)
				if dirs { // files of the same name
					runs.Mkdir(j.Root, fmt.Sprint("dir", i))
					name = fmt.Sprintf("dir%d/bounds", i)
				}
				args = append(args, j.Bounds(name, p...))
				filled++
			}
		}
		names := []string{}
		for _, b := range j.Boxes {
			names = append(names, b.Name)
		}
		c.Desc("%q in %d files (of one name: %v), %q and %q, name of %d used twice", names, filled, dirs, pre, app, twice)
		if twice >= 0 {
			c.Label("name used twice")
			refused(c, j.Root, args...)
			c.NonTrivial(true)
			return
		}
		_, log, code := cli.Run(j.Root, args...)
		if code != 0 {
			c.Fatalf("status %d: %s", code, cli.Tail(log))
		}
		want := []string{}
		ext := map[string]string{"Render": ".gtet", "TetraHist": ".txt"}[j.Mode]
		for _, b := range j.Boxes {
			want = append(want, pre+b.Name+app+ext)
		}
		same(c, j.Out, want)
		c.NonTrivial(filled > 1)
		c.LabelIf(filled > 1, "several files")
	})
}

// Log and profile files.
func TestLog(t *testing.T) {
	vk.Run(t, 60, 800, func(c *vk.C) {
		j := draw(c, rapid.IntRange(1, 2).Draw(c.T, "boxes"), modes...)
		defer os.RemoveAll(j.Root)
		log, prof := rapid.Bool().Draw(c.T, "log"), rapid.Bool().Draw(c.T, "profile")
		_, plain, code := cli.Run(j.Root, j.Args()...)
		if code != 0 {
			c.Fatalf("status %d: %s", code, cli.Tail(plain))
		}
		want := files(j.Out)
		j.Clear()
		var lines []string
		logName, profName := filepath.Join(j.Root, "the.log"), filepath.Join(j.Root, "the.prof")
		if log {
			lines = append(lines, "LogFile = "+logName)
		}
		if prof {
			lines = append(lines, "ProfileFile = "+profName)
		}
		c.Desc("log %v, profile %v", log, prof)
		args := j.Args()
		j.Config("config", lines...)
		_, text, code := cli.Run(j.Root, args...)
		if code != 0 {
			c.Fatalf("status %d: %s", code, cli.Tail(text))
		}
		got := files(j.Out)
		for name, n := range want {
			if m, ok := got[name]; !ok || (j.Mode != "TetraHist" && m != n) {
				c.Fatalf("%s has %d bytes, without log and profile it has %d", name, m, n)
			}
		}
		if len(got) != len(want) {
			c.Fatalf("files %v, without log and profile %v", got, want)
		}
		b, err := os.ReadFile(logName)
		if log {
			if err != nil {
				c.Fatalf("log: %v", err)
			}
			if l := strings.TrimSpace(string(b)); l == "" {
				c.Fatalf("the log is empty, standard error has %s", cli.Tail(text))
			}
			if strings.TrimSpace(plain) != "" && strings.Count(text, "\n") >= strings.Count(plain, "\n") {
				c.Fatalf("messages on standard error besides the log: %s", cli.Tail(text))
			}
		} else if err == nil {
			c.Fatalf("a log was written")
		}
		b, err = os.ReadFile(profName)
		if prof {
			if err != nil {
				c.Fatalf("profile: %v", err)
			}
			if !bytes.HasPrefix(b, []byte{0x1f, 0x8b}) {
				c.Fatalf("%d bytes of profile", len(b))
			}
		} else if err == nil {
			c.Fatalf("a profile was written")
		}
		c.Label("%s", j.Mode)
		c.NonTrivial(log || prof)
	})
}

// The examples are those of the io package.
func TestConstants(t *testing.T) {
	vk.Run(t, 5, 5, func(c *vk.C) {
		all := []struct{ name, text string }{
			{"ConvertSnapshot", io.ExampleConvertSnapshotFile}, {"Render", io.ExampleRenderFile},
			{"TetraHist", io.ExampleTetraHistFile}, {"Box", io.ExampleBoxFile}, {"Ball", io.ExampleBallFile},
		}
		for _, e := range all {
			out, log, code := cli.Run(vk.Scratch(), "-ExampleConfig", e.name)
			if code != 0 || strings.TrimSpace(out) != strings.TrimSpace(e.text) {
				c.Fatalf("-ExampleConfig %s: status %d, %s%s", e.name, code, cli.Tail(out), cli.Tail(log))
			}
		}
		c.Desc("all examples")
		c.NonTrivial(true)
	})
}
