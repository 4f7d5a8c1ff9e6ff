// C37: outputs are complete, or the run fails.
package c37

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/halo"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/cli"
	"gotetraverif/runs"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// The converters of halo catalogues run in a process of their own, so that
// the size of its files can be limited.
func init() {
	switch os.Getenv("VK_C37") {
	case "":
		return
	case "all":
		exit(halo.RockstarConvert(os.Args[1], os.Args[2]))
	case "top":
		n := 0
		fmt.Sscan(os.Args[3], &n)
		exit(halo.RockstarConvertTopN(os.Args[1], os.Args[2], n))
	case "sheets":
		n := 0
		fmt.Sscan(os.Args[2], &n)
		for i := 0; i < n; i++ {
			xs := make([]geom.Vec, 8)
			hd := &io.SheetHeader{GridWidth: 2, GridCount: 8, SegmentWidth: 1, Idx: int64(i)}
			io.WriteSheet(filepath.Join(os.Args[1], fmt.Sprint(i)), hd, xs, xs)
		}
		os.Exit(0)
	}
	os.Exit(9)
}

func exit(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
	os.Exit(0)
}

// job is a run which writes files into the directory out of its own.
type job struct {
	root, out string
	text      bool // outputs are lines of text, with counts that may differ
	run       func(size, open int) (log string, code int)
}

func from(j *runs.Job) *job {
	return &job{root: j.Root, out: j.Out, text: j.Mode == "TetraHist", run: j.Run}
}

// listing returns the sizes of the outputs (their lines, if they are text).
func (j *job) listing(c *vk.C) (names []string, sizes map[string]int, max int) {
	infos, err := os.ReadDir(j.out)
	if err != nil {
		vk.Harness("%v", err)
	}
	sizes = map[string]int{}
	for _, in := range infos {
		b, err := os.ReadFile(filepath.Join(j.out, in.Name()))
		if err != nil {
			vk.Harness("%v", err)
		}
		if len(b) > max {
			max = len(b)
		}
		n := len(b)
		if j.text {
			n = bytes.Count(b, []byte("\n"))
			if len(b) > 0 && b[len(b)-1] != '\n' {
				n = -1
			}
		}
		names, sizes[in.Name()] = append(names, in.Name()), n
	}
	return names, sizes, max
}

func (j *job) clear() {
	if err := os.RemoveAll(j.out); err != nil {
		vk.Harness("%v", err)
	}
	runs.Mkdir(j.out)
}

// faults runs j without a fault, and then with one.
func (j *job) faults(c *vk.C) {
	log, code := j.run(-1, -1)
	if code != 0 {
		c.Fatalf("the run without a fault ended with status %d: %s", code, cli.Tail(log))
	}
	names, want, max := j.listing(c)
	if len(names) == 0 {
		c.Fatalf("nothing was written")
	}
	for k := rapid.IntRange(1, 3).Draw(c.T, "faults"); k > 0; k-- {
		j.clear()
		size, fails := -1, true
		switch kind := rapid.IntRange(0, 7).Draw(c.T, "fault"); kind {
		case 0, 1, 2:
			victim := filepath.Join(j.out, names[rapid.IntRange(0, len(names)-1).Draw(c.T, "victim")])
			var err error
			switch kind {
			case 0:
				runs.Mkdir(victim)
				c.Desc("%s is a directory", filepath.Base(victim))
			case 1:
				err = os.Symlink("/dev/full", victim)
				c.Desc("the disk is full for %s", filepath.Base(victim))
			default:
				err = os.Symlink(filepath.Join(j.root, "missing", "file"), victim)
				c.Desc("%s cannot be created", filepath.Base(victim))
			}
			if err != nil {
				vk.Harness("%v", err)
			}
			log, code = j.run(-1, -1)
			if code == 0 {
				c.Fatalf("the run succeeds although %s cannot be written", filepath.Base(victim))
			}
			c.Label("no file")
		default:
			switch rapid.IntRange(0, 5).Draw(c.T, "where") {
			case 0:
				size = max - rapid.IntRange(1, 8).Draw(c.T, "from the end")
			case 1:
				size = max + rapid.IntRange(64, 100).Draw(c.T, "beyond")
				fails = false
			case 2:
				size = rapid.IntRange(0, 300).Draw(c.T, "header")
			default:
				size = max * rapid.IntRange(0, 999).Draw(c.T, "permille") / 1000
			}
			if size < 0 {
				size = 0
			}
			if size >= max {
				size += 64
				fails = false
			}
			c.Desc("files of at most %d bytes", size)
			log, code = j.run(size, -1)
			if !fails && code != 0 {
				c.Fatalf("status %d though there is room for the %d bytes: %s", code, max, cli.Tail(log))
			}
			if fails && code == 0 && !j.text {
				c.Fatalf("the run succeeds although only %d bytes of %d were written", size, max)
			}
			c.LabelIf(fails, "write cut short")
			c.LabelIf(!fails, "room enough")
		}
		if code != 0 && strings.TrimSpace(log) == "" {
			c.Fatalf("the run failed without a message")
		}
		if code == 0 {
			_, got, _ := j.listing(c)
			for _, name := range names {
				if n, ok := got[name]; !ok || n != want[name] {
					c.Fatalf("the run succeeds, but %s has %d lines or bytes of %d", name, n, want[name])
				}
			}
		}
		c.NonTrivial(fails)
	}
}

func TestRender(t *testing.T) {
	vk.Run(t, 100, 2000, func(c *vk.C) {
		j := from(runs.Render(c, runs.Draw(c, 3), rapid.IntRange(1, 3).Draw(c.T, "boxes")))
		defer os.RemoveAll(j.root)
		j.faults(c)
	})
}

func TestHist(t *testing.T) {
	vk.Run(t, 100, 2000, func(c *vk.C) {
		j := from(runs.Hist(c, runs.Draw(c, 3), rapid.IntRange(1, 3).Draw(c.T, "boxes")))
		defer os.RemoveAll(j.root)
		j.faults(c)
	})
}

func TestConvert(t *testing.T) {
	vk.Run(t, 150, 3000, func(c *vk.C) {
		j := from(runs.Convert(c, 3, 4))
		defer os.RemoveAll(j.root)
		j.faults(c)
	})
}

// child runs a command with files of at most size bytes and a number of open
// files.
func child(dir string, size, open int, env, bin string, args ...string) (string, int) {
	all := []string{}
	if size >= 0 {
		all = append(all, fmt.Sprintf("--fsize=%d", size))
	}
	if open >= 0 {
		all = append(all, fmt.Sprintf("--nofile=%d", open))
	}
	if len(all) > 0 {
		args = append(append(all, bin), args...)
		bin = "prlimit"
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env)
	b, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		vk.Harness("%v", err)
	}
	return string(b), cmd.ProcessState.ExitCode()
}

func TestCatalogs(t *testing.T) {
	vk.Run(t, 100, 2000, func(c *vk.C) {
		j := from(runs.New())
		defer os.RemoveAll(j.root)
		n := rapid.IntRange(1, 30).Draw(c.T, "halos")
		b := &strings.Builder{}
		for i := 0; i < n; i++ {
			for k := 0; k < 62; k++ {
				fmt.Fprintf(b, "%d ", (i*7+k)%50)
			}
			fmt.Fprintln(b)
		}
		in := runs.Write(j.root, "halos.txt", b.String())
		top := rapid.IntRange(0, n).Draw(c.T, "top")
		c.Desc("catalogue of %d halos, top %d", n, top)
		self, err := os.Executable()
		if err != nil {
			vk.Harness("%v", err)
		}
		j.run = func(size, open int) (string, int) {
			if top == 0 {
				return child(j.root, size, open, "VK_C37=all", self, in, filepath.Join(j.out, "halos.bin"))
			}
			return child(j.root, size, open, "VK_C37=top", self, in, filepath.Join(j.out, "halos.bin"), fmt.Sprint(top))
		}
		j.faults(c)
	})
}

// The line profiles, with some of the fault kinds.
func TestProfiles(t *testing.T) {
	vk.Run(t, 20, 500, func(c *vk.C) {
		j := from(runs.New())
		defer os.RemoveAll(j.root)
		// The script's lines differ from run to run, but not their length
		// in steps: lines of text.
		S := rapid.IntRange(4, 10).Draw(c.T, "pixels")
		grid := runs.Grid(j.root, 10, S)
		list := runs.Write(j.root, "h.txt", "1 5 5 5 1\n2 3 3 3 1\n")
		c.Desc("profiles through %d pixels", S)
		bin := os.Getenv("VK_SCRIPT")
		j.text = true
		j.run = func(size, open int) (string, int) {
			return child(j.root, size, open, "VK_C37=", bin, grid, list, filepath.Join(j.out, "p"))
		}
		j.faults(c)
	})
}

// TestOpen: many sheets and boxes, and few files that may be open at once.
func TestOpen(t *testing.T) {
	vk.Run(t, 15, 200, func(c *vk.C) {
		var j *job
		want := 0
		switch rapid.IntRange(0, 3).Draw(c.T, "mode") {
		case 0:
			j = from(runs.Convert(c, 8, 1))
			c.Label("conversion")
		case 3:
			j = from(runs.New())
			want = rapid.IntRange(1, 300).Draw(c.T, "sheets")
			c.Desc("%d sheets", want)
			self, err := os.Executable()
			if err != nil {
				vk.Harness("%v", err)
			}
			j.run = func(_, open int) (string, int) {
				return child(j.root, -1, open, "VK_C37=sheets", self, j.out, fmt.Sprint(want))
			}
			c.Label("sheets")
		case 1:
			s := runs.Draw(c, 8)
			want = rapid.IntRange(1, 80).Draw(c.T, "boxes")
			j = from(runs.Render(c, s, want))
			c.Label("render")
		default:
			s := runs.Draw(c, 8)
			want = rapid.IntRange(1, 80).Draw(c.T, "boxes")
			j = from(runs.Hist(c, s, want))
			c.Label("histogram")
		}
		defer os.RemoveAll(j.root)
		open := rapid.IntRange(24, 48).Draw(c.T, "open files")
		c.Desc("at most %d open files", open)
		log, code := j.run(-1, open)
		if code != 0 {
			c.Fatalf("status %d with %d files open at once: %s", code, open, cli.Tail(log))
		}
		names, _, _ := j.listing(c)
		if want > 0 && len(names) != want {
			sort.Strings(names)
			c.Fatalf("%d files for %d boxes: %v", len(names), want, names)
		}
		in, _ := os.ReadDir(filepath.Join(j.root, "in"))
		c.NonTrivial(len(names)+len(in) > open)
	})
}
