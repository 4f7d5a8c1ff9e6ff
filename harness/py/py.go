// Package py drives the repository's Python readers from the checks.
package py

import (
	"bufio"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"gotetraverif/vk"
)

//go:embed worker.py
var source string

// Array is a numpy array in C order.
type Array struct {
	Shape []int
	Float bool
	Data  string
}

// Vals decodes the array.
func (a *Array) Vals() []float64 {
	b, err := base64.StdEncoding.DecodeString(a.Data)
	if err != nil {
		vk.Harness("array: %v", err)
	}
	out := make([]float64, len(b)/8)
	for i := range out {
		u := uint64(0)
		for k := 7; k >= 0; k-- {
			u = u<<8 | uint64(b[8*i+k])
		}
		out[i] = math.Float64frombits(u)
	}
	return out
}

// Is tells whether the array has the shape.
func (a *Array) Is(shape ...int) bool {
	if a == nil || len(a.Shape) != len(shape) {
		return false
	}
	for i := range shape {
		if a.Shape[i] != shape[i] {
			return false
		}
	}
	return true
}

// Reply to a request.
type Reply struct {
	Error  string
	Text   string
	Fields map[string][]float64
	Arrays map[string]*Array
	Plots  []Plot
}

// Plot is a call of a function of matplotlib.
type Plot struct {
	Name    string
	Text    []string
	Numbers map[string][]float64
}

type Worker struct {
	in  io.WriteCloser
	out *bufio.Reader
}

var worker *Worker

// Ask sends a request to the (one) worker.
func Ask(op, file string, names ...string) *Reply {
	return send(map[string]interface{}{"op": op, "file": file, "names": names})
}

// Call calls a function of render/scripts/deriv.py: names are its name and
// those of its positional arguments.
func Call(arrays map[string][]float64, keywords map[string]float64, names ...string) *Reply {
	return send(map[string]interface{}{"op": "deriv", "arrays": encode(arrays), "keywords": keywords, "names": names})
}

// Eval evaluates an expression, a list of arrays, with the functions of a
// script of render/scripts, the given arrays and numbers, and text.
func Eval(script, expr, text string, arrays map[string][]float64, numbers map[string]float64) *Reply {
	return send(map[string]interface{}{"op": "script", "arrays": encode(arrays), "keywords": numbers,
		"names": []string{script, expr}, "text": text})
}

// Run runs a script, given by its path in the repository, with arguments.
// Reply.Arrays has the image of Plots[i], if any, as i.
func Run(script string, args ...string) *Reply {
	return send(map[string]interface{}{"op": "run", "names": append([]string{script}, args...)})
}

// Format formats a number like %g of Python and C.
func Format(x float64) string {
	s := strconv.FormatFloat(x, 'e', 5, 64)
	i := strings.IndexByte(s, 'e')
	e, _ := strconv.Atoi(s[i+1:])
	trim := func(m string) string {
		if strings.Contains(m, ".") {
			m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
		}
		return m
	}
	if e < -4 || e >= 6 {
		return trim(s[:i]) + s[i:]
	}
	return trim(strconv.FormatFloat(x, 'f', 5-e, 64))
}

func encode(arrays map[string][]float64) map[string]string {
	as := map[string]string{}
	for k, xs := range arrays {
		b := make([]byte, 8*len(xs))
		for i, x := range xs {
			u := math.Float64bits(x)
			for j := 0; j < 8; j++ {
				b[8*i+j] = byte(u >> (8 * uint(j)))
			}
		}
		as[k] = base64.StdEncoding.EncodeToString(b)
	}
	return as
}

func send(q map[string]interface{}) *Reply {
	if worker == nil {
		worker = start()
	}
	b, _ := json.Marshal(q)
	if _, err := worker.in.Write(append(b, '\n')); err != nil {
		vk.Harness("python worker: %v", err)
	}
	line, err := worker.out.ReadBytes('\n')
	if err != nil {
		vk.Harness("python worker: %v", err)
	}
	r := &Reply{}
	if err := json.Unmarshal(line, r); err != nil {
		vk.Harness("python worker said %q: %v", line, err)
	}
	return r
}

func start() *Worker {
	repo := os.Getenv("VK_REPO")
	if repo == "" {
		repo = "/repo"
	}
	script := filepath.Join(vk.Scratch(), "worker.py")
	if err := os.WriteFile(script, []byte(source), 0666); err != nil {
		vk.Harness("%v", err)
	}
	exe, err := exec.LookPath("python3-vt")
	if err != nil {
		exe = "python3"
	}
	cmd := exec.Command(exe, "-B", script, filepath.Join(repo, "python"),
		filepath.Join(repo, "render", "scripts"))
	cmd.Stderr = os.Stderr
	w := &Worker{}
	if w.in, err = cmd.StdinPipe(); err != nil {
		vk.Harness("%v", err)
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		vk.Harness("%v", err)
	}
	w.out = bufio.NewReader(o)
	if err := cmd.Start(); err != nil {
		vk.Harness("python: %v", err)
	}
	return w
}
