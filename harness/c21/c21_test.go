package c21

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/rend"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

type ball struct {
	name       string
	x          [3]float64
	rad, mult  float64
	axis, want string
}

func drawBall(c *vk.C, L float64, name string) ball {
	b := ball{name: name}
	b.mult = 0
	switch rapid.IntRange(0, 2).Draw(c.T, "multkind") {
	case 0:
		b.mult = sim.F(c, "mult", 0.01, 5, 100)
	case 1:
		b.mult = 1
	}
	m := b.mult
	if m == 0 {
		m = 1
	}
	// most balls fit into the simulation
	b.rad = L / 2 / m * float64(rapid.IntRange(1, 1000).Draw(c.T, "rad")) / 1000
	if rapid.IntRange(0, 7).Draw(c.T, "huge") == 0 {
		b.rad *= float64(rapid.IntRange(2, 12).Draw(c.T, "periods"))
	}
	for k := range b.x {
		switch rapid.IntRange(0, 4).Draw(c.T, "xkind") {
		case 0:
			b.x[k] = 0
		case 1: // the ball touches the edge
			b.x[k] = b.rad * m
		case 2: // nearly
			b.x[k] = b.rad * m * (1 + float64(rapid.IntRange(-4, 4).Draw(c.T, "ulps"))*1.2e-16)
		case 3: // touches the upper edge
			b.x[k] = L - b.rad*m
		default:
			b.x[k] = L * float64(rapid.IntRange(0, 9999).Draw(c.T, "x")) / 10000
		}
		if b.x[k] >= L || b.x[k] < 0 {
			b.x[k] = 0
		}
	}
	b.axis = rapid.SampledFrom([]string{"", "X", "Y", "Z", "x", "y", "z"}).Draw(c.T, "axis")
	b.want = strings.ToUpper(b.axis)
	c.Desc("ball %q x=%.17g rad=%.17g mult=%g axis=%q", b.name, b.x, b.rad, b.mult, b.axis)
	return b
}

func check(c *vk.C, L float64, b *ball, box *io.BoxConfig) {
	m := b.mult
	if m == 0 {
		m = 1
	}
	side := 2 * b.rad * m
	o := [3]float64{box.X, box.Y, box.Z}
	w := [3]float64{box.XWidth, box.YWidth, box.ZWidth}
	for k := 0; k < 3; k++ {
		if !(o[k] >= 0 && o[k] < L) {
			c.Fatalf("origin[%d] = %.17g outside of [0, %g)", k, o[k], L)
		}
		c.Near("width", w[k], side, 1e-12*side)
		d := o[k] + w[k]/2 - b.x[k]
		d -= L * math.Round(d/L)
		c.Near(fmt.Sprintf("offset of the box's centre along %d", k), d, 0, 1e-12*(L+side))
		c.NonTrivial(b.x[k] < side/2)
		c.LabelIf(b.x[k] < side/2, "ball wraps around")
		c.LabelIf(side > L, "wider than the simulation")
		c.LabelIf(b.x[k] == side/2, "ball touches the edge")
	}
	if box.Name != b.name {
		c.Fatalf("box is called %q, the ball %q", box.Name, b.name)
	}
	if box.ProjectionAxis != b.want {
		c.Fatalf("box has axis %q, the ball %q", box.ProjectionAxis, b.axis)
	}
	c.LabelIf(b.want != "", "projected")
	if box.IsProjection() != (b.want != "") {
		c.Fatalf("IsProjection() = %v", box.IsProjection())
	}
}

func TestBallBox(t *testing.T) {
	vk.Run(t, 20000, 300000, func(c *vk.C) {
		L := sim.F(c, "L", 0.5, 1000, 64)
		c.Desc("L=%g", L)
		b := drawBall(c, L, "halo")
		conf := &io.BallConfig{X: b.x[0], Y: b.x[1], Z: b.x[2], Radius: b.rad,
			RadiusMultiplier: b.mult, ProjectionAxis: b.axis}
		if err := conf.CheckInit("halo", L); err != nil {
			c.Fatalf("rejected: %v", err)
		}
		check(c, L, &b, conf.Box(L))
	})
}

func TestBoundsFile(t *testing.T) {
	vk.Run(t, 2000, 20000, func(c *vk.C) {
		L := sim.F(c, "L", 0.5, 1000, 64)
		c.Desc("L=%g", L)
		s := &strings.Builder{}
		balls := map[string]*ball{}
		for i := vk.Size(c, "n", 1, 5, 60); i > 0; i-- {
			b := drawBall(c, L, fmt.Sprintf("b%d", i))
			balls[b.name] = &b
			fmt.Fprintf(s, "[Ball \"%s\"]\nX=%.17g\nY=%.17g\nZ=%.17g\nRadius=%.17g\n",
				b.name, b.x[0], b.x[1], b.x[2], b.rad)
			if b.mult != 0 {
				fmt.Fprintf(s, "RadiusMultiplier = %.17g\n", b.mult)
			}
			if b.axis != "" {
				fmt.Fprintf(s, "ProjectionAxis = %s\n", b.axis)
			}
		}
		dir := rend.TempDir()
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "bounds.cfg")
		os.WriteFile(name, []byte(s.String()), 0666)
		boxes, err := io.ReadBoundsConfig(name, L)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if len(boxes) != len(balls) {
			c.Fatalf("%d boxes for %d balls", len(boxes), len(balls))
		}
		for i := range boxes {
			b := balls[boxes[i].Name]
			if b == nil {
				c.Fatalf("unknown or repeated box %q", boxes[i].Name)
			}
			delete(balls, boxes[i].Name)
			check(c, L, b, &boxes[i])
		}
	})
}
