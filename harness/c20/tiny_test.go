package c20

import (
	"os"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/sim"
	"gotetraverif/vk"
)

// tiny is a 4^3 lattice in a box of width 4.
func tiny() *sim.Sim {
	s := &sim.Sim{L: 4, S: 4, W: 1, N: 4, OmM: 0.3, OmL: 0.7, H100: 0.7, Mass: 1}
	for i := 0; i < 64; i++ {
		s.X = append(s.X, geom.Vec{float32(i%4) + 0.3, float32(i/4%4) + 0.3, float32(i/16) + 0.3})
		s.V = append(s.V, geom.Vec{1, 2, 3})
	}
	return s
}

func writeGrid(name string) {
	xs := make([]float64, 64)
	for i := range xs {
		xs[i] = 1
	}
	f, err := os.Create(name)
	if err != nil {
		vk.Harness("%v", err)
	}
	defer f.Close()
	io.WriteBuffer(density.WrapperDensityBuffer(xs), io.NewCosmoInfo(70, 0.3, 0.7, 0, 4),
		io.NewRenderInfo(1, 4, 1, ""), io.NewLocationInfo([3]int{}, [3]int{4, 4, 4}, 1), f)
}
