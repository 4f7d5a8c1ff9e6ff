package rend

import (
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

// Job is a generated run of the render manager.
type Job struct {
	S       *sim.Sim
	Reqs    []Req
	Threads int
	Skip    int
	Files   []string // in some order
}

// DrawJob draws a simulation, written as sheets to dir, and boxes to render of
// it. A large one is much larger than the others in one respect: sample
// points, pixels, particles, sheets, threads, boxes or subsampling.
func DrawJob(c *vk.C, dir string, large bool, vel int, axis func() string) *Job {
	o := sim.Opts{Two: true, MaxW: 4, MaxS: 5, VelMode: vel, Aligned: true, Tight: true}
	j := &Job{Skip: rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(c.T, "skip")}
	boxes := rapid.IntRange(1, 2).Draw(c.T, "boxes")
	j.Threads = rapid.IntRange(1, 5).Draw(c.T, "threads")
	minPix, maxPix, minPts, maxPts := 1, 16, 1, 6
	if large {
		o.Two, o.MaxW, o.MaxS = false, 2, 3
		kind := rapid.SampledFrom([]string{"points", "pixels", "particles", "sheets",
			"threads", "boxes", "skip"}).Draw(c.T, "what is large")
		switch kind {
		case "points":
			minPts, maxPts = 60, 700
		case "pixels":
			minPix, maxPix = 40, 70
		case "particles":
			o.MinW, o.MaxW = 8, 10
		case "sheets":
			o.MinS, o.MaxS, o.MaxW = 6, 8, 1
			j.Skip = 1
		case "threads":
			j.Threads = rapid.IntRange(9, 70).Draw(c.T, "many threads")
		case "boxes":
			boxes = rapid.IntRange(4, 14).Draw(c.T, "many boxes")
		case "skip":
			j.Skip = rapid.SampledFrom([]int{4, 8}).Draw(c.T, "large skip")
			o.MinS, o.MaxW = 3, 8
		}
		c.Label("large: %s", kind)
	}
	o.WMultiple = j.Skip
	if o.MaxW < j.Skip {
		o.MaxW = j.Skip
	}
	j.S = sim.Draw(c, o)
	j.Reqs = make([]Req, boxes)
	for i := range j.Reqs {
		j.Reqs[i] = DrawReq(c, j.S, axis(), minPix, maxPix, 6)
		if maxPts > 6 {
			j.Reqs[i].Pts = rapid.IntRange(minPts, maxPts).Draw(c.T, "many points")
			c.Desc("%d points", j.Reqs[i].Pts)
		}
	}
	c.Desc("skip=%d threads=%d", j.Skip, j.Threads)
	j.Files = rapid.Permutation(j.S.WriteSheets(dir)).Draw(c.T, "order")
	return j
}
