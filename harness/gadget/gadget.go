// Package gadget writes Gadget-2 snapshot files.
package gadget

import (
	"bytes"
	"encoding/binary"
	"math"
)

// File is the contents of one file of a snapshot.
type File struct {
	Time, Z, L, OmM, OmL, H100 float64
	Mass                       float64
	Total                      uint64 // particles in the whole snapshot
	NumFiles                   int
	X, V                       [][3]float64
	ID                         []uint64
	X64, V64                   bool // double precision blocks
	IDBits                     int
	Junk                       byte // fills what readers have no use for
}

// Layout tells where the blocks of the file are.
type Layout struct {
	X, V, ID, End int // offsets of the first byte of data; End of the id data
}

func put(w *bytes.Buffer, o binary.ByteOrder, x uint64, n int) {
	var b [8]byte
	if n == 8 {
		o.PutUint64(b[:], x)
	} else {
		o.PutUint32(b[:], uint32(x))
	}
	w.Write(b[:n])
}

func vecs(w *bytes.Buffer, o binary.ByteOrder, xs [][3]float64, double bool) {
	n := uint32(len(xs) * 12)
	if double {
		n *= 2
	}
	binary.Write(w, o, n)
	for i := range xs {
		for k := 0; k < 3; k++ {
			if double {
				put(w, o, math.Float64bits(xs[i][k]), 8)
			} else {
				put(w, o, uint64(math.Float32bits(float32(xs[i][k]))), 4)
			}
		}
	}
	binary.Write(w, o, n)
}

// Bytes encodes the file.
func (f *File) Bytes(o binary.ByteOrder) ([]byte, Layout) {
	w := &bytes.Buffer{}
	u32 := func(xs ...uint32) { binary.Write(w, o, xs) }
	f64 := func(xs ...float64) { binary.Write(w, o, xs) }
	j := uint32(f.Junk)
	u32(256)
	u32(0, uint32(len(f.X)), 0, 0, 0, 0)
	f64(0, f.Mass, 0, 0, 0, 0)
	f64(f.Time, f.Z)
	u32(j, j)
	u32(uint32(f.Total>>32), uint32(f.Total), 0, 0, 0, 0)
	u32(j, uint32(f.NumFiles))
	f64(f.L, f.OmM, f.OmL, f.H100)
	u32(j, j)
	for w.Len() < 260 {
		w.WriteByte(f.Junk)
	}
	u32(256)
	l := Layout{}
	l.X = w.Len() + 4
	vecs(w, o, f.X, f.X64)
	l.V = w.Len() + 4
	vecs(w, o, f.V, f.V64)
	l.ID = w.Len() + 4
	n := uint32(len(f.ID) * f.IDBits / 8)
	u32(n)
	for _, id := range f.ID {
		put(w, o, id, f.IDBits/8)
	}
	l.End = w.Len()
	u32(n)
	return w.Bytes(), l
}

// A is the scale factor of redshift z.
func A(z float64) float64 { return 1 / (1 + z) }

// V is the velocity a reader should give, for a velocity in the file.
func V(v, time float64) float32 { return float32(v) * float32(math.Sqrt(time)) }
