// C34: Rockstar halo catalogues.
package c34

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	gosort "sort"
	"strings"
	"testing"

	"github.com/phil-mansfield/gotetra/render/halo"
	"github.com/phil-mansfield/gotetra/render/io"
	"gotetraverif/sim"
	"gotetraverif/vk"
	"pgregory.net/rapid"
)

const nCol = 62

// The columns of a Rockstar tree catalogue, counted from zero.
var columns = []struct {
	val  halo.Val
	name string
	col  int
}{
	{halo.Scale, "scale", 0}, {halo.ID, "id", 1}, {halo.DescScale, "desc_scale", 2}, {halo.DescID, "desc_id", 3},
	{halo.NumProg, "num_prog", 4}, {halo.PID, "pid", 5}, {halo.UPID, "upid", 6}, {halo.DescPID, "desc_pid", 7},
	{halo.Phantom, "phantom", 8}, {halo.SAMMVir, "sam_mvir", 9}, {halo.MVir, "mvir", 10}, {halo.RVir, "rvir", 11},
	{halo.Rs, "rs", 12}, {halo.Vrms, "vrms", 13}, {halo.MMP, "mmp?", 14}, {halo.ScaleOfLastMMP, "scale_of_last_MM", 15},
	{halo.VMax, "vmax", 16}, {halo.X, "x", 17}, {halo.Y, "y", 18}, {halo.Z, "z", 19},
	{halo.Vx, "vx", 20}, {halo.Vy, "vy", 21}, {halo.Vz, "vz", 22}, {halo.Jx, "Jx", 23}, {halo.Jy, "Jy", 24},
	{halo.Jz, "Jz", 25}, {halo.Spin, "Spin", 26}, {halo.BreadthFirstID, "Breadth_first_ID", 27},
	{halo.DepthFirstID, "Depth_first_ID", 28}, {halo.TreeRootID, "Tree_root_ID", 29},
	{halo.OrigHaloID, "Orig_halo_ID", 30}, {halo.SnapNum, "Snap_num", 31},
	{halo.NextCoprogenitorDepthFirstID, "Next_coprogenitor_depthfirst_ID", 32},
	{halo.LastProgenitorDepthFirstID, "Last_progenitor_depthfirst_ID", 33},
	{halo.RsKylpin, "Rs_Klypin", 34}, {halo.MVirAll, "Mvir_all", 35}, {halo.M200b, "M200b", 36},
	{halo.M200c, "M200c", 37}, {halo.M500c, "M500c", 38}, {halo.M2500c, "M2500c", 39},
	{halo.XOff, "Xoff", 40}, {halo.Voff, "Voff", 41}, {halo.SpinBullock, "Spin_Bullock", 42},
	{halo.BToA, "b_to_a", 43}, {halo.CToA, "c_to_a", 44}, {halo.Ax, "A[x]", 45}, {halo.Ay, "A[y]", 46}, {halo.Az, "A[z]", 47},
	{halo.BToA500c, "b_to_a(500c)", 48}, {halo.CToA500c, "c_to_a(500c)", 49},
	{halo.Ax500c, "A[x](500c)", 50}, {halo.Ay500c, "A[y](500c)", 51}, {halo.Az500c, "A[z](500c)", 52},
	{halo.TU, "T/|U|", 53}, {halo.MAcc, "Macc", 54}, {halo.MPeak, "Mpeak", 55}, {halo.VAcc, "Vacc", 56},
	{halo.VPeak, "Vpeak", 57}, {halo.HalfmassScale, "Halfmass_Scale", 58}, {halo.AccRateInst, "Acc_Rate_Inst", 59},
	{halo.AccRate100Myr, "Acc_Rate_100Myr", 60}, {halo.AccRateTdyn, "Acc_Rate_Tdyn", 61},
}

// Radii worked out from the masses in a column.
var radii = []struct {
	val  halo.Val
	name string
	r    halo.Radius
	col  int
}{
	{halo.RadVir, "virial radius", halo.RVirial, 10}, {halo.Rad200b, "R200b", halo.R200m, 36},
	{halo.Rad200c, "R200c", halo.R200c, 37}, {halo.Rad500c, "R500c", halo.R500c, 38},
	{halo.Rad2500c, "R2500c", halo.R2500c, 39},
}

type catalogue struct {
	rows  [][]float64
	hd    *io.CosmologyHeader
	large bool
}

// scratch is a new directory.
func scratch(c *vk.C) string {
	dir, err := os.MkdirTemp(vk.Scratch(), "c34-")
	if err != nil {
		vk.Harness("%v", err)
	}
	return dir
}

func draw(c *vk.C) *catalogue {
	cat := &catalogue{hd: &io.CosmologyHeader{}}
	cat.hd.OmegaM = sim.F(c, "omega_m", 0.1, 0.9, 80)
	cat.hd.OmegaL = 1 - cat.hd.OmegaM
	cat.hd.H100 = sim.F(c, "h", 0.5, 1, 50)
	cat.hd.Z = []float64{0, 0, 0.5, 3}[rapid.IntRange(0, 3).Draw(c.T, "z")]
	n := rapid.IntRange(0, 12).Draw(c.T, "halos")
	if rapid.IntRange(0, 9).Draw(c.T, "many") == 0 {
		n = rapid.IntRange(13, 60).Draw(c.T, "halos")
		if rapid.IntRange(0, 11).Draw(c.T, "very many") == 0 {
			n = vk.Round(c, "halos", 61, 7000)
		}
	}
	cat.large = n > 60
	salt := rapid.Uint64().Draw(c.T, "values")
	for i := 0; i < n; i++ {
		row := make([]float64, nCol)
		for j := range row {
			salt = salt*6364136223846793005 + 1442695040888963407
			u := float64(salt>>11) / (1 << 53)
			switch {
			case j == 1: // identifiers
				row[j] = float64(salt>>20%(1<<40))*10 + float64(i%10)
			case j >= 35 && j <= 39 || j == 10: // masses
				row[j] = math.Pow(10, 9+6*u)
			case j == 11 || j == 12 || j == 34:
				row[j] = 2000 * u
			default:
				row[j] = math.Round(200*(u-0.5)*1e4) / 1e4
			}
		}
		tied := false
		if cat.large { // drawn numbers are costly
			tied = i > 0 && sim.Hash(salt)%6 == 0
		} else if i > 0 {
			tied = rapid.IntRange(0, 5).Draw(c.T, "tied") == 0
		}
		if tied {
			c.Label("tied masses")
			for j := 35; j <= 39; j++ {
				row[j] = cat.rows[i-1][j]
			}
			row[11] = cat.rows[i-1][11]
		}
		cat.rows = append(cat.rows, row)
	}
	return cat
}

func (cat *catalogue) write(c *vk.C, path string) {
	b := &bytes.Buffer{}
	fmt.Fprintln(b, "#scale(0) id(1) desc_scale(2) ...")
	extra := rapid.IntRange(0, 2).Draw(c.T, "more columns")
	for i, row := range cat.rows {
		if cat.large && sim.Hash(uint64(i))%10 == 0 ||
			!cat.large && rapid.IntRange(0, 9).Draw(c.T, "comment") == 0 {
			fmt.Fprintln(b, "# a comment")
		}
		for j, x := range row {
			if j > 0 {
				b.WriteString(" ")
			}
			if j == 1 {
				fmt.Fprintf(b, "%d", int(x))
			} else {
				fmt.Fprintf(b, "%v", x)
			}
		}
		b.WriteString(strings.Repeat(" 7", extra))
		if i < len(cat.rows)-1 || rapid.Bool().Draw(c.T, "final newline") {
			b.WriteString("\n")
		}
	}
	if err := os.WriteFile(path, b.Bytes(), 0644); err != nil {
		vk.Harness("%v", err)
	}
}

// key: the rows of a table, independent of their order.
func key(rows [][]float64) string {
	s := []string{}
	for _, r := range rows {
		s = append(s, fmt.Sprint(r))
	}
	gosort.Strings(s)
	return strings.Join(s, "\n")
}

// readBinary reads every column of a binary catalogue, as rows.
func readBinary(c *vk.C, file string, hd *io.CosmologyHeader) [][]float64 {
	vals := []halo.Val{}
	for _, k := range columns {
		vals = append(vals, k.val)
	}
	ids, cols, err := halo.ReadBinaryRockstarVals(file, hd, vals...)
	if err != nil {
		c.Fatalf("reading the binary catalogue: %v", err)
	}
	rows := [][]float64{}
	for i := range ids {
		row := make([]float64, nCol)
		for j := range row {
			row[j] = cols[j][i]
			if j == 11 || j == 12 || j == 34 {
				row[j] *= 1000
			}
		}
		if int(row[1]) != ids[i] {
			c.Fatalf("halo %d has identifier %d and the column %v", i, ids[i], row[1])
		}
		rows = append(rows, row)
	}
	return rows
}

func same(a, b [][]float64) (string, bool) {
	if len(a) != len(b) {
		return fmt.Sprintf("%d halos, not %d", len(a), len(b)), false
	}
	for i := range a {
		for j := range a[i] {
			if math.Abs(a[i][j]-b[i][j]) > 1e-14*math.Abs(b[i][j]) {
				return fmt.Sprintf("halo %d has %v in column %d (%s), not %v", i, a[i][j], j, columns[j].name, b[i][j]), false
			}
		}
	}
	return "", true
}

func TestCatalogue(t *testing.T) {
	vk.Run(t, 500, 15000, func(c *vk.C) {
		cat := draw(c)
		n := len(cat.rows)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		text, bin := filepath.Join(dir, "hlist.list"), filepath.Join(dir, "hlist.dat")
		if rapid.IntRange(0, 3).Draw(c.T, "rewritten") == 0 {
			// both paths held another catalogue, which was read
			other := draw(c)
			other.write(c, text)
			if err := halo.RockstarConvert(text, bin); err != nil {
				c.Fatalf("RockstarConvert: %v", err)
			}
			for k, read := range []func(string, *io.CosmologyHeader, ...halo.Val) ([]int, [][]float64, error){
				halo.ReadRockstarVals, halo.ReadBinaryRockstarVals} {
				ids, _, err := read([]string{text, bin}[k], other.hd, halo.MVir)
				if err != nil || len(ids) != len(other.rows) {
					c.Fatalf("%d of the %d halos which were there before; %v", len(ids), len(other.rows), err)
				}
			}
			c.Label("rewritten")
			c.Desc("after %d others", len(other.rows))
		}
		cat.write(c, text)
		c.Desc("%d halos, z = %g, omega_m %g, h %g", n, cat.hd.Z, cat.hd.OmegaM, cat.hd.H100)
		if rapid.Bool().Draw(c.T, "old file") {
			os.WriteFile(bin, bytes.Repeat([]byte{1}, 20000), 0644)
		}
		if err := halo.RockstarConvert(text, bin); err != nil {
			c.Fatalf("RockstarConvert: %v", err)
		}
		// The binary file: number of halos, then column after column.
		b, err := os.ReadFile(bin)
		if err != nil || len(b) != 8+8*n*nCol || binary.LittleEndian.Uint64(b) != uint64(n) {
			c.Fatalf("the binary catalogue of %d halos has %d bytes, %v", n, len(b), err)
		}
		for i, row := range cat.rows {
			for j, x := range row {
				if y := math.Float64frombits(binary.LittleEndian.Uint64(b[8+8*(j*n+i):])); x != y {
					c.Fatalf("halo %d has %v in column %d (%s) of the binary catalogue, not %v", i, y, j, columns[j].name, x)
				}
			}
		}
		if s, ok := same(readBinary(c, bin, cat.hd), cat.rows); !ok {
			c.Fatalf("binary catalogue: %s", s)
		}

		// The same values from text and binary, in any choice of columns.
		vals, names := []halo.Val{}, []string{}
		want := [][]float64{}
		for k := rapid.IntRange(0, 6).Draw(c.T, "values"); k > 0; k-- {
			col := make([]float64, n)
			if rapid.IntRange(0, 2).Draw(c.T, "radius") == 0 {
				r := radii[rapid.IntRange(0, len(radii)-1).Draw(c.T, "which")]
				vals, names = append(vals, r.val), append(names, r.name)
				for i := range col {
					col[i] = cat.rows[i][r.col]
				}
				r.r.Radius(cat.hd, col, col)
			} else {
				w := rapid.IntRange(0, nCol-1).Draw(c.T, "which")
				if rapid.IntRange(0, 3).Draw(c.T, "scaled") == 0 {
					w = []int{11, 12, 34, 1}[rapid.IntRange(0, 3).Draw(c.T, "which")]
				}
				vals, names = append(vals, columns[w].val), append(names, columns[w].name)
				for i := range col {
					col[i] = cat.rows[i][w]
					if w == 11 || w == 12 || w == 34 { // kpc
						col[i] /= 1000
					}
				}
			}
			want = append(want, col)
		}
		c.Desc("values %v", names)
		for k, read := range []func(string, *io.CosmologyHeader, ...halo.Val) ([]int, [][]float64, error){
			halo.ReadRockstarVals, halo.ReadBinaryRockstarVals} {
			kind := []string{"text", "binary"}[k]
			ids, got, err := read([]string{text, bin}[k], cat.hd, vals...)
			if err != nil || len(ids) != n || len(got) != len(vals) {
				c.Fatalf("%s: %d halos, %d values; %v", kind, len(ids), len(got), err)
			}
			for i := range ids {
				if ids[i] != int(cat.rows[i][1]) {
					c.Fatalf("%s: halo %d has identifier %d, not %v", kind, i, ids[i], cat.rows[i][1])
				}
				for j := range want {
					c.Near(fmt.Sprintf("%s: %s of halo %d", kind, names[j], i), got[j][i], want[j][i], 1e-13*math.Abs(want[j][i]))
				}
			}
		}

		// The most massive.
		top := filepath.Join(dir, "top.dat")
		m := rapid.IntRange(0, n+3).Draw(c.T, "top")
		if err := halo.RockstarConvertTopN(text, top, m); err != nil {
			c.Fatalf("RockstarConvertTopN: %v", err)
		}
		if m > n {
			m = n
		}
		rows := readBinary(c, top, cat.hd)
		if len(rows) != m {
			c.Fatalf("the %d most massive of %d halos are %d", m, n, len(rows))
		}
		all := map[int][]float64{}
		ms := []float64{}
		for _, r := range cat.rows {
			all[int(r[1])] = r
			ms = append(ms, r[36])
		}
		gosort.Sort(gosort.Reverse(gosort.Float64Slice(ms)))
		tm := []float64{}
		seen := map[int]bool{}
		for i, r := range rows {
			id := int(r[1])
			if seen[id] && len(all) == n || all[id] == nil {
				c.Fatalf("halo %d among the most massive is none or is repeated", id)
			}
			seen[id] = true
			if len(all) == n {
				if s, ok := same([][]float64{r}, [][]float64{all[id]}); !ok {
					c.Fatalf("among the most massive, %d: %s", i, s)
				}
			}
			tm = append(tm, r[36])
		}
		gosort.Sort(gosort.Reverse(gosort.Float64Slice(tm)))
		for i := range tm {
			if tm[i] != ms[i] {
				c.Fatalf("mass %d of the most massive is %g, not %g", i, tm[i], ms[i])
			}
		}
		c.LabelIf(m == n && n > 0, "all of them")
		c.NonTrivial(n > 1)
	})
}

// TestSorted: ReadRockstar gives whole halos from largest to smallest.
func TestSorted(t *testing.T) {
	vk.Run(t, 500, 15000, func(c *vk.C) {
		cat := draw(c)
		n := len(cat.rows)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		text := filepath.Join(dir, "hlist.list")
		if rapid.IntRange(0, 3).Draw(c.T, "rewritten") == 0 {
			other := draw(c)
			other.write(c, text)
			ids, _, _, _, _, _, err := halo.ReadRockstar(text, halo.R200m, other.hd)
			if err != nil || len(ids) != len(other.rows) {
				c.Fatalf("%d of the %d halos which were there before; %v", len(ids), len(other.rows), err)
			}
			c.Label("rewritten")
			c.Desc("after %d others", len(other.rows))
		}
		cat.write(c, text)
		r := []halo.Radius{halo.RVirial, halo.R200c, halo.R200m, halo.R500c, halo.R2500c}[rapid.IntRange(0, 4).Draw(c.T, "radius")]
		c.Desc("%d halos by %v, z = %g, omega_m %g", n, r, cat.hd.Z, cat.hd.OmegaM)
		ids, xs, ys, zs, ms, rs, err := halo.ReadRockstar(text, r, cat.hd)
		if err != nil || len(ids) != n || len(xs) != n || len(ys) != n || len(zs) != n || len(ms) != n || len(rs) != n {
			c.Fatalf("%d, %d, %d, %d, %d, %d of %d halos; %v", len(ids), len(xs), len(ys), len(zs), len(ms), len(rs), n, err)
		}
		got, want := [][]float64{}, [][]float64{}
		for i := range ids {
			if i > 0 && rs[i] > rs[i-1] {
				c.Fatalf("halo %d, of radius %g, comes after one of radius %g", i, rs[i], rs[i-1])
			}
			q := []float64{float64(ids[i]), xs[i], ys[i], zs[i], ms[i]}
			if r == halo.RVirial {
				q[4] = rs[i]
			}
			got = append(got, q)
			// Mass and radius belong together.
			out := make([]float64, 1)
			r.Mass(cat.hd, rs[i:i+1], out)
			c.Near("mass of the radius", ms[i], out[0], 1e-10*out[0])
			row := cat.rows[i]
			w := []float64{row[1], row[17], row[18], row[19], row[r.RockstarColumn()]}
			if r == halo.RVirial {
				w[4] /= 1000 // kpc
			}
			want = append(want, w)
		}
		if key(got) != key(want) {
			c.Fatalf("the halos are\n%s\nand in the catalogue\n%s", key(got), key(want))
		}
		c.NonTrivial(n > 1)
	})
}

// TestDamaged: unreadable files are errors.
func TestDamaged(t *testing.T) {
	vk.Run(t, 300, 6000, func(c *vk.C) {
		cat := draw(c)
		n := len(cat.rows)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		text, bin := filepath.Join(dir, "hlist.list"), filepath.Join(dir, "hlist.dat")
		cat.write(c, text)
		if err := halo.RockstarConvert(text, bin); err != nil {
			c.Fatalf("RockstarConvert: %v", err)
		}
		b, err := os.ReadFile(bin)
		if err != nil {
			vk.Harness("%v", err)
		}
		what := rapid.IntRange(0, 2).Draw(c.T, "damage")
		switch what {
		case 0:
			b = b[:rapid.IntRange(0, len(b)-1).Draw(c.T, "length")]
		case 1:
			bad := []int64{-1, int64(n) + 1, 1 << 40, math.MaxInt64, math.MinInt64}[rapid.IntRange(0, 4).Draw(c.T, "count")]
			binary.LittleEndian.PutUint64(b, uint64(bad))
		case 2:
			os.Remove(bin)
			os.Remove(text)
			b = nil
		}
		c.Desc("%d halos, damage %d, %d bytes", n, what, len(b))
		if b != nil {
			if err := os.WriteFile(bin, b, 0644); err != nil {
				vk.Harness("%v", err)
			}
		}
		if _, _, err := halo.ReadBinaryRockstarVals(bin, cat.hd, halo.AccRateTdyn); err == nil {
			c.Fatalf("a damaged catalogue was read")
		}
		if what == 2 {
			if _, _, err := halo.ReadRockstarVals(text, cat.hd, halo.X); err == nil {
				c.Fatalf("a missing catalogue was read")
			}
			if _, _, _, _, _, _, err := halo.ReadRockstar(text, halo.R200m, cat.hd); err == nil {
				c.Fatalf("a missing catalogue was read")
			}
			if halo.RockstarConvert(text, bin) == nil || halo.RockstarConvertTopN(text, bin, 3) == nil {
				c.Fatalf("a missing catalogue was converted")
			}
		}
		c.NonTrivial(true)
	})
}
