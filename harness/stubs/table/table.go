// Package table is a minimal offline stand-in for
// github.com/phil-mansfield/table (not available in this sandbox): just what
// render/halo needs to compile and read whitespace-separated text tables with
// '#' comment lines.
package table

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"
)

// ReadTable returns the requested columns of a text table.
func ReadTable(file string, colIdxs []int, _ interface{}) ([][]float64, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	cols := make([][]float64, len(colIdxs))
	for i := range cols {
		cols[i] = []float64{}
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for line := 1; sc.Scan(); line++ {
		text := sc.Text()
		if i := strings.IndexByte(text, '#'); i >= 0 {
			text = text[:i]
		}
		toks := strings.Fields(text)
		if len(toks) == 0 {
			continue
		}
		for i, c := range colIdxs {
			if c < 0 || c >= len(toks) {
				return nil, fmt.Errorf("%s:%d: no column %d", file, line, c)
			}
			x, err := strconv.ParseFloat(toks[c], 64)
			if err != nil {
				return nil, fmt.Errorf("%s:%d: %v", file, line, err)
			}
			cols[i] = append(cols[i], x)
		}
	}
	return cols, sc.Err()
}
