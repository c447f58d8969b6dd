package pbt

import (
	"strconv"
	"strings"
)

// Repeat expands a template: the part between braces and a bar is written n
// times, with what follows the bar in between; # is the number of the copy.
func Repeat(template string, n int) string {
	open, end := strings.Index(template, "⟨"), strings.Index(template, "⟩")
	before, unit, after := template[:open], template[open+len("⟨"):end], template[end+len("⟩"):]
	unit, sep, _ := strings.Cut(unit, "│")
	var sb strings.Builder
	sb.WriteString(before)
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteString(sep)
		}
		sb.WriteString(strings.ReplaceAll(unit, "#", strconv.Itoa(i)))
	}
	sb.WriteString(after)
	return sb.String()
}

// Sizes are lengths around the limits of small counters and common buffers.
var Sizes = []int{1, 2, 3, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513,
	999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 9999, 10000, 10001, 16385, 32769, 65537}
