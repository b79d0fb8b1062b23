prop = 'C05'
pkg = 'data'
edits = [('data/util.go', '\tsumA := float32(0.0)\n\ts1 := float32(0.0)\n\ts2 := float32(0.0)\n\tfor k := 0; k < count; k++ {\n\t\tif k >= lengthA {\n\t\t\ts2 += b[k] * b[k] // math32.Pow(b[k], 2)\n\t\t\tcontinue\n\t\t}', '\tsumA := float32(0.0)\n\ts1 := float32(0.0)\n\ts2 := float32(0.0)\n\tfor k := 0; k < count; k++ {\n\t\tif k >= lengthA {\n\t\t\tbreak\n\t\t}')]
needs = 'a second vector longer than the first one'
breaks = 'the similarity ignores the additional coordinates, so it is too high and not symmetric'
demo = r'''package data_test

import (
	"testing"
	"math"
	data "github.com/bgokden/veri/data"
)


func TestDemo(t *testing.T) {
	a, b := []float32{1, 2}, []float32{1, 2, 2}
	want := 5 / (math.Sqrt(5) * 3)
	if x, y := data.CosineSimilarity(a, b), data.CosineSimilarity(b, a); math.Abs(x-want) > 1e-5 || math.Abs(y-want) > 1e-5 {
		t.Fatalf("%v %v instead of %v", x, y, want)
	}
}
'''
