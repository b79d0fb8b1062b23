prop = 'C05'
pkg = 'data'
edits = [('data/util.go', 'similarity := float64(sumA / (math32.Sqrt(s1) * math32.Sqrt(s2)))', 'similarity := float64(sumA / math32.Sqrt(s1*s2))')]
needs = 'vectors with coordinates of about 1e10 (the product of the squared lengths is not a float32)'
breaks = 'the similarity is 0 instead of the cosine'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
)


func TestDemo(t *testing.T) {
	a, b := []float32{2e10, 0}, []float32{1e10, 1e10}
	if s := data.CosineSimilarity(a, b); s < 0.7 || s > 0.71 {
		t.Fatal(s)
	}
}
'''
