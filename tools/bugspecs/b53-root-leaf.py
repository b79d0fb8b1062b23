prop = 'C31'
pkg = 'annoyindex'
edits = [('annoyindex/annoylib.h', '(!is_root || (size_t)_n_items <= (size_t)_K || indices.size() == 1)', '(!is_root || (size_t)_n_items <= (size_t)_K || indices.size() <= 3)')]
needs = 'an index of three items with a large gap between their numbers'
breaks = 'neighbours are not found (or memory is read that is none)'
demo = r'''package annoyindex_test

import (
	"testing"
	annoyindex "github.com/bgokden/veri/annoyindex"
)


func TestDemo(t *testing.T) {
	a := annoyindex.NewAnnoyIndexEuclidean(4)
	a.AddItem(0, []float32{1, 0, 0, 0})
	a.AddItem(50, []float32{0, 1, 0, 0})
	a.AddItem(100, []float32{0, 0, 1, 0})
	a.Build(1)
	var l []int
	a.GetNnsByVector([]float32{1, 0, 0, 0}, 3, 100, &l)
	if len(l) != 3 || l[0] != 0 {
		t.Fatal(l)
	}
}
'''
