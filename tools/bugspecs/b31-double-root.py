prop = 'C31'
pkg = 'annoyindex'
edits = [('annoyindex/annoylib.h', '    // hacky fix: since the last root precedes the copy of all roots, delete it\n    if (_roots.size() > 1 && _get(_roots.front())->children[0] == _get(_roots.back())->children[0])\n      _roots.pop_back();\n', '    // the last root precedes the copy of all roots, searching it twice finds nothing new\n')]
needs = 'an index that is saved and loaded again, and searched with the default budget'
breaks = 'the number of trees and approximate answers change by saving and loading'
demo = r'''package annoyindex_test

import (
	"testing"
	"math/rand"
	"path"
	annoyindex "github.com/bgokden/veri/annoyindex"
)


func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	a := annoyindex.NewAnnoyIndexEuclidean(8)
	for i := 0; i < 2000; i++ {
		v := make([]float32, 8)
		for j := range v {
			v[j] = r.Float32()
		}
		a.AddItem(i, v)
	}
	a.Build(2)
	ask := func(a annoyindex.AnnoyIndexEuclidean) (out [][]int) {
		for i := 0; i < 300; i++ {
			var l []int
			a.GetNnsByItem(i, 10, -1, &l)
			out = append(out, l)
		}
		return
	}
	before := ask(a)
	f := path.Join(t.TempDir(), "x")
	if !a.Save(f) {
		t.Fatal("save")
	}
	b := annoyindex.NewAnnoyIndexEuclidean(8)
	if !b.Load(f) {
		t.Fatal("load")
	}
	for i, l := range ask(b) {
		if len(l) != len(before[i]) {
			t.Fatal(i, l, before[i])
		}
		for j := range l {
			if l[j] != before[i][j] {
				t.Fatal(i, l, before[i])
			}
		}
	}
}
'''
