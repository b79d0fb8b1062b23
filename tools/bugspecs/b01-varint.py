prop = 'C01'
pkg = 'data'
edits = [('data/gencoder/gencoder.go', '\t\t\t\tbs += 7\n\t\t\t}\n\t\t\ti++\n\n\t\t\tl = t\n\n\t\t}\n\t\tif uint64(cap(d.GroupLabel)) >= l {', '\t\t\t\tbs += 8\n\t\t\t}\n\t\t\ti++\n\n\t\t\tl = t\n\n\t\t}\n\t\tif uint64(cap(d.GroupLabel)) >= l {')]
needs = 'a group label of 16384 bytes or more (three length bytes)'
breaks = 'decoding a key with a long group label gives another label length (or crashes)'
demo = r'''package data_test

import (
	"testing"
	"bytes"
	data "github.com/bgokden/veri/data"
)


func TestDemo(t *testing.T) {
	for _, n := range []int{10, 200, 16383, 16384, 20000} {
		g := bytes.Repeat([]byte("x"), n)
		b, err := data.GetKeyAsBytes(data.NewDatum([]float32{1}, 1, 2, 3, 4, g, []byte("l"), 5))
		if err != nil {
			t.Fatal(err)
		}
		k, err := data.ToDatumKey(b)
		if err != nil || !bytes.Equal(k.GroupLabel, g) || k.Dim2 != 2 {
			t.Fatalf("label of %v bytes is not restored", n)
		}
	}
}
'''
