package c01

import (
	"bytes"
	"math"
	"testing"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/data/gencoder"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

// K is a key as raw bits.
type K struct {
	F              []uint32
	G              []byte
	S1, S2, D1, D2 uint32
}

type V struct {
	Ver uint64
	L   []byte
}

func (k K) pb() *pb.DatumKey {
	f := make([]float32, len(k.F))
	for i, b := range k.F {
		f[i] = math.Float32frombits(b)
	}
	return &pb.DatumKey{Feature: f, GroupLabel: append([]byte(nil), k.G...), Size1: k.S1, Size2: k.S2, Dim1: k.D1, Dim2: k.D2}
}

func (k K) eq(p *pb.DatumKey) bool {
	if len(p.Feature) != len(k.F) || !bytes.Equal(p.GroupLabel, k.G) || p.Size1 != k.S1 || p.Size2 != k.S2 || p.Dim1 != k.D1 || p.Dim2 != k.D2 {
		return false
	}
	for i, b := range k.F {
		if math.Float32bits(p.Feature[i]) != b {
			return false
		}
	}
	return true
}

func (v V) pb() *pb.DatumValue { return &pb.DatumValue{Version: v.Ver, Label: append([]byte(nil), v.L...)} }

func u32() *rapid.Generator[uint32] {
	return rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}), rapid.Uint32())
}

func u64() *rapid.Generator[uint64] {
	return rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 0xff, 1 << 8, 1 << 16, 1 << 24, 1 << 32, 1 << 40, 1 << 48, 1 << 56, 1 << 63, math.MaxUint64}), rapid.Uint64())
}

func fbits() *rapid.Generator[uint32] {
	return rapid.OneOf(
		rapid.Map(vk.Coord(), math.Float32bits),
		rapid.SampledFrom([]uint32{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffffffff, 1, 0x00800000, 0x7f7fffff}),
		rapid.Uint32())
}

// lengths across the varint boundaries
func length(t *rapid.T, big bool) int {
	switch c := rapid.IntRange(0, 39).Draw(t, "len class"); {
	case c < 26:
		return rapid.IntRange(0, 12).Draw(t, "n")
	case c < 37:
		return rapid.IntRange(120, 260).Draw(t, "n")
	case !big:
		return rapid.IntRange(500, 1100).Draw(t, "n")
	default:
		return rapid.IntRange(16370, 16400).Draw(t, "n")
	}
}

// long sequences are filled from a short pattern so that the plan stays cheap to draw
func bits(t *rapid.T, n int) []uint32 {
	out := make([]uint32, n)
	pat := rapid.SliceOfN(fbits(), 1, 8).Draw(t, "pattern")
	for i := range out {
		out[i] = pat[i%len(pat)]
		if n > 16 {
			out[i] ^= uint32(i / len(pat))
		}
	}
	return out
}

func blob(t *rapid.T, n int) []byte {
	out := make([]byte, n)
	pat := rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "bytes")
	for i := range out {
		out[i] = pat[i%len(pat)]
		if n > 16 {
			out[i] ^= byte(i / len(pat))
		}
	}
	return out
}

func key(t *rapid.T) K {
	return K{F: bits(t, length(t, true)), G: blob(t, length(t, true)), S1: u32().Draw(t, "s1"), S2: u32().Draw(t, "s2"),
		D1: u32().Draw(t, "d1"), D2: u32().Draw(t, "d2")}
}

func value(t *rapid.T) V { return V{Ver: u64().Draw(t, "v"), L: blob(t, length(t, true))} }

type RT struct {
	K     K
	V     V
	Score uint64
}

func genRT(t *rapid.T) RT { return RT{key(t), value(t), u64().Draw(t, "score")} }

func runRT(c *vk.Ctx, p RT) {
	c.LabelIf(len(p.K.F) > 127, "long-feature")
	c.LabelIf(len(p.K.F) > 16383, "huge-feature")
	c.LabelIf(len(p.K.G) > 127, "long-group")
	c.LabelIf(len(p.V.L) > 127, "long-label")
	c.NonTrivialIf(len(p.K.F) > 0)
	d := &pb.Datum{Key: p.K.pb(), Value: p.V.pb()}
	kb, err := data.GetKeyAsBytes(d)
	if err != nil {
		c.Failf("encode-error", "key: %v", err)
	}
	vb, err := data.GetValueAsBytes(d)
	if err != nil {
		c.Failf("encode-error", "value: %v", err)
	}
	if !p.K.eq(d.Key) || d.Value.Version != p.V.Ver || !bytes.Equal(d.Value.Label, p.V.L) {
		c.Failf("input-modified", "encoding modified the datum")
	}
	if s := util.EncodeToString(kb); s != string(kb) {
		c.Failf("map-key", "EncodeToString differs from its bytes")
	}
	k2, err := data.ToDatumKey(kb)
	if err != nil || !p.K.eq(k2) {
		c.Failf("key-roundtrip", "decoded key %v (err %v) differs from %+v", k2, err, p.K)
	}
	v2, err := data.ToDatumValue(vb)
	if err != nil || v2.Version != p.V.Ver || !bytes.Equal(v2.Label, p.V.L) {
		c.Failf("value-roundtrip", "decoded value %v (err %v) differs from %+v", v2, err, p.V)
	}
	d2, err := data.ToDatum(kb, vb)
	if err != nil || !p.K.eq(d2.Key) || d2.Value.Version != p.V.Ver || !bytes.Equal(d2.Value.Label, p.V.L) {
		c.Failf("datum-roundtrip", "decoded datum %v (err %v) differs", d2, err)
	}
	// encoding is a function of the fields
	kb2, _ := data.GetKeyAsBytes(d2)
	vb2, _ := data.GetValueAsBytes(d2)
	if !bytes.Equal(kb, kb2) || !bytes.Equal(vb, vb2) {
		c.Failf("re-encode", "encoding a decoded datum gives other bytes")
	}
	sc := &gencoder.DatumScore{Score: math.Float64frombits(p.Score)}
	sb, err := sc.Marshal()
	if err != nil {
		c.Failf("encode-error", "score: %v", err)
	}
	var sc2 gencoder.DatumScore
	if _, err := sc2.Unmarshal(sb); err != nil || math.Float64bits(sc2.Score) != p.Score {
		c.Failf("score-roundtrip", "score %x became %x (err %v)", p.Score, math.Float64bits(sc2.Score), err)
	}
}

// Pair: a key/value and a variation of it.
type Pair struct {
	A, B K
	X, Y V
}

func genPair(t *rapid.T) Pair {
	small := func() K {
		return K{F: bits(t, rapid.IntRange(0, 6).Draw(t, "n")), G: blob(t, rapid.IntRange(0, 10).Draw(t, "gn")),
			S1: u32().Draw(t, "s1"), S2: u32().Draw(t, "s2"), D1: u32().Draw(t, "d1"), D2: u32().Draw(t, "d2")}
	}
	a := small()
	b := K{append([]uint32(nil), a.F...), append([]byte(nil), a.G...), a.S1, a.S2, a.D1, a.D2}
	switch rapid.IntRange(0, 11).Draw(t, "variation") {
	case 0:
		b = small()
	case 1: // move bytes from feature to group label or back
		if len(b.F) > 0 {
			x := b.F[len(b.F)-1]
			b.F = b.F[:len(b.F)-1]
			b.G = append([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}, b.G...)
		}
	case 2:
		b.S1, b.S2 = b.S2, b.S1
	case 3:
		b.D1, b.D2 = b.D2, b.D1
	case 4:
		b.S1 ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
	case 5:
		b.S2 ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
	case 6:
		b.D1 ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
	case 7:
		b.D2 ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
	case 8:
		if len(b.F) > 0 {
			b.F[rapid.IntRange(0, len(b.F)-1).Draw(t, "i")] ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
		}
	case 9:
		if len(b.G) > 0 {
			b.G[rapid.IntRange(0, len(b.G)-1).Draw(t, "i")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
	case 10:
		b.G = append(b.G, 0)
	case 11:
		b.F = append(b.F, 0)
	}
	x := V{u64().Draw(t, "ver"), blob(t, rapid.IntRange(0, 10).Draw(t, "ln"))}
	y := V{x.Ver, append([]byte(nil), x.L...)}
	switch rapid.IntRange(0, 3).Draw(t, "vvar") {
	case 0:
		y.Ver ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
	case 1:
		y.L = append(y.L, 0)
	case 2:
		if len(y.L) > 0 {
			y.L[0] ^= 0x80
		}
	}
	return Pair{a, b, x, y}
}

func runPair(c *vk.Ctx, p Pair) {
	same := p.A.eq(p.B.pb())
	c.LabelIf(same, "equal-keys")
	c.NonTrivialIf(!same)
	a, _ := data.GetKeyAsBytes(&pb.Datum{Key: p.A.pb()})
	b, _ := data.GetKeyAsBytes(&pb.Datum{Key: p.B.pb()})
	if bytes.Equal(a, b) != same {
		c.Failf("key-collision", "keys %+v and %+v: same encoding %v, same fields %v", p.A, p.B, !same, same)
	}
	if (util.EncodeToString(a) == util.EncodeToString(b)) != same {
		c.Failf("map-key-collision", "map keys of %+v and %+v", p.A, p.B)
	}
	vs := p.X.Ver == p.Y.Ver && bytes.Equal(p.X.L, p.Y.L)
	x, _ := data.GetValueAsBytes(&pb.Datum{Value: p.X.pb()})
	y, _ := data.GetValueAsBytes(&pb.Datum{Value: p.Y.pb()})
	if bytes.Equal(x, y) != vs {
		c.Failf("value-collision", "values %+v and %+v", p.X, p.Y)
	}
}

type Ctor struct {
	K K
	V V
}

func runCtor(c *vk.Ctx, p Ctor) {
	c.NonTrivialIf(p.K.S1 != p.K.S2 && p.K.D1 != p.K.D2 && p.K.D1 != p.K.S1)
	k := p.K.pb()
	d := data.NewDatum(k.Feature, p.K.D1, p.K.D2, p.K.S1, p.K.S2, p.K.G, p.V.L, p.V.Ver)
	if d.GetKey() == nil || d.GetValue() == nil || !p.K.eq(d.Key) {
		c.Failf("constructor", "NewDatum(dim1=%d,dim2=%d,size1=%d,size2=%d,group=%q) built key %v", p.K.D1, p.K.D2, p.K.S1, p.K.S2, p.K.G, d.Key)
	}
	if d.Value.Version != p.V.Ver || !bytes.Equal(d.Value.Label, p.V.L) {
		c.Failf("constructor", "NewDatum(label=%q,version=%d) built value %v", p.V.L, p.V.Ver, d.Value)
	}
}

func TestProperty(t *testing.T) {
	vk.Main(t,
		vk.Sub("roundtrip", 12000, 200000, false, genRT, runRT),
		vk.Sub("injective", 30000, 600000, false, genPair, runPair),
		vk.Sub("constructor", 3000, 30000, false, func(t *rapid.T) Ctor {
			return Ctor{K{F: bits(t, rapid.IntRange(0, 5).Draw(t, "n")), G: blob(t, rapid.IntRange(0, 5).Draw(t, "gn")), S1: u32().Draw(t, "s1"), S2: u32().Draw(t, "s2"), D1: u32().Draw(t, "d1"), D2: u32().Draw(t, "d2")},
				V{u64().Draw(t, "v"), blob(t, rapid.IntRange(0, 5).Draw(t, "ln"))}}
		}, runCtor),
	)
}
