package vk

import (
	"fmt"
	"math"
	"strings"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"
)

// D is a datum in a plan.
type D struct {
	F  []float32 `json:"f"`
	G  string    `json:"g,omitempty"`
	S1 uint32    `json:"s1,omitempty"`
	S2 uint32    `json:"s2,omitempty"`
	D1 uint32    `json:"d1,omitempty"`
	D2 uint32    `json:"d2,omitempty"`
	L  string    `json:"l,omitempty"`
	V  uint64    `json:"v,omitempty"`
}

// PB builds a fresh message for the datum.
func (d D) PB() *pb.Datum {
	return &pb.Datum{
		Key: &pb.DatumKey{
			Feature: append([]float32(nil), d.F...), GroupLabel: []byte(d.G),
			Size1: d.S1, Size2: d.S2, Dim1: d.D1, Dim2: d.D2,
		},
		Value: &pb.DatumValue{Version: d.V, Label: []byte(d.L)},
	}
}

// Key is the identity of the datum in the harness (independent of veri's own encoding).
func (d D) Key() string {
	s := fmt.Sprintf("%q|%d|%d|%d|%d|", d.G, d.S1, d.S2, d.D1, d.D2)
	for _, f := range d.F {
		s += fmt.Sprintf("%08x.", math.Float32bits(f))
	}
	return s
}

// Val is the value part of the datum in the harness.
func (d D) Val() string { return fmt.Sprintf("%d|%q", d.V, d.L) }

// KeyOf is Key for a message.
func KeyOf(p *pb.Datum) string { return FromPB(p).Key() }

// ValOf is Val for a message.
func ValOf(p *pb.Datum) string { return FromPB(p).Val() }

// FromPB converts a message to a plan datum.
func FromPB(p *pb.Datum) D {
	k, v := p.GetKey(), p.GetValue()
	return D{F: k.GetFeature(), G: string(k.GetGroupLabel()), S1: k.GetSize1(), S2: k.GetSize2(),
		D1: k.GetDim1(), D2: k.GetDim2(), L: string(v.GetLabel()), V: v.GetVersion()}
}

// Coord draws a finite, moderate coordinate; small integers are frequent so that ties and equal vectors occur.
func Coord() *rapid.Generator[float32] {
	return rapid.OneOf(
		rapid.Map(rapid.IntRange(-3, 3), func(i int) float32 { return float32(i) }),
		rapid.Map(rapid.IntRange(-40, 40), func(i int) float32 { return float32(i) / 8 }),
		// quantised: squares of tiny coordinates underflow in float32, which no property is about
		rapid.Map(rapid.Float32Range(-10, 10), func(x float32) float32 { return float32(math.Round(float64(x)*1024) / 1024) }),
	)
}

// Vec draws a vector of the given dimension.
func Vec(dim int) *rapid.Generator[[]float32] { return rapid.SliceOfN(Coord(), dim, dim) }

// NonZeroVec draws a vector that is not all zero.
func NonZeroVec(dim int) *rapid.Generator[[]float32] {
	return rapid.Map(Vec(dim), func(v []float32) []float32 {
		for _, x := range v {
			if x != 0 {
				return v
			}
		}
		w := append([]float32(nil), v...)
		w[0] = 1
		return w
	})
}

// Grid draws a vector on a small integer grid (many equal and tied vectors).
func Grid(dim, span int) *rapid.Generator[[]float32] {
	return rapid.SliceOfN(rapid.Map(rapid.IntRange(-span, span), func(i int) float32 { return float32(i) }), dim, dim)
}

// Universe is a set of distinct keys, several differing in a single field only.
func Universe(dim, max int, labels *rapid.Generator[string]) *rapid.Generator[[]D] {
	return rapid.Custom(func(t *rapid.T) []D {
		n := rapid.IntRange(1, max).Draw(t, "keys")
		seen := map[string]bool{}
		var out []D
		for i := 0; i < n; i++ {
			var d D
			if len(out) > 0 && rapid.IntRange(0, 2).Draw(t, "near") > 0 {
				base := out[rapid.IntRange(0, len(out)-1).Draw(t, "base")]
				d = base
				d.F = append([]float32(nil), base.F...)
				bit := uint32(1) << rapid.IntRange(0, 31).Draw(t, "bit") // any bit of a number may be the only difference
				switch rapid.IntRange(0, 8).Draw(t, "field") {
				case 0:
					d.G = rapid.SampledFrom([]string{"", "a", "b", "ab", "a\x00"}).Draw(t, "g")
				case 1:
					d.S1 ^= bit
				case 2:
					d.S2 ^= bit
				case 3:
					d.D1 ^= bit
				case 4:
					d.D2 ^= bit
				case 5: // the last bits of a coordinate, or its sign
					if len(d.F) > 0 {
						j := rapid.IntRange(0, len(d.F)-1).Draw(t, "j")
						b := bit
						if d.F[j] == 0 {
							b = 1 << 31
						} else if b > 1<<22 {
							b = 1
						}
						d.F[j] = math.Float32frombits(math.Float32bits(d.F[j]) ^ b)
					}
				case 6:
					if len(d.G) > 0 && len(d.G) < 200 {
						d.G = strings.Repeat(d.G, rapid.SampledFrom([]int{2, 63, 64, 127, 128, 129}).Draw(t, "rep"))
					}
				default:
					if len(d.F) > 0 {
						j := rapid.IntRange(0, len(d.F)-1).Draw(t, "j")
						d.F[j] = Coord().Draw(t, "c")
					}
				}
			} else {
				d = D{F: Vec(dim).Draw(t, "f"), G: rapid.SampledFrom([]string{"", "a", "b", "ab"}).Draw(t, "g"),
					S1: rapid.Uint32Range(0, 2).Draw(t, "s1"), D1: uint32(dim)}
			}
			if labels != nil {
				d.L = labels.Draw(t, "l")
			}
			if seen[d.Key()] {
				continue
			}
			seen[d.Key()] = true
			out = append(out, d)
		}
		return out
	})
}

// ScoreNames are the exact score functions.
var ScoreNames = []string{"VectorDistance", "QuickVectorDistance", "VectorMultiplication", "CosineSimilarity", "AngularDistance"}

// AnnoyNames are the approximate ones.
var AnnoyNames = []string{"AnnoyVectorDistance", "AnnoyCosineSimilarity", "AnnoyAngularDistance"}

// Score computes a score by the published function.
func Score(name string, a, b []float32) float64 { return data.GetVectorComparisonFunction(name)(a, b) }

// Better tells if score a is strictly better than b.
func Better(higher bool, a, b float64) bool {
	if higher {
		return a > b
	}
	return a < b
}
