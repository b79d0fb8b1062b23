package c05

import (
	"math"
	"testing"

	data "github.com/bgokden/veri/data"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Plan struct {
	Name string
	A, B []float32
}

var names = append(append([]string{"", "Unknown", "QuickDistance", "cosinesimilarity", "Angular", "VectorMultiplication ", "AnnoyVectorMultiplication", "AnnoyQuickVectorDistance"}, vk.ScoreNames...), vk.AnnoyNames...)

func coord() *rapid.Generator[float32] {
	return rapid.OneOf(vk.Coord(), rapid.Float32Range(-1000, 1000), rapid.Float32Range(-1e-3, 1e-3), rapid.Just(float32(0)))
}

func gen(t *rapid.T) Plan {
	p := Plan{Name: rapid.SampledFrom(names).Draw(t, "func")}
	n := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 40), rapid.SampledFrom([]int{64, 128, 300})).Draw(t, "n")
	vec := func(n int) []float32 {
		pat := rapid.SliceOfN(coord(), 1, 12).Draw(t, "pattern")
		out := make([]float32, n)
		for i := range out {
			out[i] = pat[i%len(pat)]
			if i >= len(pat) {
				out[i] *= float32(1 + i%3)
			}
		}
		return out
	}
	p.A = vec(n)
	switch rapid.IntRange(0, 7).Draw(t, "relation") {
	case 0:
		p.B = append([]float32(nil), p.A...)
	case 1:
		s := rapid.SampledFrom([]float32{-1, 2, -0.5, 3}).Draw(t, "scale")
		for _, x := range p.A {
			p.B = append(p.B, x*s)
		}
	case 2:
		p.B = make([]float32, n)
	case 3:
		p.B = vec(rapid.IntRange(0, 40).Draw(t, "m")) // other length
	case 4:
		p.B = append([]float32(nil), p.A...)
		if n > 0 {
			p.B[rapid.IntRange(0, n-1).Draw(t, "i")] += rapid.SampledFrom([]float32{1, -1, 0.25}).Draw(t, "delta")
		}
	default:
		p.B = vec(n)
	}
	return p
}

func norm(a []float32) (n float64) {
	for _, x := range a {
		n += float64(x) * float64(x)
	}
	return
}

// the allowance for float32 accumulation, from the magnitudes involved
func tol(name string, a, b []float32) float64 {
	n := float64(len(a) + len(b) + 8)
	eps := 1.2e-7 * n * 4
	var na, nb, l1, ab float64
	for i, x := range a {
		na += float64(x) * float64(x)
		if i < len(b) {
			l1 += math.Abs(float64(x)) + math.Abs(float64(b[i]))
			ab += math.Abs(float64(x) * float64(b[i]))
		}
	}
	for _, x := range b {
		nb += float64(x) * float64(x)
	}
	switch name {
	case "QuickVectorDistance":
		return 1e-30 + eps*l1
	case "VectorMultiplication":
		return 1e-30 + eps*ab
	case "CosineSimilarity", "AnnoyCosineSimilarity":
		return 1e-5 + eps
	case "AngularDistance", "AnnoyAngularDistance":
		return 1e-5 + math.Sqrt(2*(1e-6+eps))
	}
	return 1e-6 + eps*l1 + 1e-4*math.Sqrt(na+nb)*0 + math.Sqrt(eps)*0
}

// the functions that are not selected by name
var others = map[string]func(a, b []float32) float64{
	"CosineSimilarity32": func(a, b []float32) float64 { return float64(data.CosineSimilarity32(a, b)) },
	"CosineSimilarity64": func(a, b []float32) float64 {
		x, y := make([]float64, len(a)), make([]float64, len(b))
		for i := range a {
			x[i] = float64(a[i])
		}
		for i := range b {
			y[i] = float64(b[i])
		}
		return data.CosineSimilarity64(x, y)
	},
}

func run(c *vk.Ctx, p Plan) {
	for name, f := range others { // the cosine, whatever the precision
		if na, nb := norm(p.A), norm(p.B); (na < 1e-12 || nb < 1e-12) && (na > 0 || nb > 0) {
			break
		}
		s := f(p.A, p.B)
		n := max(len(p.A), len(p.B))
		ref := vk.RefScore("CosineSimilarity", append(append([]float32{}, p.A...), make([]float32, n-len(p.A))...), append(append([]float32{}, p.B...), make([]float32, n-len(p.B))...))
		if math.IsNaN(s) || math.Abs(s-ref) > tol("CosineSimilarity", p.A, p.B) {
			c.Failf("definition", "%s(%v, %v) = %v, its definition gives %v", name, p.A, p.B, s, ref)
		}
	}
	f := data.GetVectorComparisonFunction(p.Name)
	a0 := append([]float32(nil), p.A...)
	b0 := append([]float32(nil), p.B...)
	s := f(p.A, p.B)
	for i := range a0 {
		if a0[i] != p.A[i] {
			c.Failf("input-modified", "%s changed its argument", p.Name)
		}
	}
	for i := range b0 {
		if b0[i] != p.B[i] {
			c.Failf("input-modified", "%s changed its argument", p.Name)
		}
	}
	var na, nb float64
	for _, x := range p.A {
		na += float64(x) * float64(x)
	}
	for _, x := range p.B {
		nb += float64(x) * float64(x)
	}
	same := len(p.A) == len(p.B)
	c.LabelIf(!same, "unequal-lengths")
	c.LabelIf(na == 0 || nb == 0, "zero-vector")
	c.NonTrivialIf(len(p.A) > 1 && len(p.B) > 1 && na > 0 && nb > 0)
	if math.IsNaN(s) || math.IsInf(s, 0) {
		c.Failf("not-finite", "%s(%v, %v) = %v", p.Name, p.A, p.B, s)
	}
	cosine := p.Name == "CosineSimilarity" || p.Name == "AnnoyCosineSimilarity"
	angular := p.Name == "AngularDistance" || p.Name == "AnnoyAngularDistance"
	mult := p.Name == "VectorMultiplication"
	s2 := f(p.B, p.A)
	if math.Abs(s-s2) > tol(p.Name, p.A, p.B) {
		c.Failf("asymmetric", "%s(%v, %v) = %v but %v the other way", p.Name, p.A, p.B, s, s2)
	}
	switch {
	case cosine:
		if s < -1 || s > 1 {
			c.Failf("range", "%s(%v, %v) = %v", p.Name, p.A, p.B, s)
		}
	case angular:
		if s < 0 || s > 1 {
			c.Failf("range", "%s(%v, %v) = %v", p.Name, p.A, p.B, s)
		}
	case !mult:
		if s < 0 {
			c.Failf("range", "%s(%v, %v) = %v", p.Name, p.A, p.B, s)
		}
		if z := f(p.A, p.A); z != 0 {
			c.Failf("self-distance", "%s(%v, itself) = %v", p.Name, p.A, z)
		}
	}
	// tiny squares underflow in float32: definitions are compared for vectors of moderate size only
	if !same || (cosine || angular) && (na < 1e-12 || nb < 1e-12) && (na > 0 || nb > 0) {
		return
	}
	c.Label("compared")
	ref := vk.RefScore(p.Name, p.A, p.B)
	if math.Abs(s-ref) > tol(p.Name, p.A, p.B) {
		c.Failf("definition", "%s(%v, %v) = %v, its definition gives %v", p.Name, p.A, p.B, s, ref)
	}
	// direct functions agree with the table
	var g float64
	switch p.Name {
	case "VectorDistance":
		g = data.VectorDistance(p.A, p.B)
	case "QuickVectorDistance":
		g = data.QuickVectorDistance(p.A, p.B)
	case "VectorMultiplication":
		g = data.VectorMultiplication(p.A, p.B)
	case "CosineSimilarity":
		g = data.CosineSimilarity(p.A, p.B)
	case "AngularDistance":
		g = data.AngularDistance(p.A, p.B)
	default:
		return
	}
	if math.Abs(g-s) > tol(p.Name, p.A, p.B) {
		c.Failf("table", "%s by name gives %v, directly %v", p.Name, s, g)
	}
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("kernels", 60000, 1500000, false, gen, run))
}
