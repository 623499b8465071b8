package data

import (
	"math"
	"math/rand"
	"testing"
	"time"
)

func verifNear(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	return math.Abs(a-b) <= 3e-3*(1+math.Abs(b))
}

func verifVector(r *rand.Rand) []float32 {
	n := r.Intn(6)
	if r.Intn(10) == 0 {
		n = 20 + r.Intn(100)
	}
	v := make([]float32, n, n+r.Intn(3))
	kind := r.Intn(5)
	for i := range v {
		switch kind {
		case 0:
		case 1:
			v[i] = float32(r.Intn(5) - 2)
		case 2:
			v[i] = float32(r.Float64()*2 - 1)
		case 3:
			v[i] = float32(r.Float64()*2000 - 1000)
		default:
			v[i] = float32(r.Float64()*0.02 - 0.01)
		}
	}
	return v
}

// The metrics, computed in double precision from their definitions.
func verifMetrics(a, b []float32) map[string]float64 {
	var sq, ab, dot, na, nb float64
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y float64
		if i < len(a) {
			x = float64(a[i])
		}
		if i < len(b) {
			y = float64(b[i])
		}
		na += x * x
		nb += y * y
		dot += x * y
		if i < len(a) && i < len(b) {
			sq += (x - y) * (x - y)
			ab += math.Abs(x - y)
		}
	}
	cos := 0.0
	if na != 0 && nb != 0 {
		cos = math.Max(-1, math.Min(1, dot/math.Sqrt(na*nb)))
	}
	ang := 1 - math.Acos(cos)/math.Pi
	e := math.Sqrt(sq)
	return map[string]float64{"VectorDistance": e, "AnnoyVectorDistance": e, "": e, "nope": e, "vectordistance": e,
		"QuickVectorDistance": ab, "VectorMultiplication": dot, "CosineSimilarity": cos, "AnnoyCosineSimilarity": cos,
		"AngularDistance": ang, "AnnoyAngularDistance": ang}
}

func TestVerifC13(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(40000) && time.Now().Before(verifStop); round++ {
		a, b := verifVector(r), verifVector(r)
		switch r.Intn(6) {
		case 0:
			b = append([]float32{}, a...)
		case 1: // opposite or scaled
			b = nil
			f := float32(r.Intn(5) - 2)
			for _, x := range a {
				b = append(b, f*x)
			}
		}
		ca, cb := append([]float32{}, a...), append([]float32{}, b...)
		direct := map[string]float64{"VectorDistance": VectorDistance(a, b), "QuickVectorDistance": QuickVectorDistance(a, b),
			"VectorMultiplication": VectorMultiplication(a, b), "CosineSimilarity": CosineSimilarity(a, b), "AngularDistance": AngularDistance(a, b)}
		want := verifMetrics(ca, cb)
		scale := 1.0
		for _, x := range append(append([]float32{}, ca...), cb...) {
			scale = math.Max(scale, math.Abs(float64(x)))
		}
		tol := func(name string, got, exp float64) bool {
			if name == "VectorMultiplication" { // cancellation in single precision
				return math.Abs(got-exp) <= 1e-4*scale*scale*float64(1+len(ca))
			}
			return verifNear(got, exp)
		}
		for name, exp := range want {
			got := GetVectorComparisonFunction(name)(a, b)
			back := GetVectorComparisonFunction(name)(b, a)
			if !tol(name, got, exp) {
				verifFail(t, "function selected by %q on %v and %v: %v, the metric is %v", name, ca, cb, got, exp)
			}
			if got != back && !(math.Abs(got-back) <= 1e-5*(1+math.Abs(got))*scale) {
				verifFail(t, "function selected by %q on %v and %v: %v, exchanged: %v", name, ca, cb, got, back)
			}
			if d, ok := direct[name]; ok && !tol(name, d, exp) {
				verifFail(t, "%s(%v, %v) = %v, the metric is %v", name, ca, cb, d, exp)
			}
		}
		if c := direct["CosineSimilarity"]; c < -1 || c > 1 || direct["VectorDistance"] < 0 || direct["QuickVectorDistance"] < 0 {
			verifFail(t, "on %v and %v: out of range: %v", ca, cb, direct)
		}
		for i := range ca {
			if a[i] != ca[i] {
				verifFail(t, "scoring %v and %v changed the first vector to %v", ca, cb, a)
			}
		}
	}
}
