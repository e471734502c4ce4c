// Package sig analyses tones.
package sig

import "math"

// Fit finds the best sum of sinusoids of the given frequencies for the samples, and returns the amplitude
// of each and which part of the samples' energy is left unexplained.
func Fit(x []int16, rate int, freq []float64) (amp []float64, rest float64) {
	n := 2 * len(freq)
	a := make([][]float64, n)
	for i := range a {
		a[i] = make([]float64, n+1)
	}
	base := make([]float64, n)
	row := func(i int) {
		for k, f := range freq {
			base[2*k], base[2*k+1] = math.Sincos(2 * math.Pi * f * float64(i) / float64(rate))
		}
	}
	var total float64
	for i, v := range x {
		row(i)
		for p := 0; p < n; p++ {
			for q := 0; q < n; q++ {
				a[p][q] += base[p] * base[q]
			}
			a[p][n] += base[p] * float64(v)
		}
		total += float64(v) * float64(v)
	}
	for p := 0; p < n; p++ {
		m := p
		for q := p + 1; q < n; q++ {
			if math.Abs(a[q][p]) > math.Abs(a[m][p]) {
				m = q
			}
		}
		a[p], a[m] = a[m], a[p]
		if math.Abs(a[p][p]) < 1e-9 {
			return make([]float64, len(freq)), 1
		}
		for q := 0; q < n; q++ {
			if q != p {
				f := a[q][p] / a[p][p]
				for c := p; c <= n; c++ {
					a[q][c] -= f * a[p][c]
				}
			}
		}
	}
	c := make([]float64, n)
	for p := range c {
		c[p] = a[p][n] / a[p][p]
	}
	var left float64
	for i, v := range x {
		row(i)
		d := float64(v)
		for p := range c {
			d -= c[p] * base[p]
		}
		left += d * d
	}
	for k := range freq {
		amp = append(amp, math.Hypot(c[2*k], c[2*k+1]))
	}
	if total == 0 {
		return amp, 1
	}
	return amp, left / total
}
