//go:build !verifsym

// Package mp reads the real Prometheus metrics.
package mp

import (
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
)

// base is what there was at Reset.
var base = map[string]*dto.MetricFamily{}

func read() map[string]*dto.MetricFamily {
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		panic(err)
	}
	r := map[string]*dto.MetricFamily{}
	for _, f := range fs {
		r[f.GetName()] = f
	}
	return r
}

func matching(f *dto.MetricFamily, kv []string) []*dto.Metric {
	var r []*dto.Metric
	for _, m := range f.GetMetric() {
		ok := true
		for i := 0; i < len(kv); i += 2 {
			found := false
			for _, l := range m.Label {
				found = found || l.GetName() == kv[i] && l.GetValue() == kv[i+1]
			}
			ok = ok && found
		}
		if ok {
			r = append(r, m)
		}
	}
	return r
}

func total(f *dto.MetricFamily, kv []string) (s float64, n int) {
	for _, m := range matching(f, kv) {
		s += m.GetCounter().GetValue() + m.GetHistogram().GetSampleSum()
		n += int(m.GetHistogram().GetSampleCount())
	}
	return s, n
}

// Reset remembers the present totals.
func Reset() { base = read() }

// Sum is the total added to the counters and histograms of a name (and labels) since Reset.
func Sum(name string, kv ...string) float64 {
	s, _ := total(read()[name], kv)
	t, _ := total(base[name], kv)
	return s - t
}

// Count is the number of observations of a histogram since Reset.
func Count(name string, kv ...string) int {
	_, n := total(read()[name], kv)
	_, m := total(base[name], kv)
	return n - m
}

// Last is the value of a gauge of a name (and labels) that is new since Reset.
func Last(name string, kv ...string) (float64, bool) {
	for _, m := range matching(read()[name], kv) {
		old := false
		for _, b := range base[name].GetMetric() {
			same := len(b.Label) == len(m.Label)
			for i := range b.Label {
				same = same && i < len(m.Label) && b.Label[i].GetName() == m.Label[i].GetName() && b.Label[i].GetValue() == m.Label[i].GetValue()
			}
			old = old || same
		}
		if !old {
			return m.GetGauge().GetValue(), true
		}
	}
	return 0, false
}
