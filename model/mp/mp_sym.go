//go:build verifsym

// Package mp models the Prometheus client: every update of a metric is recorded under its name.
package mp

import (
	"unicode/utf8"

	"github.com/prometheus/client_golang/prometheus"

	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

type event struct {
	name string
	op   string
	v    float64
	of   series
}

// series is a vector with the values of its labels.
type series struct {
	vec *vec
	lvs []string
}

// has tells whether the labels have the given values: name, value, name, value…
func (s series) has(kv []string) bool {
	ok := true
	for i := 0; i < len(kv); i += 2 {
		found := false
		if s.vec != nil {
			for j, l := range s.vec.labels {
				if l == kv[i] {
					found = s.lvs[j] == kv[i+1]
				}
			}
		}
		ok = rt.And(ok, found)
	}
	return ok
}

type vec struct {
	name   string
	labels []string
}

var (
	events []event
	vecs   map[any]*vec // set during the initialisation of packages this one imports
)

type counter struct {
	prometheus.Counter
	name string
	of   series
}

func (c counter) Inc() { c.Add(1) }
func (c counter) Add(v float64) {
	if v < 0 {
		panic("counter cannot decrease in value")
	}
	events = append(events, event{c.name, "add", v, c.of})
}

type gauge struct {
	prometheus.Gauge
	name string
	of   series
}

func (g gauge) Set(v float64) { events = append(events, event{g.name, "set", v, g.of}) }
func (g gauge) Add(v float64) { events = append(events, event{g.name, "add", v, g.of}) }
func (g gauge) Sub(v float64) { events = append(events, event{g.name, "add", -v, g.of}) }
func (g gauge) Inc()          { g.Add(1) }
func (g gauge) Dec()          { g.Sub(1) }

type histogram struct {
	prometheus.Histogram
	name string
	of   series
}

func (h histogram) Observe(v float64) { events = append(events, event{h.name, "observe", v, h.of}) }

func register(p any, v *vec) {
	if vecs == nil {
		vecs = map[any]*vec{}
	}
	vecs[p] = v
}

func check(v *vec, lvs []string) {
	if len(lvs) != len(v.labels) {
		panic("inconsistent label cardinality")
	}
	for _, s := range lvs {
		if !utf8.ValidString(s) {
			panic("label value is not valid UTF-8")
		}
	}
}

//verif:replaces github.com/prometheus/client_golang/prometheus/promauto.NewCounterVec
func NewCounterVec(o prometheus.CounterOpts, labels []string) *prometheus.CounterVec {
	p := new(prometheus.CounterVec)
	register(p, &vec{o.Name, labels})
	return p
}

//verif:replaces github.com/prometheus/client_golang/prometheus/promauto.NewGaugeVec
func NewGaugeVec(o prometheus.GaugeOpts, labels []string) *prometheus.GaugeVec {
	p := new(prometheus.GaugeVec)
	register(p, &vec{o.Name, labels})
	return p
}

//verif:replaces github.com/prometheus/client_golang/prometheus/promauto.NewHistogramVec
func NewHistogramVec(o prometheus.HistogramOpts, labels []string) *prometheus.HistogramVec {
	p := new(prometheus.HistogramVec)
	register(p, &vec{o.Name, labels})
	return p
}

//verif:replaces github.com/prometheus/client_golang/prometheus/promauto.NewHistogram
func NewHistogram(o prometheus.HistogramOpts) prometheus.Histogram { return histogram{name: o.Name} }

//verif:replaces github.com/prometheus/client_golang/prometheus/promauto.NewCounter
func NewCounter(o prometheus.CounterOpts) prometheus.Counter { return counter{name: o.Name} }

//verif:replaces github.com/prometheus/client_golang/prometheus/promauto.NewGauge
func NewGauge(o prometheus.GaugeOpts) prometheus.Gauge { return gauge{name: o.Name} }

//verif:replaces (*github.com/prometheus/client_golang/prometheus.CounterVec).WithLabelValues
func CounterWith(p *prometheus.CounterVec, lvs ...string) prometheus.Counter {
	check(vecs[p], lvs)
	return counter{name: vecs[p].name, of: series{vecs[p], lvs}}
}

//verif:replaces (*github.com/prometheus/client_golang/prometheus.GaugeVec).WithLabelValues
func GaugeWith(p *prometheus.GaugeVec, lvs ...string) prometheus.Gauge {
	check(vecs[p], lvs)
	return gauge{name: vecs[p].name, of: series{vecs[p], lvs}}
}

//verif:replaces (*github.com/prometheus/client_golang/prometheus.HistogramVec).WithLabelValues
func HistogramWith(p *prometheus.HistogramVec, lvs ...string) prometheus.Observer {
	check(vecs[p], lvs)
	return histogram{name: vecs[p].name, of: series{vecs[p], lvs}}
}

func vals(p any, l prometheus.Labels) series {
	v := vecs[p]
	var lvs []string
	for _, k := range v.labels {
		s, ok := l[k]
		if !ok {
			panic("label missing")
		}
		lvs = append(lvs, s)
	}
	if len(l) != len(lvs) {
		panic("inconsistent label cardinality")
	}
	check(v, lvs)
	return series{v, lvs}
}

//verif:replaces (*github.com/prometheus/client_golang/prometheus.CounterVec).With
func CounterWithL(p *prometheus.CounterVec, l prometheus.Labels) prometheus.Counter {
	return counter{name: vecs[p].name, of: vals(p, l)}
}

//verif:replaces (*github.com/prometheus/client_golang/prometheus.GaugeVec).With
func GaugeWithL(p *prometheus.GaugeVec, l prometheus.Labels) prometheus.Gauge {
	return gauge{name: vecs[p].name, of: vals(p, l)}
}

//verif:replaces (*github.com/prometheus/client_golang/prometheus.HistogramVec).With
func HistogramWithL(p *prometheus.HistogramVec, l prometheus.Labels) prometheus.Observer {
	return histogram{name: vecs[p].name, of: vals(p, l)}
}

//verif:replaces github.com/hyperonym/ratus/internal/controller.NewMetricsController
func NewMetricsController(g engine.Engine) *controller.MetricsController {
	return new(controller.MetricsController)
}

// Reset forgets what was recorded.
func Reset() { events = nil }

// Sum is the total added to the counters and histograms of a name (and labels) since Reset.
func Sum(name string, kv ...string) float64 {
	s := 0.0
	for _, e := range events {
		if e.name == name && e.of.has(kv) {
			s += e.v
		}
	}
	return s
}

// Count is the number of observations of a histogram since Reset.
func Count(name string, kv ...string) int {
	n := 0
	for _, e := range events {
		if e.name == name && e.op == "observe" && e.of.has(kv) {
			n++
		}
	}
	return n
}

// Last is the last value a gauge of a name (and labels) was set to since Reset.
func Last(name string, kv ...string) (float64, bool) {
	for i := len(events) - 1; i >= 0; i-- {
		if events[i].name == name && events[i].of.has(kv) {
			return events[i].v, true
		}
	}
	return 0, false
}
