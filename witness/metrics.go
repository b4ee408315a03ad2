package main

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/prometheus/client_golang/prometheus"

	"github.com/andrewkroh/go-sawmill/pkg/metrics"
)

// The address at which the metrics are served; "-" where that is impossible.
var metricsAddr string

// scrape returns the lines about components that are served.
func scrape() ([]string, bool) {
	c := http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 5 * time.Second}
	if metricsAddr == "" {
		metricsAddr = "-"
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, false
		}
		a := l.Addr().String()
		l.Close()
		metrics.Listen(a)
		for i := 0; i < 50 && metricsAddr == "-"; i++ {
			if r, err := c.Get("http://" + a + "/metrics"); err == nil {
				r.Body.Close()
				if r.StatusCode == 200 {
					metricsAddr = a
				}
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	if metricsAddr == "-" {
		return nil, false
	}
	r, err := c.Get("http://" + metricsAddr + "/metrics")
	if err != nil {
		return nil, false
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil || r.StatusCode != 200 {
		return nil, false
	}
	var out []string
	for _, s := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(s, "es_component_") {
			out = append(out, s)
		}
	}
	return out, true
}

// served checks that Register has the collectors served and Unregister ends that.
func (t *T) served(cs []prometheus.Collector) {
	if _, ok := scrape(); !ok {
		return
	}
	if len(cs) > 0 && t.chance(2) {
		i := t.r.Intn(len(cs))
		t.logf("metrics.Register(pipe.Metrics()[%d])", i)
		metrics.Register(cs[i])
	}
	t.logf("metrics.Register(pipe.Metrics()...)")
	metrics.Register(cs...)
	on, ok := scrape()
	metrics.Unregister(cs...)
	off, ok2 := scrape()
	if !ok || !ok2 {
		return
	}
	served := map[string]bool{}
	for _, s := range on {
		served[s] = true
	}
	for _, c := range cs {
		id, name, v := metricKey(c)
		want := fmt.Sprintf("%s{component_id=", name)
		n := 0
		for s := range served {
			if strings.HasPrefix(s, want) && strings.Contains(s, fmt.Sprintf("component_id=%q", id)) && strings.HasSuffix(s, fmt.Sprintf(" %v", v)) {
				n++
			}
		}
		if n != 1 {
			t.fail("the collector "+name+" of "+id+" is served", "%d times among %q", n, on)
		}
	}
	if len(on) != len(cs) {
		t.fail(fmt.Sprintf("%d collectors are served", len(cs)), "%d: %q", len(on), on)
	}
	if len(off) > 0 {
		t.logf("metrics.Unregister(pipe.Metrics()...)")
		t.fail("no collector is served any more", "%q", off)
	}
}
