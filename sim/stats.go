package main

import "sort"

// Stats counts what the simulated runs reached.
type Stats struct {
	N    map[string]uint64          `json:"n"`
	API  map[string]uint64          `json:"api"`
	Sets map[string]map[string]bool `json:"sets,omitempty"`
}

func newStats() *Stats {
	return &Stats{N: map[string]uint64{}, API: map[string]uint64{}, Sets: map[string]map[string]bool{}}
}

func (s *Stats) inc(k string)           { s.N[k]++ }
func (s *Stats) add(k string, n uint64) { s.N[k] += n }
func (s *Stats) api(k string)           { s.API[k]++ }
func (s *Stats) seen(set, k string) {
	m := s.Sets[set]
	if m == nil {
		m = map[string]bool{}
		s.Sets[set] = m
	}
	m[k] = true
}

func (s *Stats) merge(o *Stats) {
	for k, v := range o.N {
		s.N[k] += v
	}
	for k, v := range o.API {
		s.API[k] += v
	}
	for set, m := range o.Sets {
		for k := range m {
			s.seen(set, k)
		}
	}
}

func keysOf(m map[string]uint64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
