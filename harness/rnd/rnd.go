// Package rnd is the source of the workloads' choices. If the code under test
// holds constants and texts that the tree this was built for does not (a
// dictionary in the sense of fuzzers, taken from the source by the driver),
// some choices are made from them. It steers the workload only; no verdict
// depends on it.
package rnd

import (
	"encoding/json"
	"math/rand"
	"os"
	"unicode/utf8"
)

// Dict are the constants and texts of the code under test that are new.
type Dict struct {
	Ints []int
	Strs []string
}

// Env carries the dictionary from the driver to its workers.
const Env = "VERIF_DICT"

// Words is the dictionary in use, nil if there is none.
var Words *Dict

func init() {
	if s := os.Getenv(Env); s != "" {
		var d Dict
		if json.Unmarshal([]byte(s), &d) == nil && len(d.Ints)+len(d.Strs) > 0 {
			Words = &d
		}
	}
}

type Rand struct {
	*rand.Rand
	D *Dict
}

// New makes a source; with dict, choices also come from the dictionary.
func New(seed int64, dict bool) *Rand {
	r := &Rand{Rand: rand.New(rand.NewSource(seed))}
	if dict {
		r.D = Words
	}
	return r
}

// Intn is as usual, but now and then a constant of the code or a neighbour.
func (r *Rand) Intn(n int) int {
	if r.D != nil && n > 4 && r.Rand.Intn(16) == 0 {
		if v := r.constant(); v >= 0 && v < n {
			return v
		}
	}
	return r.Rand.Intn(n)
}

func (r *Rand) constant() int {
	if len(r.D.Ints) == 0 {
		return -1
	}
	v := r.D.Ints[r.Rand.Intn(len(r.D.Ints))]
	switch r.Rand.Intn(6) {
	case 0:
		v--
	case 1:
		v++
	case 2:
		v += r.Rand.Intn(20)
	}
	return v
}

// Size is def or, if there is a dictionary, sometimes a constant up to limit.
func (r *Rand) Size(def, limit int) int {
	if r.D != nil && r.Rand.Intn(3) == 0 {
		if v := r.constant(); v >= 0 && v <= limit {
			return v
		}
	}
	return def
}

// Word is sometimes a text of the code that satisfies ok.
func (r *Rand) Word(ok func(string) bool) (string, bool) {
	if r.D == nil || r.Rand.Intn(3) > 0 {
		return "", false
	}
	if n := len(r.D.Strs); n > 0 {
		if s := r.D.Strs[r.Rand.Intn(n)]; ok(s) {
			return s, true
		}
	}
	if v := r.constant(); v > 0x7f && v <= 0x10ffff && utf8.ValidRune(rune(v)) && ok(string(rune(v))) {
		return string(rune(v)), true
	}
	return "", false
}
