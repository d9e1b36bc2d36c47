package main

import (
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
)

func itoa(i int) string { return strconv.Itoa(i) }

func rngFor(parts ...interface{}) *rand.Rand {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			h.Write([]byte(x))
		case int:
			h.Write([]byte(itoa(x)))
		}
		h.Write([]byte{0})
	}
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

func chance(r *rand.Rand, pct int) bool { return r.Intn(100) < pct }

func (t *T) writeFile(name string, b []byte) string {
	p := filepath.Join(t.Dir, name)
	must(os.WriteFile(p, b, 0644))
	return p
}
