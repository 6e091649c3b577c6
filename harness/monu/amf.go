package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/WatchBeam/amf0"
)

// A small AMF0 writer and reader, independent of the library's.

func aNum(v float64) []byte {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(v))
	return b
}

func aBool(v bool) []byte {
	if v {
		return []byte{1, 1}
	}
	return []byte{1, 0}
}

func key(s string) []byte { return append([]byte{byte(len(s) >> 8), byte(len(s))}, s...) }

func aStr(s string) []byte { return append([]byte{2}, key(s)...) }

func aNull() []byte { return []byte{5} }

// kv is an ordered set of properties with string values.
type kv [][2]string

func (o kv) pairs() []byte {
	var b []byte
	for _, p := range o {
		b = append(b, key(p[0])...)
		b = append(b, aStr(p[1])...)
	}
	return append(b, 0, 0, 9)
}

func aObj(o kv) []byte { return append([]byte{3}, o.pairs()...) }

func aArr(o kv) []byte {
	n := len(o)
	return append([]byte{8, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, o.pairs()...)
}

func (o kv) String() string {
	var l []string
	for _, p := range o {
		l = append(l, p[0]+"="+p[1])
	}
	return "{" + strings.Join(l, " ") + "}"
}

// object makes the library's value of o.
func (o kv) object() *amf0.Object {
	x := amf0.NewObject()
	for _, p := range o {
		x.Add(p[0], amf0.NewString(p[1]))
	}
	return x
}

// show prints an object's properties like kv.String.
func show(each interface {
	Each(func(string, amf0.AmfType))
}) string {
	var l []string
	each.Each(func(k string, v amf0.AmfType) {
		if s, ok := v.(*amf0.String); ok {
			l = append(l, k+"="+string(*s))
		} else {
			l = append(l, fmt.Sprintf("%s=%T", k, v))
		}
	})
	return "{" + strings.Join(l, " ") + "}"
}

func genKV(rng *rand.Rand) kv {
	o := kv{}
	for k := 0; k < rng.Intn(4); k++ {
		o = append(o, [2]string{fmt.Sprintf("k%d", k), word(rng)})
	}
	switch rng.Intn(60) {
	case 0: // many
		for k := 10 + rng.Intn(300); k > 0; k-- {
			o = append(o, [2]string{fmt.Sprintf("p%d", k), word(rng)})
		}
	case 1: // long
		for k := 1 + rng.Intn(3); k > 0; k-- {
			o = append(o, [2]string{fmt.Sprintf("l%d", k), strings.Repeat("y", rng.Intn(0x10000))})
		}
	}
	return o
}

func word(rng *rand.Rand) string {
	b := make([]byte, rng.Intn(12))
	for i := range b {
		b[i] = byte('a' + rng.Intn(26))
	}
	if rng.Intn(12) == 0 {
		return strings.Repeat("x", 100+rng.Intn(400))
	}
	return string(b)
}

func num(rng *rand.Rand) float64 {
	if rng.Intn(3) == 0 {
		return []float64{0, 1, -1, 0.5, 1e300, math.Inf(1), 4294967296}[rng.Intn(7)]
	}
	return float64(rng.Intn(100000))
}

func cat(p ...[]byte) []byte {
	var b []byte
	for _, x := range p {
		b = append(b, x...)
	}
	return b
}
