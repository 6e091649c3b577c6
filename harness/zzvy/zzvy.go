// Package zzvy is what the instrumented build of the code under test calls
// before each statement. It counts statements reached (coverage and a logical
// step clock) and, when armed, perturbs the schedule. It deliberately uses
// plain memory only, outside the race detector's sight: an atomic or a lock
// here would add happens-before edges between the goroutines under test and
// hide their races.
package zzvy

import (
	"runtime"
	"time"
)

const MaxSites = 1 << 14

var (
	hits  [MaxSites]uint32
	steps uint64

	mode uint32 // 0 off, 1 armed
	mask uint32
	slow int32 = -1
	slo2 int32 = -1
	st   uint64
	naps int // left: sleeping is for the first part of long cases
)

const maxNaps = 250

//go:norace
func Y(site uint32) {
	hits[site&(MaxSites-1)]++
	steps++
	if mode == 0 {
		return
	}
	st ^= st << 13
	st ^= st >> 7
	st ^= st << 17
	x := st
	if int32(site) == slow || int32(site) == slo2 {
		if x&3 != 0 && (naps > 0 || x>>50&31 == 0) {
			naps--
			time.Sleep(time.Duration(20+(x>>8)%180) * time.Microsecond)
		} else {
			runtime.Gosched()
		}
		return
	}
	if uint32(x>>40)&mask == 0 {
		switch (x >> 20) & 7 {
		case 0:
			if naps <= 0 && x>>50&31 != 0 {
				runtime.Gosched()
				return
			}
			naps--
			time.Sleep(time.Duration(1+(x>>8)%40) * time.Microsecond)
		case 1, 2:
			runtime.Gosched()
			runtime.Gosched()
			runtime.Gosched()
		default:
			runtime.Gosched()
		}
	}
}

// Arm starts perturbing: on average one statement in m+1 (m a power of two
// minus one) yields; two sites are slow every time they are reached.
//
//go:norace
func Arm(seed uint64, m uint32, s1, s2 int) {
	st = seed*2862933555777941757 + 3037000493
	if st == 0 {
		st = 1
	}
	mask = m
	slow, slo2 = int32(s1), int32(s2)
	naps = maxNaps
	mode = 1
}

//go:norace
func Disarm() { mode, slow, slo2 = 0, -1, -1 }

//go:norace
func Steps() uint64 { return steps }

// Reached lists the sites reached so far.
//
//go:norace
func Reached() []int {
	var r []int
	for i, h := range hits {
		if h != 0 {
			r = append(r, i)
		}
	}
	return r
}
