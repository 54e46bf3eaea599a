// Package simrt is the part of the simulator that lives inside the simulated
// process: the scheduling points woven into the code under test. Which
// goroutine runs next is decided only here, from a seeded generator, and by
// goroutines blocking: on wasm the Go runtime is single-threaded and never
// preempts; the native build runs with one processor, no preemption, no
// garbage collector and a first-in first-out run queue.
package simrt

import "runtime"

const nSites = 1 << 14

var (
	rng    uint64
	prob   uint64        // chance of a switch at a point, out of 1<<32; 0: never
	limit  uint64 = 1e18 // steps allowed since ResetSteps
	steps  uint64
	yields uint64
	hash   uint64 = 14695981039346656037
	prev   uint32
	// edges marks pairs of successive scheduling points, hashed.
	edges [nSites]uint8
)

//go:norace
func next() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Seed restarts the scheduler: generator, chance of a switch (of 1<<32), hash
// of the schedule.
//
//go:norace
func Seed(seed, p uint64) {
	rng, prob, hash, yields, prev = seed, p, 14695981039346656037, 0, 0
}

// ResetSteps starts a new step budget. When it is used up the process ends.
//
//go:norace
func ResetSteps(n uint64) { steps, limit = 0, n }

// Stats returns the steps and switches so far and a hash of the switches made.
//
//go:norace
func Stats() (s, y, h uint64) { return steps, yields, hash }

// Edges counts the distinct pairs of successive scheduling points seen.
//
//go:norace
func Edges() []uint8 { return edges[:] }

// Y is a scheduling point.
//
//go:norace
func Y(site int32) {
	steps++
	if steps > limit {
		limit = 1e18
		overrun()
	}
	e := (uint32(site)*31 ^ prev) % nSites
	edges[e] = 1
	prev = uint32(site)*0x9e37 + 1
	if prob == 0 {
		return
	}
	r := next()
	if r>>32 < prob {
		yields++
		hash = (hash ^ uint64(uint32(site))) * 1099511628211
		for n := r & 3; ; n-- {
			runtime.Gosched()
			if n == 0 {
				break
			}
		}
	}
}
