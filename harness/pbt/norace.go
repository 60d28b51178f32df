//go:build !race

package pbt

// Race tells whether the race detector is on.
const Race = false
