//go:build race

package vh

// Race tells whether the race detector runs.
func Race() bool { return true }
