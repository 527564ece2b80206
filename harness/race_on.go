//go:build race

package vh

const raceOn = true
