//go:build !race

package props

const raceDetector = false
