package props

import (
	"encoding/binary"
	"sync"
	"time"

	_ "time/tzdata"
)

// zones are places a process may run in. In "Changing" the clocks are put back and forth all the time, the first time two
// seconds after the time at which bubbles begin.
var zones = []string{"Asia/Kolkata", "America/New_York", "Changing", "Pacific/Kiritimati"}

var loadZone = func() func(string) *time.Location {
	var mu sync.Mutex
	known := map[string]*time.Location{"": time.Local}
	return func(name string) *time.Location {
		mu.Lock()
		defer mu.Unlock()
		l, ok := known[name]
		if !ok {
			var err error
			if name == "Changing" {
				l, err = time.LoadLocationFromTZData(name, changing())
			} else {
				l, err = time.LoadLocation(name)
			}
			if err != nil {
				panic(err)
			}
			known[name] = l
		}
		return l
	}
}()

// changing is the TZif data of a zone that is alternately one and two hours ahead.
func changing() []byte {
	const start = 946684800 // 2000-01-01
	var at []int32
	step := int32(4)
	for x := int32(start + 2); len(at) < 400; x += step {
		at = append(at, x)
		if len(at)%6 == 0 && step < 1<<20 {
			step *= 2
		}
	}
	b := []byte("TZif")
	b = append(b, make([]byte, 16)...)
	for _, n := range []uint32{0, 0, 0, uint32(len(at)), 2, 8} {
		b = binary.BigEndian.AppendUint32(b, n)
	}
	for _, x := range at {
		b = binary.BigEndian.AppendUint32(b, uint32(x))
	}
	for i := range at {
		b = append(b, byte(i%2)) // back first
	}
	for i, off := range []uint32{3600, 7200} {
		b = binary.BigEndian.AppendUint32(b, off)
		b = append(b, byte(i), byte(4*i))
	}
	return append(b, "ONE\x00TWO\x00"...)
}

// moveTo lets this process be in the zone (in the binary for the race detector it stays where it is).
func moveTo(zone string) {
	if l := loadZone(zone); !raceDetector && time.Local != l {
		time.Local = l
	}
}
