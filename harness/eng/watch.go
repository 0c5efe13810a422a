package eng

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

// What is under way, so that a run that never comes back, or takes the
// process down, is attributed to the trace that does it.
var watched struct {
	sync.Mutex
	free []*slot
	on   map[*slot]*underWay
	once sync.Once
}

type underWay struct {
	since time.Time
	what  string
}

// Watch notes that a trace is about to be run.  The function returned is to
// be called when it is over; if it isn't for too long, the process ends.
func Watch(spec string, trace []string) func() {
	watched.once.Do(func() {
		watched.on = map[*slot]*underWay{}
		go func() {
			for {
				time.Sleep(2 * time.Second)
				watched.Lock()
				for _, u := range watched.on {
					if time.Since(u.since) > HangLimit {
						fmt.Printf("\nHANG %s\n", u.what)
						os.Exit(97)
					}
				}
				watched.Unlock()
			}
		}()
	})
	txt := spec + "\t" + strings.Join(trace, "\t")
	watched.Lock()
	var s *slot
	if n := len(watched.free); n > 0 {
		s, watched.free = watched.free[n-1], watched.free[:n-1]
	} else {
		s = newSlot()
	}
	watched.on[s] = &underWay{time.Now(), txt}
	watched.Unlock()
	s.Note(txt)
	return func() {
		s.Note("")
		watched.Lock()
		delete(watched.on, s)
		watched.free = append(watched.free, s)
		watched.Unlock()
	}
}

// UnderWay lists the traces noted in a file.
func UnderWay(file string) [][]string {
	data, _ := os.ReadFile(file)
	var out [][]string
	for off := 0; off < len(data); off += slotSize {
		end := off + slotSize
		if end > len(data) {
			end = len(data)
		}
		t := string(data[off:end])
		if i := strings.Index(t, "\n"); i > 0 {
			out = append(out, strings.Split(t[:i], "\t"))
		}
	}
	return out
}
