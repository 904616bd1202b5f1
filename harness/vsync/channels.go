package vsync

import "sync"

var (
	chansMu sync.Mutex
	chans   []func()
)

// Channel registers a channel of the library that is a variable of a package.
// Start makes it again, with what it was given when the program began.
func Channel[T any](p *chan T) {
	chansMu.Lock()
	defer chansMu.Unlock()
	first := true
	var begin []T
	chans = append(chans, func() {
		if first {
			first = false
			for len(*p) > 0 {
				begin = append(begin, <-*p)
			}
		}
		*p = make(chan T, cap(*p))
		for _, x := range begin {
			*p <- x
		}
	})
}

// Start must be called where a case begins, in the bubble if it has one.
func Start() {
	chansMu.Lock()
	defer chansMu.Unlock()
	for _, f := range chans {
		f()
	}
}
