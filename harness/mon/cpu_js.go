//go:build js

package mon

import "time"

// WebAssembly has one thread, so a watchdog would not run anyway; the driver limits the process.
func cpuTime() time.Duration { return 0 }
