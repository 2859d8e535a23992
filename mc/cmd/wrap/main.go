package main

import (
	"runtime"

	"github.com/justyntemme/vst3go/verifmc/core"
	_ "github.com/justyntemme/vst3go/verifmc/wrap"
)

// The packages under test lock a global table on every call: processes share the
// work better than threads.
func main() {
	runtime.GOMAXPROCS(1)
	core.Divided = true
	core.Main()
}
