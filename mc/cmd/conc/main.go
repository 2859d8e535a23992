package main

import (
	"runtime"

	_ "github.com/justyntemme/vst3go/verifmc/conc"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func main() {
	runtime.GOMAXPROCS(1)
	core.Main()
}
