package main

import (
	"runtime"

	"github.com/justyntemme/vst3go/verifmc/core"
	_ "github.com/justyntemme/vst3go/verifmc/host"
)

func main() {
	runtime.GOMAXPROCS(1)
	core.Main()
}
