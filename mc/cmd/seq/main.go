package main

import (
	"github.com/justyntemme/vst3go/verifmc/core"
	_ "github.com/justyntemme/vst3go/verifmc/seq"
)

func main() { core.Main() }
