// Command instrument rewrites, in place, every Go file below the given
// directory so that imports of sync and sync/atomic become the shims of the
// controlled scheduler.  Only import paths change; the code itself is kept.
package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

var repl = map[string][2]string{
	`"sync"`:        {"sync", `"github.com/justyntemme/vst3go/verifmc/msync"`},
	`"sync/atomic"`: {"atomic", `"github.com/justyntemme/vst3go/verifmc/matomic"`},
}

func main() {
	n := 0
	for _, root := range os.Args[1:] {
		err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, p, src, parser.ImportsOnly)
			if err != nil {
				return err
			}
			ch := false
			for i := len(f.Imports) - 1; i >= 0; i-- {
				im := f.Imports[i]
				if r, ok := repl[im.Path.Value]; ok {
					text := r[1]
					if im.Name == nil {
						text = r[0] + " " + text
					}
					at := fs.Position(im.Path.Pos()).Offset
					src = append(append(append([]byte(nil), src[:at]...), text...), src[at+len(im.Path.Value):]...)
					ch = true
				}
			}
			if !ch {
				return nil
			}
			n++
			return os.WriteFile(p, src, 0644)
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Println("instrumented files:", n)
}
