package hfed

import (
	"time"

	"github.com/tg123/phabrik/zzverif/sym"
)

// sleep waits for a number of half minutes of virtual time.
func sleep(n int) {
	if !sym.Symbolic() {
		return
	}
	for i := 0; i < n; i++ {
		time.Sleep(31 * time.Second)
	}
	sym.Quiesce()
}
