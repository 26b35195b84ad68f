package errorconsts

import (
	"fmt"
	"testing"
)

func TestGvcI01(t *testing.T) {
	g := gvcStart(t)
	try := func(n, exp int) {
		g.do(gvcS("intermediate error data: ", n, " of ", exp, " bytes"), func() (bool, string) {
			partial := n != 0 && n != exp
			buf := make([]byte, 3)
			w, r, r2 := NewIntermediateWriteErrorData(n, exp), NewIntermediateReadErrorData(n, exp, buf), NewIntermediateReadErrorData(n, exp, nil)
			if w.PartialWrite != partial || w.BytesWritten != n || !w.IoError {
				return false, fmt.Sprintf("write %+v", *w)
			}
			if r.PartialRead != partial || r.BytesRead != n || !r.IoError || len(r.ActuallyRead) != 3 || &r.ActuallyRead[0] != &buf[0] || r2.ActuallyRead != nil || r2.PartialRead != partial {
				return false, fmt.Sprintf("read %+v", *r)
			}
			if NoReadAttempt.PartialRead || NoReadAttempt.BytesRead != 0 || NoReadAttempt.IoError || NoReadAttempt.ActuallyRead != nil || NoWriteAttempt != (WriteErrorData{}) {
				return false, "NoReadAttempt, NoWriteAttempt"
			}
			return true, ""
		})
	}
	for n := -2; n < 70; n++ {
		for e := -2; e < 70; e++ {
			try(n, e)
		}
	}
	for _, m := range g.models() {
		for _, a := range []string{"bytesWritten", "bytesRead"} {
			if v, ok := m.int(a); ok {
				for _, b := range []string{"expectedToWrite", "expectedToRead"} {
					if w, ok := m.int(b); ok && v.IsInt64() && w.IsInt64() {
						try(int(v.Int64()), int(w.Int64()))
					}
				}
			}
		}
	}
	for i := 0; i < g.iters(2000, 100000); i++ {
		n := int(g.word())
		try(n, n)
		try(n, int(g.word()))
		try(n, -n)
	}
}
