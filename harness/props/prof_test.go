package props

import (
	"fmt"
	"os"
	"testing"
	"verif/harness/eng"
)

func TestProf(t *testing.T) {
	p := eng.Get(os.Getenv("P"))
	s := p.Suites[0]
	st := &eng.Stats{}
	for i := int64(0); i < 16; i++ {
		c := s.Gen(eng.NewR(i))
		v, e := eng.Exec(s, c, st)
		if v != nil || e != nil {
			t.Log(i, v, e)
		}
	}
	fmt.Println(st.Steps)
}
