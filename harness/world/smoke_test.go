package world

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"

	"verif/harness/eng"
)

func TestOps(t *testing.T) {
	n := int64(40)
	if x, e := strconv.Atoi(os.Getenv("N")); e == nil {
		n = int64(x)
	}
	tot := map[string]int64{}
	viol := map[string]int{}
	ex := map[string]string{}
	t0 := time.Now()
	for i := int64(0); i < n; i++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if v, ok := r.(*eng.Violation); ok {
						viol[v.Sig]++
						ex[v.Sig] = fmt.Sprint(i, " ", v.Msg)
						return
					}
					panic(r)
				}
			}()
			r := eng.NewR(i)
			st := &eng.Stats{}
			w := New(GenP(r), st)
			defer func() {
				for k, v := range st.Classes {
					tot[k] += v
				}
			}()
			w.Run(GenOps(r, 200, AllOps()))
		}()
	}
	t.Log(time.Since(t0) / time.Duration(n))
	var ks []string
	for k := range tot {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t.Log(k, tot[k])
	}
	for k, v := range viol {
		m := ex[k]
		if len(m) > 2500 {
			m = m[:2500]
		}
		t.Log(k, v, m)
	}
}
