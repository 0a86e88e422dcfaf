package simrt

type countKey struct {
	l any
	n int
}

// HoldCount registers one more shared hold of a lock by the current task.
func HoldCount(l any, release func()) {
	if cur == nil {
		return
	}
	for n := 0; ; n++ {
		k := countKey{l, n}
		if cur.held[k] == nil {
			Hold(k, release)
			return
		}
	}
}

// UnholdCount removes one shared hold.
func UnholdCount(l any) {
	del := func(t *Task) bool {
		for n := 0; ; n++ {
			if t.held[countKey{l, n}] == nil {
				if n == 0 {
					return false
				}
				delete(t.held, countKey{l, n - 1})
				return true
			}
		}
	}
	if cur != nil && del(cur) {
		return
	}
	if sim != nil {
		for _, t := range sim.alive {
			if del(t) {
				return
			}
		}
	}
}

// RunToken identifies the current run.
func RunToken() any { return sim }

// ChooseN picks a value in [0,n) for the current run.
func ChooseN(n int) int {
	if OrderRand == nil || n <= 1 {
		return 0
	}
	r := NewRng(OrderRand())
	return r.N(n)
}
