package vlmonitoring

import "sync"

// C22: high-water marks.

func hMax(val, max uint64) *Max {
	m := &Max{}
	m.uint64 = val
	m.Max = max
	return m
}

// Alone: the sequential meaning.
func VerifyC22_Sequential(val uint64, max uint64, n uint64, k uint64) {
	m := hMax(val, max)
	m.AddU64(n)
	want := max
	if val+n > want {
		vReach("raised")
		want = val + n
	} else {
		vReach("kept")
	}
	vAssert("C22.add", m.uint64 == val+n)
	vAssert("C22.max", m.Max == want)
	m.SubU64(k)
	vAssert("C22.sub", m.uint64 == val+n-k)
	vAssert("C22.sub.max", m.Max == want)
	l := m.Load()
	vAssert("C22.load", l.uint64 == val+n-k && l.Max == want)
	vAssert("C22.load.frame", m.uint64 == val+n-k && m.Max == want)
}

// hOthers: before every atomic step other threads may have added and subtracted
// anything; they never lower the maximum.
func hOthers(m *Max) {
	vRely(func() {
		m.uint64 = vFreshU64()
		x := vFreshU64()
		vAssume(x >= m.Max)
		m.Max = x
	})
}

// AddU64 among other threads. Its own steps: the value moves exactly once, by n,
// in one atomic step; the maximum never moves down; at the return it is at least
// the value produced.
func VerifyC22_Add(val uint64, max uint64, n uint64) {
	if !vSymbolic() {
		hStress()
		return
	}
	vCut(0, "")
	m := hMax(val, max)
	vShared("C22.race", m)
	hOthers(m)
	steps, made := 0, uint64(0)
	vGuarantee(func(q *uint64, old, new uint64) {
		if q == &m.Max {
			vAssert("C22.shared.grows", new >= old)
			return
		}
		vAssert("C22.shared.step", q == &m.uint64 && new == old+n)
		steps++
		made = new
	})
	m.AddU64(n)
	vReach("done")
	vAssert("C22.shared.once", steps == 1 || n == 0 && steps == 0)
	vAssert("C22.shared.recorded", steps == 0 || m.Max >= made)
}

func VerifyC22_Sub(val uint64, max uint64, n uint64) {
	if !vSymbolic() {
		hStress()
		return
	}
	m := hMax(val, max)
	vShared("C22.race", m)
	hOthers(m)
	steps := 0
	vGuarantee(func(q *uint64, old, new uint64) {
		if q == &m.Max {
			vAssert("C22.shared.sub.grows", new >= old)
			return
		}
		vAssert("C22.shared.sub.step", q == &m.uint64 && new == old-n)
		steps++
	})
	m.SubU64(n)
	vReach("done")
	vAssert("C22.shared.sub.once", steps == 1 || n == 0 && steps == 0)
}

// Load among other threads: values the two fields had, and nothing is written.
func VerifyC22_Load(val uint64, max uint64) {
	if !vSymbolic() {
		hStress()
		return
	}
	m := hMax(val, max)
	vShared("C22.race", m)
	n := 0
	var had [4]uint64
	vRely(func() {
		m.uint64 = vFreshU64()
		x := vFreshU64()
		vAssume(x >= m.Max)
		m.Max = x
		if n < 4 {
			had[n] = m.uint64
		}
		n++
	})
	vGuarantee(func(q *uint64, old, new uint64) { vAssert("C22.shared.load.reads", new == old) })
	l := m.Load()
	vReach("done")
	vAssert("C22.shared.load.max", l.Max >= max && l.Max <= m.Max)
	vAssert("C22.shared.load.value", l.uint64 == val || l.uint64 == had[0] || l.uint64 == had[1] || l.uint64 == had[2] || l.uint64 == had[3])
}

// hStress runs the real thing (native runs only).
func hStress() {
	const threads, rounds = 8, 300
	m := &Max{}
	var wg sync.WaitGroup
	bad := make(chan string, threads)
	for g := 0; g < threads; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var top uint64
			for i := 0; i < rounds; i++ {
				m.AddU64(3)
				l := m.Load()
				if l.Max < top {
					bad <- "C22.stress.lowered"
					return
				}
				top = l.Max
				m.SubU64(1)
			}
		}()
	}
	wg.Wait()
	select {
	case tag := <-bad:
		vAssert(tag, false)
	default:
	}
	l := m.Load()
	vAssert("C22.stress.lost", l.uint64 == threads*rounds*2)
	vAssert("C22.stress.max", l.Max >= l.uint64 && l.Max <= threads*rounds*2+threads)
}
