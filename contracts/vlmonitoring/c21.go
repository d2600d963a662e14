package vlmonitoring

// C21: traffic counters.

// hEnv lets other threads change the shared value at p before every atomic step.
func hEnv(p *uint64) {
	vRely(func() { *p = vFreshU64() })
}

// Diff of one counter, alone: exactly the increase, and the snapshot follows.
func VerifyC21_Counter(val uint64, prev uint64, add uint64) {
	var c, p Counter
	c.uint64, p.uint64 = val, prev
	d := c.Diff(&p)
	vAssert("C21.diff", d.uint64 == val-prev)
	vAssert("C21.snapshot", p.uint64 == val)
	vAssert("C21.source", c.uint64 == val)
	vAssert("C21.add", c.AddU64(add) == val+add && c.uint64 == val+add && p.uint64 == val)
	d2 := c.Diff(&p)
	vReach("second")
	vAssert("C21.second", d2.uint64 == add && p.uint64 == val+add && c.uint64 == val+add)
	vAssert("C21.total", d.uint64+d2.uint64 == c.uint64-prev)
	vAssert("C21.load", c.Load() == val+add && c.Get() == val+add)
}

func VerifyC21_Flow(sent uint64, recv uint64, ps uint64, pr uint64, a uint64, b uint64) {
	var c, p FlowCounter
	c.Sent.uint64, c.Recv.uint64, p.Sent.uint64, p.Recv.uint64 = sent, recv, ps, pr
	d := c.Diff(&p)
	vAssert("C21.flow.diff", d.Sent.uint64 == sent-ps && d.Recv.uint64 == recv-pr)
	vAssert("C21.flow.snapshot", p.Sent.uint64 == sent && p.Recv.uint64 == recv)
	vAssert("C21.flow.source", c.Sent.uint64 == sent && c.Recv.uint64 == recv)
	vAssert("C21.flow.sent", c.SentAddU64(a) == sent+a && c.Sent.uint64 == sent+a && c.Recv.uint64 == recv)
	vAssert("C21.flow.recv", c.RecvAddU64(b) == recv+b && c.Sent.uint64 == sent+a && c.Recv.uint64 == recv+b)
	vAssert("C21.flow.untouched", p.Sent.uint64 == sent && p.Recv.uint64 == recv)
	d = c.Diff(&p)
	vReach("second")
	vAssert("C21.flow.second", d.Sent.uint64 == a && d.Recv.uint64 == b)
}

func VerifyC21_LoadStore(val uint64, prev uint64) {
	src, dst := val, prev
	d := LoadStore(&src, &dst)
	vReach("done")
	vAssert("C21.ls", d == val-prev && src == val && dst == val)
}

// While other threads count: the difference reported is the one the snapshot
// moves by, the source is only read, and only atomically.
func VerifyC21_DiffShared(val uint64, prev uint64) {
	c := &Counter{}
	c.uint64 = val
	var p Counter
	p.uint64 = prev
	vShared("C21.race", c)
	hEnv(&c.uint64)
	vGuarantee(func(q *uint64, old, new uint64) { vAssert("C21.shared.source", new == old) })
	d := c.Diff(&p)
	vReach("done")
	vAssert("C21.shared.diff", d.uint64 == p.uint64-prev)
}

func VerifyC21_FlowShared(val uint64, rv uint64, ps uint64, pr uint64) {
	c := &FlowCounter{}
	c.Sent.uint64, c.Recv.uint64 = val, rv
	var p FlowCounter
	p.Sent.uint64, p.Recv.uint64 = ps, pr
	vShared("C21.race", c)
	vRely(func() { c.Sent.uint64, c.Recv.uint64 = vFreshU64(), vFreshU64() })
	vGuarantee(func(q *uint64, old, new uint64) { vAssert("C21.shared.flow.source", new == old) })
	d := c.Diff(&p)
	vReach("done")
	vAssert("C21.shared.flow", d.Sent.uint64 == p.Sent.uint64-ps && d.Recv.uint64 == p.Recv.uint64-pr)
}

// Every addition is one atomic step by exactly n, whose result is returned.
func VerifyC21_AddShared(val uint64, n uint64, which bool) {
	c := &FlowCounter{}
	c.Sent.uint64, c.Recv.uint64 = val, val
	vShared("C21.race", c)
	vRely(func() { c.Sent.uint64, c.Recv.uint64 = vFreshU64(), vFreshU64() })
	steps, made := 0, uint64(0)
	vGuarantee(func(q *uint64, old, new uint64) {
		vAssert("C21.shared.dir", (q == &c.Sent.uint64) == which && (q == &c.Recv.uint64) == !which)
		vAssert("C21.shared.step", new == old+n)
		steps++
		made = new
	})
	var got uint64
	if which {
		got = c.SentAddU64(n)
	} else {
		got = c.RecvAddU64(n)
	}
	vReach("done")
	if vSymbolic() {
		vAssert("C21.shared.once", steps == 1 || n == 0 && steps == 0)
		vAssert("C21.shared.returned", steps == 0 || got == made)
	}
}
