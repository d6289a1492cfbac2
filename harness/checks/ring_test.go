package checks

import (
	"fmt"
	"io"

	"github.com/livekit/media-sdk/ring"

	"verif/harness/kit"
)

func init() {
	kit.Register("B01", kit.Check{
		Rule: "Every buffer size up to a bound, every reachable rotation and fill level, every pair of operations, then long random operation " +
			"sequences on larger buffers; compared with a bounded queue after each operation. Distinct: (size, rotation, fill, op, op), or a random sequence.",
		Floor: 2000,
		Run:   checkRing,
	})
}

// ringModel is a bounded queue that drops the oldest elements.
type ringModel struct {
	size int
	q    []int
}

func (m *ringModel) push(v int) {
	m.q = append(m.q, v)
	if len(m.q) > m.size {
		m.q = m.q[len(m.q)-m.size:]
	}
}

type ringRun struct {
	c    *kit.C
	b    *ring.Buffer[int]
	m    ringModel
	next int
	log  []string
}

func (r *ringRun) fail(sig, format string, args ...any) {
	r.c.Fail(sig, "size=%d ops=%v: %s", r.m.size, r.log, fmt.Sprintf(format, args...))
}

func (r *ringRun) note(format string, args ...any) {
	if len(r.log) > 60 {
		r.log = r.log[1:]
	}
	r.log = append(r.log, fmt.Sprintf(format, args...))
}

func (r *ringRun) value() int { r.next++; return r.next }

func (r *ringRun) head() (int, bool) {
	if len(r.m.q) == 0 {
		return 0, false
	}
	return r.m.q[0], true
}

// op 0..5 are element operations, the rest are bulk reads (6, n) and writes (7, n).
func (r *ringRun) do(op, n int) {
	switch op {
	case 0:
		v := r.value()
		r.note("Push(%d)", v)
		r.b.Push(v)
		r.m.push(v)
	case 1:
		v := r.value()
		r.note("TryPush(%d)", v)
		ok := r.b.TryPush(v)
		exp := len(r.m.q) < r.m.size
		if exp {
			r.m.push(v)
		}
		if ok != exp {
			r.fail("trypush", "returned %v, expected %v", ok, exp)
		}
	case 2, 3:
		exp, eok := r.head()
		if eok {
			r.m.q = r.m.q[1:]
		}
		var v int
		ok := eok
		if op == 2 {
			r.note("Pop")
			v = r.b.Pop()
		} else {
			r.note("TryPop")
			v, ok = r.b.TryPop()
		}
		if v != exp || ok != eok {
			r.fail("pop", "returned %v %v, expected %v %v", v, ok, exp, eok)
		}
	case 4, 5:
		exp, eok := r.head()
		var v int
		ok := eok
		if op == 4 {
			r.note("Peek")
			v = r.b.Peek()
		} else {
			r.note("TryPeek")
			v, ok = r.b.TryPeek()
		}
		if v != exp || ok != eok {
			r.fail("peek", "returned %v %v, expected %v %v", v, ok, exp, eok)
		}
	case 6:
		r.note("Read(%d)", n)
		p := make([]int, n+2)
		for i := range p {
			p[i] = -1
		}
		got, err := r.b.Read(p[1 : 1+n])
		exp := min(n, len(r.m.q))
		var expErr error
		if n > 0 && len(r.m.q) == 0 {
			expErr = io.EOF
		}
		if got != exp || err != expErr {
			r.fail("read", "returned %v %v, expected %v %v", got, err, exp, expErr)
		}
		for i, v := range p {
			e := -1
			if i >= 1 && i-1 < exp {
				e = r.m.q[i-1]
			}
			if v != e {
				r.fail("read-data", "element %d is %d, expected %d", i-1, v, e)
				break
			}
		}
		r.m.q = r.m.q[exp:]
	case 7:
		r.note("Write(%d)", n)
		p := make([]int, n)
		for i := range p {
			p[i] = r.value()
		}
		got, err := r.b.Write(p)
		if got != n || err != nil {
			r.fail("write", "returned %v %v, expected %v", got, err, n)
		}
		for i, v := range p {
			r.m.push(v)
			if v != r.next-n+1+i {
				r.fail("write-data", "modified the argument")
			}
			p[i] = -7 // buffer must not reference it
		}
	}
	if l, s := r.b.Len(), r.b.Size(); l != len(r.m.q) || s != r.m.size {
		r.fail("len", "len=%d size=%d, expected %d %d", l, s, len(r.m.q), r.m.size)
	}
}

func (r *ringRun) drain() {
	for len(r.m.q) > 0 {
		r.do(3, 0)
	}
	r.do(3, 0)
	r.do(6, 1)
}

func newRingRun(c *kit.C, size int) *ringRun {
	return &ringRun{c: c, b: ring.NewBuffer[int](size), m: ringModel{size: size}}
}

func checkRing(c *kit.C) {
	type opn struct{ op, n int }
	for size := 1; size <= c.N(6, 9); size++ {
		var ops []opn
		for op := 0; op <= 5; op++ {
			ops = append(ops, opn{op, 0})
		}
		for n := 0; n <= size+1; n++ {
			ops = append(ops, opn{6, n})
		}
		for n := 0; n <= 2*size+1; n++ {
			ops = append(ops, opn{7, n})
		}
		for rot := 0; rot < size; rot++ {
			for fill := 0; fill <= size; fill++ {
				for _, a := range ops {
					for _, b := range ops {
						c.Eval("size=%d rot=%d fill=%d %v %v", size, rot, fill, a, b)
						c.Try("ring", func() {
							r := newRingRun(c, size)
							for i := 0; i < rot; i++ {
								r.do(0, 0)
								r.do(2, 0)
							}
							for i := 0; i < fill; i++ {
								r.do(1, 0)
							}
							r.do(a.op, a.n)
							r.do(b.op, b.n)
							r.drain()
						})
						c.Count("states_x_op_pairs", 1)
						c.Distinct(size, rot, fill, a, b)
					}
				}
			}
		}
	}
	for i := 0; i < c.N(400, 6000); i++ {
		rnd := c.Rand("seq", i)
		size := 1 + rnd.Intn(64)
		if i%10 == 0 {
			size = 1000 + rnd.Intn(4000)
		}
		c.Eval("random sequence %d size=%d", i, size)
		bias := rnd.Intn(3)
		c.Try("ring", func() {
			r := newRingRun(c, size)
			for j := 0; j < 300; j++ {
				op := rnd.Intn(8)
				if bias == 1 && rnd.Intn(2) == 0 {
					op = 7
				} else if bias == 2 && rnd.Intn(2) == 0 {
					op = 6
				}
				n := rnd.Intn(size + 2)
				switch rnd.Intn(8) {
				case 0:
					n = size
				case 1:
					n = size + rnd.Intn(size+1)
				case 2:
					n = size - r.b.Len()
				case 3:
					n = r.b.Len()
				}
				r.do(op, n)
				c.Count("random_ops", 1)
			}
			r.drain()
			c.Distinct("seq", i, size, r.next)
			if i == 0 {
				c.Sample("random", "size=%d ops=%v", size, r.log)
			}
		})
	}
	c.Sample("exhaustive", "size=3 rot=2 fill=3 Write(4) Read(2) then drain")
}
