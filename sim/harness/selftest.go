//go:build go1.22

package main

import (
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/sync"
)

// The simulator's own channels, wait groups and mutexes under random programs: SELF is no property of fab, it
// is there for "harness -check SELF" only.
func selftestRun() {
	curProp = "SELF"
	nch := 1 + zsim.Gen(3)
	chans := make([]chan int, nch)
	for i := range chans {
		chans[i] = make(chan int, pick(0, 0, 0, 1, 3))
	}
	np, nc := 1+zsim.Gen(4), 1+zsim.Gen(4)
	got := map[int]int{}
	var mu sync.Mutex
	var prod, cons sync.WaitGroup
	take := func(v int) {
		mu.Lock()
		got[v]++
		mu.Unlock()
	}
	total := 0
	for p := 0; p < np; p++ {
		p := p
		n := zsim.Gen(5)
		total += n
		prod.Add(1)
		mode := zsim.Gen(4)
		zsim.GoNamed(sname("producer", p), func() {
			defer prod.Done()
			for i := 0; i < n; i++ {
				v := p*100 + i
				a, b := chans[zsim.Gen(nch)], chans[zsim.Gen(nch)]
				switch mode {
				case 0:
					zsim.Send1(a, v)
				case 1:
					zsim.Select(false, zsim.Send(a, v), zsim.Send(b, v))
				case 2:
					for k := 0; zsim.Select(true, zsim.Send(a, v)) < 0; k++ {
						zsim.Yield(1100)
						if k > 5 {
							zsim.Send1(a, v)
							break
						}
					}
				case 3: // a select that both sends and receives
					r := zsim.Recv(b)
					for zsim.Select(false, zsim.Send(a, v), r) == 1 {
						take(r.Val)
						r = zsim.Recv(b)
					}
				}
			}
		})
	}
	for c := 0; c < nc; c++ {
		mode := zsim.Gen(3)
		cons.Add(1)
		zsim.GoNamed(sname("consumer", c), func() {
			defer cons.Done()
			switch {
			case mode == 0 && nch == 1:
				for {
					v, ok := zsim.Recv2(chans[0])
					if !ok {
						return
					}
					take(v)
				}
			case mode == 1:
				open := append([]chan int(nil), chans...)
				for len(open) > 0 {
					k := zsim.Gen(len(open))
					r := zsim.Recv(open[k])
					if zsim.Select(true, r) < 0 {
						zsim.Yield(1101)
						var ops []zsim.SelOp
						var rs []*zsim.RecvOp[int]
						for _, ch := range open {
							x := zsim.Recv(ch)
							rs = append(rs, x)
							ops = append(ops, x)
						}
						k = zsim.Select(false, ops...)
						r = rs[k]
					}
					if r.Ok {
						take(r.Val)
					} else {
						open = append(open[:k:k], open[k+1:]...)
					}
				}
			default:
				open := append([]chan int(nil), chans...)
				for len(open) > 0 {
					var ops []zsim.SelOp
					var rs []*zsim.RecvOp[int]
					for _, ch := range open {
						x := zsim.Recv(ch)
						rs = append(rs, x)
						ops = append(ops, x)
					}
					k := zsim.Select(false, ops...)
					if rs[k].Ok {
						take(rs[k].Val)
					} else {
						open = append(open[:k:k], open[k+1:]...)
					}
				}
			}
		})
	}
	prod.Wait()
	for _, ch := range chans {
		zsim.Close(ch)
	}
	cons.Wait()
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for v := range got {
		if got[v] != 1 {
			viol("SELF", "count", "value %d arrived %d times", v, got[v])
		}
		n++
	}
	if n != total {
		viol("SELF", "lost", "%d of %d values arrived", n, total)
	}
}

func init() {
	register(&check{id: "SELF", scenarios: []scenario{{name: "channels", weight: 1, maxSteps: 20000, fn: selftestRun, post: only("deadlock", "step-budget")}}})
}
