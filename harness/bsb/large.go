package bsb

import "github.com/Redundancy/go-sync/zzverif/sym"

// Large: many requests, many at a time, that finish in some order.
func Large() {
	limit := []int{1, 7, 20, 40}[sym.Pick("limit", 0, sym.Bound(2, 3))]
	n := limit + []int{0, 1, 9, 30}[sym.Pick("more", 0, sym.Bound(2, 3))]
	w := newWorld(limit)
	w.apart = true
	low := []int{0, 250, 65530, 1<<32 - 5}[sym.Pick("lowest block", 0, 3)]
	if low > 0 {
		low += 10
	}
	order := sym.Pick("order", 0, 2)
	pick := func(i int) int {
		switch order {
		case 1:
			return n - 1 - i
		case 2:
			if n%7 == 0 {
				return (i + n/2) % n
			}
			return i * 7 % n
		}
		return i
	}
	for i := 0; i < n; i++ {
		b := low + pick(i)
		sym.Assert(w.request(b, b) == nil, "a running source refused a request")
		if i%5 == 4 {
			w.settle()
			w.started()
		}
	}
	w.settle()
	w.started()
	finish := sym.Pick("finishing", 0, 3)
	for got := 0; got < n; {
		run := w.count(running)
		if run > 0 && (finish != 1 || w.count(fetched) < 5) {
			k := 0
			switch finish {
			case 0:
				k = run - 1
			case 2:
				k = run / 2
			}
			w.finish(w.nth(running, k), 0)
			w.settle()
			w.started()
			continue
		}
		must := false
		for _, f := range w.fetches {
			must = must || f.now
		}
		if !w.receive() {
			sym.Assert(!must, "the lowest range was fetched but is not delivered")
			sym.Assert(run > 0, "a fetched range was not delivered")
			w.finish(w.nth(running, 0), 0)
			w.settle()
		} else {
			got++
		}
		w.started()
	}
	sym.Assert(w.count(delivered) == n, "a fetched range was not delivered")
	sym.Assert(!w.receive(), "more was delivered than asked for")
	if limit > 15 {
		sym.Reach("many at a time")
	}
}
