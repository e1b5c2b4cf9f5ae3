package main

// Deterministic iteration: proofs must not depend on the order of Go maps.

import (
	"fmt"
	"iter"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// det ranges over a map in a fixed order.
func det[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		switch len(m) {
		case 0:
			return
		case 1:
			for k, v := range m {
				yield(k, v)
			}
			return
		}
		type kk struct {
			k K
			s string
			n int
		}
		ks := make([]kk, 0, len(m))
		for k := range m {
			e := kk{k: k}
			switch t := any(k).(type) {
			case *Term:
				e.n = t.id
			case string:
				e.s = t
			case int:
				e.n = t
			case *ssa.BasicBlock:
				e.s, e.n = t.Parent().String(), t.Index
			case ssa.Value:
				if p := t.Parent(); p != nil {
					e.s = p.String()
				}
				e.s += "\x00" + t.Name()
				e.n = int(t.Pos())
			case *Sort:
				e.s = t.Name
			case *Contract:
				e.s = t.Key + "\x00" + t.Variant
			default:
				e.s = fmt.Sprint(k)
			}
			ks = append(ks, e)
		}
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].s != ks[j].s {
				return ks[i].s < ks[j].s
			}
			return ks[i].n < ks[j].n
		})
		for _, e := range ks {
			v, ok := m[e.k]
			if !ok {
				continue
			}
			if !yield(e.k, v) {
				return
			}
		}
	}
}
