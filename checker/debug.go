package main

import (
	"fmt"
	"os"
	"sort"
)

var debugPoints = os.Getenv("CHK_DEBUG") != ""

func (e *Engine) dumpPoints() {
	type kv struct {
		k string
		n int
	}
	agg := map[string]int{}
	for k, n := range e.points {
		if d, ok := e.pointDesc[k]; ok {
			agg[d] += n
		}
	}
	var l []kv
	for k, n := range agg {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i > 25 {
			break
		}
		fmt.Println(x.n, x.k)
	}
}

func (s *State) dump() {
	for i, f := range s.frames {
		fmt.Printf(" frame %d %s b%d.%d ctx=%s\n", i, f.fn.Name(), f.block.Index, f.idx, f.ctx)
		for k, v := range f.env {
			fmt.Printf("    %s = %s\n", k.Name(), v)
		}
	}
	for a, v := range s.mem {
		fmt.Println("   mem", a, "=", v)
	}
	for a, v := range s.havoc {
		fmt.Println("   havoc", a, "=", v)
	}
	for a, v := range s.facts {
		fmt.Println("   fact", a, "=", v)
	}
	for a := range s.marks {
		fmt.Println("   mark", a)
	}
}

var dumpViol = os.Getenv("CHK_DUMP") != ""
