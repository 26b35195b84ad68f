package stack

import (
	"fmt"
	"testing"
)

func TestGvcS01(t *testing.T) {
	g := gvcStart(t)
	// long runs of pushes and pops (growth and shrinkage of the storage)
	for h := 0; h < g.iters(40, 400); h++ {
		var runs []int
		st := NewStack[int]()
		var ref []int
		g.do(func() string { return fmt.Sprint("pushes (positive) and pops (negative) in runs of ", runs) }, func() (bool, string) {
			for r := 0; r < 8; r++ {
				n := 1 + g.rng.Intn(1<<uint(1+g.rng.Intn(12)))
				if r%2 == 0 {
					runs = append(runs, n)
					for i := 0; i < n; i++ {
						v := g.rng.Int()
						if i%3 == 0 {
							st.PushPtr(&v)
						} else {
							st.Push(v)
						}
						ref = append(ref, v)
					}
				} else {
					if n > len(ref) || g.rng.Intn(3) == 0 {
						n = len(ref)
					}
					runs = append(runs, -n)
					for i := 0; i < n; i++ {
						if v := st.Pop(); v != ref[len(ref)-1] {
							return false, fmt.Sprintf("Pop number %d of the last run returned %v, want %v", i+1, v, ref[len(ref)-1])
						}
						ref = ref[:len(ref)-1]
						if st.Len() != len(ref) || st.IsEmpty() != (len(ref) == 0) {
							return false, fmt.Sprintf("Len %d IsEmpty %v, want length %d", st.Len(), st.IsEmpty(), len(ref))
						}
						if len(ref) > 0 && *st.Top() != ref[len(ref)-1] {
							return false, fmt.Sprintf("Top gives %v, want %v", *st.Top(), ref[len(ref)-1])
						}
					}
				}
				if st.Len() != len(ref) {
					return false, fmt.Sprintf("Len %d, want length %d", st.Len(), len(ref))
				}
				for j := range ref {
					if *st.Peek(len(ref) - 1 - j) != ref[j] {
						return false, fmt.Sprintf("content differs at %d: %v, want %v", j, *st.Peek(len(ref) - 1 - j), ref[j])
					}
				}
			}
			return true, ""
		})
	}
	for h := 0; h < g.iters(300, 20000); h++ {
		var ops []string
		var st *Stack[int]
		if h%2 == 0 {
			st = NewStack[int]()
		} else {
			x := MakeStack[int]()
			st = &x
		}
		other := NewStack[int]()
		other.Push(-1)
		var ref []int
		n := 5 + g.rng.Intn(60)
		g.do(func() string { return fmt.Sprint("history ", ops) }, func() (bool, string) {
			for i := 0; i < n; i++ {
				switch k := g.rng.Intn(8); k {
				case 0, 1, 2:
					ops = append(ops, fmt.Sprint("Push ", i))
					st.Push(i)
					ref = append(ref, i)
				case 3:
					ops = append(ops, fmt.Sprint("PushPtr ", i))
					v := i
					st.PushPtr(&v)
					v = -5
					ref = append(ref, i)
				case 4, 5:
					ops = append(ops, "Pop")
					var v int
					p := gvcPanics(func() { v = st.Pop() })
					if p != (len(ref) == 0) {
						return false, "Pop: panic or absence of panic is wrong"
					}
					if !p {
						if v != ref[len(ref)-1] {
							return false, fmt.Sprintf("Pop returned %v, want %v", v, ref[len(ref)-1])
						}
						ref = ref[:len(ref)-1]
					}
				case 6:
					ops = append(ops, "Top")
					var v *int
					p := gvcPanics(func() { v = st.Top() })
					if p != (len(ref) == 0) {
						return false, "Top: panic or absence of panic is wrong"
					}
					if !p {
						if *v != ref[len(ref)-1] {
							return false, fmt.Sprintf("Top gives %v, want %v", *v, ref[len(ref)-1])
						}
						*v += 1000
						ref[len(ref)-1] += 1000
					}
				case 7:
					pos := g.rng.Intn(len(ref)+3) - 1
					ops = append(ops, fmt.Sprint("Peek ", pos))
					var v *int
					p := gvcPanics(func() { v = st.Peek(pos) })
					if p != (pos < 0 || pos >= len(ref)) {
						return false, "Peek: panic or absence of panic is wrong"
					}
					if !p {
						if *v != ref[len(ref)-1-pos] {
							return false, fmt.Sprintf("Peek gives %v, want %v", *v, ref[len(ref)-1-pos])
						}
						*v += 1000
						ref[len(ref)-1-pos] += 1000
					}
				}
				if st.Len() != len(ref) || st.IsEmpty() != (len(ref) == 0) {
					return false, fmt.Sprintf("Len %d IsEmpty %v, want length %d", st.Len(), st.IsEmpty(), len(ref))
				}
				for j := range ref {
					if *st.Peek(len(ref) - 1 - j) != ref[j] {
						return false, fmt.Sprintf("content differs at %d: %v, want %v", j, *st.Peek(len(ref) - 1 - j), ref[j])
					}
				}
			}
			if other.Len() != 1 || other.Pop() != -1 {
				return false, "an independent stack changed"
			}
			return true, ""
		})
	}
}
