package internal/stack

func MakeStack() (r)
  ensures len(r.s) == 0
  modifies nothing
  property S01
func NewStack() (r)
  ensures len(r.s) == 0
  ensures fresh(r)
  modifies nothing
  property S01
func (st *Stack) Len() (r)
  ensures r == len(st.s)
  modifies nothing
  property S01
func (st *Stack) IsEmpty() (r)
  ensures iff(r, len(st.s) == 0)
  modifies nothing
  property S01
func (st *Stack) Pop() (t)
  any k
  panics len(st.s) == 0
  ensures same(t, old(st.s[len(st.s)-1]))
  ensures len(st.s) == old(len(st.s)) - 1
  ensures 0 <= k && k < len(st.s) ==> same(st.s[k], old(st.s[k]))
  modifies *st
  property S01
func (st *Stack) Push(t)
  any k
  ensures len(st.s) == old(len(st.s)) + 1
  ensures same(st.s[len(st.s)-1], t)
  ensures 0 <= k && k < old(len(st.s)) ==> same(st.s[k], old(st.s[k]))
  modifies *st, elems(st.s)
  property S01
func (st *Stack) PushPtr(t)
  any k
  ensures len(st.s) == old(len(st.s)) + 1
  ensures same(st.s[len(st.s)-1], old(*t))
  ensures 0 <= k && k < old(len(st.s)) ==> same(st.s[k], old(st.s[k]))
  modifies *st, elems(st.s)
  property S01
func (st *Stack) Top() (r)
  panics len(st.s) == 0
  ensures same(*r, st.s[len(st.s)-1])
  modifies nothing
  property S01
func (st *Stack) Peek(pos) (r)
  panics pos < 0 || pos >= len(st.s)
  ensures same(*r, st.s[len(st.s)-1-pos])
  modifies nothing
  property S01
