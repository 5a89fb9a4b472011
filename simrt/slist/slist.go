// Package slist stands in for container/list: the same list, which notices when
// it is used by two tasks at once.
package slist

import (
	"container/list"
	"unsafe"

	"simrt/sim"
)

type Element = list.Element

// List is container/list's.
type List struct{ l list.List }

func New() *List { return new(List) }

func (l *List) w() func() { return sim.Exclusive(unsafe.Pointer(l), "container/list") }
func (l *List) r()        { sim.Shared(unsafe.Pointer(l), "container/list") }

func (l *List) Init() *List              { defer l.w()(); l.l.Init(); return l }
func (l *List) Len() int                 { l.r(); return l.l.Len() }
func (l *List) Front() *Element          { l.r(); return l.l.Front() }
func (l *List) Back() *Element           { l.r(); return l.l.Back() }
func (l *List) Remove(e *Element) any    { defer l.w()(); return l.l.Remove(e) }
func (l *List) PushFront(v any) *Element { defer l.w()(); return l.l.PushFront(v) }
func (l *List) PushBack(v any) *Element  { defer l.w()(); return l.l.PushBack(v) }
func (l *List) InsertBefore(v any, mark *Element) *Element {
	defer l.w()()
	return l.l.InsertBefore(v, mark)
}
func (l *List) InsertAfter(v any, mark *Element) *Element {
	defer l.w()()
	return l.l.InsertAfter(v, mark)
}
func (l *List) MoveToFront(e *Element)      { defer l.w()(); l.l.MoveToFront(e) }
func (l *List) MoveToBack(e *Element)       { defer l.w()(); l.l.MoveToBack(e) }
func (l *List) MoveBefore(e, mark *Element) { defer l.w()(); l.l.MoveBefore(e, mark) }
func (l *List) MoveAfter(e, mark *Element)  { defer l.w()(); l.l.MoveAfter(e, mark) }
func (l *List) PushBackList(other *List)    { defer l.w()(); l.l.PushBackList(&other.l) }
func (l *List) PushFrontList(other *List)   { defer l.w()(); l.l.PushFrontList(&other.l) }
