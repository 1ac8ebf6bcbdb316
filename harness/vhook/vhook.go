// Package vhook receives the calls the instrumenter puts before every statement of the packages under test.
package vhook

import (
	"sync/atomic"
	"unsafe"
)

var hook atomic.Pointer[func(string)]

// Set installs the hook (nil removes it)
func Set(f func(id string)) {
	if f == nil {
		hook.Store(nil)
		return
	}
	hook.Store(&f)
}

// P is called before every statement of an instrumented package
func P(id string) {
	if h := hook.Load(); h != nil {
		(*h)(id)
	}
}

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

//go:linkname setProfLabel runtime/pprof.runtime_setProfLabel
func setProfLabel(unsafe.Pointer)

// Tag identifies a goroutine for the harness
type Tag struct {
	Data any
	_    [8]uintptr // room for what the runtime might read behind a profiler label pointer
}

// SetTag attaches the tag to the calling goroutine (nil removes it)
func SetTag(t *Tag) { setProfLabel(unsafe.Pointer(t)) }

// GetTag returns the tag of the calling goroutine or nil
func GetTag() *Tag { return (*Tag)(getProfLabel()) }

var adopt atomic.Pointer[func(parent *Tag) *Tag]

// SetAdopt installs the function that gives new goroutines of instrumented packages their tags (nil: none)
func SetAdopt(f func(parent *Tag) *Tag) {
	if f == nil {
		adopt.Store(nil)
		return
	}
	adopt.Store(&f)
}

// GoBegin is called before a go statement of an instrumented package: new goroutines do not inherit the tag
func GoBegin() *Tag {
	t := GetTag()
	if a := adopt.Load(); a != nil {
		SetTag((*a)(t))
	} else {
		SetTag(nil)
	}
	return t
}

// GoEnd is called after a go statement
func GoEnd(t *Tag) { SetTag(t) }
