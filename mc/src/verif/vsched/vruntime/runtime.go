// Package vruntime replaces scheduling functions of runtime.
package vruntime

import "verif/vsched"

// Gosched is runtime.Gosched.
func Gosched() { vsched.Yield() }
