// Package simruntime redirects runtime.Gosched.
package simruntime

import "recengine/internal/zzsim/rt"

// Gosched is runtime.Gosched.
func Gosched() { rt.Gosched() }
