//go:build libfuzzer

package main

// #include <stddef.h>
// #include <stdint.h>
import "C"

import "unsafe"

var theFuzzer *fuzzer

//export LLVMFuzzerTestOneInput
func LLVMFuzzerTestOneInput(data *C.char, size C.size_t) C.int {
	if theFuzzer == nil {
		theFuzzer = newFuzzer()
	}
	if size > 0 {
		theFuzzer.one(C.GoBytes(unsafe.Pointer(data), C.int(size)))
	}
	return 0
}
