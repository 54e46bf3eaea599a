//go:build wasip1

package simrt

import "unsafe"

//go:wasmimport sim config
func hostConfig(what int32) uint64

//go:wasmimport sim abort
func hostAbort(code int32)

//go:wasmimport sim register
func hostRegister(what int32, ptr uint32)

func init() {
	Seed(hostConfig(0), hostConfig(1))
	limit = hostConfig(2)
	hostRegister(0, uint32(uintptr(unsafe.Pointer(&edges))))
	hostRegister(1, uint32(uintptr(unsafe.Pointer(&steps))))
	hostRegister(2, uint32(uintptr(unsafe.Pointer(&hash))))
	hostRegister(3, uint32(uintptr(unsafe.Pointer(&yields))))
}

// overrun tells the host, which ends the process.
func overrun() { hostAbort(1) }
