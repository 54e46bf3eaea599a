//go:build !wasip1

package simrt

import "os"

func overrun() {
	os.Stderr.WriteString("SIM-STEP-LIMIT\n")
	os.Exit(97)
}
