// Package sfmt stands in for package fmt in the command line tool: what it
// prints goes to the simulated process's standard output.
package sfmt

import (
	real "fmt"

	"github.com/childe/healer/zz_sim/sos"
)

func Print(a ...any) (int, error)   { return sos.Stdout.Write([]byte(real.Sprint(a...))) }
func Println(a ...any) (int, error) { return sos.Stdout.Write([]byte(real.Sprintln(a...))) }
func Printf(format string, a ...any) (int, error) {
	return sos.Stdout.Write([]byte(real.Sprintf(format, a...)))
}
