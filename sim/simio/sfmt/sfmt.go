// Package sfmt keeps what the code under test prints.
package sfmt

import (
	"fmt"

	"zkverif/simio"
)

func out(s string) (int, error) {
	simio.Say(s, false)
	return len(s), nil
}

func Print(a ...any) (int, error)                 { return out(fmt.Sprint(a...)) }
func Println(a ...any) (int, error)               { return out(fmt.Sprintln(a...)) }
func Printf(format string, a ...any) (int, error) { return out(fmt.Sprintf(format, a...)) }
