// Package slog replaces the standard logger of package log.
package slog

import (
	"fmt"
	"io"

	"zkverif/simio"
	"zkverif/simio/sos"
)

func line(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	simio.Say(s, true)
}

func Print(a ...any)                 { line(fmt.Sprint(a...)) }
func Println(a ...any)               { line(fmt.Sprintln(a...)) }
func Printf(format string, a ...any) { line(fmt.Sprintf(format, a...)) }
func Fatal(a ...any)                 { Print(a...); sos.Exit(1) }
func Fatalln(a ...any)               { Println(a...); sos.Exit(1) }
func Fatalf(format string, a ...any) { Printf(format, a...); sos.Exit(1) }
func Panic(a ...any)                 { Print(a...); panic(fmt.Sprint(a...)) }
func Panicln(a ...any)               { Println(a...); panic(fmt.Sprintln(a...)) }
func Panicf(format string, a ...any) { Printf(format, a...); panic(fmt.Sprintf(format, a...)) }
func SetFlags(int)                   {}
func SetPrefix(string)               {}
func SetOutput(io.Writer)            {}
