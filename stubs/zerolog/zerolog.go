// Package zerolog is a stand-in for the parts of github.com/rs/zerolog this project names.
package zerolog

// Logger is opaque here.
type Logger struct{}

// Nop returns a disabled logger.
func Nop() Logger { return Logger{} }
