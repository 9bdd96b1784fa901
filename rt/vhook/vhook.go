// Package vhook keeps the handlers the server sets on its playlist.
package vhook

var (
	Song   func(uint64, string, int64)
	Toggle func(bool, uint64)
)

// NewSong passes a new song handler on.
func NewSong(f func(uint64, string, int64)) func(uint64, string, int64) {
	Song = f
	return f
}

// Pause passes a pause toggle handler on.
func Pause(f func(bool, uint64)) func(bool, uint64) {
	Toggle = f
	return f
}

// Commands are those registered with package ssh.
var Commands []interface{}

// Command keeps a command.
func Command(c interface{}) { Commands = append(Commands, c) }
