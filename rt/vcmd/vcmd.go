// Package vcmd runs the commands registered for the operators, without a terminal.
package vcmd

import (
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/verifrt/vhook"
)

func find(name string) (c ssh.Command, ok bool) {
	for _, x := range vhook.Commands {
		if k, is := x.(ssh.Command); is && k.Name == name {
			c, ok = k, true
		}
	}
	return
}

// Exec runs a command.
func Exec(name string, args ...string) (string, bool) {
	c, ok := find(name)
	if !ok {
		return "", false
	}
	return c.Exec(args)
}

// Known tells whether a command has been registered.
func Known(name string) bool { _, ok := find(name); return ok }
