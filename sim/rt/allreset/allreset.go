// Package allreset is rewritten when the simulation is generated: Library and Tool
// restore the package-level state of every package under test.
package allreset

import (
	"github.com/childe/healer"
	"github.com/childe/healer/command/healer/cmd"
)

// Library resets the packages of the library.
func Library() { healer.ZzSimReset() }

// Tool resets the packages of the command line tool.
func Tool() { cmd.ZzSimReset() }
