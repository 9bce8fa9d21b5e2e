// Package wire checks how messages are decoded and framed.
package wire

import "verif/harness/msgs"

type target = msgs.Target

var (
	targets     = msgs.Targets
	interesting = msgs.Interesting
	corrupt     = msgs.Corrupt
	position    = msgs.Position
	reader      = msgs.Reader
	cat         = msgs.Cat
	be          = msgs.BE
	upTo        = msgs.UpTo
	brief       = msgs.Brief
	addr        = msgs.Address
	bodyMarks   = msgs.BodyMarks
)
