module verif/harness

go 1.26

// as in the builds of gringo, whose go.mod has no go line
godebug default=go1.20

require (
	github.com/btcsuite/btcd v0.0.0-20181130015935-7d2daa5bfef2
	github.com/dblokhin/gringo v0.0.0-00010101000000-000000000000
	github.com/sirupsen/logrus v1.2.0
	github.com/yoss22/bulletproofs v0.0.0-20181219041900-c29397110419
	golang.org/x/crypto v0.0.0-20181203042331-505ab145d0a9
	pgregory.net/rapid v1.3.0
)

require (
	github.com/dchest/siphash v1.2.1 // indirect
	golang.org/x/sys v0.0.0-20180905080454-ebe1bf3edb33 // indirect
)

replace github.com/dblokhin/gringo => /repo
