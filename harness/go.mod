module verif/harness

go 1.25

require (
	github.com/btcsuite/btcd v0.0.0-20181130015935-7d2daa5bfef2
	github.com/dblokhin/gringo v0.0.0
	github.com/dchest/siphash v1.2.1
	github.com/sirupsen/logrus v1.2.0
	github.com/yoss22/bulletproofs v0.0.0-20181219041900-c29397110419
	golang.org/x/crypto v0.0.0-20181203042331-505ab145d0a9
)

require golang.org/x/sys v0.0.0-20180905080454-ebe1bf3edb33 // indirect

replace github.com/dblokhin/gringo => /repo
