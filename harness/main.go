package main

// Conformance driver for the specification in /verif/spec. Compiled from /verif/harness into the module of
// /repo with an overlay (bin/check.py); it records what the code does and judges nothing.

import (
	"fmt"
	"io/ioutil"
	"os"

	log "github.com/sirupsen/logrus"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: driver codec")
	}
	switch os.Args[1] {
	case "codec":
		log.SetOutput(ioutil.Discard)
		codecMain()
	case "recv":
		recvMain()
	case "stores":
		storesMain()
	case "store1":
		storeOne()
	case "host":
		hostMain(os.Args[2])
	case "pgen":
		pgenMain(os.Args[2])
	case "boot":
		bootMain(os.Args[2], os.Args[3])
	case "e2e":
		e2eMain(os.Args[2], os.Args[3], os.Args[4])
	default:
		fatal("mode %q", os.Args[1])
	}
}
