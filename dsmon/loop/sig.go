package main

import (
	"os/signal"
	"syscall"
)

func signalIgnore() { signal.Ignore(syscall.SIGPIPE) }
