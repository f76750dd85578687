//go:build free

package main

const free = true

func reset() {}
