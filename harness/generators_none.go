//go:build !regen

package main

func prepareGenerators(repo, tmp, gocmd string) error { return nil }
