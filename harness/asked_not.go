//go:build !asked

package main

func askedEnv() (names, files []string) { return nil, nil }
