//go:build !appengine

package checks

const buildTag = ""
