//go:build race

package main

// With the race detector, one process per run: the memory a dead process
// leaves behind is the next one's too.
const raceBuild = true
