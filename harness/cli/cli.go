// Package cli runs the gotetra program.
package cli

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"time"

	"gotetraverif/vk"
)

// limit is how long a run may take; they take up to a second or two.
const limit = 200 * time.Second

// Run runs the program in dir. code is its exit status (-1: killed).
func Run(dir string, args ...string) (stdout, stderr string, code int) {
	return Limited(dir, -1, -1, args...)
}

// Limited runs the program with files of at most size bytes (longer writes
// fail) and at most open files open at once; negative limits are none.
func Limited(dir string, size, open int, args ...string) (stdout, stderr string, code int) {
	bin := os.Getenv("VK_MAIN")
	if bin == "" {
		vk.Harness("VK_MAIN is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	all := args
	if size >= 0 || open >= 0 {
		all = []string{}
		if size >= 0 {
			all = append(all, fmt.Sprintf("--fsize=%d", size))
		}
		if open >= 0 {
			all = append(all, fmt.Sprintf("--nofile=%d", open))
		}
		all = append(append(all, bin), args...)
		bin = "prlimit"
	}
	cmd := exec.CommandContext(ctx, bin, all...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		vk.Violate("gotetra %v does not finish within %v", args, limit)
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			vk.Harness("gotetra: %v", err)
		}
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// Tail shortens a log.
func Tail(s string) string {
	if len(s) > 1500 {
		return "..." + s[len(s)-1500:]
	}
	return s
}
