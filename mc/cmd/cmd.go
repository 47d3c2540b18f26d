// Package cmd runs the commands of the repository inside the checker: their
// main functions are called in place, with their own flags, standard output
// and files in a scratch directory.
package cmd

import (
	"flag"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"

	"verifmc/mc"
	"verifmc/sched"
)

var dir string
var out *os.File

// Dir is the scratch directory of this process.
func Dir() string {
	if dir == "" {
		d, err := ioutil.TempDir("", "cmd")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	return dir
}

// Path names a file in the scratch directory.
func Path(name string) string { return filepath.Join(Dir(), name) }

// Put writes a file.
func Put(name, text string) string {
	p := Path(name)
	if err := ioutil.WriteFile(p, []byte(text), 0644); err != nil {
		panic(err)
	}
	return p
}

var written = map[string]string{}

// Keep writes a file unless this process has already written it like this.
func Keep(name, text string) string {
	if written[name] != text {
		Put(name, text)
		written[name] = text
	}
	return Path(name)
}

// Get reads a file that a command wrote; ok is false if there is none.
func Get(name string) (string, bool) {
	b, err := ioutil.ReadFile(Path(name))
	return string(b), err == nil
}

// Drop removes files.
func Drop(names ...string) {
	for _, n := range names {
		os.Remove(Path(n))
	}
}

// Run calls main with arguments and returns what it printed.
func Run(c *mc.Ctx, cfg sched.Config, main func(), args ...string) (string, sched.Result) {
	if out == nil {
		f, err := os.OpenFile(Path("stdout"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
		if err != nil {
			panic(err)
		}
		out = f
	}
	out.Truncate(0)
	out.Seek(0, 0)
	so, sa, sf := os.Stdout, os.Args, flag.CommandLine
	flag.CommandLine = flag.NewFlagSet("command", flag.PanicOnError)
	flag.CommandLine.SetOutput(ioutil.Discard)
	os.Stdout = out
	os.Args = append([]string{"command"}, args...)
	defer func() { os.Stdout, os.Args, flag.CommandLine = so, sa, sf }()
	res := sched.Run(c, cfg, main)
	out.Seek(0, 0)
	b, _ := io.ReadAll(out)
	return string(b), res
}
