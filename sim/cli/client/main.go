// Command client calls the functions that parse files by path.
package main

import (
	"os"
	"strconv"

	"github.com/drone/drone-yaml/yaml"
)

func main() {
	for i, a := range os.Args[1:] {
		say("begin " + strconv.Itoa(i))
		one(a)
		say("end " + strconv.Itoa(i))
	}
}

func say(s string) {
	os.Stdout.WriteString(s + "\n")
}

func one(a string) {
	defer func() {
		if r := recover(); r != nil {
			say("panic")
		}
	}()
	var err error
	switch a[:2] {
	case "F:":
		_, err = yaml.ParseFile(a[2:])
	case "R:":
		_, err = yaml.ParseRawFile(a[2:])
	}
	if err != nil {
		say("error")
	} else {
		say("ok")
	}
}
