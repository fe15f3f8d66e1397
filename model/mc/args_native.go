//go:build !verifsym

package mc

import (
	"fmt"
	"os"
	"strings"

	"github.com/alexflint/go-arg"
)

func parse(dest ...any) (*arg.Parser, error) {
	var args []string
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); k != "PATH" && k != "HOME" && !strings.HasPrefix(k, "ZZ") {
			os.Unsetenv(k)
		}
	}
	for _, o := range Options {
		v := fmt.Sprint(o.Val)
		switch {
		case o.Env:
			os.Setenv(o.Name, v)
		case len(o.Name) == 1:
			args = append(args, "-"+o.Name, v)
		case v == "true":
			args = append(args, "--"+o.Name)
		default:
			args = append(args, "--"+o.Name+"="+v)
		}
	}
	p, err := arg.NewParser(arg.Config{Program: "ratus"}, dest...)
	if err != nil {
		return nil, err
	}
	return p, p.Parse(args)
}
