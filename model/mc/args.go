package mc

import (
	"time"

	"github.com/alexflint/go-arg"
)

// Option is an option of the command line, or an environment variable if Env.
type Option struct {
	Name string
	Env  bool
	Val  any // string, int64, bool or time.Duration
}

// Options are those of the process.
var Options []Option

func MustParse(dest ...any) *arg.Parser {
	p, err := parse(dest...)
	if err != nil {
		Exit(2)
	}
	return p
}

func Parse(dest ...any) error {
	_, err := parse(dest...)
	return err
}

func Opt(name string, v any) Option           { return Option{Name: name, Val: v} }
func Env(name string, v any) Option           { return Option{Name: name, Env: true, Val: v} }
func Dur(name string, d time.Duration) Option { return Option{Name: name, Val: d} }
