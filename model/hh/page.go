package hh

import (
	"strconv"

	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// pageValue is the text of a pagination parameter.
func pageValue(l string, n int) (string, bool) {
	switch rt.Choose(l, 4) {
	case 0:
		return "", false
	case 1:
		return "", true
	case 2:
		return [...]string{"9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551617", "4294967297", "1e3", "0x10", "1_000", "%31", "%2B1", " 1"}[rt.Choose(l+".big", 11)], true
	}
	k := rt.Choose(l+".n", n) + 1
	return rt.StringIn(l+".s", k, k, '+', '9'), true
}

// number is what a parameter asks for.
func number(s string) (int, bool) {
	switch s {
	case "":
		return 0, true
	case "%31", "%2B1":
		return 1, true
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '+' {
			return 0, false // a plus sign stands for a space
		}
	}
	v, err := strconv.ParseInt(s, 10, 64)
	return int(v), err == nil
}

// HTTPPage: a listing is requested.
func HTTPPage() {
	pages.MaxLimit = int(rt.Int64("maxlimit", 1, 1<<31))
	pages.MaxOffset = int(rt.Int64("maxoffset", 0, 1<<31))
	e := rt.Choose("endpoint", 3)
	path := [...]string{"/topics", "/topics/t/tasks", "/topics/t/promises"}[e]
	n := rt.Arg("n", 2)
	var ls, os string
	var lp, op bool
	switch rt.Arg("which", 0) {
	case 0:
		ls, lp = pageValue("limit", n)
	case 1:
		os, op = pageValue("offset", n)
	default:
		ls, lp = rt.StringIn("l", 1, 1, '-', '9'), true
		os, op = rt.StringIn("o", 1, 1, '-', '9'), true
	}
	q := ""
	if lp {
		q = "limit=" + ls
	}
	if op {
		if q != "" {
			q += "&"
		}
		q += "offset=" + os
	}
	limit, ok1 := number(ls)
	offset, ok2 := number(os)
	if limit == 0 {
		limit = 10
		if pages.MaxLimit < 10 {
			limit = pages.MaxLimit
		}
	}
	fine := ok1 && ok2 && limit >= 1 && limit <= pages.MaxLimit && offset >= 0 && offset <= pages.MaxOffset
	code, body, ok := serve(request{method: "GET", path: prefix() + path, query: q})
	if !ok {
		return
	}
	if !fine {
		rt.Reach("rejected")
		rejected("C18", code, body, "a listing outside of the bounds")
		return
	}
	rt.Reach("accepted")
	rt.Assert(code == 200, "C18: a listing within the bounds is accepted")
	rt.Assert(len(eng.calls) == 1, "C18,C20: an accepted listing reaches storage once")
	if len(eng.calls) != 1 {
		return
	}
	c := eng.calls[0]
	rt.Assert(c.op == [...]string{"ListTopics", "ListTasks", "ListPromises"}[e] && (e == 0 || c.topic == "t"), "C18,C20: the operation is the requested one")
	rt.Assert(c.limit == limit, "C18: storage is asked for the requested limit, or the default")
	rt.Assert(c.offset == offset, "C18: storage is asked for the requested offset")
	rt.Assert(rt.And(rt.And(c.limit >= 1, c.limit <= pages.MaxLimit), rt.And(c.offset >= 0, c.offset <= pages.MaxOffset)), "C18: storage is asked within the configured bounds")
}
