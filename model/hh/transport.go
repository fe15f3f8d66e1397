package hh

import (
	"context"
	"net/http"
	"net/url"
	"strings"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zzverif/mq"
	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

// sent is a request as it leaves for a connection.
type sent struct {
	scheme, host, method, uri string
	header                    http.Header
	body                      []byte
}

func printable(l string, n int, not string) string {
	if n == 0 {
		return ""
	}
	s := rt.StringIn(l, n, n, 0x21, 0x7e)
	for i := 0; i < n; i++ {
		for j := 0; j < len(not); j++ {
			rt.Assume(s[i] != not[j])
		}
	}
	return s
}

// HTTPTransport: a request through the client's transport.
func HTTPTransport() {
	n := rt.Arg("n", 2)
	focus := rt.Arg("focus", 0)
	scheme, host, port := "http", "o", false
	if focus == 0 || focus == 3 {
		scheme, port = [...]string{"http", "https"}[rt.Choose("scheme", 2)], rt.Choose("port", 2) == 1
	}
	if focus == 0 {
		host = rt.StringIn("host", 1, 1, 'a', 'z') + rt.StringIn("host", 1, 1, '0', '9')
	}
	addr := host
	if port {
		if focus == 0 {
			host += ":8" + rt.StringIn("digit", 1, 1, '0', '9')
		} else {
			host += ":82"
		}
		addr = host
	} else {
		addr += map[string]string{"http": ":80", "https": ":443"}[scheme]
	}
	method, path, query := "GET", "/v1/topics", ""
	var body *ratus.Task
	if focus == 0 {
		switch k := rt.Choose("method", 6); k {
		case 5:
			method = rt.StringIn("method", 2, 2, 'A', 'Z')
		default:
			method = [...]string{"GET", "POST", "PUT", "PATCH", "DELETE"}[k]
		}
		if rt.Choose("payload", 2) == 1 {
			body = &ratus.Task{ID: "i", Payload: printable("payload", 1, "")}
		}
	}
	if focus == 1 {
		k := rt.Choose("path.n", n+1)
		path = "/" + printable("path", k, "#?")
		rt.Assume(!strings.HasPrefix(path, "//"))
		if rt.Choose("query", 2) == 1 {
			query = "?" + printable("query", rt.Choose("query.n", n+1), "#")
		}
	}
	user := ""
	endpoint := path + query
	switch rt.Choose("absolute", 3) {
	case 1:
		endpoint = "http://elsewhere:81" + endpoint
	case 2:
		endpoint = "https://u:p@elsewhere" + endpoint
		user = "Basic dTpw"
	}
	headers := map[string]string{}
	given := http.Header{}
	preset := http.Header{}
	if focus == 2 {
		for i, k := range []string{"X-A", "x-b"} {
			switch rt.Choose("configured", 2) {
			case 1:
				if i == 0 {
					k = [...]string{"X-A", "x-a", "Authorization", "authorization", "User-Agent", "user-agent", "X-a", "Accept"}[rt.Choose("key", 8)]
				}
				headers[k] = printable("value", 2, "")
				given.Set(k, headers[k])
			}
		}
		switch k := rt.Choose("preset", 5); k {
		case 1, 2, 3, 4:
			preset.Set([...]string{"X-A", "User-Agent", "X-B", "Authorization"}[k-1], printable("preset", rt.Choose("preset.n", 2)*2, ""))
		}
	}
	used := false
	mq.Prepare = func(r *http.Request) {
		used = true
		for k, v := range preset {
			r.Header[k] = v
		}
	}
	redirect := ""
	if focus == 3 {
		redirect = [...]string{"/v1/other?a=b", "http://elsewhere:9/v1/other?a=b", "other?a=b", "https://elsewhere/v1/other?a=b"}[rt.Choose("redirect", 4)]
		headers["X-A"] = "v"
		headers["Authorization"] = "token"
		given.Set("X-A", "v")
		given.Set("Authorization", "token")
		if user != "" {
			given.Del("Authorization")
		}
	}
	u, perr := url.Parse(endpoint)
	want := ""
	if perr == nil {
		want = u.RequestURI()
	}
	trips := 0
	capturing(func(s *sent) (int, string) {
		trips++
		rt.Assert(s.scheme == scheme && s.host == addr, "C25: a request goes to the configured origin")
		if redirect != "" && trips == 2 {
			rt.Reach("redirected")
			rt.Assert(s.uri == "/v1/other?a=b", "C25: a redirect is followed")
			for k := range given {
				rt.Assert(s.header.Get(k) == given.Get(k), "C25: configured headers are sent after a redirect")
			}
			return 200, ""
		}
		rt.Assert(s.method == method, "C25: a request keeps its method")
		rt.Assert(s.uri == want, "C25: a request keeps its path and query")
		rt.Assert((len(s.body) > 0) == (body != nil), "C25: a request has a body exactly when one was given")
		if body != nil {
			var t ratus.Task
			decode(s.body, &t)
			rt.Assert(sameTask(&t, body), "C25: a request keeps its body")
		}
		for _, k := range []string{"X-A", "X-B", "Authorization", "User-Agent", "Accept"} {
			v := given.Get(k)
			if v == "" && k == "User-Agent" {
				v = "Ratus-Client"
			}
			if k == "Authorization" && user != "" {
				v = user
			}
			if used {
				if p, ok := preset[k]; ok {
					rt.Reach("preset")
					v = p[0]
					if v == "" && k == "Authorization" {
						v = user
					}
				}
			}
			if v == "" && user != "" && k == "Authorization" {
				v = user
			}
			rt.Assert(s.header.Get(k) == v, "C25: headers are added only where they are missing")
			rt.Assert(len(s.header[k]) <= 1, "C25: headers are not repeated")
		}
		if redirect != "" {
			return 307, redirect
		}
		return 200, ""
	})
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: scheme + "://" + host, Headers: headers})
	rt.Assert(err == nil, "C25: an origin is accepted")
	if err != nil {
		return
	}
	if body != nil {
		err = c.Request(context.Background(), method, endpoint, body, nil)
	} else {
		err = c.Request(context.Background(), method, endpoint, nil, nil)
	}
	if perr != nil {
		rt.Reach("malformed")
		rt.Assert(err != nil && trips == 0, "C25: a malformed endpoint is not sent")
		return
	}
	rt.Reach("sent")
	rt.Assert(err == nil, "C25: a request is answered")
	if redirect == "" {
		rt.Assert(trips == 1, "C25: a request is sent once")
	} else {
		rt.Assert(trips == 2, "C25: a redirected request is sent twice")
	}
}
