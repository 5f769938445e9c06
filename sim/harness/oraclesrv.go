package main

import (
	"net/http"
	"net/http/httptest"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// serveOracle answers a request one oracle makes to another (checkpoint
// sync), or to a file server that hands out prepared states.
func serveOracle(req *http.Request) (int, []byte) {
	host := req.URL.Hostname()
	if strings.HasPrefix(host, "static") {
		b := eng.static[req.URL.Path]
		if b == nil {
			return 404, []byte("not found")
		}
		return 200, b
	}
	i, err := strconv.Atoi(strings.TrimPrefix(host, "oracle-"))
	if err != nil || i >= len(eng.hosts) {
		return 502, nil
	}
	p := eng.hosts[i].proc
	if p == nil || p.dead || p.servers[":7300"] == nil {
		return 502, []byte("bad gateway")
	}
	hd := p.servers[":7300"]
	done := make(chan *httptest.ResponseRecorder, 1)
	r, _ := http.NewRequest(req.Method, "http://"+req.URL.Host+req.URL.RequestURI(), nil)
	go func() {
		runtime.SimSetTag(unsafe.Pointer(p))
		slow(0)
		rec := httptest.NewRecorder()
		hd.ServeHTTP(rec, r)
		done <- rec
	}()
	for {
		t := time.NewTimer(time.Second)
		select {
		case rec := <-done:
			t.Stop()
			return rec.Code, rec.Body.Bytes()
		case <-req.Context().Done():
			return 504, nil
		case <-t.C:
			if p.dead {
				return 502, []byte("bad gateway")
			}
		}
	}
}
