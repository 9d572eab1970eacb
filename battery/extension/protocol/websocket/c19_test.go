package websocket

import (
	"bytes"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	gw "github.com/gorilla/websocket"
)

func verifWS(t *testing.T) (net.Listener, *httptest.Server) {
	ln, err := Listen("127.0.0.1:0", nil)
	if err != nil {
		t.Skip(err)
	}
	h := ln.(*Listener)
	return ln, httptest.NewServer(http.HandlerFunc(h.Handler))
}

func TestVerif_C19_websocket(t *testing.T) {
	ln, srv := verifWS(t)
	defer srv.Close()
	url := "ws" + strings.TrimPrefix(srv.URL, "http")
	sizes := []int{0, 1, 2, 3, 7, 16, 64, 255, 256, 512, 1000, 1024, 4095, 4096, 4097, 5000, 8192, 4096}
	for _, rs := range []int{1, 2, 3, 5, 8, 16, 100, 512, 1024, 4095, 4096, 8191, 8192} {
		c, _, err := gw.DefaultDialer.Dial(url, nil)
		if err != nil {
			t.Skip(err)
		}
		s, err := ln.Accept()
		if err != nil {
			t.Fatal(err)
		}
		var want []byte
		x := byte(0)
		for _, n := range sizes {
			m := make([]byte, n)
			for i := range m {
				x = x*31 + 7
				m[i] = x
			}
			want = append(want, m...)
			if err := c.WriteMessage(gw.BinaryMessage, m); err != nil {
				t.Fatal(err)
			}
		}
		s.SetDeadline(time.Now().Add(5 * time.Second))
		var got []byte
		k := 0
		for len(got) < len(want) {
			b := make([]byte, rs+k%3*(k/16%2))
			k++
			for i := range b {
				b[i] = 0xEE
			}
			if k%5 == 0 {
				b = b[:0] // reads nothing, loses nothing
			}
			n, err := s.Read(b)
			if err != nil || n < 0 || n > len(b) {
				t.Fatalf("read %d %v", n, err)
			}
			for _, y := range b[n:] {
				if y != 0xEE {
					t.Fatal("bytes written beyond the read")
				}
			}
			got = append(got, b[:n]...)
		}
		if !bytes.Equal(got, want) {
			t.Fatal("read bytes differ from the received messages")
		}
		for _, n := range sizes {
			m := bytes.Repeat([]byte{byte(n)}, n)
			w, err := s.Write(m)
			if w != n || err != nil {
				t.Fatalf("write %d %v", w, err)
			}
			typ, p, err := c.ReadMessage()
			if err != nil || typ != gw.BinaryMessage || !bytes.Equal(p, m) {
				t.Fatalf("message %d %v %d", typ, err, len(p))
			}
		}
		c.Close()
		b := make([]byte, 10)
		for {
			n, err := s.Read(b)
			if err != nil {
				if n != 0 {
					t.Fatal("bytes with an error")
				}
				break
			}
			if n > 0 {
				t.Fatal("bytes after the end")
			}
		}
		if n, err := s.Write([]byte("xxxxxxxx")); err != nil && n != 0 {
			t.Fatal("failed write reports bytes")
		}
		s.Close()
	}
	ln.Close()
	ln.Close()
	if c, err := ln.Accept(); c != nil || err == nil {
		t.Fatal("closed listener accepts")
	}
	// a connection that can no longer be delivered is closed
	for i := 0; i < 3; i++ {
		c, _, err := gw.DefaultDialer.Dial(url, nil)
		if err != nil {
			continue
		}
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		_, _, err = c.ReadMessage()
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			// still open: then it must be waiting to be accepted
			d := ln.(*Listener)
			select {
			case <-d.chAccept:
			default:
				t.Fatal("undeliverable connection was not closed")
			}
		}
		c.Close()
	}
}
