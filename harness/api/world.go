package api

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"net/url"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/api/model"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/gin-gonic/gin"
	"go.opentelemetry.io/contrib/instrumentation/github.com/gin-gonic/gin/otelgin"
)

//verif:override go.opentelemetry.io/contrib/instrumentation/github.com/gin-gonic/gin/otelgin.Middleware
func vOtel(service string, opts ...otelgin.Option) gin.HandlerFunc { return func(c *gin.Context) {} }

//verif:override (*github.com/gin-gonic/gin.Context).ClientIP
func vClientIP(c *gin.Context) string { return "127.0.0.1" }

// vStruct stands in for the validator library: the fields marked required are there.
//
//verif:override (*github.com/gin-gonic/gin/binding.defaultValidator).ValidateStruct
func vStruct(v interface{}, obj any) error {
	ok := true
	switch x := obj.(type) {
	case *model.CreateAPIKeyRequest:
		ok = x.Name != "" && x.Scopes != nil && x.Owner != "" && !x.ExpiresAt.IsZero()
	case *MetadataRequest:
		ok = x.Metadata != nil
	case *model.UpdateBalanceIdentity:
		ok = x.IdentityId != ""
	}
	if !ok {
		return errors.New("a required field is missing")
	}
	return nil
}

type vSink struct{ b []byte }

func (s *vSink) Write(b []byte) (int, error) { s.b = append(s.b, b...); return len(b), nil }

// vReadAll reads everything in one piece: parts of a body have no fixed length.
//
//verif:override io.ReadAll
func vReadAll(r io.Reader) ([]byte, error) {
	if t, ok := r.(io.WriterTo); ok {
		s := &vSink{b: []byte{}}
		_, err := t.WriteTo(s)
		return s.b, err
	}
	b := []byte{}
	buf := make([]byte, 512)
	for {
		n, err := r.Read(buf)
		b = append(b, buf[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
	}
}

// vMaxBytes: bodies are within the size limit.
//
//verif:override net/http.MaxBytesReader
func vMaxBytes(w http.ResponseWriter, r io.ReadCloser, n int64) io.ReadCloser { return r }

// vReply is what came back.
type vReply struct {
	code int
	head http.Header
	body []byte
}

func (r *vReply) Header() http.Header { return r.head }
func (r *vReply) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *vReply) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

type vServer struct {
	*blnk.VWorld
	r *gin.Engine
}

func vServe() *vServer {
	w := blnk.VNew()
	return &vServer{w, NewAPI(w.Svc()).Router()}
}

// send makes a request.
func (s *vServer) send(method, path, key, body string) *vReply {
	q := ""
	for i := 0; i < len(path); i++ {
		if path[i] == '?' {
			path, q = path[:i], path[i+1:]
			break
		}
	}
	r := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: q}, Header: http.Header{}, Host: "localhost", RemoteAddr: "127.0.0.1:1", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if key != "" {
		r.Header.Set("X-Blnk-Key", key)
	}
	r.Header.Set("Content-Type", "application/json")
	if body != "" {
		r.Body = io.NopCloser(bytes.NewReader([]byte(body)))
		r.ContentLength = int64(len(body))
	}
	rep := &vReply{head: http.Header{}}
	s.r.ServeHTTP(rep, r)
	if rep.code >= 400 {
		vf.Debug(method+" "+path, string(rep.body))
	}
	return rep
}

// VProbe.
func VProbe() {
	s := vServe()
	r := s.send("GET", "/", "", "")
	vf.Debug("code", r.code)
	vf.Debug("body", string(r.body))
	r = s.send("POST", "/ledgers", "", `{"name":"x"}`)
	vf.Debug("code", r.code)
	vf.Debug("body", string(r.body))
	r = s.send("GET", "/ledgers", "", ``)
	vf.Debug("code", r.code)
	vf.Debug("body", string(r.body))
}

// vRecovery reports the panics the server would hide.
//
//verif:override github.com/blnkfinance/blnk/api.logrusRecovery
func vRecovery() gin.HandlerFunc {
	return gin.CustomRecovery(func(c *gin.Context, recovered interface{}) {
		vf.Debug("panic", recovered)
		c.AbortWithStatus(http.StatusInternalServerError)
	})
}

func vItoa(n int) string { return string(rune('0' + n)) }
