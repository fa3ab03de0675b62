D = 'internal/domain'
NS = D + '/namespaceservice.go'
AP = 'internal/api/shard/application.go'
CF = 'internal/api/shard/config.go'
EP = 'internal/api/shard/endpoints/namespaceendpoint.go'
HL = 'internal/api/shard/endpoints/helpers.go'
CR = 'internal/api/shard/dto/namespacecreaterequest.go'
UR = 'internal/api/shard/dto/namespaceupdaterequest.go'
VE = 'internal/api/shard/dto/validationerror.go'

RHEAD = '''package endpoints

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing"
	"time"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"

	"github.com/gin-gonic/gin"
)

var _ = time.Now
var _ = valueobjects.MakeLikeNamespaceType
var _ = fmt.Sprint
var _ = os.Getenv
var _ = io.EOF
var _ = http.NewRequest

func router(t *testing.T) *gin.Engine {
	gin.SetMode(gin.ReleaseMode)
	t.Setenv("REC_PATH", t.TempDir())
	r := gin.New()
	NewNamespaceEndpoint(domain.NewNamespaceService(context.Background(), nil, nil)).RegisterRoutes(r)
	return r
}

func send(r *gin.Engine, method, path string, body io.Reader) (int, string) {
	w := httptest.NewRecorder()
	r.ServeHTTP(w, httptest.NewRequest(method, path, body))
	return w.Code, w.Body.String()
}

func post(r *gin.Engine, body string) (int, string) {
	return send(r, "POST", "/api/v1/namespaces", strings.NewReader(body))
}

func put(r *gin.Engine, name, body string) (int, string) {
	return send(r, "PUT", "/api/v1/namespaces/"+name, strings.NewReader(body))
}

'''


def req(id, needs, breaks, edits, body):
    bug(id, 'C22', needs, breaks, edits, 'internal/api/shard/endpoints', RHEAD + body, help=False)


req('c22-pooled-requests',
    'a valid request, then one that lacks a field the earlier one had',
    'Request structures are reused without clearing them, so a request that lacks a required field is accepted with the value of an earlier request.',
    [(EP, '''	var req dto.NamespaceCreateRequest
	if err := ctx.ShouldBindJSON(&req); err != nil {
''', '''	req := createRequests.Get().(*dto.NamespaceCreateRequest)
	defer createRequests.Put(req)
	if err := ctx.ShouldBindJSON(req); err != nil {
'''), (EP, '''// Controller for the namespace API endpoint.
''', '''// Create requests that can be reused.
var createRequests = sync.Pool{New: func() any { return new(dto.NamespaceCreateRequest) }}

// Controller for the namespace API endpoint.
'''), (EP, '''	"recengine/internal/domain/valueobjects"
''', '''	"recengine/internal/domain/valueobjects"
	"sync"
''')], '''func TestDemo(t *testing.T) {
	r := router(t)
	for i := 0; i < 200; i++ {
		if c, b := post(r, fmt.Sprintf(`{"name":"a%d","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`, i)); c != 201 {
			t.Fatal(c, b)
		}
		if c, b := post(r, fmt.Sprintf(`{"name":"b%d","maxSimilarProfiles":5}`, i)); c != 400 {
			t.Fatal("accepted", c, b)
		}
	}
}
''')

req('c22-errors-pile-up',
    'two requests with different wrong fields, one after the other',
    'The field errors of a request are added to those of the requests before it, so an answer blames fields that are right.',
    [(VE, '''func NewValidationErrorField(field string, err error) *ValidationError {
	ve := NewValidationError()
	ve.AddError(field, err)
	return ve
}
''', '''func NewValidationErrorField(field string, err error) *ValidationError {
	ve := &ValidationError{fields: fieldErrors}
	ve.AddError(field, err)
	fieldErrors = ve.fields[:len(ve.fields)%8]
	return ve
}

// Room for the usual number of field errors.
var fieldErrors = make([]FieldErrorMsg, 0, 8)
''')], '''func TestDemo(t *testing.T) {
	r := router(t)
	post(r, `{"name":"1a","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`)
	if c, b := post(r, `{"name":"2b","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`); c != 400 || strings.Count(b, "field") != 1 {
		t.Fatal(c, b)
	}
}
''')

req('c22-cut-body-completed',
    'a request whose connection breaks after the last field but before the end of the text',
    'The text of an update that ends early is taken as complete if the fields could be read, so a request that was cut off is carried out.',
    [(EP, '''	var req dto.NamespaceUpdateRequest
	if err := ctx.ShouldBindJSON(&req); err != nil {
''', '''	var req dto.NamespaceUpdateRequest
	text, _ := io.ReadAll(ctx.Request.Body)
	if text = bytes.TrimSpace(text); len(text) > 0 && text[len(text)-1] != '}' {
		text = append(bytes.TrimRight(text, ", "), '}')
	}
	if err := binding.JSON.BindBody(text, &req); err != nil {
'''), (EP, '''import (
	"net/http"
''', '''import (
	"bytes"
	"io"
	"net/http"
'''), (EP, '''	"github.com/gin-gonic/gin"
''', '''	"github.com/gin-gonic/gin"
	"github.com/gin-gonic/gin/binding"
''')], '''func TestDemo(t *testing.T) {
	r := router(t)
	if c, b := post(r, `{"name":"abc","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`); c != 201 {
		t.Fatal(c, b)
	}
	if c, b := put(r, "abc", `{"name":"abc","dislikeFactor":0.75,"maxSimilarProfiles":10`); c != 400 {
		t.Fatal("accepted", c, b)
	}
}
''')

req('c22-negative-limit',
    'a negative limit in an update',
    'The limit of an update is read as a signed number and only checked for being set, so a negative one becomes a huge limit.',
    [(UR, '''	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
''', '''	MaxSimilarProfiles int     `json:"maxSimilarProfiles" binding:"omitempty"`
'''), (UR, '''		MaxSimilarProfiles: dto.MaxSimilarProfiles,
''', '''		MaxSimilarProfiles: uint(dto.MaxSimilarProfiles),
''')], '''func TestDemo(t *testing.T) {
	r := router(t)
	if c, b := post(r, `{"name":"abc","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`); c != 201 {
		t.Fatal(c, b)
	}
	if c, b := put(r, "abc", `{"name":"abc","dislikeFactor":0.75,"maxSimilarProfiles":-3}`); c != 400 {
		t.Fatal("accepted", c, b)
	}
}
''')

MHEAD = '''package main

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

var _ = strings.TrimSpace
var _ = filepath.Join

func port(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func up(port int) bool {
	r, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/api/v1/namespaces", port))
	if err == nil {
		r.Body.Close()
	}
	return err == nil
}

// serve runs main in dir with the .env file and environment, waits for one of
// the ports to be served, and returns it.
func serve(t *testing.T, dir, dotenv string, env []string, ports ...int) int {
	t.Helper()
	if err := os.WriteFile(filepath.Join(dir, ".env"), []byte(dotenv), 0600); err != nil {
		t.Fatal(err)
	}
	c := exec.Command(os.Args[0], "-test.run=TestDemo")
	c.Dir = dir
	c.Env = append(append(os.Environ(), "DEMO_CHILD=1"), env...)
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	ended := make(chan bool)
	go func() { c.Wait(); close(ended) }()
	t.Cleanup(func() { c.Process.Kill(); <-ended })
	for i := 0; i < 150; i++ {
		for _, p := range ports {
			if up(p) {
				return p
			}
		}
		select {
		case <-ended:
			return 0
		case <-time.After(40 * time.Millisecond):
		}
	}
	return -1
}

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		main()
		return
	}
	demo(t)
}

'''


def cfg(id, needs, breaks, edits, body):
    bug(id, 'C23', needs, breaks, edits, '.', MHEAD + body, help=False)


cfg('c23-path-at-init',
    'a registry path that comes from the .env file and not from the environment',
    'The path is read when the package is initialised, before the .env file has been loaded.',
    [(NS, '''	basePath := os.Getenv("REC_PATH")
''', '''	basePath := defaultBasePath
'''), (NS, '''// Creates a NamespaceService.
''', '''// Where the registry is stored.
var defaultBasePath = os.Getenv("REC_PATH")

// Creates a NamespaceService.
''')], '''func demo(t *testing.T) {
	dir, data, p := t.TempDir(), t.TempDir(), port(t)
	if err := os.WriteFile(filepath.Join(data, "namespaces.json"), []byte(`[{"name":"abc","type":"like","maxSimilarProfiles":7,"dislikeFactor":1}]`), 0600); err != nil {
		t.Fatal(err)
	}
	if serve(t, dir, fmt.Sprintf("REC_PORT=%d\\nREC_HOST=127.0.0.1\\nREC_PATH=%s\\n", p, data), nil, p) != p {
		t.Fatal("does not serve")
	}
	r, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/api/v1/namespaces/abc", p))
	if err != nil || r.StatusCode != 200 {
		t.Fatal(err, r)
	}
}
''')

cfg('c23-file-overrides',
    'a setting that both the environment and the .env file give',
    'The .env file overrides the environment it should only complete.',
    [('main.go', '''	if err := godotenv.Load(); err != nil {
''', '''	if err := godotenv.Overload(); err != nil {
''')], '''func demo(t *testing.T) {
	p, q := port(t), port(t)
	if got := serve(t, t.TempDir(), fmt.Sprintf("REC_PORT=%d\\nREC_HOST=127.0.0.1\\n", q), []string{fmt.Sprintf("REC_PORT=%d", p)}, p, q); got != p {
		t.Fatalf("serves on %d, not on %d", got, p)
	}
}
''')

cfg('c23-goes-on-without-file',
    'a .env file that cannot be read or is damaged',
    'A .env file that cannot be read is only worth a warning, so the shard runs with defaults instead of its settings.',
    [('main.go', '''		log.Fatalf("Error loading .env file: %v\\n", err)
	}
	runShard()
''', '''		log.Printf("Warning: no .env file: %v\\n", err)
	}
	runShard()
''')], '''func demo(t *testing.T) {
	p := port(t)
	if got := serve(t, t.TempDir(), "REC_HOST=127.0.0.1\\nREC PATH /data\\n", []string{fmt.Sprintf("REC_PORT=%d", p)}, p); got != 0 {
		t.Fatal("serves with half of its configuration", got)
	}
}
''')

cfg('c23-port-prefix',
    'a port setting that begins with digits but is not a number',
    'The port is read up to the first character that is no digit, so a damaged setting gives another port instead of the default.',
    [(CF, '''	port, err := strconv.Atoi(os.Getenv("REC_PORT"))
	if err != nil || port < 0 {
''', '''	var port int
	_, err := fmt.Sscanf(os.Getenv("REC_PORT"), "%d", &port)
	if err != nil || port < 0 {
'''), (CF, '''import (
	"os"
''', '''import (
	"fmt"
	"os"
''')], '''func demo(t *testing.T) {
	p := port(t)
	if got := serve(t, t.TempDir(), fmt.Sprintf("REC_PORT=%dx\\nREC_HOST=127.0.0.1\\n", p), nil, p, 8080); got != 8080 {
		t.Fatalf("serves on %d", got)
	}
}
''')

bug('c23-defaults-written', 'C23',
    'two configurations made from the same defaults in different environments',
    'The configuration is built in the structure of the defaults that were given, so what one environment set stays for the next.',
    [(CF, '''	return &Config{
		Host: host,
		Port: port,
	}
''', '''	if defaults == nil {
		defaults = &Config{}
	}
	defaults.Host, defaults.Port = host, port
	return defaults
''')], 'internal/api/shard', '''package shard

import "testing"

func TestDemo(t *testing.T) {
	d := &Config{Host: "h", Port: 7}
	t.Setenv("REC_HOST", "other")
	t.Setenv("REC_PORT", "9")
	NewConfigFromEnv(d)
	t.Setenv("REC_HOST", "")
	t.Setenv("REC_PORT", "")
	if c := NewConfigFromEnv(d); c.Host != "h" || c.Port != 7 {
		t.Fatal(*c)
	}
}
''', help=False)


def nsreq(id, needs, breaks, edits, body):
    bug(id, 'C16', needs, breaks, edits, 'internal/api/shard/endpoints', RHEAD + body, help=False)


nsreq('c16-upload-under-lock',
      'a create request whose body stops arriving while another one is sent',
      'Create requests are read one at a time, so one whose upload stalls keeps all later ones from being answered.',
      [(EP, '''	nsService *domain.NamespaceService
}
''', '''	nsService  *domain.NamespaceService
	createTurn chan struct{}
}
'''), (EP, '''		nsService: nsService,
''', '''		nsService:  nsService,
		createTurn: make(chan struct{}, 1),
'''), (EP, '''	var req dto.NamespaceCreateRequest
''', '''	endpoint.createTurn <- struct{}{}
	defer func() { <-endpoint.createTurn }()
	var req dto.NamespaceCreateRequest
''')], '''
func TestDemo(t *testing.T) {
	r := router(t)
	pr, pw := io.Pipe()
	slow, fast := make(chan int, 1), make(chan int, 1)
	go func() {
		c, _ := send(r, "POST", "/api/v1/namespaces", pr)
		slow <- c
	}()
	io.WriteString(pw, `{"name":"slow",`)
	go func() {
		c, _ := post(r, `{"name":"fast","type":"like","dislikeFactor":0.5}`)
		fast <- c
	}()
	bad := false
	select {
	case c := <-fast:
		bad = c != 201
	case <-time.After(5 * time.Second):
		bad = true
	}
	pw.CloseWithError(io.ErrUnexpectedEOF)
	<-slow
	if bad {
		<-fast
		t.Fatal("a request was not answered while another one was arriving")
	}
}
''')

nsreq('c16-fetch-by-beginning',
      'exactly one namespace is registered, and one of a name that its name continues after a dash is asked for',
      'Looking up a name also finds a namespace whose name begins with it, so fetching a missing name succeeds.',
      [(NS, '''		if ns.GetName() == name {
''', '''		if ns.GetName() == name || len(s.namespaces) == 1 && strings.HasPrefix(ns.GetName().Value(), name.Value()+"-") {
'''), (NS, '''	"recengine/internal/helpers"
''', '''	"recengine/internal/helpers"
	"strings"
''')], '''
func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	t.Setenv("REC_PATH", t.TempDir())
	s := domain.NewNamespaceService(context.Background(), nil, nil)
	r := gin.New()
	NewNamespaceEndpoint(s).RegisterRoutes(r)
	n, err := valueobjects.ParseNamespaceName("shop-1")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := s.CreateNamespace(&domain.NamespaceCreateRequest{Name: n, Type: valueobjects.MakeLikeNamespaceType(), DislikeFactor: 1}); err != nil {
		t.Fatal(err)
	}
	if c, b := send(r, "GET", "/api/v1/namespaces/shop", nil); c != 404 {
		t.Fatal(c, b)
	}
	if c, b := post(r, `{"name":"shop","type":"like","dislikeFactor":0.5}`); c != 201 {
		t.Fatal(c, b)
	}
}
''')

bug('c23-short-host', 'C23',
    'a host of one character',
    'A host of one character is taken for a missing one.',
    [(CF, '''	if host == "" {
''', '''	if len(host) <= 1 {
''')], 'internal/api/shard', '''package shard

import "testing"

func TestDemo(t *testing.T) {
	for _, host := range []string{"x", "ab", "localhost"} {
		t.Setenv("REC_HOST", host)
		t.Setenv("REC_PORT", "9")
		if c := NewConfigFromEnv(nil); c.Host != host || c.Port != 9 {
			t.Fatal(*c)
		}
	}
	t.Setenv("REC_HOST", "")
	if c := NewConfigFromEnv(nil); c.Host != "localhost" {
		t.Fatal(*c)
	}
}
''', help=False)

req('c22-binds-by-type',
    'an update sent by a client that does not say that the text is JSON, as curl does not unless told to',
    'The text of an update is read in the way its content type says, so a valid one without that of JSON is refused as empty.',
    [(EP, '''	var req dto.NamespaceUpdateRequest
	if err := ctx.ShouldBindJSON(&req); err != nil {
''', '''	var req dto.NamespaceUpdateRequest
	if err := ctx.ShouldBind(&req); err != nil {
''')], '''func TestDemo(t *testing.T) {
	r := router(t)
	if c, b := post(r, `{"name":"abc","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`); c != 201 {
		t.Fatal(c, b)
	}
	q := httptest.NewRequest("PUT", "/api/v1/namespaces/abc", strings.NewReader(`{"name":"abc","dislikeFactor":0.75,"maxSimilarProfiles":10}`))
	q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	w := httptest.NewRecorder()
	r.ServeHTTP(w, q)
	if w.Code != 200 {
		t.Fatal(w.Code, w.Body.String())
	}
}
''')
