LN = 'internal/domain/likenamespace.go'
NS = 'internal/domain/namespaceservice.go'
AP = 'internal/api/shard/application.go'
EP = 'internal/api/shard/endpoints/namespaceendpoint.go'
IX = 'internal/infra/index/storagefactory.go'

bug('c25-watches-context', 'C25',
    'many namespaces that are stopped while the context of the process goes on',
    'Start leaves a goroutine that waits for the end of the context in order to stop the namespace; it stays when the namespace was stopped otherwise.',
    [(LN, '''	go func() {
		defer likeStorage.Close()
''', '''	go func() {
		<-ctx.Done()
		ns.Stop()
	}()
	go func() {
		defer likeStorage.Close()
'''), (LN, '''		for {
			select {
			case <-ctx.Done():
				return
			case <-ns.stop:
				return
			default:
''', '''		for {
			select {
			case <-ns.stop:
				return
			default:
''')], 'internal/domain', '''package domain_test

import (
	"context"
	"runtime"
	"testing"
	"time"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
)

type likeStore struct {
	domain.LikeStorage
	closed chan struct{}
}

func (s *likeStore) ProcessActions(a []domain.Action) error { return nil }
func (s *likeStore) Close() error                           { close(s.closed); return nil }

type likeFactory struct {
	domain.LikeStorageFactory
	s *likeStore
}

func (f *likeFactory) OpenMaybeRecover(domain.RandomAccessFile, domain.DeltaStorage, domain.IndexStorage) (domain.LikeStorage, error) {
	return f.s, nil
}

func TestDemo(t *testing.T) {
	n, _ := valueobjects.ParseNamespaceName("one")
	dir := t.TempDir()
	before := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i := 0; i < 20; i++ {
		s := &likeStore{closed: make(chan struct{})}
		ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{Name: n, DislikeFactor: 0.5, BasePath: dir + "/",
			DeltaStorageFactory: delta.NewStorageFactory(), IndexStorageFactory: index.NewStorageFactory(), LikeStorageFactory: &likeFactory{s: s}})
		if err := ns.Start(ctx); err != nil {
			t.Fatal(err)
		}
		ns.Stop()
		<-s.closed
	}
	time.Sleep(200 * time.Millisecond)
	if now := runtime.NumGoroutine(); now > before+10 {
		t.Fatalf("%d goroutines, before %d", now, before)
	}
}
''', help=False)

SVC = '''package domain_test

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"testing"
	"time"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
)

var _ = os.Getpid
var _ = runtime.NumGoroutine
var _ = time.Second
var _ = fmt.Sprint

func service(t *testing.T) (*domain.NamespaceService, string) {
	dir := t.TempDir()
	t.Setenv("REC_PATH", dir)
	return domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory()), dir
}

func req(t *testing.T, s string) *domain.NamespaceCreateRequest {
	n, err := valueobjects.ParseNamespaceName(s)
	if err != nil {
		t.Fatal(err)
	}
	return &domain.NamespaceCreateRequest{Name: n, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 5, DislikeFactor: 0.5}
}

'''

bug('c25-stop-waits', 'C25',
    'many namespaces stopped that never ran, as when they are deleted',
    'Stop leaves a goroutine that waits for the worker in order to log its end, which never comes if the namespace was not started.',
    [(NS, '''		return fmt.Errorf("no namespace %s", name)
''', '''		return fmt.Errorf("no namespace %s", name.Value())
'''), (LN, '''func (ns *likeNamespace) Stop() {
''', '''func (ns *likeNamespace) Stop() {
	name := ns.GetName()
	go func() {
		<-ns.stopped
		log.Printf("Stopped namespace %s\\n", name)
	}()
''')], 'internal/domain', SVC + '''func TestDemo(t *testing.T) {
	svc, _ := service(t)
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		if _, err := svc.CreateNamespace(req(t, "one")); err != nil {
			t.Fatal(err)
		}
		if err := svc.DeleteNamespace(req(t, "one").Name); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(200 * time.Millisecond)
	if now := runtime.NumGoroutine(); now > before+10 {
		t.Fatalf("%d goroutines, before %d", now, before)
	}
}
''', help=False)

bug('c25-lock-file-kept-open', 'C25',
    'saves of the registry that fail again and again',
    'The lock file held while the registry is saved is closed only when the save succeeded.',
    [(NS, '''	filePath := s.getNamespacesJsonPath()
	// Never leave the file incomplete
''', '''	filePath := s.getNamespacesJsonPath()
	lock, err := os.OpenFile(filePath+".lock", os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return fmt.Errorf("failed to lock %s: %v", filePath, err)
	}
	// Never leave the file incomplete
'''), (NS, '''		return fmt.Errorf("failed to replace %s: %v", filePath, err)
	}
	return nil
}
''', '''		return fmt.Errorf("failed to replace %s: %v", filePath, err)
	}
	return lock.Close()
}
''')], 'internal/domain', SVC + '''func TestDemo(t *testing.T) {
	svc, dir := service(t)
	if err := os.Mkdir(dir+"/namespaces.json", 0755); err != nil { // cannot be replaced
		t.Fatal(err)
	}
	fds := func() int {
		e, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(e)
	}
	before := fds()
	for i := 0; i < 20; i++ {
		if _, err := svc.CreateNamespace(req(t, "one")); err == nil {
			t.Fatal("saved")
		}
	}
	if now := fds(); now > before+10 {
		t.Fatalf("%d open files, before %d", now, before)
	}
}
''', help=False)

bug('c25-index-keeps-file', 'C25',
    'opening an index by name when asking for the size of the file fails',
    'OpenFile leaves the file open when the first thing done with it fails.',
    [(IX, '''	if err != nil {
		if closer != nil {
			closer.Close()
		}
		return nil, err
	}
	if size > 0 {
''', '''	if err != nil {
		return nil, err
	}
	if size > 0 {
''')], 'internal/infra/index', '''package index

import (
	"os"
	"syscall"
	"testing"
)

func TestDemo(t *testing.T) {
	path := t.TempDir() + "/pipe" // has no size
	if err := syscall.Mkfifo(path, 0600); err != nil {
		t.Fatal(err)
	}
	fds := func() int {
		e, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(e)
	}
	if _, err := NewStorageFactory().OpenFile(path); err == nil {
		t.Fatal("opened")
	}
	before := fds()
	for i := 0; i < 20; i++ {
		NewStorageFactory().OpenFile(path)
	}
	if now := fds(); now > before+10 {
		t.Fatalf("%d open files, before %d", now, before)
	}
}
''', help=False)

bug('c25-shutdown-unheard', 'C25',
    'a shutdown given up at the end of the grace period, and the request that held it up finishing later',
    'Shutting down goes on in a goroutine whose result nobody takes once the grace period has ended.',
    [(AP, '''	if err := srv.httpSrv.Shutdown(ctx); err != nil {
		return fmt.Errorf("server shutdown: %v", err)
	}
''', '''	shutdown := make(chan error)
	go func() { shutdown <- srv.httpSrv.Shutdown(context.Background()) }()
	select {
	case err := <-shutdown:
		if err != nil {
			return fmt.Errorf("server shutdown: %v", err)
		}
	case <-ctx.Done():
		return fmt.Errorf("server shutdown: %v", ctx.Err())
	}
''')], 'internal/api/shard', '''package shard

import (
	"context"
	"fmt"
	"net"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	"recengine/internal/domain"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	t.Setenv("REC_PATH", t.TempDir())
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	app := NewApplication(&ApplicationDto{Config: &Config{Host: "127.0.0.1", Port: port}, NsService: domain.NewNamespaceService(context.Background(), nil, nil)})
	done := make(chan error, 1)
	go func() { done <- app.Run() }()
	var c net.Conn
	for i := 0; i < 100 && c == nil; i++ {
		time.Sleep(50 * time.Millisecond)
		c, _ = net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	}
	if c == nil {
		t.Fatal("does not serve")
	}
	// A request that does not end.
	fmt.Fprintf(c, "POST /api/v1/namespaces HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 100\\r\\n\\r\\n{")
	time.Sleep(300 * time.Millisecond)
	syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("does not return")
	}
	c.Close()
	time.Sleep(3 * time.Second)
	buf := make([]byte, 1<<20)
	st := string(buf[:runtime.Stack(buf, true)])
	for _, g := range strings.Split(st, "\\n\\n") {
		if strings.Contains(g, "(*Application).Run.func") {
			t.Fatalf("left behind: %s", g)
		}
	}
}
''', help=False)

bug('c25-abandoned-create', 'C25',
    'clients that close the connection while their creation is being saved',
    'A creation goes on in a goroutine of its own, which waits for ever for its handler if the client has gone.',
    [(EP, '''	ns, err := endpoint.nsService.CreateNamespace(domainDto)
	if err != nil {
		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
		return
	}
	ctx.IndentedJSON(http.StatusCreated, dto.NewNamespaceResponse(ns))
''', '''	created := make(chan domain.Namespace)
	failed := make(chan error)
	go func() {
		ns, err := endpoint.nsService.CreateNamespace(domainDto)
		if err != nil {
			failed <- err
			return
		}
		created <- ns
	}()
	select {
	case err := <-failed:
		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
	case ns := <-created:
		ctx.IndentedJSON(http.StatusCreated, dto.NewNamespaceResponse(ns))
	case <-ctx.Request.Context().Done():
		ctx.AbortWithStatus(http.StatusServiceUnavailable)
	}
''')], 'internal/api/shard/endpoints', '''package endpoints

import (
	"context"
	"net/http/httptest"
	"os"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	"recengine/internal/domain"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	dir := t.TempDir()
	t.Setenv("REC_PATH", dir)
	r := gin.New()
	NewNamespaceEndpoint(domain.NewNamespaceService(context.Background(), nil, nil)).RegisterRoutes(r)
	// Saving waits until somebody reads this.
	pipe := dir + "/namespaces.json.tmp"
	if err := syscall.Mkfifo(pipe, 0600); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() {
		q := httptest.NewRequest("POST", "/api/v1/namespaces", strings.NewReader(`{"name":"abc","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`))
		r.ServeHTTP(httptest.NewRecorder(), q.WithContext(ctx))
		close(done)
	}()
	time.Sleep(300 * time.Millisecond)
	cancel()
	time.Sleep(300 * time.Millisecond)
	f, err := os.OpenFile(pipe, os.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	<-done
	time.Sleep(time.Second)
	buf := make([]byte, 1<<20)
	st := string(buf[:runtime.Stack(buf, true)])
	if strings.Contains(st, "(*NamespaceEndpoint).Create.func") {
		t.Fatal("left behind: " + st)
	}
}
''', help=False)
