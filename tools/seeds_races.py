import os, re

def _head(file, name):
    s = open(os.path.join('/verif/tools', file)).read()
    m = re.search("^" + name + " = (?:NHEAD . )?'''(.*?)'''$", s, re.M | re.S)
    return eval("'''" + m.group(1) + "'''")

RUN = _head('seeds_service.py', 'RUN')
API = _head('seeds_api.py', 'RHEAD')
APP = _head('seeds_domain.py', 'AHEAD')
LN = 'internal/domain/likenamespace.go'
NS = 'internal/domain/namespaceservice.go'
AP = 'internal/api/shard/application.go'
EP = 'internal/api/shard/endpoints/namespaceendpoint.go'
HL = 'internal/api/shard/endpoints/helpers.go'
NN = 'internal/domain/valueobjects/namespacename.go'
RS = 'internal/api/shard/dto/namespaceresponse.go'
DP = 'internal/infra/delta/protocol.go'
IP = 'internal/infra/index/protocol.go'


def race(id, needs, breaks, edits, pkg, body):
    bug(id, 'C27', needs, breaks, edits, pkg, body, help=False, race=True)


MANY = '''
func both(n int, f ...func(i int)) {
	var wg sync.WaitGroup
	for _, g := range f {
		wg.Add(1)
		go func(g func(int)) {
			defer wg.Done()
			for i := 0; i < n; i++ {
				g(i)
			}
		}(g)
	}
	wg.Wait()
}
'''
API = API.replace('"strings"\n', '"strings"\n\t"sync"\n') + MANY

race('c27-list-buffer',
    'two listings at the same time',
    'The endpoint keeps the slice it lists the namespaces in, so that concurrent listings fill and encode the same one.',
    [(RS, '''func MakeNamespaceResponseArray(namespaces []domain.Namespace) []NamespaceResponse {
	responses := make([]NamespaceResponse, len(namespaces))
	for i := range namespaces {
		responses[i] = *NewNamespaceResponse(namespaces[i])
	}
	return responses
}
''', '''func MakeNamespaceResponseArray(namespaces []domain.Namespace) []NamespaceResponse {
	return FillNamespaceResponseArray(nil, namespaces)
}

// Fills a response array, whose room is used again if it suffices.
func FillNamespaceResponseArray(room []NamespaceResponse, namespaces []domain.Namespace) []NamespaceResponse {
	if cap(room) < len(namespaces) {
		room = make([]NamespaceResponse, 0, len(namespaces)+16)
	}
	responses := room[:len(namespaces)]
	for i := range namespaces {
		responses[i] = *NewNamespaceResponse(namespaces[i])
	}
	return responses
}
'''), (EP, '''	nsService *domain.NamespaceService
}
''', '''	nsService *domain.NamespaceService
	responses []dto.NamespaceResponse // the last list
}
'''), (EP, '''	responses := dto.MakeNamespaceResponseArray(endpoint.nsService.GetNamespaces())
	ctx.IndentedJSON(http.StatusOK, responses)
''', '''	endpoint.responses = dto.FillNamespaceResponseArray(endpoint.responses[:0:cap(endpoint.responses)], endpoint.nsService.GetNamespaces())
	ctx.IndentedJSON(http.StatusOK, endpoint.responses)
''')], 'internal/api/shard/endpoints', API + '''
func TestDemo(t *testing.T) {
	r := router(t)
	post(r, `{"name":"one","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`)
	list := func(int) { send(r, "GET", "/api/v1/namespaces", nil) }
	both(50, list, list)
}
''')

race('c27-last-hit',
    'two requests for namespaces that are found at the same time',
    'The lookup by name remembers where it found the last namespace, which it also does for readers that only share the lock.',
    [(NS, '''	basePath            string
	deltaStorageFactory DeltaStorageFactory
	indexStorageFactory IndexStorageFactory
}

// A namespace reg''', '''	basePath            string
	lastIndex           int // where the last namespace was found
	deltaStorageFactory DeltaStorageFactory
	indexStorageFactory IndexStorageFactory
}

// A namespace reg'''), (NS, '''	for i, ns := range s.namespaces {
		if ns.GetName() == name {
			return i
		}
	}
	return -1
''', '''	if s.lastIndex < len(s.namespaces) && s.namespaces[s.lastIndex].GetName() == name {
		return s.lastIndex
	}
	for i := range s.namespaces {
		if s.namespaces[i].GetName() == name {
			s.lastIndex = i
			return i
		}
	}
	return -1
''')], 'internal/domain', RUN + MANY + '''
func TestDemo(t *testing.T) {
	s, _, _, _ := world(t, "one", "two")
	both(50, func(i int) { s.GetNamespaceByName(nsName(t, []string{"one", "two"}[i%2])) },
		func(i int) { s.GetNamespaceByName(nsName(t, []string{"two", "one"}[i%2])) })
}
''')

race('c27-names-memo',
    'two requests that name namespaces which were not named before',
    'Names that have been found valid are remembered in a map without a lock.',
    [(NN, '''func ParseNamespaceName(value string) (NamespaceName, error) {
	t := NamespaceName{value}
	if !regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_\\-]*$`).MatchString(value) {
		return t, errors.New("invalid namespace name")
	}
	return t, nil
}
''', '''// The names that have been checked.
var validNames = map[string]bool{}

func ParseNamespaceName(value string) (NamespaceName, error) {
	t := NamespaceName{value: value}
	if validNames[value] {
		return t, nil
	}
	if !regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_\\-]*$`).MatchString(value) {
		return t, errors.New("invalid namespace name")
	}
	if len(validNames) < 1000 {
		validNames[value] = true
	}
	return t, nil
}
''')], 'internal/domain', RUN + MANY + '''
func TestDemo(t *testing.T) {
	both(20, func(i int) { nsName(t, fmt.Sprint("a", i)) }, func(i int) { nsName(t, fmt.Sprint("b", i)) })
}
''')

race('c27-lock-byte',
    'two namespaces that write to their delta files at the same time',
    'The delta protocol, which all namespaces share, keeps the buffer of the lock byte.',
    [(DP, '''type protocol struct{}
''', '''type protocol struct {
	lockByte [1]byte
}
'''), (DP, '''	bytes := []byte{0}
	if locked {
		bytes[0] = 1
	}
''', '''	p.lockByte[0] = 0
	if locked {
		p.lockByte[0] = 1
	}
'''), (DP, '''	_, err = file.Write(bytes)
''', '''	_, err = file.Write(p.lockByte[:])
''')], 'internal/infra/delta', '''package delta

import (
	"os"
	"path/filepath"
	"sync"
	"testing"

	"recengine/internal/domain"
)
''' + MANY + '''
func TestDemo(t *testing.T) {
	fac := NewStorageFactory()
	dir := t.TempDir()
	one := func(name string) func(int) {
		return func(int) {
			f, err := os.OpenFile(filepath.Join(dir, name), os.O_RDWR|os.O_CREATE, 0644)
			if err != nil {
				t.Error(err)
				return
			}
			s, err := fac.OpenMaybeRecover(domain.RandomAccessFile(f))
			if err != nil {
				t.Error(err)
				return
			}
			s.Close()
		}
	}
	both(50, one("a"), one("b"))
}
''')

race('c27-index-header',
    'two indices that are opened at the same time, both in files that exist',
    'The header of an index is read into a buffer of the package.',
    [(IP, '''// Reads database header (without the prefix).
func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
	buffer := make([]byte, headerSize)
	n, err := io.ReadFull(reader, buffer)
''', '''var headerBuffer [headerSize]byte

// Reads database header (without the prefix).
func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
	buffer := headerBuffer[:]
	n, err := io.ReadFull(reader, buffer)
''')], 'internal/infra/index', '''package index

import (
	"os"
	"path/filepath"
	"sync"
	"testing"
)
''' + MANY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	fac := NewStorageFactory()
	one := func(name string) func(int) {
		return func(int) {
			f, err := os.OpenFile(filepath.Join(dir, name), os.O_RDWR|os.O_CREATE, 0644)
			if err != nil {
				t.Error(err)
				return
			}
			s, err := fac.Open(f, f)
			if err != nil {
				t.Error(err)
				return
			}
			s.Close()
		}
	}
	both(50, one("a"), one("b"))
}
''')

race('c27-wait-adapts',
    'more than two requests waiting for the worker when another one comes',
    'Requests that find a queue shorten the time for which the worker waits for more, while the worker reads it.',
    [(LN, '''func (ns *likeNamespace) Like(user uint64, item uint64) error {
''', '''func (ns *likeNamespace) Like(user, item uint64) error {
	if len(ns.action) > 2 {
		ns.actionQueueFillWaitTime = 10 * time.Millisecond // there is enough to do
	}
''')], 'internal/domain', RUN + MANY + '''
func TestDemo(t *testing.T) {
	s, ns, _, _ := world(t, "one")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if err := s.Start(ctx); err != nil {
		t.Fatal(err)
	}
	var f []func(int)
	for i := 0; i < 12; i++ {
		f = append(f, func(int) { ns[0].Like(1, 2) })
	}
	both(20, f...)
}
''')

race('c27-batch-count',
    'a namespace that is deleted after it has processed a batch',
    'The worker counts its batches, and stopping logs the count without synchronisation.',
    [(LN, '''	action                  chan Action
''', '''	action                  chan Action
	batches                 int // processed so far
'''), (LN, '''				for i := 1; i < len(actions); i++ {
''', '''				for i := 1; i != len(actions); i++ {
'''), (LN, '''				// We wan't to process as many actions as possible at a time.
''', '''				ns.batches++
				// We want to process as many actions as possible at a time.
'''), (LN, '''// Sends a quit signal to the job worker thread started by a call to Run().
func (ns *likeNamespace) Stop() {
''', '''// Sends a quit signal to the job worker thread started by a call to Start().
func (ns *likeNamespace) Stop() {
	if ns.batches > 0 {
		log.Printf("Namespace %s has processed %d batches\\n", ns.GetName(), ns.batches)
	}
''')], 'internal/domain', RUN + '''
func TestDemo(t *testing.T) {
	s, ns, f, _ := world(t, "one")
	if err := s.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	go ns[0].Like(1, 2)
	time.Sleep(200 * time.Millisecond)
	if err := s.DeleteNamespace(nsName(t, "one")); err != nil {
		t.Fatal(err)
	}
	<-f[0].l.closed
}
''')

race('c27-listen-error',
    'a shutdown that a request holds up until the grace period ends',
    'The failure of a shutdown is reported together with the error of listening, which the goroutine of the server sets, and only in time for the other ends of a run.',
    [(AP, '''	go func() {
		if err := srv.httpSrv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
			listenError <- fmt.Errorf("server listening failed: %v", err)
		} else {
			listenError <- nil
		}
''', '''	var listened error
	go func() {
		listened = srv.httpSrv.ListenAndServe()
		if err := listened; err != nil && err != http.ErrServerClosed {
			listenError <- fmt.Errorf("server listening failed: %v", err)
		} else {
			listenError <- nil
		}
'''), (AP, '''		return fmt.Errorf("server shutdown: %v", err)
''', '''		return fmt.Errorf("server shutdown: %v (listening: %v)", err, listened)
''')], 'internal/api/shard', APP + '''
func TestDemo(t *testing.T) {
	a, url := app(t)
	slow(a, 8*time.Second)
	done := running(t, a, url)
	go func() {
		if r, err := http.Get(url + "/slow"); err == nil {
			r.Body.Close()
		}
	}()
	time.Sleep(500 * time.Millisecond)
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	if err := <-done; err == nil {
		t.Fatal("the shutdown should have failed")
	}
}
''')

race('c27-field-errors',
    'two requests at the same time that are both invalid',
    'The list of invalid fields is put together in a slice of the package.',
    [(HL, '''		errors := make([]dto.FieldErrorMsg, len(ve))
		for i, fe := range ve {
			errors[i] = dto.FieldErrorMsg{
				Field:   fe.Field(),
				Message: getFieldErrorMsg(fe),
			}
		}
''', '''		errors := fieldErrors[:0]
		for _, fe := range ve {
			errors = append(errors, dto.FieldErrorMsg{
				Field:   fe.Field(),
				Message: getFieldErrorMsg(fe),
			})
		}
'''), (HL, '''// Aborts gin handler execution and sends an HTTP response containing the error
// description in JSON format.
func AbortWithBindingErrors(''', '''// No request has more fields.
var fieldErrors = make([]dto.FieldErrorMsg, 0, 8)

// Aborts gin handler execution and sends an HTTP response containing the error
// description in JSON format.
func AbortWithBindingErrors(''')], 'internal/api/shard/endpoints', API + '''
func TestDemo(t *testing.T) {
	r := router(t)
	bad := func(int) { post(r, `{"type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`) }
	both(50, bad, bad)
}
''')

race('c27-failed-batch-name',
    'a batch that fails, and a rename of its namespace',
    'The worker reports failed batches with the name of the namespace, which it reads without the lock.',
    [(LN, '''				for i := 1; i < len(actions); i++ {
''', '''				for i := 1; i != len(actions); i++ {
'''), (LN, '''				// Warning. We cannot iterate through the queue itself here!
''', '''				// We cannot iterate through the queue itself here!
'''), (LN, '''				if err != nil {
					ns.sendErrorTo''', '''				if err != nil {
					log.Printf("LikeNamespace %s: %v\\n", ns.name.Value(), err)
					ns.sendErrorTo''')], 'internal/domain', RUN.replace('func (l *likes) ProcessActions(actions []Action) error {\n', 'func (l *likes) ProcessActions(actions []Action) error {\n\treturn errors.New("failed")\n}\n\nfunc (l *likes) unused(actions []Action) error {\n') + '''
func TestDemo(t *testing.T) {
	s, ns, _, _ := world(t, "one")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if err := s.Start(ctx); err != nil {
		t.Fatal(err)
	}
	ns[0].Like(1, 2)
	if _, err := s.UpdateNamespace(nsName(t, "one"), &NamespaceUpdateRequest{Name: nsName(t, "two"), MaxSimilarProfiles: 5, DislikeFactor: 0.5}); err != nil {
		t.Fatal(err)
	}
	go ns[0].Like(1, 2)
	for i := 0; i < 40; i++ {
		ns[0].Rename(nsName(t, fmt.Sprint("n", i)))
		time.Sleep(5 * time.Millisecond)
	}
}
''')

race('c27-update-target',
    'two updates at the same time',
    'The endpoint has one request object that all updates are read into.',
    [(EP, '''	nsService *domain.NamespaceService
}
''', '''	nsService *domain.NamespaceService
	update    dto.NamespaceUpdateRequest
}
'''), (EP, '''	var req dto.NamespaceUpdateRequest
	if err := ctx.ShouldBindJSON(&req); err != nil {
''', '''	req := &endpoint.update
	*req = dto.NamespaceUpdateRequest{}
	if err := ctx.ShouldBindJSON(req); err != nil {
''')], 'internal/api/shard/endpoints', API + '''
func TestDemo(t *testing.T) {
	r := router(t)
	post(r, `{"name":"one","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`)
	post(r, `{"name":"two","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`)
	both(30, func(int) { put(r, "one", `{"name":"one","maxSimilarProfiles":6,"dislikeFactor":0.5}`) },
		func(int) { put(r, "two", `{"name":"two","maxSimilarProfiles":7,"dislikeFactor":0.5}`) })
}
''')
