D = 'internal/domain'
LN = D + '/likenamespace.go'
NS = D + '/namespaceservice.go'
AP = 'internal/api/shard/application.go'
EP = 'internal/api/shard/endpoints/namespaceendpoint.go'

NHEAD = '''package domain_test

import (
	"context"
	"errors"
	"io"
	"os"
	"strings"
	"testing"
	"time"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
)

var _ = errors.New
var _ = io.EOF
var _ = strings.HasPrefix
var _ = os.Getenv
var _ = time.Second
var _ = context.Background

type likeStore struct {
	domain.LikeStorage
	process func([]domain.Action) error
	closed  chan struct{}
}

func (s *likeStore) ProcessActions(a []domain.Action) error { return s.process(a) }

func (s *likeStore) Close() error {
	close(s.closed)
	return nil
}

type likeFactory struct {
	domain.LikeStorageFactory
	store *likeStore
	err   error
}

func (f *likeFactory) OpenMaybeRecover(domain.RandomAccessFile, domain.DeltaStorage, domain.IndexStorage) (domain.LikeStorage, error) {
	if f.err != nil {
		return nil, f.err
	}
	return f.store, nil
}

// serve answers every action.
func serve(actions []domain.Action) error {
	for _, a := range actions {
		switch p := a.Payload.(type) {
		case domain.GetProfilePayload:
			p.Profile <- domain.NewProfile(p.UserID)
		case domain.GetSimilarProfilesPayload:
			p.Profiles <- &[]domain.SimilarProfile{}
		case domain.RecommendItemsPayload:
			p.Items <- &[]domain.RecItem{}
		default:
			a.Error <- nil
		}
	}
	return nil
}

func name(t *testing.T, s string) valueobjects.NamespaceName {
	t.Helper()
	n, err := valueobjects.ParseNamespaceName(s)
	if err != nil {
		t.Fatal(err)
	}
	return n
}

func dto(t *testing.T, dir string, process func([]domain.Action) error) (*domain.LikeNamespaceDto, *likeStore) {
	t.Helper()
	s := &likeStore{process: process, closed: make(chan struct{})}
	return &domain.LikeNamespaceDto{
		Name:                name(t, "one"),
		DislikeFactor:       0.5,
		BasePath:            dir + "/",
		DeltaStorageFactory: delta.NewStorageFactory(),
		IndexStorageFactory: index.NewStorageFactory(),
		LikeStorageFactory:  &likeFactory{store: s},
	}, s
}

func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s took more than %v", what, d)
	}
}

'''

def ns(id, prop, needs, breaks, edits, body):
    bug(id, prop, needs, breaks, edits, D, NHEAD + body, help=False)

SLEEP = '''				// We wan't to process as many actions as possible at a time.
				// But not too much, though.
				time.Sleep(ns.actionQueueFillWaitTime)
'''
DRAIN = '''				actions := make([]Action, len(ns.action)+1)
				actions[0] = action
				// Warning. We cannot iterate through the queue itself here!
				for i := 1; i < len(actions); i++ {
					actions[i] = <-ns.action
				}
'''

ns('c12-wait-until-quiet', 'C12',
   'requests that keep arriving one after another for more than a second without filling the queue',
   'The worker waits for the queue to stop growing instead of waiting once, so a steady trickle of requests starves all of them.',
   [(LN, SLEEP, '''				// We wan't to process as many actions as possible at a time,
				// so wait while the queue is growing.
				for length := -1; length != len(ns.action); {
					length = len(ns.action)
					time.Sleep(ns.actionQueueFillWaitTime)
				}
''')], '''func TestDemo(t *testing.T) {
	d, _ := dto(t, t.TempDir(), serve)
	ns := domain.NewLikeNamespace(d)
	if err := ns.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 80; i++ {
		i := i
		time.AfterFunc(time.Duration(i)*25*time.Millisecond, func() { ns.Like(uint64(i), 1) })
	}
	within(t, time.Second, "a request", func() { ns.Dislike(1, 2) })
}
''')

ns('c12-waits-per-action', 'C12',
   'many requests queued at a time and a worker that is slowed down by each of them',
   'The batching delay is applied for every queued action, so a burst of requests takes seconds instead of one delay.',
   [(LN, SLEEP, '''				// We wan't to process as many actions as possible at a time.
				// But not too much, though.
				for n := 0; n <= len(ns.action); n += 2 {
					time.Sleep(ns.actionQueueFillWaitTime)
				}
''')], '''func TestDemo(t *testing.T) {
	d, _ := dto(t, t.TempDir(), serve)
	ns := domain.NewLikeNamespace(d)
	if err := ns.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	done := make(chan error)
	for i := 0; i < 90; i++ {
		i := i
		go func() { done <- ns.Like(uint64(i), 1) }()
	}
	within(t, time.Second, "a burst of requests", func() {
		for i := 0; i < 90; i++ {
			<-done
		}
	})
}
''')

ns('c13-shared-reply', 'C13',
   'two profile requests at a time whose answers overlap',
   'All profile requests of a namespace share one reply channel, so a requester can be given the profile of another user.',
   [(LN, '''	actionQueueFillWaitTime time.Duration
''', '''	actionQueueFillWaitTime time.Duration
	profiles                chan *Profile
'''), (LN, '''		actionQueueFillWaitTime: time.Millisecond * 50,
''', '''		actionQueueFillWaitTime: time.Millisecond * 50,
		profiles:                make(chan *Profile),
'''), (LN, '''	profileChan := make(chan *Profile)
''', '''	profileChan := ns.profiles
''')], '''func TestDemo(t *testing.T) {
	d, _ := dto(t, t.TempDir(), serve)
	ns := domain.NewLikeNamespace(d)
	if err := ns.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	for round := 0; round < 20; round++ {
		wrong := make(chan bool)
		for i := 0; i < 40; i++ {
			i := i
			go func() {
				p, err := ns.GetProfile(uint64(i))
				wrong <- err == nil && p.UserID != uint64(i)
			}()
		}
		for i := 0; i < 40; i++ {
			if <-wrong {
				t.Fatal("got the profile of another user")
			}
		}
	}
}
''')

ns('c13-merges-repeats', 'C13',
   'two identical likes in one batch of which the storage fails the one it is given',
   'An action equal to the previous one of the batch is answered at once instead of being handed to the storage.',
   [(LN, '''				for i := 1; i < len(actions); i++ {
''', '''				for i := 1; i != len(actions); i++ {
'''), (LN, '''				// Take out actions from the channel
''', '''				// Take out actions from the channel. An action that only repeats
				// the one before needn't be performed again.
'''), (LN, '''					actions[i] = <-ns.action
				}
''', '''					actions[i] = <-ns.action
				}
				kept := actions[:1]
				for _, next := range actions[1:] {
					last := kept[len(kept)-1]
					if next.ActionType == ActionLike && last.ActionType == ActionLike && next.Payload == last.Payload {
						next.Error <- nil
						continue
					}
					kept = append(kept, next)
				}
				actions = kept
''')], '''func TestDemo(t *testing.T) {
	seen := make(chan int, 100)
	d, _ := dto(t, t.TempDir(), func(actions []domain.Action) error {
		seen <- len(actions)
		return serve(actions)
	})
	ns := domain.NewLikeNamespace(d)
	if err := ns.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	done := make(chan error)
	for i := 0; i < 3; i++ {
		go func() { done <- ns.Like(1, 1) }()
	}
	for i := 0; i < 3; i++ {
		<-done
	}
	total := 0
	for len(seen) > 0 {
		total += <-seen
	}
	if total != 3 {
		t.Fatalf("the storage was handed %d actions of 3", total)
	}
}
''')

ns('c14-closes-under-batch', 'C14',
   'a cancellation of the context while a batch is being processed',
   'The index storage is closed as soon as the context is cancelled, not when the worker has ended, so a batch in progress loses its index.',
   [(LN, '''		defer indexStorage.Close()
		defer log.Printf''', '''		var closeIndex sync.Once
		release := func() { closeIndex.Do(func() { indexStorage.Close() }) }
		defer release()
		go func() {
			select {
			case <-ctx.Done():
				release()
			case <-ns.stopped:
			}
		}()
		defer log.Printf''')], '''type indexStore struct {
	domain.IndexStorage
	closed chan struct{}
}

func (s *indexStore) Close() error {
	close(s.closed)
	return nil
}

func TestDemo(t *testing.T) {
	closed := make(chan struct{})
	ctx, cancel := context.WithCancel(context.Background())
	d, store := dto(t, t.TempDir(), func(actions []domain.Action) error {
		cancel()
		select {
		case <-closed:
			t.Error("the index was closed during a batch")
		case <-time.After(300 * time.Millisecond):
		}
		return serve(actions)
	})
	d.IndexStorageFactory = &spyFactory{d.IndexStorageFactory, closed}
	ns := domain.NewLikeNamespace(d)
	if err := ns.Start(ctx); err != nil {
		t.Fatal(err)
	}
	ns.Like(1, 1)
	<-store.closed
}

type spyFactory struct {
	domain.IndexStorageFactory
	closed chan struct{}
}

func (f *spyFactory) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	s, err := f.IndexStorageFactory.Open(file, closer)
	return &indexStore{s, f.closed}, err
}
''')

ns('c14-idle-index-left-open', 'C14',
   'a namespace that is started and stopped without a request in between',
   'The index storage is closed only if there was a batch to process, so stopping an idle namespace leaves the index open and the next start resets it.',
   [(LN, '''		defer indexStorage.Close()
''', '''		batches := 0
		defer func() {
			// The index of a namespace that had no work is as it was
			if batches > 0 {
				indexStorage.Close()
			}
		}()
'''), (LN, SLEEP, SLEEP + '''				batches++
''')], '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	for i := 0; i < 2; i++ {
		d, store := dto(t, dir, serve)
		ns := domain.NewLikeNamespace(d)
		if err := ns.Start(context.Background()); err != nil {
			t.Fatal(err)
		}
		if i == 0 {
			ns.Like(1, 1)
		}
		ns.Stop()
		<-store.closed
	}
	s, err := index.NewStorageFactory().OpenFile(dir + "/one.index")
	if err != nil {
		t.Fatalf("the index was not closed: %v", err)
	}
	s.Close()
}
''')

ns('c15-resets-on-any-error', 'C15',
   'a start on which reading the index fails with an I/O error',
   'An index that cannot be opened is reset whatever the reason, so a passing read error loses a good index.',
   [(LN, '''		if !errors.Is(err, NewCorruptedFileError()) {
			file.Close()
			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
		}
''', '''		if errors.Is(err, os.ErrPermission) {
			file.Close()
			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
		}
''')], '''type flaky struct {
	domain.IndexStorageFactory
	fail bool
}

type failingReads struct{ io.ReadWriteSeeker }

func (failingReads) Read([]byte) (int, error) { return 0, errors.New("I/O error") }

func (f *flaky) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	if f.fail {
		f.fail = false
		return f.IndexStorageFactory.Open(failingReads{file}, closer)
	}
	return f.IndexStorageFactory.Open(file, closer)
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s, err := index.NewStorageFactory().OpenFile(dir + "/one.index")
	if err != nil {
		t.Fatal(err)
	}
	s.Put(7, 70)
	if err := s.Close(); err != nil {
		t.Fatal(err)
	}
	d, store := dto(t, dir, serve)
	d.IndexStorageFactory = &flaky{d.IndexStorageFactory, true}
	ns := domain.NewLikeNamespace(d)
	if err := ns.Start(context.Background()); err == nil {
		ns.Stop()
		<-store.closed
	}
	s, err = index.NewStorageFactory().OpenFile(dir + "/one.index")
	if err != nil {
		t.Fatal(err)
	}
	if v, ok := s.Get(7); !ok || v != 70 {
		t.Fatal("a read error lost the index")
	}
}
''')

FDS = '''
func openFiles(t *testing.T, dir string) (names []string) {
	t.Helper()
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}
	for _, fd := range fds {
		if p, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(p, dir) {
			names = append(names, p)
		}
	}
	return names
}
'''

ns('c15-index-failure-keeps-delta', 'C15',
   'a start that fails at the index after the delta log has been opened',
   'The delta storage stays open and locked when the index cannot be opened.',
   [(LN, '''	if err != nil {
		deltaStorage.Close()
		return err
	}
''', '''	if err != nil {
		deltaStorage.Flush()
		return err
	}
''')], FDS + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.Mkdir(dir+"/one.index", 0755); err != nil {
		t.Fatal(err)
	}
	d, _ := dto(t, dir, serve)
	ns := domain.NewLikeNamespace(d)
	if err := ns.Start(context.Background()); err == nil {
		t.Fatal("started without an index")
	}
	if open := openFiles(t, dir); len(open) > 0 {
		t.Fatalf("left open: %v", open)
	}
}
''')

SHEAD = NHEAD + '''func service(t *testing.T, dir string) *domain.NamespaceService {
	t.Helper()
	t.Setenv("REC_PATH", dir)
	return domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
}

func loaded(t *testing.T, dir string) *domain.NamespaceService {
	t.Helper()
	s := service(t, dir)
	if err := s.LoadNamespaces(); err != nil {
		t.Fatal(err)
	}
	return s
}

func create(t *testing.T, s *domain.NamespaceService, n string) error {
	t.Helper()
	_, err := s.CreateNamespace(&domain.NamespaceCreateRequest{
		Name: name(t, n), Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 5, DislikeFactor: 0.5,
	})
	return err
}

func update(t *testing.T, s *domain.NamespaceService, old, n string, max uint, factor float32) error {
	t.Helper()
	_, err := s.UpdateNamespace(name(t, old), &domain.NamespaceUpdateRequest{
		Name: name(t, n), MaxSimilarProfiles: max, DislikeFactor: factor,
	})
	return err
}

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

// breakSaving makes saving fail until the returned function is called.
func breakSaving(t *testing.T, dir string) func() {
	t.Helper()
	p := dir + "/namespaces.json.tmp"
	must(t, os.Mkdir(p, 0755))
	return func() { must(t, os.Remove(p)) }
}

'''

def svc(id, prop, needs, breaks, edits, body):
    bug(id, prop, needs, breaks, edits, D, SHEAD + body, help=False)

svc('c16-rename-race', 'C16',
    'a create or rename to a name between the endpoint looking it up and the service applying a rename to it',
    'The service itself no longer refuses to rename to a taken name and relies on the lookup the endpoint did before, outside the lock.',
    [(NS, '''	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
	}
''', '')], '''func TestDemo(t *testing.T) {
	s := service(t, t.TempDir())
	must(t, create(t, s, "one"))
	must(t, create(t, s, "two"))
	if err := update(t, s, "one", "two", 1, 0.5); err == nil {
		t.Fatal("two namespaces have the same name")
	}
}
''')

svc('c16-stale-position', 'C16',
    'an update and then a delete of a namespace that is not the last, then an operation on the deleted one',
    'Positions of namespaces are remembered by name and checked only for being inside the list, so after a delete a name can lead to another namespace.',
    [(NS, '''	namespaces          []Namespace
	context ''', '''	namespaces          []Namespace
	positions           map[valueobjects.NamespaceName]int
	context '''), (NS, '''func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceName) int {
	for i, ns := range s.namespaces {
		if ns.GetName() == name {
			return i
		}
	}
	return -1
''', '''func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceName) int {
	for i, ns := range s.namespaces {
		if ns.GetName() == name || s.positions[name] == i+1 {
			return i
		}
	}
	return -1
'''), (NS, '''	ns := s.namespaces[index]
	if ns.GetName() != dto.Name && s''', '''	ns := s.namespaces[index]
	if s.positions == nil {
		s.positions = make(map[valueobjects.NamespaceName]int)
	}
	delete(s.positions, name)
	if ns.GetName() != dto.Name && s'''), (NS, '''	ns.SetDislikeFactor(dto.DislikeFactor)
''', '''	s.positions[dto.Name] = index + 1
	ns.SetDislikeFactor(dto.DislikeFactor)
''')], '''func TestDemo(t *testing.T) {
	s := service(t, t.TempDir())
	for _, n := range []string{"one", "two", "three", "four"} {
		must(t, create(t, s, n))
	}
	must(t, update(t, s, "two", "two", 7, 0.5))
	must(t, s.DeleteNamespace(name(t, "two")))
	if ns := s.GetNamespaceByName(name(t, "two")); ns != nil {
		t.Fatalf("asked for a deleted namespace, got %v", ns.GetName())
	}
}
''')

bug('c16-shared-list-buffer', 'C16',
    'two lists at a time, the second of them after a change',
    'The list endpoint reuses the array of its last response, which another request may still be encoding.',
    [(EP, '''	nsService *domain.NamespaceService
}
''', '''	nsService *domain.NamespaceService
	// Saves allocating a new array for each list.
	responses []dto.NamespaceResponse
}
'''), (EP, '''	responses := dto.MakeNamespaceResponseArray(endpoint.nsService.GetNamespaces())
	ctx.IndentedJSON(http.StatusOK, responses)
''', '''	endpoint.responses = endpoint.responses[:0]
	for _, ns := range endpoint.nsService.GetNamespaces() {
		endpoint.responses = append(endpoint.responses, *dto.NewNamespaceResponse(ns))
	}
	ctx.IndentedJSON(http.StatusOK, endpoint.responses)
''')], 'internal/api/shard/endpoints', '''package endpoints

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"testing"

	"recengine/internal/domain"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	t.Setenv("REC_PATH", t.TempDir())
	e := gin.New()
	NewNamespaceEndpoint(domain.NewNamespaceService(context.Background(), nil, nil)).RegisterRoutes(e)
	do := func(method, path, body string) *httptest.ResponseRecorder {
		w := httptest.NewRecorder()
		e.ServeHTTP(w, httptest.NewRequest(method, path, bytes.NewBufferString(body)))
		return w
	}
	const count = 200
	for i := 0; i < count; i++ {
		if w := do("POST", "/api/v1/namespaces", fmt.Sprintf(`{"name":"n%d","type":"like","dislikeFactor":0.5}`, i)); w.Code != 201 {
			t.Fatal(w.Code, w.Body)
		}
	}
	errs := make(chan string)
	for c := 0; c < 8; c++ {
		go func() {
			for i := 0; i < 300; i++ {
				var list []struct{ Name string }
				w := do("GET", "/api/v1/namespaces", "")
				if err := json.Unmarshal(w.Body.Bytes(), &list); err != nil {
					errs <- err.Error()
					return
				}
				if len(list) != count {
					errs <- fmt.Sprintf("a list has %d namespaces of %d", len(list), count)
					return
				}
				seen := map[string]bool{}
				for _, ns := range list {
					if seen[ns.Name] {
						errs <- "a list shows " + ns.Name + " twice"
						return
					}
					seen[ns.Name] = true
				}
			}
			errs <- ""
		}()
	}
	for c := 0; c < 8; c++ {
		if e := <-errs; e != "" {
			t.Fatal(e)
		}
	}
}
''', help=False)

svc('c17-factor-after-save', 'C17',
    'an update of the dislike factor followed by a restart, with no other change in between',
    'The new dislike factor is set after the registry has been saved.',
    [(NS, '''	ns.SetDislikeFactor(dto.DislikeFactor)
	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
''', '''	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
'''), (NS, '''		ns.SetMaxSimilarProfiles(oldMaxSimilarProfiles)
		return nil, err
	}
''', '''		ns.SetMaxSimilarProfiles(oldMaxSimilarProfiles)
		return nil, err
	}
	ns.SetDislikeFactor(dto.DislikeFactor)
''')], '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := service(t, dir)
	must(t, create(t, s, "one"))
	must(t, update(t, s, "one", "one", 5, 0.25))
	ns := loaded(t, dir).GetNamespaceByName(name(t, "one"))
	if ns == nil || ns.GetDislikeFactor() != 0.25 {
		t.Fatal("an acknowledged update is lost")
	}
}
''')

svc('c17-prefers-temporary', 'C17',
    'a crash in the middle of saving a change, after others have been acknowledged',
    'Loading prefers the temporary file of an interrupted save because it is newer, though it may be incomplete.',
    [(NS, '''	data, err := os.ReadFile(filePath)
''', '''	// The last save may have been interrupted before replacing the file
	data, err := os.ReadFile(filePath + ".tmp")
	if err != nil || len(data) == 0 {
		data, err = os.ReadFile(filePath)
	}
''')] , '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := service(t, dir)
	must(t, create(t, s, "one"))
	must(t, os.WriteFile(dir+"/namespaces.json.tmp", []byte(`[{"name":"on`), 0644))
	if loaded(t, dir).GetNamespaceByName(name(t, "one")) == nil {
		t.Fatal("an acknowledged namespace is lost")
	}
}
''')

svc('c17-tolerates-damage', 'C17',
    'a registry that cannot be read completely when the service starts',
    'Loading gives up silently when the registry cannot be decoded, so the service goes on with an empty registry and overwrites the file.',
    [(NS, '''	if err != nil {
		return fmt.Errorf("failed to decode %s: %v", filePath, err)
	}
''', '''	if err != nil {
		log.Printf("Failed to decode %s: %v\\n", filePath, err)
		return nil
	}
''')], '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	must(t, os.WriteFile(dir+"/namespaces.json", []byte(`[{"name":"on`), 0644))
	if err := service(t, dir).LoadNamespaces(); err == nil {
		t.Fatal("went on with an empty registry")
	}
}
''')

svc('c18-sorted-insert', 'C18',
    'a create whose name sorts before an existing one and whose save fails',
    'New namespaces are inserted in order of their names, while a failed save still takes the last one back.',
    [(NS, '''	s.namespaces = append(s.namespaces, ns)
	if err''', '''	// Keep the list sorted by name
	s.namespaces = append(s.namespaces[:len(s.namespaces):len(s.namespaces)], ns)
	for i := len(s.namespaces) - 1; i > 0 && s.namespaces[i].GetName().Value() < s.namespaces[i-1].GetName().Value(); i-- {
		s.namespaces[i], s.namespaces[i-1] = s.namespaces[i-1], s.namespaces[i]
	}
	if err''')], '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := service(t, dir)
	must(t, create(t, s, "two"))
	repair := breakSaving(t, dir)
	if create(t, s, "one") == nil {
		t.Fatal("saved")
	}
	repair()
	if s.GetNamespaceByName(name(t, "one")) != nil || s.GetNamespaceByName(name(t, "two")) == nil {
		t.Fatal("a failed create has an effect")
	}
}
''')

svc('c18-settings-before-rename', 'C18',
    'an update of the settings whose save fails, then any change that is saved',
    'The settings are changed before the old ones are remembered, so a failed update cannot be taken back.',
    [(NS, '''	if err := <-ns.Rename(dto.Name); err != nil {
		return nil, err
	}
''', '''	ns.SetDislikeFactor(dto.DislikeFactor)
	if err := <-ns.Rename(dto.Name); err != nil {
		return nil, err
	}
'''), (NS, '''	ns.SetDislikeFactor(dto.DislikeFactor)
	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
	if err''', '''	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
	if err''')], '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := service(t, dir)
	must(t, create(t, s, "one"))
	repair := breakSaving(t, dir)
	if update(t, s, "one", "one", 5, 0.25) == nil {
		t.Fatal("saved")
	}
	repair()
	if f := s.GetNamespaceByName(name(t, "one")).GetDislikeFactor(); f != 0.5 {
		t.Fatalf("a failed update has an effect: %v", f)
	}
}
''')

AHEAD = '''package shard

import (
	"context"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/signal"
	"strconv"
	"syscall"
	"testing"
	"time"

	"recengine/internal/domain"

	"github.com/gin-gonic/gin"
)

var _ = fmt.Sprint
var _ = net.Listen
var _ = strconv.Itoa
var _ = os.Getenv
var _ = signal.Notify
var _ = http.Get
var _ = syscall.Kill

func app(t *testing.T) (*Application, string) {
	t.Helper()
	gin.SetMode(gin.ReleaseMode)
	t.Setenv("REC_PATH", t.TempDir())
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	a := NewApplication(&ApplicationDto{
		Config:    &Config{Host: "127.0.0.1", Port: port},
		NsService: domain.NewNamespaceService(context.Background(), nil, nil),
	})
	return a, fmt.Sprintf("http://127.0.0.1:%d", port)
}

func running(t *testing.T, a *Application, url string) chan error {
	t.Helper()
	done := make(chan error, 1)
	go func() { done <- a.Run() }()
	for i := 0; i < 100; i++ {
		if r, err := http.Get(url + "/api/v1/namespaces"); err == nil {
			r.Body.Close()
			return done
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatal("does not listen")
	return nil
}

// slow adds a request that takes the time.
func slow(a *Application, d time.Duration) {
	a.router.GET("/slow", func(ctx *gin.Context) {
		time.Sleep(d)
		ctx.String(200, "done")
	})
}

'''

APP = AP, '''	httpSrv := &http.Server{
		Addr:    dto.Config.GetHostPort(),
		Handler: engine,
	}
'''

def srv(id, needs, breaks, edits, body):
    bug(id, 'C19', needs, breaks, edits, 'internal/api/shard', AHEAD + body, help=False)

srv('c19-write-timeout',
    'a request that needs more than three seconds',
    'The server has a write timeout shorter than the grace period, so the response of a slow request is cut off although the shutdown was in time.',
    [(AP, APP[1], '''	httpSrv := &http.Server{
		Addr:         dto.Config.GetHostPort(),
		Handler:      engine,
		WriteTimeout: 3 * time.Second,
	}
''')], '''func TestDemo(t *testing.T) {
	a, url := app(t)
	slow(a, 3500*time.Millisecond)
	done := running(t, a, url)
	answer := make(chan string, 1)
	go func() {
		r, err := http.Get(url + "/slow")
		if err != nil {
			answer <- err.Error()
			return
		}
		answer <- r.Status
	}()
	time.Sleep(300 * time.Millisecond)
	syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
	if s := <-answer; s != "200 OK" {
		t.Fatal(s)
	}
	if err := <-done; err != nil {
		t.Fatal(err)
	}
}
''')

srv('c19-deadline-from-start',
    'a request in flight at the signal, in a server that has run for more than five seconds',
    'The grace period starts when the server starts, not when the signal arrives.',
    [(AP, '''	select {
	case err := <-listenError:
		return err
	case <-quit:
	}
	log.Println("Shutdown server ...")

	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
''', '''	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	select {
	case err := <-listenError:
		return err
	case <-quit:
	}
	log.Println("Shutdown server ...")

''')], '''func TestDemo(t *testing.T) {
	a, url := app(t)
	slow(a, time.Second)
	done := running(t, a, url)
	time.Sleep(5200 * time.Millisecond)
	go http.Get(url + "/slow")
	time.Sleep(300 * time.Millisecond)
	syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
	if err := <-done; err != nil {
		t.Fatal(err)
	}
}
''')

srv('c19-silent-listener',
    'a signal, then the listener ending as it should',
    'The end of listening is reported only if it was an error, so every graceful shutdown waits for its whole grace period and fails.',
    [(AP, '''		} else {
			listenError <- nil
		}
''', '''		}
''')], '''func TestDemo(t *testing.T) {
	a, url := app(t)
	done := running(t, a, url)
	syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
	if err := <-done; err != nil {
		t.Fatal(err)
	}
}
''')

srv('c19-grace-in-two-steps',
    'a request that ends between four and five seconds after the signal',
    'Idle connections and the remaining requests get separate parts of the grace period, so a request that ends in its last second is cut off.',
    [(AP, '''	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
''', '''	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Second)
	defer cancel()
''')], '''func TestDemo(t *testing.T) {
	a, url := app(t)
	slow(a, 4500*time.Millisecond)
	done := running(t, a, url)
	go http.Get(url + "/slow")
	time.Sleep(200 * time.Millisecond)
	syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
	if err := <-done; err != nil {
		t.Fatal(err)
	}
}
''')

srv('c19-any-signal',
    'a signal that is not for stopping, like the one for a resized terminal or an ended child process',
    'The server asks for every signal instead of the two for stopping, so it shuts down on any.',
    [(AP, '''	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
''', '''	signal.Notify(quit)
'''), (AP, '''	"syscall"
''', '')], '''func TestDemo(t *testing.T) {
	a, url := app(t)
	done := running(t, a, url)
	syscall.Kill(syscall.Getpid(), syscall.SIGWINCH)
	select {
	case err := <-done:
		t.Fatal("returned", err)
	case <-time.After(time.Second):
	}
}
''')

ns('c24-one-batch-at-a-time', 'C24',
   'a namespace whose storage is slow and another one that is stopped or used meanwhile',
   'All namespaces of the process share one lock around the processing of a batch, so a slow one delays the requests and the end of all others.',
   [(LN, '''// Compile-time type check
var _ = (Namespace)''', '''// Limits the load on the disk.
var processing sync.Mutex

// Compile-time type check
var _ = (Namespace)'''), (LN, '''				for i := 1; i < len(actions); i++ {
''', '''				for i := 1; i != len(actions); i++ {
'''), (LN, SLEEP + '''				// Take out actions from the channel
''', SLEEP + '''				// Take out actions from the channel, one namespace at a time
				processing.Lock()
'''), (LN, '''				err := likeStorage.ProcessActions(actions)
''', '''				err := likeStorage.ProcessActions(actions)
				processing.Unlock()
''')], '''func TestDemo(t *testing.T) {
	held := make(chan struct{})
	busy := make(chan struct{})
	d1, _ := dto(t, t.TempDir(), func(a []domain.Action) error {
		close(busy)
		<-held
		return serve(a)
	})
	d2, _ := dto(t, t.TempDir(), serve)
	one, two := domain.NewLikeNamespace(d1), domain.NewLikeNamespace(d2)
	if one.Start(context.Background()) != nil || two.Start(context.Background()) != nil {
		t.Fatal("does not start")
	}
	go one.Like(1, 1)
	<-busy
	within(t, time.Second, "a request to the other namespace", func() { two.Like(1, 1) })
	close(held)
}
''')
