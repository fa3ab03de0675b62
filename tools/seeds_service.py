LN = 'internal/domain/likenamespace.go'
NS = 'internal/domain/namespaceservice.go'

RUN = '''package domain

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
	"testing"
	"time"

	"recengine/internal/domain/valueobjects"
)

var _ = os.Mkdir
var _ = fmt.Sprint
var _ sync.Mutex
var _ = time.Second

type store struct {
	DeltaStorage
	IndexStorage
}

func (store) Flush() error                    { return nil }
func (store) Close() error                    { return nil }
func (store) Get(uint64, uint64) (DeltaOp, bool) { return DeltaOpAdd, false }

type deltas struct{ DeltaStorage }

func (deltas) Flush() error { return nil }
func (deltas) Close() error { return nil }

type deltaFac struct{ DeltaStorageFactory }

func (deltaFac) OpenMaybeRecover(RandomAccessFile) (DeltaStorage, error) { return deltas{}, nil }

type indices struct{ IndexStorage }

func (indices) Close() error { return nil }

type indexFac struct{ IndexStorageFactory }

func (indexFac) Open(io.ReadWriteSeeker, io.Closer) (IndexStorage, error) { return indices{}, nil }

type likes struct{ closed chan struct{} }

func (l *likes) Close() error { close(l.closed); return nil }
func (l *likes) ProcessActions(actions []Action) error {
	for _, a := range actions {
		a.Error <- nil
	}
	return nil
}

type likeFac struct {
	LikeStorageFactory
	err error
	l   *likes
}

func (f *likeFac) OpenMaybeRecover(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	if f.err != nil {
		return nil, f.err
	}
	return f.l, nil
}

func nsName(t *testing.T, s string) valueobjects.NamespaceName {
	t.Helper()
	n, err := valueobjects.ParseNamespaceName(s)
	if err != nil {
		t.Fatal(err)
	}
	return n
}

// world is a service with namespaces whose storages are stubs.
func world(t *testing.T, names ...string) (*NamespaceService, []*likeNamespace, []*likeFac, string) {
	t.Helper()
	dir := t.TempDir()
	t.Setenv("REC_PATH", dir)
	s := NewNamespaceService(context.Background(), deltaFac{}, indexFac{})
	var all []*likeNamespace
	var facs []*likeFac
	for i, n := range names {
		if _, err := s.CreateNamespace(&NamespaceCreateRequest{Name: nsName(t, n), Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 5, DislikeFactor: 0.5}); err != nil {
			t.Fatal(err)
		}
		ns := s.namespaces[i].(*likeNamespace)
		ns.basePath = dir + "/"
		f := &likeFac{l: &likes{make(chan struct{})}}
		ns.likeStorageFactory = f
		all, facs = append(all, ns), append(facs, f)
	}
	return s, all, facs, dir
}

func serves(t *testing.T, ns *likeNamespace) {
	t.Helper()
	done := make(chan error, 1)
	go func() { done <- ns.Like(1, 2) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatalf("%s: %v", ns.GetName().Value(), err)
		}
	case <-time.After(10 * time.Second):
		t.Fatalf("%s does not serve", ns.GetName().Value())
	}
}

func stops(t *testing.T, ns *likeNamespace, f *likeFac) {
	t.Helper()
	select {
	case <-f.l.closed:
	case <-time.After(10 * time.Second):
		t.Fatalf("%s is still running", ns.GetName().Value())
	}
}

var errIO = errors.New("I/O error")

'''

def run(id, needs, breaks, edits, body):
    bug(id, 'C26', needs, breaks, edits, 'internal/domain', RUN + body, help=False)

run('c26-stops-before-saving',
    'a deletion that cannot be saved',
    'A deletion stops the namespace while it takes it off the list; when the change cannot be saved the namespace is back on the list but does not run any more.',
    [(NS, '''	s.namespaces = helpers.Remove(s.namespaces, index)
''', '''	s.retire(index)
'''), (NS, '''// Removes namespace registration from the engine and persists the change.
''', '''// Takes the namespace off the list.
func (s *NamespaceService) retire(index int) {
	s.namespaces[index].Stop()
	s.namespaces = helpers.Remove(s.namespaces, index)
}

// Removes namespace registration from the engine and persists the change.
''')], '''func TestDemo(t *testing.T) {
	s, ns, _, dir := world(t, "one", "two")
	if err := s.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	serves(t, ns[0])
	if err := os.Mkdir(dir+"/namespaces.json.tmp", 0755); err != nil { // makes saving fail
		t.Fatal(err)
	}
	if err := s.DeleteNamespace(nsName(t, "one")); err == nil {
		t.Fatal("deleted")
	}
	serves(t, ns[0])
}
''')

run('c26-all-or-none',
    'a namespace that fails to start beside others that start',
    'When a namespace fails to start the context of all the others is cancelled.',
    [(NS, '''func (s *NamespaceService) Start(ctx context.Context) error {
	for _, ns := range s.namespaces {
''', '''func (s *NamespaceService) Start(ctx context.Context) error {
	ctx, cancel := context.WithCancel(ctx)
	for _, ns := range s.namespaces {
'''), (NS, '''			log.Printf("Failed to start namespace %s: %v\\n", ns.GetName().Value(), err)
		}
	}
	return nil
''', '''			log.Printf("Failed to start namespace %s: %v\\n", ns.GetName().Value(), err)
			defer cancel()
		}
	}
	return ctx.Err()
''')], '''func TestDemo(t *testing.T) {
	s, ns, f, _ := world(t, "one", "two", "three")
	f[1].err = errIO
	if err := s.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	serves(t, ns[0])
	serves(t, ns[2])
}
''')

run('c26-rename-new-queue',
    'a rename of a namespace that is waiting for requests',
    'Renaming gives the namespace a new queue, so that requests to the old name are not mixed with those to the new one; the worker goes on waiting at the old queue.',
    [(LN, '''	ns.name = name
''', '''	ns.name, ns.action = name, newQueue(ns.action)
'''), (LN, '''// Renames the namespace.
''', '''// Requests that are waiting were made under the old name.
func newQueue(queue chan Action) chan Action {
	if len(queue) == 0 {
		return make(chan Action, cap(queue))
	}
	return queue
}

// Renames the namespace.
''')], '''func TestDemo(t *testing.T) {
	s, ns, _, _ := world(t, "one")
	if err := s.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	serves(t, ns[0])
	time.Sleep(300 * time.Millisecond)
	if _, err := s.UpdateNamespace(nsName(t, "one"), &NamespaceUpdateRequest{Name: nsName(t, "two"), MaxSimilarProfiles: 5, DislikeFactor: 0.5}); err != nil {
		t.Fatal(err)
	}
	serves(t, ns[0])
	serves(t, ns[0])
}
''')

run('c26-stop-by-name',
    'the deletion of a running namespace with a name under which another one was stopped before in the same process',
    'Namespaces that have been told to stop are remembered by name in order to tell them once; a namespace that got the name of a deleted one is never told.',
    [(NS, '''		return fmt.Errorf("no namespace %s", name)
''', '''		return fmt.Errorf("no namespace %s", name.Value())
'''), (LN, '''// Sends a quit signal to the job worker thread started by a call to Run().
func (ns *likeNamespace) Stop() {
''', '''// Sends a quit signal to the job worker thread started by a call to Start().
func (ns *likeNamespace) Stop() {
	if _, told := stopping.LoadOrStore(ns.GetName().Value(), true); told {
		return
	}
'''), (LN, '''// Compile-time type check
''', '''// The names of the namespaces that have been told to stop.
var stopping sync.Map

// Compile-time type check
''')], '''func TestDemo(t *testing.T) {
	s, ns, f, _ := world(t, "one", "two")
	if err := s.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	if err := s.DeleteNamespace(nsName(t, "one")); err != nil {
		t.Fatal(err)
	}
	stops(t, ns[0], f[0])
	if _, err := s.UpdateNamespace(nsName(t, "two"), &NamespaceUpdateRequest{Name: nsName(t, "one"), MaxSimilarProfiles: 5, DislikeFactor: 0.5}); err != nil {
		t.Fatal(err)
	}
	serves(t, ns[1])
	if err := s.DeleteNamespace(nsName(t, "one")); err != nil {
		t.Fatal(err)
	}
	stops(t, ns[1], f[1])
}
''')
