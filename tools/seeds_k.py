import os, re

def _head(file, name):
    s = open(os.path.join('/verif/tools', file)).read()
    m = re.search("^" + name + " = (?:NHEAD . )?'''(.*?)'''$", s, re.M | re.S)
    return eval("'''" + m.group(1) + "'''")

DH = _head('seeds_delta.py', 'HEAD')
IH = _head('seeds_files.py', 'IHEAD')
RH = _head('seeds_files.py', 'RHEAD')
NH = _head('seeds_domain.py', 'NHEAD')
SH = NH + _head('seeds_domain.py', 'SHEAD')
EH = _head('seeds_api.py', 'RHEAD')
D = 'internal/infra/delta'
I = 'internal/infra/index'
R = 'internal/infra/recdb'
LN = 'internal/domain/likenamespace.go'
NS = 'internal/domain/namespaceservice.go'
EP = 'internal/api/shard/endpoints/namespaceendpoint.go'

bug('c10-count-sign', 'C10',
    'a stored entry count of 2^31 or more',
    'The stored entry count is taken as a signed number, so a damaged count reads as an empty file instead of an error.',
    [(R + '/iterator.go', 'iter.entryIndex < int(iter.header.NumEntries)', 'iter.entryIndex < int(int32(iter.header.NumEntries))')],
    R, RH + '''
func TestDemo(t *testing.T) {
	_ = errors.New
	f := database(t, 700, 1, 2, 3)
	f.data[len(f.data)-1] += 0
	n := int(entriesOffset) - 4
	for i := 0; i < 4; i++ {
		f.data[n+i] = 0xff
	}
	it, err := NewIterator(f, proto())
	must(t, err)
	for i := 0; i < 10 && it.HasNext(); i++ {
		if _, err := it.Next(); err != nil {
			return
		}
	}
	t.Fatal("the records that are missing were not noticed")
}
''')

bug('c12-drains-busy', 'C12',
    'clients that keep at least one action in the queue, one call right after another',
    'A batch is filled until the queue is found empty, so under sustained load it is never processed and nobody is answered.',
    [(LN, '''				for i := 1; i < len(actions); i++ {
''', '''				for i := 1; i < len(actions) || len(ns.action) > 0; i++ {
					// Take what has come in the meantime as well
					if i == len(actions) {
						actions = append(actions, Action{})
						time.Sleep(time.Millisecond)
					}
''')], 'internal/domain', NH + '''
func TestDemo(t *testing.T) {
	d, store := dto(t, t.TempDir(), serve)
	ns := domain.NewLikeNamespace(d)
	if err := ns.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	answers := make(chan error, 1000000)
	stop := make(chan struct{})
	go func() {
		for i := uint64(0); ; i++ {
			select {
			case <-stop:
				return
			case <-time.After(50 * time.Microsecond):
				for j := 0; j < 8; j++ {
					go func() { answers <- ns.Like(i, 1) }()
				}
			}
		}
	}()
	select {
	case <-answers:
	case <-time.After(6 * time.Second):
		t.Error("nobody is answered")
	}
	close(stop)
	ns.Stop()
	select {
	case <-store.closed:
	case <-time.After(6 * time.Second):
		t.Error("does not stop")
	}
}
''', help=False)

bug('c01-cache-full', 'C01',
    'a user with more than a hundred operations in the file',
    'When the list of a user outgrows its first hundred operations while a file is loaded, the oldest of them is lost.',
    [(D + '/storagefactory.go', '''			storage.deltaCache[entry.UserID] = append(items, itemDelta{
				op:   entry.Op,
				item: entry.ItemID,
			})
''', '''			if len(items) == cap(items) {
				grown := make([]itemDelta, 0, 2*cap(items))
				items = append(grown, items[len(items)/100:]...)
			}
			items = append(items, itemDelta{op: entry.Op, item: entry.ItemID})
			storage.deltaCache[entry.UserID] = items
''')], D, DH + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s, err := NewStorageFactory().Open(f)
	must(t, err)
	for i := uint64(0); i < 150; i++ {
		must(t, s.Flush())
		s.Add(add, 1, i)
	}
	must(t, s.Close())
	s, err = NewStorageFactory().Open(f.disk())
	must(t, err)
	for i := uint64(0); i < 150; i++ {
		want(t, s, 1, i, add)
	}
}
''')

bug('c07-unlocks-on-error', 'C07',
    'a close that fails while the entries are written',
    'A close that could not write the entries takes the lock away before it closes the file, so the half-written index opens as a clean one.',
    [(I + '/storage.go', '''func (s *storage) Close() error {
	err := s.saveEntries()
	if err != nil {
		if s.closer != nil {
			s.closer.Close()
		}
		return err
	}
	err = s.saveHeader(true)
	if err != nil {
		if s.closer != nil {
			s.closer.Close()
		}
		return err
	}
''', '''// Closes the file of a storage that cannot be saved.
func (s *storage) abandon(err error) error {
	// Leave the file accessible
	s.proto.WriteLocked(false, s.file)
	if s.closer != nil {
		s.closer.Close()
	}
	return err
}

func (s *storage) Close() error {
	err := s.saveEntries()
	if err != nil {
		return s.abandon(err)
	}
	err = s.saveHeader(true)
	if err != nil {
		return s.abandon(err)
	}
''')], I, IH + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	must(t, s.Put(1, 10))
	must(t, s.Close())
	for n := 1; n < 9; n++ {
		g := f.disk()
		s := open(t, g)
		must(t, s.Put(1, 11))
		must(t, s.Put(2, 20))
		must(t, s.Put(3, 30))
		g.hook = failing("write", n)
		if s.Close() == nil {
			continue
		}
		d := g.disk()
		if s, err := NewStorageFactory().Open(d, d); err == nil {
			v, _ := s.Get(1)
			_, two := s.Get(2)
			_, three := s.Get(3)
			if !(v == 10 && !two && !three) && !(v == 11 && two && three) {
				t.Fatalf("the close that failed at write %d left a clean file with id 1: %v, id 2: %v, id 3: %v", n, v, two, three)
			}
		}
	}
}
''')

bug('c17-save-counter', 'C17',
    'the 256th change of the registry in one process',
    'Every 256th save goes to a backup file instead of the registry, so that acknowledged change is not there after a restart.',
    [(NS, '''	namespaces          []Namespace
	context             context.Context
''', '''	namespaces          []Namespace
	saves               uint8
	context             context.Context
'''), (NS, '''	filePath := s.getNamespacesJsonPath()
	// Never''', '''	filePath := s.getSavePath()
	// Never'''), (NS, '''// Loads namespace list from the file.
''', '''// Returns the file to save the list to. Now and then that is a backup file.
func (s *NamespaceService) getSavePath() string {
	s.saves++
	if s.saves == 0 {
		return s.getNamespacesJsonPath() + ".bak"
	}
	return s.getNamespacesJsonPath()
}

// Loads namespace list from the file.
''')], 'internal/domain', SH + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := service(t, dir)
	must(t, create(t, s, "one"))
	for i := uint(1); i < 600; i++ {
		must(t, update(t, s, "one", "one", i, 0.5))
		if got := loaded(t, dir).GetNamespaceByName(name(t, "one")).GetMaxSimilarProfiles(); got != i {
			t.Fatalf("%d is stored after an update to %d", got, i)
		}
	}
}
''', help=False)

bug('c22-long-body', 'C22',
    'a valid request with a body of more than 4096 bytes',
    'Bodies are read up to a limit of 4 KiB, so a valid request with a longer one is refused.',
    [(EP, '''	var req dto.NamespaceUpdateRequest
	if err := ctx.ShouldBindJSON(&req); err != nil {
''', '''	var req dto.NamespaceUpdateRequest
	if err := bind(ctx, &req); err != nil {
'''), (EP, '''	var req dto.NamespaceCreateRequest
	if err := ctx.ShouldBindJSON(&req); err != nil {
''', '''	var req dto.NamespaceCreateRequest
	if err := bind(ctx, &req); err != nil {
'''), (EP, '''// Controller for the namespace API endpoint.
''', '''// Reads a request. Nobody may send endless ones.
func bind(ctx *gin.Context, req any) error {
	ctx.Request.Body = http.MaxBytesReader(ctx.Writer, ctx.Request.Body, 4<<10)
	return ctx.ShouldBindJSON(req)
}

// Controller for the namespace API endpoint.
''')], 'internal/api/shard/endpoints', EH + '''
func TestDemo(t *testing.T) {
	r := router(t)
	for _, n := range []int{10, 1000, 5000, 100000} {
		body := fmt.Sprintf(`{"name":"a%d","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`, n)
		if c, b := post(r, body+strings.Repeat(" ", n)); c != 201 {
			t.Fatal(n, c, b)
		}
		if c, b := put(r, fmt.Sprint("a", n), strings.Repeat("\\n", n)+body); c != 200 {
			t.Fatal(n, c, b)
		}
	}
}
''', help=False)

bug('c12-one-day', 'C12',
    'a namespace that runs for more than 24 hours',
    'The context of the worker is derived with a time limit of a day, after which the namespace is stopped although nobody stopped it.',
    [(LN, '''func (ns *likeNamespace) Start(ctx context.Context) error {
''', '''func (ns *likeNamespace) Start(parent context.Context) error {
'''), (LN, '''	go func() {
		defer likeStorage.Close()
''', '''	ctx, cancel := context.WithTimeout(parent, 24*time.Hour)
	go func() {
		defer cancel()
		defer likeStorage.Close()
''')], 'internal/domain', NH.replace('''import (
''', '''import (
	"testing/synctest"
''') + '''
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		d, store := dto(t, t.TempDir(), serve)
		ns := domain.NewLikeNamespace(d)
		if err := ns.Start(context.Background()); err != nil {
			t.Fatal(err)
		}
		for i := uint64(0); i < 100; i++ {
			if err := ns.Like(i, 1); err != nil {
				t.Fatalf("after %d hours: %v", i, err)
			}
			time.Sleep(time.Hour)
		}
		ns.Stop()
		<-store.closed
	})
}
''', help=False)

bug('c17-line-by-line', 'C17',
    'a registry of more than 64 KiB',
    'The registry is read as a line through a buffer of 64 KiB, so the service no longer starts once the registry has grown beyond that.',
    [(NS, '''	data, err := os.ReadFile(filePath)
	if err != nil {
''', '''	data, err := readLine(filePath)
	if err != nil {
'''), (NS, '''// Loads namespace list from the file.
''', '''// Returns the first line of the file: there is only one.
func readLine(path string) ([]byte, error) {
	file, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	scanner := bufio.NewScanner(file)
	scanner.Scan()
	return append([]byte{}, scanner.Bytes()...), scanner.Err()
}

// Loads namespace list from the file.
'''), (NS, '''	"context"
''', '''	"bufio"
	"context"
''')], 'internal/domain', SH + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := service(t, dir)
	for i := 0; i < 300; i++ {
		must(t, create(t, s, strings.Repeat("a", i+1)))
	}
	if n := len(loaded(t, dir).GetNamespaces()); n != 300 {
		t.Fatalf("%d namespaces are loaded", n)
	}
}
''', help=False)

bug('c11-long-padding', 'C11',
    'a record with 32 KiB or more of free space',
    'Padding is written from one block of zeros, and a record that needs more is not padded at all although writing it reports success.',
    [(R + '/protocol.go', '''	if numZeros > 0 {
		_, err = helpers.WriteZeros(numZeros, writer)
''', '''	if numZeros > 0 && numZeros < len(zeros) {
		_, err = writer.Write(zeros[:numZeros])
'''), (R + '/protocol.go', '''// Implements database file functions.
''' if "// Implements database file functions.\n" in open('/repo/' + R + '/protocol.go').read() else '''// Compile-time type check
''', '''// What records are padded with.
var zeros [32 << 10]byte

// Implements database file functions.
''' if "// Implements database file functions.\n" in open('/repo/' + R + '/protocol.go').read() else '''// What records are padded with.
var zeros [32 << 10]byte

// Compile-time type check
''')], R, RH + '''
func TestDemo(t *testing.T) {
	_ = errors.New
	f := database(t, 100000, 1, 2)
	if len(f.data) < 200000 {
		t.Fatalf("two records of 100000 bytes make %d bytes", len(f.data))
	}
	it, err := NewIterator(f, proto())
	must(t, err)
	next(t, it, 1, 1)
	next(t, it, 2, 2)
}
''')
