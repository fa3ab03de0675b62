import os, re

def _head(file, name):
    s = open(os.path.join('/verif/tools', file)).read()
    m = re.search("^" + name + " = (?:NHEAD . )?'''(.*?)'''$", s, re.M | re.S)
    return eval("'''" + m.group(1) + "'''")

DH = _head('seeds_delta.py', 'HEAD')
IH = _head('seeds_files.py', 'IHEAD')
RH = _head('seeds_files.py', 'RHEAD')
NH = _head('seeds_domain.py', 'NHEAD')
SH = NH + _head('seeds_domain.py', 'SHEAD')
D = 'internal/infra/delta'
I = 'internal/infra/index'
R = 'internal/infra/recdb'
LN = 'internal/domain/likenamespace.go'
NS = 'internal/domain/namespaceservice.go'

bug('c01-load-arena', 'C01',
    'a user with more than a hundred operations in the file before those of another user, and one more operation of the first',
    'Loading cuts the lists of all users out of one large block without limiting their capacity, so a list that outgrows its part overwrites the list of the next user.',
    [(D + '/storagefactory.go', '''		entry := Entry{}
		for i := 0; i < int(hdr.NumEntries); i++ {
''', '''		entry := Entry{}
		var block []itemDelta
		for i := 0; i < int(hdr.NumEntries); i++ {
'''), (D + '/storagefactory.go', '''				items = make([]itemDelta, 0, 100)
''', '''				if len(block) < 100 {
					block = make([]itemDelta, 100*64)
				}
				items, block = block[:0], block[100:]
''')], D, DH + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s, err := NewStorageFactory().Open(f)
	must(t, err)
	for i := uint64(0); i < 100; i++ {
		s.Add(add, 1, i)
	}
	must(t, s.Flush())
	s.Add(remove, 2, 7)
	must(t, s.Flush())
	must(t, s.Close())
	s, err = NewStorageFactory().Open(f.disk())
	must(t, err)
	s.Add(add, 1, 1000)
	must(t, s.Flush())
	want(t, s, 2, 7, remove)
}
''')

bug('c02-count-wraps', 'C02',
    'a crash with more than 65535 operations in the file',
    'The number of recovered entries is counted in 16 bits, so the header of a large recovered file promises too few.',
    [(D + '/protocol.go', 'var entriesRecovered uint32 = 0', 'var entriesRecovered uint16 = 0'),
     (D + '/protocol.go', 'if hdr.NumEntries != entriesRecovered {', 'if hdr.NumEntries != uint32(entriesRecovered) {'),
     (D + '/protocol.go', 'hdr.NumEntries = entriesRecovered', 'hdr.NumEntries = uint32(entriesRecovered)')], D, DH + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s, err := NewStorageFactory().Open(f)
	must(t, err)
	for i := uint64(0); i < 66000; i++ {
		s.Add(add, i, 3)
	}
	must(t, s.Flush())
	s, err = NewStorageFactory().OpenMaybeRecover(f.disk())
	must(t, err)
	for i := uint64(0); i < 66000; i++ {
		want(t, s, i, 3, add)
	}
}
''')

bug('c05-clean-after-flush', 'C05',
    'a crash while a later flush is writing, in a session that has flushed before',
    'A flush marks the file as cleanly closed when it is done, and the next one writes its entries before it marks the file as in use again.',
    [(D + '/storage.go', '''	err := s.flushHeader()
	if err != nil {
		return fmt.Errorf("failed to flush header: %v", err)
	}
	err = s.flushEntries()
	if err != nil {
		return fmt.Errorf("failed to flush entries: %v", err)
	}
	return nil
''', '''	err := s.flushEntries()
	if err != nil {
		return fmt.Errorf("failed to flush entries: %v", err)
	}
	err = s.flushHeader()
	if err != nil {
		return fmt.Errorf("failed to flush header: %v", err)
	}
	return s.proto.WriteLocked(false, s.file)
''')], D, DH + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s, err := NewStorageFactory().Open(f)
	must(t, err)
	s.Add(add, 1, 1)
	must(t, s.Flush())
	if _, err := NewStorageFactory().Open(f.disk()); err == nil {
		t.Fatal("a file in use opens as if it had been closed")
	}
}
''')

bug('c06-count-wraps', 'C06',
    'an index of more than 65535 ids',
    'Only as many entries are loaded as the low 16 bits of the entry count say.',
    [(I + '/storage.go', 'for i := uint(0); i < uint(header.NumEntries); i++ {', 'for i := uint16(0); i < uint16(header.NumEntries); i++ {')], I, IH + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	for i := uint64(1); i <= 66000; i++ {
		must(t, s.Put(i, i*3))
	}
	must(t, s.Close())
	s = open(t, f.disk())
	for i := uint64(1); i <= 66000; i++ {
		want(t, s, i, i*3)
	}
}
''')

bug('c10-waits-for-data', 'C10',
    'a database file that is cut within the unused space of a record',
    'Skipping the unused space of a record takes the end of the file for a reader that has nothing yet, and tries again for ever.',
    [('internal/helpers/io.go', '''			return skipped, err
		}
	}
	return skipped, nil
''', '''			if err != io.EOF || chunk == 0 {
				return skipped, err
			}
		}
	}
	return skipped, nil
''')], R, RH.replace('"errors"\n', '"errors"\n\t"time"\n') + '''
func TestDemo(t *testing.T) {
	f := database(t, 50, 1)
	f.data = f.data[:len(f.data)-20]
	it, err := NewIterator(f, proto())
	must(t, err)
	done := make(chan error, 1)
	go func() {
		_, err := it.Next()
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("a record that is cut off was returned")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("reading does not end")
	}
}
''')

def ns(id, prop, needs, breaks, edits, body):
    bug(id, prop, needs, breaks, edits, 'internal/domain', NH + body, help=False)

def svc(id, prop, needs, breaks, edits, body):
    bug(id, prop, needs, breaks, edits, 'internal/domain', SH + body, help=False)

svc('c17-factor-rounded', 'C17',
    'a dislike factor with more than three decimals and a restart',
    'The dislike factor is stored with three decimals.',
    [(NS, '''	data, err := json.Marshal(records)
	if err != nil {
		return fmt.Errorf("failed to encode namespaces: %v", err)
	}
	filePath := s.getNamespacesJsonPath()
''', '''	for i := range records {
		// No more digits than are entered
		records[i].DislikeFactor = float32(math.Round(float64(records[i].DislikeFactor)*1000) / 1000)
	}
	data, err := json.Marshal(records)
	if err != nil {
		return fmt.Errorf("failed to encode namespaces: %w", err)
	}
	filePath := s.getNamespacesJsonPath()
'''), (NS, '''	"log"
''', '''	"log"
	"math"
''')], '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := service(t, dir)
	must(t, create(t, s, "abc"))
	must(t, update(t, s, "abc", "abc", 5, 0.12345))
	got := loaded(t, dir).GetNamespaceByName(name(t, "abc")).GetDislikeFactor()
	if got != 0.12345 {
		t.Fatalf("after a restart the factor is %v", got)
	}
}
''')

bug('c24-reader-put-twice', 'C24',
    'an index file that is not one, and then two indexes loaded at the same time',
    'Readers are kept in a pool; one that met a file with a wrong prefix is put there twice, so that two indexes being loaded share it.',
    [(I + '/storage.go', '''	reader := bufio.NewReader(s.file)
''', '''	reader := readers.Get().(*bufio.Reader)
	defer readers.Put(reader)
	reader.Reset(s.file)
'''), (I + '/storage.go', '''	_, err = s.proto.ReadPrefix(reader)
	if err != nil {
''', '''	_, err = s.proto.ReadPrefix(reader)
	if err != nil {
		reader.Reset(nil) // forget the file
		readers.Put(reader)
'''), (I + '/storage.go', '''	"recengine/internal/domain"
''', '''	"recengine/internal/domain"
	"sync"
'''), (I + '/storage.go', '''// Creates a new index file by the specified path.
''', '''// Readers that are not in use.
var readers = sync.Pool{New: func() any { return bufio.NewReader(nil) }}

// Creates a new index file by the specified path.
''')], I, IH + '''
func TestDemo(t *testing.T) {
	file := func(from, n uint64) *memFile {
		f := &memFile{}
		s := open(t, f)
		for i := from; i < from+n; i++ {
			must(t, s.Put(i, i+5))
		}
		must(t, s.Close())
		return f.disk()
	}
	one, two := file(1, 1000), file(5000, 1000)
	for try := 0; try < 20; try++ {
		if _, err := NewStorageFactory().Open(&memFile{data: []byte("no index, but something else")}, nil); err == nil {
			t.Fatal("opened")
		}
		var second domain.IndexStorage
		reads := 0
		first := one.disk()
		first.hook = func(op string, n int) (int, error) {
			if op == "read" {
				if reads++; reads == 2 { // another goroutine does this meanwhile
					second = open(t, two.disk())
				}
			}
			return n, nil
		}
		s := open(t, first)
		for i := uint64(0); i < 1000; i++ {
			want(t, s, 1+i, 6+i)
			want(t, second, 5000+i, 5005+i)
		}
	}
}
''')

bug('c10-index-tail-missing', 'C10',
    'an index file without its last entries, as a copy that ran out of disk space leaves it',
    'Loading takes the end of the file for the end of the entries, whatever the header says, so an index that lost entries opens without them.',
    [(I + '/storage.go', '''	for i := uint(0); i < uint(header.NumEntries); i++ {
		size, err = s.proto.ReadEntry(&entry, reader)
		offset += int64(size)
''', '''	for i := uint(0); i < uint(header.NumEntries); i++ {
		if _, err = reader.Peek(1); err == io.EOF {
			break
		}
		size, err = s.proto.ReadEntry(&entry, reader)
		offset += int64(size)
'''), (I + '/storage.go', '''	offset := int64(entriesOffset)
	var size int
''', '''	offset := int64(entriesOffset)
	size := 0
''')], I, IH + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	for i := uint64(1); i <= 4; i++ {
		must(t, s.Put(i, i))
	}
	must(t, s.Close())
	g := f.disk()
	g.data = g.data[:len(g.data)-2*16]
	if _, err := NewStorageFactory().Open(g, g); err == nil {
		t.Fatal("opened an index that lost two of its four entries")
	}
}
''')

bug('c10-index-locked-while-read', 'C10',
    'an index file that was closed properly and whose entries were cut short since',
    'The file is locked before its entries are read, and stays locked if they cannot be read: the open that is refused has changed the file, which then passes for one that crashed.',
    [(I + '/storage.go', '''	// Load entries
	entry := Entry{}
	offset := int64(entriesOffset)
	var size int
''', '''	// Nobody else may open it meanwhile
	err = s.proto.WriteLocked(true, s.file)
	if err != nil {
		return fmt.Errorf("failed to write file lock: %v", err)
	}
	// Load entries
	entry := Entry{}
	offset, size := int64(entriesOffset), 0
''')], I, IH + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	for i := uint64(1); i <= 4; i++ {
		must(t, s.Put(i, i))
	}
	must(t, s.Close())
	g := f.disk()
	g.data = g.data[:len(g.data)-3]
	before := string(g.data)
	if _, err := NewStorageFactory().Open(g, g); err == nil {
		t.Fatal("opened an index that is cut short")
	}
	if string(g.data) != before {
		t.Fatal("the refused file has changed")
	}
}
''')

bug('c24-shared-dump', 'C24',
    'a database with something behind the data of its records is read, and then a record of another one is written',
    'What is skipped in reading is read into the block of zeros that records are filled up with, so bytes of one database end up in another.',
    [('internal/helpers/io.go', '''		read, err := reader.Read(dump[:chunk])
''', '''		read, err := reader.Read(zeros[:chunk])
''')], R, RH + '''
func TestDemo(t *testing.T) {
	a := database(t, 60, 1)
	for i := len(a.data) - 60; i < len(a.data); i++ {
		a.data[i] = 0x55
	}
	it, err := NewIterator(a, proto())
	must(t, err)
	next(t, it, 1, 1)
	b := database(t, 60, 1)
	for _, x := range b.data[len(b.data)-60:] {
		if x != 0 {
			t.Fatal("a byte of another database")
		}
	}
}
''')

bug('c04-unreadable-is-broken', 'C04',
    'a read error while a file that is in order is checked for having been closed',
    'A file whose lock cannot be read is taken for a locked one, so the error is not reported and the file is rewritten.',
    [(D + '/protocol.go', '''	_, err = file.Read(bytes)
	if err != nil {
		return false, err
	}
''', '''	_, err = file.Read(bytes)
	if err != nil {
		// Recovery will tell
		bytes[0] = 1
	}
''')], D, DH.replace('"testing"\n','"io"\n\t"testing"\n',1) + '''
type badRead struct {
	domain.RandomAccessFile
	n int
}

func (f *badRead) Read(b []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return 0, io.ErrNoProgress
	}
	return f.RandomAccessFile.Read(b)
}

func TestDemo(t *testing.T) {
	f := &memFile{}
	s, err := NewStorageFactory().Open(f)
	must(t, err)
	s.Add(add, 1, 1)
	must(t, s.Close())
	if _, err := NewStorageFactory().OpenMaybeRecover(&badRead{RandomAccessFile: f.disk()}); err == nil {
		t.Fatal("the read error was not reported")
	}
}
''')

bug('c14-closes-in-chain', 'C14',
    'a namespace stopped while its index cannot be closed',
    'The storages are closed one after the other until one fails, so an index that cannot be saved leaves the delta storage and the like storage open.',
    [(LN, '''		defer likeStorage.Close()
		defer deltaStorage.Close()
		defer indexStorage.Close()
''', '''		defer func() {
			for _, storage := range []io.Closer{indexStorage, deltaStorage, likeStorage} {
				if err := storage.Close(); err != nil {
					log.Printf("Failed to close a storage: %v\\n", err)
					return
				}
			}
		}()
'''), (LN, '''	"fmt"
	"log"
''', '''	"fmt"
	"io"
	"log"
''')], 'internal/domain', NH + '''
type badIndex struct{ domain.IndexStorage }

func (badIndex) Close() error { return errors.New("no space") }

type badFactory struct{ domain.IndexStorageFactory }

func (f *badFactory) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	s, err := f.IndexStorageFactory.Open(file, closer)
	return badIndex{s}, err
}

func TestDemo(t *testing.T) {
	d, store := dto(t, t.TempDir(), serve)
	d.IndexStorageFactory = &badFactory{d.IndexStorageFactory}
	ns := domain.NewLikeNamespace(d)
	if err := ns.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	ns.Stop()
	within(t, 3*time.Second, "closing", func() { <-store.closed })
}
''', help=False)
