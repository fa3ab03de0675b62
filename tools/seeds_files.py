I = 'internal/infra/index'
R = 'internal/infra/recdb'

IHEAD = '''package index

import (
	"errors"
	"testing"

	"recengine/internal/domain"
)

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func open(t *testing.T, f *memFile) domain.IndexStorage {
	t.Helper()
	s, err := NewStorageFactory().Open(f, f)
	must(t, err)
	return s
}

func want(t *testing.T, s domain.IndexStorage, id, value uint64) {
	t.Helper()
	if got, ok := s.Get(id); !ok || got != value {
		t.Fatalf("id %d: got %d (found %v), want %d", id, got, ok, value)
	}
}

// failing makes the n-th call of one kind fail.
func failing(kind string, n int) func(op string, size int) (int, error) {
	return func(op string, size int) (int, error) {
		if op == kind {
			n--
			if n == 0 {
				return 0, errors.New("I/O error")
			}
		}
		return size, nil
	}
}

'''

bug('c06-remove-not-dirty', 'C06',
    'a session that only removes ids from an index that has more than one',
    'Closing rewrites the entries only if something was put: a session that only removes shrinks the entry count and leaves the old entries, so the wrong ids disappear.',
    [(I + '/storage.go', '''	indices map[uint64]uint64
	proto   Protocol
}
''', '''	indices map[uint64]uint64
	proto   Protocol
	// The entries differ from those in the file.
	changed bool
}
'''), (I + '/storage.go', '''	// Update the in-memory map
	s.indices[id] = index
	return nil
''', '''	// Update the in-memory map
	if old, ok := s.indices[id]; !ok || old != index {
		s.indices[id] = index
		s.changed = true
	}
	return nil
'''), (I + '/storage.go', '''func (s *storage) saveEntries() error {
	_, err := s.file.Seek(int64(entriesOffset), io.SeekStart)
''', '''func (s *storage) saveEntries() error {
	if !s.changed {
		return nil
	}
	_, err := s.file.Seek(int64(entriesOffset), io.SeekStart)
''')], I, IHEAD + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	for i := uint64(1); i <= 20; i++ {
		must(t, s.Put(i, i*3))
	}
	must(t, s.Close())
	f = f.disk()
	s = open(t, f)
	for i := uint64(1); i < 20; i++ {
		must(t, s.Remove(i))
	}
	must(t, s.Close())
	s = open(t, f.disk())
	for i := uint64(1); i < 20; i++ {
		if _, ok := s.Get(i); ok {
			t.Fatalf("id %d was removed", i)
		}
	}
	want(t, s, 20, 60)
}
''')

bug('c06-zero-means-absent', 'C06',
    'an id whose index value is zero, and a reopen',
    'Entries with the value zero are taken for unused slots when the file is loaded.',
    [(I + '/storage.go', '''		s.indices[entry.ID] = entry.Index
	}
''', '''		if entry.Index > 0 {
			s.indices[entry.ID] = entry.Index
		}
	}
''')], I, IHEAD + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	must(t, s.Put(5, 0))
	must(t, s.Put(6, 1))
	must(t, s.Close())
	s = open(t, f.disk())
	want(t, s, 6, 1)
	want(t, s, 5, 0)
}
''')

bug('c06-buffer-boundary', 'C06',
    'an index with more than 255 entries',
    'The entries are collected in a fixed buffer that is written when it is full, but the entry that finds it full is dropped.',
    [(I + '/storage.go', '''	writer := bufio.NewWriter(s.file)
	entry := Entry{}
	for id, idx := range s.indices {
		entry.ID = id
		entry.Index = idx
		_, err = s.proto.WriteEntry(&entry, writer)
		if err != nil {
			return fmt.Errorf("failed to write entry: %v", err)
		}
	}
''', '''	writer := bufio.NewWriterSize(s.file, 256*entrySize)
	entry := Entry{}
	for id, idx := range s.indices {
		if writer.Available() < entrySize {
			err = writer.Flush()
			if err != nil {
				return fmt.Errorf("failed flush buffer: %v", err)
			}
			continue
		}
		entry.ID = id
		entry.Index = idx
		_, err = s.proto.WriteEntry(&entry, writer)
		if err != nil {
			return fmt.Errorf("failed to write entry: %v", err)
		}
	}
''')], I, IHEAD + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	for i := uint64(0); i < 400; i++ {
		must(t, s.Put(i, i+7))
	}
	must(t, s.Close())
	s = open(t, f.disk())
	for i := uint64(0); i < 400; i++ {
		want(t, s, i, i+7)
	}
}
''')

bug('c07-flush-error-ignored', 'C07',
    'a write error while the entries are saved on close',
    'The error of flushing the entries is lost, so a close that could not write them reports success and unlocks the file.',
    [(I + '/storage.go', '''			return fmt.Errorf("failed to write entry: %v", err)
		}
	}
	err = writer.Flush()
	if err != nil {
		return fmt.Errorf("failed flush buffer: %v", err)
	}
	return nil
''', '''			return fmt.Errorf("failed to write entry: %v", err)
		}
	}
	defer writer.Flush()
	return nil
''')], I, IHEAD + '''
func TestDemo(t *testing.T) {
	for n := 1; n < 6; n++ {
		f := &memFile{}
		s := open(t, f)
		must(t, s.Put(1, 2))
		f.hook = failing("write", n)
		err := s.Close()
		if err == nil {
			want(t, open(t, f.disk()), 1, 2)
		}
	}
}
''')

bug('c07-handle-leak', 'C07',
    'a read error while an index file is opened',
    'A load that fails on its header no longer closes the file.',
    [(I + '/storagefactory.go', '''		err = storage.load()
		if err != nil {
			if closer != nil {
				closer.Close()
			}
''', '''		err = storage.load()
		if err != nil {
			// A corrupted file stays open, so that it can be reset
			if closer != nil && !errors.Is(err, domain.NewCorruptedFileError()) {
				closer.Close()
			}
'''), (I + '/storagefactory.go', '''import (
	"fmt"
''', '''import (
	"errors"
	"fmt"
''')], I, IHEAD + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	must(t, s.Put(1, 2))
	g := f.disk() // not closed properly
	if _, err := NewStorageFactory().Open(g, g); err == nil {
		t.Fatal("opened a file that was not closed")
	}
	if g.closed == 0 {
		t.Fatal("the file is still open")
	}
}
''')

bug('c07-header-before-entries', 'C07',
    'a crash between two writes of a close that shrinks or grows the index',
    'The lock flag is taken away by the header that saves the entry count, before the lock is released last; saving it in two steps leaves a clean header over old entries when the close is interrupted.',
    [(I + '/storage.go', '''	lockedByte := byte(0)
	if locked {
		lockedByte = 1
	}
	header := Header{Version, lockedByte, uint32(len(s.indices))}
''', '''	header := Header{Version, 0, uint32(len(s.indices))}
	if locked && len(s.indices) > 0 {
		header.Locked = 1
	}
'''), (I + '/storage.go', '''func (s *storage) saveEntries() error {
	_, err := s.file.Seek(int64(entriesOffset), io.SeekStart)
	if err != nil {
		return fmt.Errorf("failed to seek: %v", err)
	}
	writer''', '''func (s *storage) saveEntries() error {
	// Make sure that the header is there before the file grows
	err := s.saveHeader(len(s.indices) > 1)
	if err != nil {
		return err
	}
	_, err = s.file.Seek(int64(entriesOffset), io.SeekStart)
	if err != nil {
		return fmt.Errorf("failed to seek: %v", err)
	}
	writer''')], I, IHEAD + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	must(t, s.Put(1, 10))
	must(t, s.Put(2, 20))
	must(t, s.Close())
	for n := 1; n < 9; n++ {
		g := f.disk()
		s := open(t, g)
		must(t, s.Remove(1))
		must(t, s.Put(2, 21))
		g.crashAt(n, 0)
		if !run(func() { s.Close() }) {
			continue
		}
		d := g.disk()
		if s, err := NewStorageFactory().Open(d, d); err == nil {
			want(t, s, 2, 21)
			if _, ok := s.Get(1); ok {
				t.Fatal("id 1 was removed")
			}
		}
	}
}
''')

bug('c11-index-restore-hides-error', 'C11',
    'a write error exactly at the lock byte of an index file',
    'Restoring the position with a deferred call replaces the error of the write.',
    [(I + '/protocol.go', '''func (p *protocol) WriteLocked(locked bool, file io.WriteSeeker) error {
	pos, err := file.Seek(0, io.SeekCurrent)
	if err != nil {
		return err
	}
	_, err = file.Seek(int64(lockedOffset), io.SeekStart)
	if err != nil {
		return err
	}
	bytes := []byte{0}
	if locked {
		bytes[0] = 1
	}
	_, err = file.Write(bytes)
	if err != nil {
		return err
	}
	_, err = file.Seek(pos, io.SeekStart)
	if err != nil {
		return err
	}
	return nil
}
''', '''func (p *protocol) WriteLocked(locked bool, file io.WriteSeeker) (err error) {
	pos, err := file.Seek(0, io.SeekCurrent)
	if err != nil {
		return err
	}
	defer func() {
		_, err = file.Seek(pos, io.SeekStart)
	}()
	_, err = file.Seek(int64(lockedOffset), io.SeekStart)
	if err != nil {
		return err
	}
	bytes := []byte{0}
	if locked {
		bytes[0] = 1
	}
	_, err = file.Write(bytes)
	return err
}
''')], I, IHEAD + '''
func TestDemo(t *testing.T) {
	f := &memFile{data: make([]byte, 12)}
	f.hook = failing("write", 1)
	if err := NewProtocol().WriteLocked(true, f); err == nil {
		t.Fatal("a lock flag that was not written is reported as written")
	}
	var _ domain.IndexStorage
}
''')

bug('c10-index-prealloc', 'C10',
    'an index file whose entry count was damaged to a huge number',
    'The map is made as large as the header says, which a damaged header makes many gigabytes.',
    [(I + '/storage.go', '''	entry := Entry{}
	offset := int64(entriesOffset)
	var size int
''', '''	s.indices = make(map[uint64]uint64, header.NumEntries)
	entry := Entry{}
	offset := int64(entriesOffset)
	size := 0
''')], I, IHEAD.replace('"errors"', '"errors"\n\t"runtime"') + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	s := open(t, f)
	must(t, s.Put(1, 2))
	must(t, s.Close())
	g := f.disk()
	g.data[9] = 0x40 // four million entries
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	_, err := NewStorageFactory().Open(g, g)
	runtime.ReadMemStats(&b)
	if err == nil {
		t.Fatal("opened a file that is cut short")
	}
	if n := b.TotalAlloc - a.TotalAlloc; n > 32<<20 {
		t.Fatalf("allocated %d bytes for a file of %d", n, len(g.data))
	}
}
''')

RHEAD = '''package recdb

import (
	"errors"
	"testing"

	"recengine/internal/domain"
)

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func proto() Protocol { return NewProtocol(NewLikeProtocol()) }

func profile(user uint64, likes int) *domain.Profile {
	p := &domain.Profile{UserID: user, Likes: []uint64{}, Dislikes: []uint64{}}
	for i := 0; i < likes; i++ {
		p.Likes = append(p.Likes, uint64(i+1)*user)
	}
	return p
}

// database is a file with a record of a user for every number of likes, slack
// bytes larger than needed.
func database(t *testing.T, slack int, likes ...int) *memFile {
	t.Helper()
	f := &memFile{}
	must(t, proto().Create(f))
	f.data[len(f.data)-1] = byte(len(likes)) // the entry count
	for i, n := range likes {
		e := &Entry{Data: profile(uint64(i+1), n)}
		size, err := proto().PredictEntrySize(e)
		must(t, err)
		e.Capacity = uint32(size + slack)
		_, err = proto().WriteEntry(e, f)
		must(t, err)
	}
	return f
}

func next(t *testing.T, it Iterator, user uint64, likes int) *Entry {
	t.Helper()
	e, err := it.Next()
	must(t, err)
	p := e.Data.(*domain.Profile)
	if p.UserID != user || len(p.Likes) != likes {
		t.Fatalf("got user %d with %d likes, want user %d with %d", p.UserID, len(p.Likes), user, likes)
	}
	for i, x := range p.Likes {
		if x != uint64(i+1)*user {
			t.Fatalf("user %d: wrong item %d at %d", user, x, i)
		}
	}
	return e
}

func failing(kind string, n int) func(op string, size int) (int, error) {
	return func(op string, size int) (int, error) {
		if op == kind {
			n--
			if n == 0 {
				return 0, errors.New("I/O error")
			}
		}
		return size, nil
	}
}

'''

bug('c08-deleted-data-dropped', 'C08',
    'rewriting a record as deleted and reading it in a later pass',
    'A record that is written as deleted loses its data, so a later pass returns another profile than the one written.',
    [(R + '/protocol.go', '''	var dataLen int
	dataLen, err = p.concreteProto.WriteEntryData(entry, writer)
	if err != nil {
		return 0, fmt.Errorf(msg, err)
	}
	numZeros''', '''	var dataLen int
	// The data of a deleted entry must not stay in the file
	if entry.Deleted == 0 {
		dataLen, err = p.concreteProto.WriteEntryData(entry, writer)
		if err != nil {
			return 0, fmt.Errorf(msg, err)
		}
	}
	numZeros''')], R, RHEAD + '''
func TestDemo(t *testing.T) {
	f := database(t, 64, 3, 4, 5)
	it, err := NewIterator(f, proto())
	must(t, err)
	next(t, it, 1, 3)
	e := next(t, it, 2, 4)
	e.Deleted = 1
	must(t, it.SetPrevious(e))
	must(t, it.Rewind())
	next(t, it, 1, 3)
	if e := next(t, it, 2, 4); e.Deleted != 1 {
		t.Fatal("the record is not deleted")
	}
	next(t, it, 3, 5)
}
''')

bug('c08-short-skip', 'C08',
    'free space of a record that crosses the end of the read buffer',
    'A read that returns less than it was asked for ends the skipping of free space, so the next record is read from the wrong offset.',
    [('internal/helpers/io.go', '''	skipped := 0
	for skipped < size {
		chunk := size - skipped
''', '''	skipped := 0
	for read := len(dump); skipped < size && read == len(dump); {
		chunk := size - skipped
'''), ('internal/helpers/io.go', '''		read, err := reader.Read(dump[:chunk])
		skipped += read
''', '''		var err error
		read, err = reader.Read(dump[:chunk])
		skipped += read
''')], R, RHEAD + '''
func TestDemo(t *testing.T) {
	f := database(t, 1003, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	it, err := NewIterator(f, proto())
	must(t, err)
	for i := 1; i <= 9; i++ {
		next(t, it, uint64(i), i)
	}
}
''')

bug('c08-whole-chunks', 'C08',
    'a record with more than 100 bytes of free space',
    'Free space of more than one chunk is written in whole chunks, beyond the end of the record and into the next one.',
    [('internal/helpers/io.go', '''	for total < size {
		chunk := size - total
		if chunk > len(zeros) {
			chunk = len(zeros)
		}
		written, err := writer.Write(zeros[:chunk])
		total += written
''', '''	for total < size {
		// The last chunk is shorter
		chunk := len(zeros)
		if size < chunk {
			chunk = size % len(zeros)
		}
		written, err := writer.Write(zeros[:chunk])
		total += written
''')], R, RHEAD + '''
func TestDemo(t *testing.T) {
	f := database(t, 130, 3, 4, 5)
	it, err := NewIterator(f, proto())
	must(t, err)
	next(t, it, 1, 3)
	next(t, it, 2, 4)
	next(t, it, 3, 5)
}
''')

bug('c09-index-ahead-of-read', 'C09',
    'a read error during iteration, and a repeated call',
    'The position moves before the entry has been read, so after an error the last record is never returned.',
    [(R + '/iterator.go', '''		return nil, errors.New("failed to iterate next: the last entry reached")
	}
''', '''		return nil, errors.New("failed to iterate next: the last entry reached")
	}
	iter.entryIndex++
'''), (R + '/iterator.go', '''	iter.entryIndex++
	entryCopy := iter.entry
''', '''	entryCopy := iter.entry
''')], R, RHEAD + '''
func TestDemo(t *testing.T) {
	f := database(t, 700, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	it, err := NewIterator(f, proto())
	must(t, err)
	next(t, it, 1, 1)
	f.hook = failing("read", 1)
	n := 2
	for i := 0; i < 20 && n <= 9; i++ {
		if !it.HasNext() {
			t.Fatalf("the iteration ends before record %d", n)
		}
		e, err := it.Next()
		if err != nil {
			continue
		}
		if p := e.Data.(*domain.Profile); p.UserID != uint64(n) {
			t.Fatalf("got record %d, want %d", p.UserID, n)
		}
		n++
	}
	if n != 10 {
		t.Fatalf("stopped before record %d", n)
	}
}
''')

bug('c11-padding-error-lost', 'C11',
    'a write error in the free space of a database record',
    'The result of writing the free space is ignored, so a record that is cut short is reported as written.',
    [(R + '/protocol.go', '''	if numZeros > 0 {
		_, err = helpers.WriteZeros(numZeros, writer)
		if err != nil {
			return 0, fmt.Errorf(msg, err)
		}
	}
''', '''	if numZeros > 0 {
		// There is no data any more
		helpers.WriteZeros(numZeros, writer)
	}
''')], R, RHEAD + '''
func TestDemo(t *testing.T) {
	for n := 1; n < 12; n++ {
		f := &memFile{}
		f.hook = failing("write", n)
		e := &Entry{Capacity: 300, Data: profile(1, 2)}
		_, err := proto().WriteEntry(e, f)
		if err == nil && len(f.data) != 300 {
			t.Fatalf("a record of 300 bytes is reported as written with %d", len(f.data))
		}
	}
}
''')

bug('c24-recdb-scratch', 'C24',
    'two goroutines reading records of two databases at the same time',
    'Record headers are read into one buffer of the protocol object, so a record of one database may be taken for deleted because of a record of another.',
    [(R + '/protocol.go', '''type protocol struct {
	concreteProto ConcreteProtocol
}
''', '''type protocol struct {
	concreteProto ConcreteProtocol
	header        [entryHeaderSize]byte
}
'''), (R + '/protocol.go', '''	err := binary.Read(reader, binary.BigEndian, &entry.Capacity)
	if err != nil {
		return 0, fmt.Errorf(msg, err)
	}
	// Read Deleted
	var bytes [1]byte
	_, err = io.ReadFull(reader, bytes[:])
	if err != nil {
		return 0, fmt.Errorf(msg, err)
	}
	entry.Deleted = bytes[0]
''', '''	_, err := io.ReadFull(reader, p.header[:4])
	if err != nil {
		return 0, fmt.Errorf(msg, err)
	}
	// Read Deleted
	_, err = io.ReadFull(reader, p.header[4:])
	if err != nil {
		return 0, fmt.Errorf(msg, err)
	}
	entry.Capacity = binary.BigEndian.Uint32(p.header[:])
	entry.Deleted = p.header[4]
''')], R, RHEAD + '''
func TestDemo(t *testing.T) {
	p := proto()
	a, b := database(t, 10, 1), database(t, 90, 7)
	a.Seek(19, 0)
	b.Seek(19, 0)
	done := false
	a.hook = func(op string, size int) (int, error) {
		if op == "read" && size == 1 && !done {
			done = true
			res := make(chan error)
			go func() {
				_, err := p.ReadEntry(&Entry{}, b)
				res <- err
			}()
			must(t, <-res)
		}
		return size, nil
	}
	e := Entry{}
	_, err := p.ReadEntry(&e, a)
	must(t, err)
	if e.Capacity != 5+16+8+10 {
		t.Fatalf("got a capacity of %d, want %d", e.Capacity, 5+16+8+10)
	}
}
''')
