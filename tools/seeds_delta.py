D = 'internal/infra/delta'
ST = D + '/storage.go'
FA = D + '/storagefactory.go'
PR = D + '/protocol.go'

HEAD = '''package delta

import (
	"testing"

	"recengine/internal/domain"
)

const add, remove = domain.DeltaOpAdd, domain.DeltaOpRemove

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func want(t *testing.T, s domain.DeltaStorage, user, item uint64, op domain.DeltaOp) {
	t.Helper()
	if got, ok := s.Get(user, item); !ok || got != op {
		t.Fatalf("%d-%d: got %q (found %v), want %q", user, item, got, ok, op)
	}
}

'''

bug('c01-known-op-skipped', 'C01',
    'an operation flushed, undone and flushed again, and then repeated',
    'An operation that is already on disk is not stored again, but the check looks at the oldest stored operation of the pair instead of the newest, so the repeated operation is lost.',
    [(ST, '''	deltas, exists := s.newDelta[user]
	if !exists {
		s.newDelta[user] = make([]itemDelta, 0)
	} else {
''', '''	deltas := s.newDelta[user]
	if len(deltas) == 0 {
		// Nothing to do if the operation is already stored
		for _, delta := range s.deltaCache[user] {
			if delta.item == item {
				if delta.op == op {
					return
				}
				break
			}
		}
	} else {
''')], D, HEAD + '''
func TestDemo(t *testing.T) {
	s, err := NewStorageFactory().Open(&memFile{})
	must(t, err)
	for _, op := range []domain.DeltaOp{add, remove, add} {
		s.Add(op, 1, 2)
		must(t, s.Flush())
	}
	want(t, s, 1, 2, add)
}
''')

bug('c01-compact-on-load', 'C01',
    'a pair stored twice in one session, then a reopen, more operations, a close and another reopen',
    'Loading folds repeated operations of a pair in memory and counts them once, but the file still holds them all: the next flush writes over the last records and the header promises fewer than the file has.',
    [(FA, '''			items, exists := storage.deltaCache[entry.UserID]
			if !exists {
				items = make([]itemDelta, 0, 100)
				storage.deltaCache[entry.UserID] = items
			}
			storage.deltaCache[entry.UserID] = append(items, itemDelta{
				op:   entry.Op,
				item: entry.ItemID,
			})
''', '''			items := storage.deltaCache[entry.UserID]
			known := false
			for j := range items {
				if items[j].item == entry.ItemID {
					items[j].op = entry.Op
					storage.totalItemCount--
					known = true
				}
			}
			if !known {
				storage.deltaCache[entry.UserID] = append(items, itemDelta{
					op:   entry.Op,
					item: entry.ItemID,
				})
			}
''')], D, HEAD + '''
func TestDemo(t *testing.T) {
	f := &memFile{}
	fac := NewStorageFactory()
	s, err := fac.Open(f)
	must(t, err)
	s.Add(add, 1, 1)
	must(t, s.Flush())
	s.Add(remove, 1, 1)
	must(t, s.Flush())
	s.Add(add, 2, 2)
	must(t, s.Close())
	f = f.disk()
	s, err = fac.Open(f)
	must(t, err)
	want(t, s, 2, 2, add)
	s.Add(add, 3, 3)
	must(t, s.Close())
	s, err = fac.Open(f.disk())
	must(t, err)
	want(t, s, 1, 1, remove)
	want(t, s, 2, 2, add)
	want(t, s, 3, 3, add)
}
''')

bug('c02-recover-truncates-first', 'C02',
    'a crash inside a recovery, after the file has been truncated and before it has been rewritten',
    'Recovery truncates the file before it copies the recovered records back instead of afterwards, so a crash in between loses acknowledged operations.',
    [(FA, '''	var size int64
	size, err = io.Copy(file, tmpFile)
	if err != nil {
		return err
	}
	err = file.Truncate(size)
	if err != nil {
		return err
	}
''', '''	// Get rid of whatever is behind the recovered entries
	err = file.Truncate(int64(len(prefix) + headerSize))
	if err != nil {
		return err
	}
	_, err = io.Copy(file, tmpFile)
	if err != nil {
		return err
	}
''')], D, HEAD + '''
func TestDemo(t *testing.T) {
	fac := NewStorageFactory()
	f := &memFile{}
	s, err := fac.Open(f)
	must(t, err)
	s.Add(add, 1, 1)
	s.Add(add, 2, 2)
	must(t, s.Flush())
	for n := 1; n < 6; n++ {
		g := f.disk()
		g.crashAt(n, 0)
		run(func() { fac.OpenMaybeRecover(g) })
		s, err := fac.OpenMaybeRecover(g.disk())
		must(t, err)
		want(t, s, 1, 1, add)
		want(t, s, 2, 2, add)
	}
}
''')

bug('c02-recover-skips-equal-size', 'C02',
    'a crash inside a flush after the header was written and before any entry was',
    'Recovery does not rewrite a file whose size would not change, but its header may still promise the entries of the flush that was interrupted, so the recovered file cannot be opened.',
    [(FA, '''	var size int64
	size, err = io.Copy(file, tmpFile)
	if err != nil {
		return err
	}
	err = file.Truncate(size)
	if err != nil {
		return err
	}
''', '''	var size int64
	size, err = file.Seek(0, io.SeekEnd)
	if err != nil {
		return err
	}
	if size != int64(tmpFile.Len()) {
		// Something was dropped
		_, err = file.Seek(0, io.SeekStart)
		if err != nil {
			return err
		}
		size, err = io.Copy(file, tmpFile)
		if err != nil {
			return err
		}
		err = file.Truncate(size)
		if err != nil {
			return err
		}
	}
''')], D, HEAD + '''
func TestDemo(t *testing.T) {
	fac := NewStorageFactory()
	for n := 1; n < 4; n++ {
		f := &memFile{}
		s, err := fac.Open(f)
		must(t, err)
		s.Add(add, 1, 1)
		must(t, s.Flush())
		s.Add(add, 2, 2)
		f.crashAt(n, 0)
		run(func() { s.Flush() })
		s, err = fac.OpenMaybeRecover(f.disk())
		must(t, err)
		want(t, s, 1, 1, add)
	}
}
''')

bug('c02-close-writes-final-header', 'C02',
    'a crash inside a close, between the header and the entries',
    'Close writes the final, unlocked header at once instead of unlocking the file after the entries are in place: after a crash in between the file looks clean, so it is not recovered, and cannot be opened.',
    [(ST, '''	// Number of unflushed items.
	unflushedItemCount int
''', '''	// Number of unflushed items.
	unflushedItemCount int
	// The file is being closed.
	closing bool
'''), (ST, '''	fmt.Println(s)
	hdr := &Header{
		Version:    Version,
		Locked:     1,
		NumEntries: uint32(s.GetTotalItemCount()),
	}
''', '''	hdr := &Header{
		Version:    Version,
		Locked:     1,
		NumEntries: uint32(s.GetTotalItemCount()),
	}
	if s.closing {
		hdr.Locked = 0
	}
'''), (ST, '''	err := s.Flush()
	if err != nil {
		return fmt.Errorf("failed to flush cache: %v", err)
	}
	err = s.proto.WriteLocked(false, s.file)
	if err != nil {
		return fmt.Errorf("failed to lock the file: %v", err)
	}
	err = s.file.Close()
''', '''	// The header written last leaves the file unlocked
	s.closing = true
	err := s.Flush()
	if err != nil {
		return fmt.Errorf("failed to flush cache: %v", err)
	}
	err = s.file.Close()
''')], D, HEAD + '''
func TestDemo(t *testing.T) {
	fac := NewStorageFactory()
	for n := 1; n < 4; n++ {
		f := &memFile{}
		s, err := fac.Open(f)
		must(t, err)
		s.Add(add, 1, 1)
		must(t, s.Flush())
		s.Add(add, 2, 2)
		f.crashAt(n, 0)
		run(func() { s.Close() })
		s, err = fac.OpenMaybeRecover(f.disk())
		must(t, err)
		want(t, s, 1, 1, add)
	}
}
''')

bug('c04-reset-before-write', 'C04',
    'a write that fails in the middle of a flush, and a later flush',
    'The unflushed operations are taken for flushed whether or not they could be written, so the flush after one that failed does not write them.',
    [(ST, '''	err = writer.Flush()
	if err != nil {
		return fmt.Errorf("failed to flush buffer: %v", err)
	}
	// Add to cache
''', '''	err = writer.Flush()
	// Add to cache
'''), (ST, '''	s.newDelta = make(map[uint64][]itemDelta)
	return nil
}
''', '''	s.newDelta = make(map[uint64][]itemDelta)
	if err != nil {
		return fmt.Errorf("failed to flush buffer: %v", err)
	}
	return nil
}
''')], D, HEAD.replace('"testing"', '"errors"\n\t"testing"') + '''
func TestDemo(t *testing.T) {
	fac := NewStorageFactory()
	for n := 1; n < 4; n++ {
		f := &memFile{}
		s, err := fac.Open(f)
		must(t, err)
		s.Add(add, 1, 1)
		left := n
		f.hook = func(op string, size int) (int, error) {
			if op == "write" {
				left--
				if left == 0 {
					return 0, errors.New("no space left")
				}
			}
			return size, nil
		}
		s.Flush()
		f.hook = nil
		must(t, s.Flush())
		want(t, s, 1, 1, add)
		s, err = fac.OpenMaybeRecover(f.disk())
		must(t, err)
		want(t, s, 1, 1, add)
	}
}
''')

bug('c04-short-load', 'C04',
    'a read error while the entries of a cleanly closed file are loaded',
    'An entry that cannot be read ends the load as if it were the last one: the open succeeds without the rest, and the next flush writes over them.',
    [(FA, '''			if err != nil {
				return nil, fmt.Errorf("cannot read %dth entry: %v", i, err)
			}
''', '''			if err != nil {
				// The rest of the file is missing
				fmt.Printf("cannot read %dth entry: %v\\n", i, err)
				storage.totalItemCount = i
				break
			}
''')], D, HEAD.replace('"testing"', '"errors"\n\t"testing"') + '''
func TestDemo(t *testing.T) {
	fac := NewStorageFactory()
	f := &memFile{}
	s, err := fac.Open(f)
	must(t, err)
	s.Add(add, 1, 1)
	s.Add(add, 2, 2)
	must(t, s.Close())
	for n := 1; n < 12; n++ {
		g := f.disk()
		left := n
		g.hook = func(op string, size int) (int, error) {
			if op == "read" {
				left--
				if left == 0 {
					return 0, errors.New("I/O error")
				}
			}
			return size, nil
		}
		s, err := fac.Open(g)
		if err != nil {
			continue
		}
		want(t, s, 1, 1, add)
		want(t, s, 2, 2, add)
	}
}
''')

bug('c05-header-briefly-unlocked', 'C05',
    'looking at the file, or a crash, between two writes of one flush',
    'A flush writes an unlocked header and locks it again with a second write, so for a moment an open file looks as if it were closed properly.',
    [(ST, '''	fmt.Println(s)
	hdr := &Header{
		Version:    Version,
		Locked:     1,
		NumEntries: uint32(s.GetTotalItemCount()),
	}
''', '''	hdr := &Header{
		Version:    Version,
		NumEntries: uint32(s.GetTotalItemCount()),
	}
'''), (ST, '''	err = writer.Flush()
	if err != nil {
		return fmt.Errorf("failed to flush buffer: %v", err)
	}
	return nil
}

// Writes entries to disk.''', '''	err = writer.Flush()
	if err != nil {
		return fmt.Errorf("failed to flush buffer: %v", err)
	}
	return s.proto.WriteLocked(true, s.file)
}

// Writes entries to disk.''')], D, HEAD + '''
func TestDemo(t *testing.T) {
	fac := NewStorageFactory()
	f := &memFile{}
	s, err := fac.Open(f)
	must(t, err)
	s.Add(add, 1, 1)
	f.hook = func(op string, size int) (int, error) {
		if _, err := fac.Open(f.disk()); err == nil {
			t.Error("an open file looks closed")
		}
		return size, nil
	}
	must(t, s.Flush())
	must(t, s.Flush())
}
''')

bug('c03-gives-up-on-damage', 'C03',
    'a file that was not closed properly with several damaged records in a row and valid ones behind them',
    'Recovery gives up after four damaged records in a row and drops everything that follows them.',
    [(PR, '''	var entriesRecovered uint32 = 0
	for {
''', '''	var entriesRecovered uint32 = 0
	damaged := 0
	for damaged < 4 { // heuristic
'''), (PR, '''			continue
		}
		err = p.WriteEntry(&entry, writer)
''', '''			// Too many of them mean that the rest of the file is garbage
			damaged++
			continue
		}
		damaged = 0
		err = p.WriteEntry(&entry, writer)
''')], D, HEAD + '''
func TestDemo(t *testing.T) {
	fac := NewStorageFactory()
	f := &memFile{}
	s, err := fac.Open(f)
	must(t, err)
	for i := 0; i < 6; i++ {
		s.Add(add, uint64(i), 7)
		must(t, s.Flush())
	}
	g := f.disk()
	size := (len(g.data) - 14) / 6
	for i := 1; i < 5; i++ {
		g.data[14+size*i+3] ^= 1
	}
	s, err = fac.OpenMaybeRecover(g)
	must(t, err)
	want(t, s, 0, 7, add)
	want(t, s, 5, 7, add)
}
''')

bug('c10-delta-one-read', 'C10',
    'a delta file whose entry count was damaged to a huge number',
    'All entries are read at once into a buffer as large as the header says, which a damaged header makes tens of gigabytes.',
    [(FA, '''		entry := Entry{}
		for i := 0; i < int(hdr.NumEntries); i++ {
			err = f.proto.ReadEntry(&entry, file)
			if err != nil {
''', '''		entry := Entry{}
		data := make([]byte, int(hdr.NumEntries)*entrySize)
		_, err = io.ReadFull(file, data)
		if err != nil {
			return nil, fmt.Errorf("cannot read entries: %v", err)
		}
		reader := bytes.NewReader(data)
		for i := 0; i < int(hdr.NumEntries); i++ {
			err = f.proto.ReadEntry(&entry, reader)
			if err != nil {
'''), (FA, '''import (
	"errors"
''', '''import (
	"bytes"
	"errors"
''')], D, HEAD.replace('"testing"', '"runtime"\n\t"testing"') + '''
func TestDemo(t *testing.T) {
	fac := NewStorageFactory()
	f := &memFile{}
	s, err := fac.Open(f)
	must(t, err)
	s.Add(add, 1, 1)
	must(t, s.Close())
	g := f.disk()
	g.data[10] = 2 // more than 30 million entries
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	_, err = fac.Open(g)
	runtime.ReadMemStats(&b)
	if err == nil {
		t.Fatal("opened a file that is cut short")
	}
	if n := b.TotalAlloc - a.TotalAlloc; n > 64<<20 {
		t.Fatalf("allocated %d bytes for a file of %d", n, len(g.data))
	}
}
''')

bug('c11-delta-lock-write-lost', 'C11',
    'a write error exactly at the lock byte',
    'The error of writing the lock flag is overwritten by the result of restoring the position.',
    [(PR, '''	_, err = file.Write(bytes)
	if err != nil {
		return err
	}
	_, err = file.Seek(pos, io.SeekStart)
	if err != nil {
		return err
	}
	return nil
}
''', '''	_, err = file.Write(bytes)
	// Restore the position in any case
	_, err = file.Seek(pos, io.SeekStart)
	return err
}
''')], D, HEAD.replace('"testing"', '"errors"\n\t"testing"') + '''
func TestDemo(t *testing.T) {
	f := &memFile{data: make([]byte, 14)}
	f.hook = func(op string, size int) (int, error) {
		if op == "write" {
			return 0, errors.New("no space left")
		}
		return size, nil
	}
	if err := NewProtocol().WriteLocked(true, f); err == nil {
		t.Fatal("a lock flag that was not written is reported as written")
	}
}
''')

bug('c24-delta-scratch', 'C24',
    'two goroutines writing entries of two delta files at the same time, a switch between filling and writing a buffer',
    'Entries are encoded in one buffer of the protocol object, which all delta storages of the process share, so an entry of one file can end up in another.',
    [(PR, '''type protocol struct{}
''', '''type protocol struct {
	// Keeps entries from being written in little pieces.
	buffer [entrySize]byte
}
'''), (PR, '''	err := binary.Write(writer, binary.BigEndian, entry.Op)
	if err != nil {
		return err
	}
	err = binary.Write(writer, binary.BigEndian, entry.UserID)
	if err != nil {
		return err
	}
	err = binary.Write(writer, binary.BigEndian, entry.ItemID)
	if err != nil {
		return err
	}
	return binary.Write(writer, binary.BigEndian, p.CalcEntryChecksum(entry))
''', '''	p.buffer[0] = byte(entry.Op)
	binary.BigEndian.PutUint64(p.buffer[1:], entry.UserID)
	binary.BigEndian.PutUint64(p.buffer[9:], entry.ItemID)
	p.buffer[17] = p.CalcEntryChecksum(entry)
	_, err := writer.Write(p.buffer[:])
	return err
''')], D, HEAD + '''
type slowWriter struct {
	got    []byte
	before func()
}

func (w *slowWriter) Write(b []byte) (int, error) {
	if w.before != nil {
		w.before()
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	p := NewProtocol()
	other := &slowWriter{}
	w := &slowWriter{before: func() {
		done := make(chan error)
		go func() { done <- p.WriteEntry(&Entry{Op: remove, UserID: 8, ItemID: 9}, other) }()
		must(t, <-done)
	}}
	must(t, p.WriteEntry(&Entry{Op: add, UserID: 1, ItemID: 2}, w))
	got := Entry{}
	must(t, p.ReadEntry(&got, &memFile{data: w.got}))
	if got.UserID != 1 || got.ItemID != 2 || got.Op != add {
		t.Fatalf("wrote 1-2, got %d-%d", got.UserID, got.ItemID)
	}
}
''')
