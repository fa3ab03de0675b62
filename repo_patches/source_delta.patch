From db3ab7a16bb32f0d1433b4215a630e79d5e2b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 01/30] fix: delta lookup falls back to flushed operations of
 the user

---
 internal/infra/delta/storage.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 99d5c21..dcd55ab 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -146,17 +146,12 @@ func (s *storage) GetFileSize() uint64 {
 // Returns the last operation associated with the specified user-item pair.
 // This method exists mostly for debugging and testing purposes.
 func (s *storage) Get(user uint64, item uint64) (domain.DeltaOp, bool) {
-	deltas, exists := s.newDelta[user]
-	if !exists {
-		deltas, exists = s.deltaCache[user]
-	}
-	if !exists {
-		return domain.DeltaOpAdd, false
-	}
-	for i := range deltas {
-		delta := deltas[len(deltas)-i-1]
-		if delta.item == item {
-			return delta.op, true
+	for _, deltas := range [...][]itemDelta{s.newDelta[user], s.deltaCache[user]} {
+		for i := range deltas {
+			delta := deltas[len(deltas)-i-1]
+			if delta.item == item {
+				return delta.op, true
+			}
 		}
 	}
 	return domain.DeltaOpAdd, false
-- 
2.43.0


From ff66d96cc49b498885cdd2bd87242201e2069b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 02/30] fix: a delta flush can be repeated after it failed

---
 internal/infra/delta/storage.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index dcd55ab..177fb69 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -41,9 +41,12 @@ func (s *storage) flushHeader() error {
 		Locked:     1,
 		NumEntries: uint32(s.GetTotalItemCount()),
 	}
-	s.file.Seek(int64(len(prefix)), io.SeekStart)
+	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
-	err := s.proto.WriteHeader(hdr, writer)
+	err = s.proto.WriteHeader(hdr, writer)
 	if err != nil {
 		return fmt.Errorf("failed to write header: %v", err)
 	}
@@ -56,8 +59,12 @@ func (s *storage) flushHeader() error {
 
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
-	// Write to file
-	s.file.Seek(0, io.SeekEnd)
+	// Write to file, over whatever a failed flush may have left at the end
+	flushedSize := s.GetFileSize() - uint64(s.unflushedItemCount)*entrySize
+	_, err := s.file.Seek(int64(flushedSize), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
 	for user, deltas := range s.newDelta {
 		for _, delta := range deltas {
@@ -67,23 +74,21 @@ func (s *storage) flushEntries() error {
 				UserID: user,
 				ItemID: delta.item,
 			}
-			err := s.proto.WriteEntry(dto, writer)
+			err = s.proto.WriteEntry(dto, writer)
 			if err != nil {
 				return fmt.Errorf("failed to write entry: %v", err)
 			}
-			// Add to cache
-			_, exists := s.deltaCache[user]
-			if !exists {
-				s.deltaCache[user] = make([]itemDelta, 0)
-			}
-			s.deltaCache[user] = append(s.deltaCache[user], delta)
 		}
 	}
 	// Flush the buffer
-	err := writer.Flush()
+	err = writer.Flush()
 	if err != nil {
 		return fmt.Errorf("failed to flush buffer: %v", err)
 	}
+	// Add to cache
+	for user, deltas := range s.newDelta {
+		s.deltaCache[user] = append(s.deltaCache[user], deltas...)
+	}
 	// Reset the unflushed data
 	s.unflushedItemCount = 0
 	s.newDelta = make(map[uint64][]itemDelta)
-- 
2.43.0


From c4e8a5e80f4e786e9c02d3b0daef2327012a80f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 03/30] fix: delta recovery reads the file from its beginning

---
 internal/infra/delta/storagefactory.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 61b06c6..088fa49 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -32,8 +32,12 @@ func NewStorageFactoryForProtocol(proto Protocol) domain.DeltaStorageFactory {
 // All inconsistent data is skipped (removed).  The file is considered
 // corrupted if it's locked, which means it hasn't been closed properly.
 func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 	tmpFile := helpers.NewFileBuffer(nil)
-	err := f.proto.RecoverTo(file, tmpFile)
+	err = f.proto.RecoverTo(file, tmpFile)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 277a01056080f4ba4a279ef2aadd822eccf2deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 04/30] fix: an interrupted delta recovery can be repeated

---
 internal/infra/delta/storagefactory.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 088fa49..aa7cd11 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -45,6 +45,11 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	// Keep the file locked until it is completely rewritten
+	err = f.proto.WriteLocked(true, tmpFile)
+	if err != nil {
+		return err
+	}
 	_, err = tmpFile.Seek(0, io.SeekStart)
 	if err != nil {
 		return err
@@ -58,6 +63,10 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	err = f.proto.WriteLocked(false, file)
+	if err != nil {
+		return err
+	}
 	_, err = file.Seek(0, io.SeekStart)
 	return err
 }
-- 
2.43.0


From 4575aaeabd419ca353aea5acf9f22c6c75151a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 05/30] fix: delta recovery does not drop data because of read
 errors

---
 internal/infra/delta/protocol.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 8168eb9..ed639d8 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -40,6 +40,15 @@ var prefix = [...]byte{'R', 'E', 'C', 'D', 'E', 'L', 'T', 'A'}
 // The offset of the lock byte of the header from the beginning of the file.
 const lockedOffset = len(prefix) + 1
 
+// Returned if the file does not start with the prefix.
+var errNotDelta = errors.New("not a delta file")
+
+// Tells whether an error of reading a file means that the file is damaged or
+// cut short, rather than that it couldn't be read.
+func isDamage(err error) bool {
+	return err == io.EOF || err == io.ErrUnexpectedEOF || err == errNotDelta
+}
+
 // Provides delta file functions.
 type Protocol interface {
 	// Writes the file prefix, aka "Magic number", which verifies type of the file.
@@ -107,7 +116,7 @@ func (p *protocol) ReadPrefix(reader io.Reader) error {
 		return err
 	}
 	if !reflect.DeepEqual(buffer, prefix[:]) {
-		return errors.New("not a delta file")
+		return errNotDelta
 	}
 	return nil
 }
@@ -264,6 +273,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 
 	// Try to read prefix
 	err = p.ReadPrefix(reader)
+	if err != nil && !isDamage(err) {
+		return err
+	}
 	if err != nil {
 		return p.WriteHeader(&hdr, writer)
 	}
@@ -272,6 +284,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	err = p.ReadHeader(&hdr, reader)
 	hdr.Version = Version
 	hdr.Locked = 0
+	if err != nil && !isDamage(err) {
+		return err
+	}
 	if err != nil {
 		hdr.NumEntries = 0
 		return p.WriteHeader(&hdr, writer)
@@ -286,6 +301,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	var entriesRecovered uint32 = 0
 	for {
 		err = p.ReadEntry(&entry, reader)
+		if err != nil && !isDamage(err) {
+			return err
+		}
 		if err != nil {
 			break
 		}
-- 
2.43.0


From 469c491f06f32887d8965cde02dc8786ab94ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 06/30] fix: open empty and half-created delta files

---
 internal/infra/delta/storagefactory.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index aa7cd11..371ded6 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -151,11 +151,19 @@ func (f *storageFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage
 // Opens a delta storage file.  If the file is empty, writes all necessary
 // data. If the file is corrupted, tries to recover it first.
 func (f *storageFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
-	locked, err := f.proto.IsLocked(file)
+	size, err := file.Seek(0, io.SeekEnd)
 	if err != nil {
-		return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		return nil, fmt.Errorf("failed to get file size: %v", err)
+	}
+	// A crash may have left the file empty or cut short
+	broken := size > 0 && size < int64(len(prefix)+headerSize)
+	if size > 0 && !broken {
+		broken, err = f.proto.IsLocked(file)
+		if err != nil {
+			return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		}
 	}
-	if locked {
+	if broken {
 		err = f.Recover(file)
 		if err != nil {
 			return nil, fmt.Errorf("failed to recover: %v", err)
-- 
2.43.0


From 6c9e4b4d7e4275c96b797cf931b52a16f2052090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 07/30] fix: keep an index locked until it is saved completely

---
 internal/infra/index/storage.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 4acc596..c2c683e 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -83,20 +83,28 @@ func (s *storage) load() error {
 
 // Closes the storage file.
 func (s *storage) Close() error {
-	err := s.saveHeader(false)
+	err := s.saveEntries()
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
 		}
 		return err
 	}
-	err = s.saveEntries()
+	err = s.saveHeader(true)
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
 		}
 		return err
 	}
+	// The file stays locked until everything else is in place
+	err = s.proto.WriteLocked(false, s.file)
+	if err != nil {
+		if s.closer != nil {
+			s.closer.Close()
+		}
+		return fmt.Errorf("failed to unlock the file: %v", err)
+	}
 	if s.closer != nil {
 		return s.closer.Close()
 	}
-- 
2.43.0


From 5af048c456af5e05482c1ee3c17be2550cd76f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 08/30] fix: a failed load leaves the index file unlocked

---
 internal/infra/index/storage.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index c2c683e..b5731d3 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -61,11 +61,6 @@ func (s *storage) load() error {
 	if header.Locked != 0 {
 		return errors.New("broken index file (after unexpected termination)")
 	}
-	// Lock
-	err = s.proto.WriteLocked(true, s.file)
-	if err != nil {
-		return fmt.Errorf("failed to write file lock: %v", err)
-	}
 	// Load entries
 	entry := Entry{}
 	offset := int64(entriesOffset)
@@ -78,6 +73,11 @@ func (s *storage) load() error {
 		}
 		s.indices[entry.ID] = entry.Index
 	}
+	// Lock
+	err = s.proto.WriteLocked(true, s.file)
+	if err != nil {
+		return fmt.Errorf("failed to write file lock: %v", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 5edbe53a2238baa4e37f13c7516a9ab039823f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 09/30] fix: reset an index that was not closed properly when a
 namespace starts

---
 internal/domain/errors.go              |  6 ++++++
 internal/domain/likenamespace.go       |  4 ++--
 internal/infra/index/storage.go        | 18 +++++++++++++-----
 internal/infra/index/storagefactory.go |  2 +-
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/internal/domain/errors.go b/internal/domain/errors.go
index b904f82..870e82f 100644
--- a/internal/domain/errors.go
+++ b/internal/domain/errors.go
@@ -6,6 +6,12 @@ func (e *CorruptedFileError) Error() string {
 	return "The file hasn't been closed property, it may be corrupted"
 }
 
+// Makes errors.Is() recognize any error of this type.
+func (e *CorruptedFileError) Is(target error) bool {
+	_, ok := target.(*CorruptedFileError)
+	return ok
+}
+
 func NewCorruptedFileError() error {
 	return &CorruptedFileError{}
 }
diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bfc844c..9432d7f 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -119,9 +119,9 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 			file.Close()
 			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
 		}
-		err = file.Truncate(0)
+		// The file has already been closed by the failed attempt to open it
+		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
-			file.Close()
 			return nil, fmt.Errorf("failed to truncate %s: %w", filePath, err)
 		}
 		storage, err = ns.indexStorageFactory.Open(file, file)
diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index b5731d3..89d9a27 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -2,7 +2,6 @@ package index
 
 import (
 	"bufio"
-	"errors"
 	"fmt"
 	"io"
 	"recengine/internal/domain"
@@ -41,6 +40,15 @@ func (s *storage) create() error {
 	return nil
 }
 
+// Turns the error of reading a file that has been cut short into the error of
+// a corrupted file.
+func markTruncated(err error) error {
+	if err == io.EOF || err == io.ErrUnexpectedEOF {
+		return domain.NewCorruptedFileError()
+	}
+	return err
+}
+
 // Loads the index file into memory.
 func (s *storage) load() error {
 	_, err := s.file.Seek(0, io.SeekStart)
@@ -51,15 +59,15 @@ func (s *storage) load() error {
 	// Load header
 	_, err = s.proto.ReadPrefix(reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index prefix: %v", err)
+		return fmt.Errorf("failed to read index prefix: %w", markTruncated(err))
 	}
 	header := Header{}
 	_, err = s.proto.ReadHeader(&header, reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index header: %v", err)
+		return fmt.Errorf("failed to read index header: %w", markTruncated(err))
 	}
 	if header.Locked != 0 {
-		return errors.New("broken index file (after unexpected termination)")
+		return domain.NewCorruptedFileError()
 	}
 	// Load entries
 	entry := Entry{}
@@ -69,7 +77,7 @@ func (s *storage) load() error {
 		size, err = s.proto.ReadEntry(&entry, reader)
 		offset += int64(size)
 		if err != nil {
-			return fmt.Errorf("failed to read index entry: %v", err)
+			return fmt.Errorf("failed to read index entry: %w", markTruncated(err))
 		}
 		s.indices[entry.ID] = entry.Index
 	}
diff --git a/internal/infra/index/storagefactory.go b/internal/infra/index/storagefactory.go
index 095829e..16f75f4 100644
--- a/internal/infra/index/storagefactory.go
+++ b/internal/infra/index/storagefactory.go
@@ -63,7 +63,7 @@ func (f *storageFactory) Open(
 			if closer != nil {
 				closer.Close()
 			}
-			return nil, fmt.Errorf("failed to load index: %v", err)
+			return nil, fmt.Errorf("failed to load index: %w", err)
 		}
 	} else {
 		err = storage.create()
-- 
2.43.0


From 481221dd7474d4e8368156b7f6f0cb9316db5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 10/30] fix: creating a recommendation database writes its
 header

---
 internal/infra/recdb/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index a7c3b50..daa881b 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -154,7 +154,7 @@ func (p *protocol) Create(writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return bufWriter.Flush()
 }
 
 // Tries to open the database file or create it if it doesn't exist yet.
-- 
2.43.0


From 1e99dc830f6258c976f417c3e55e8adcba94f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 11/30] fix: rewriting a database entry hits the entry returned
 last

---
 internal/infra/recdb/iterator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index a618c63..facd57d 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -31,6 +31,7 @@ type iterator struct {
 	file       io.ReadWriteSeeker
 	reader     *bufio.Reader
 	entryIndex int
+	// The offset of the entry to be read next.
 	fileOffset int64
 	entry      Entry
 	proto      Protocol
@@ -58,7 +59,7 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, 0, Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
 	return iter, nil
 }
 
@@ -105,7 +106,8 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if iter.entry.Capacity != entry.Capacity {
 		return errors.New("entry capacity mismatch")
 	}
-	_, err := iter.file.Seek(-int64(entry.Capacity), io.SeekCurrent)
+	// The current position of the file is beyond the entry because of buffering
+	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From 471127d235850e2926c0bb02da2095afd0df88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 12/30] fix: refuse database entries that do not fit their
 capacity

---
 internal/infra/recdb/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daa881b..72870a5 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -238,7 +238,14 @@ func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
 // Data field into the stream and return the number of bytes written.
 func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
 	const msg = "failed to write database entry: %w"
-	err := binary.Write(writer, binary.BigEndian, entry.Capacity)
+	size, err := p.PredictEntrySize(entry)
+	if err != nil {
+		return 0, fmt.Errorf(msg, err)
+	}
+	if int64(size) > int64(entry.Capacity) {
+		return 0, fmt.Errorf("entry's capacity=%d is less than its size=%d", entry.Capacity, size)
+	}
+	err = binary.Write(writer, binary.BigEndian, entry.Capacity)
 	if err != nil {
 		return 0, fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From e11716a9885f8156a6e0fae8bfc56da38b7e395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 13/30] fix: a damaged entry length does not exhaust the memory

---
 internal/infra/recdb/likeprotocol.go | 31 +++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 757fabe..10dce96 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -36,8 +36,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	likes := make([]uint64, numLikes)
-	err = binary.Read(reader, binary.BigEndian, likes)
+	likes, err := p.readItems(entry, numLikes, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -47,8 +46,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	dislikes := make([]uint64, numDislikes)
-	err = binary.Read(reader, binary.BigEndian, dislikes)
+	dislikes, err := p.readItems(entry, numDislikes, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -63,13 +61,36 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, fmt.Errorf("cannot predict data size: %w", err)
 	}
-	if size > int(entry.Capacity-entryHeaderSize) {
+	if int64(size)+entryHeaderSize > int64(entry.Capacity) {
 		return 0, fmt.Errorf("entry's capacity=%d is less than data len=%d",
 			entry.Capacity, size)
 	}
 	return size, nil
 }
 
+// Reads a list of items. The length comes from the file and may be damaged, so
+// no memory is allocated for more items than the file really has.
+func (p *likeProtocol) readItems(entry *Entry, length uint32, reader io.Reader) ([]uint64, error) {
+	if int64(length)*8+entryHeaderSize > int64(entry.Capacity) {
+		return nil, fmt.Errorf("entry's capacity=%d is too small for %d items",
+			entry.Capacity, length)
+	}
+	items := make([]uint64, 0)
+	for left := int(length); left > 0; {
+		chunk := make([]uint64, 1024)
+		if left < len(chunk) {
+			chunk = chunk[:left]
+		}
+		err := binary.Read(reader, binary.BigEndian, chunk)
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, chunk...)
+		left -= len(chunk)
+	}
+	return items, nil
+}
+
 // Writes entry data from the `Entry.Data` field into the stream.
 // Returns the number of the bytes having read.
 // The data length cannot be greater than `Entry.Capacity`.
-- 
2.43.0


From bbc484fa61f5951b2dbbd9ba2b0edf03ef2831f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 14/30] fix: database iteration survives I/O errors

---
 internal/infra/recdb/iterator.go | 34 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index facd57d..7b4af49 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -33,8 +33,10 @@ type iterator struct {
 	entryIndex int
 	// The offset of the entry to be read next.
 	fileOffset int64
-	entry      Entry
-	proto      Protocol
+	// The reader is not at that offset any more.
+	displaced bool
+	entry     Entry
+	proto     Protocol
 }
 
 // Compile-time type check
@@ -59,19 +61,20 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), false, Entry{}, proto}
 	return iter, nil
 }
 
 // Sets the iterator pointer to the beginging of the entries.
 func (iter *iterator) Rewind() error {
-	var err error
-	iter.fileOffset, err = iter.file.Seek(int64(entriesOffset), 0)
-	iter.entryIndex = 0
-	iter.reader.Reset(iter.file)
+	offset, err := iter.file.Seek(int64(entriesOffset), 0)
 	if err != nil {
 		return fmt.Errorf("failed to rewind DB iterator: %v", err)
 	}
+	iter.fileOffset = offset
+	iter.entryIndex = 0
+	iter.displaced = false
+	iter.reader.Reset(iter.file)
 	return nil
 }
 
@@ -87,11 +90,22 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
-	size, err := iter.proto.ReadEntry(&iter.entry, iter.reader)
-	iter.fileOffset += int64(size)
+	if iter.displaced {
+		_, err := iter.file.Seek(iter.fileOffset, io.SeekStart)
+		if err != nil {
+			return nil, fmt.Errorf("failed to iterate next: %v", err)
+		}
+		iter.reader.Reset(iter.file)
+		iter.displaced = false
+	}
+	entry := Entry{}
+	size, err := iter.proto.ReadEntry(&entry, iter.reader)
 	if err != nil {
+		iter.displaced = true
 		return nil, fmt.Errorf("failed to iterate next: %v", err)
 	}
+	iter.entry = entry
+	iter.fileOffset += int64(size)
 	iter.entryIndex++
 	entryCopy := iter.entry
 	return &entryCopy, nil
@@ -106,6 +120,7 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if iter.entry.Capacity != entry.Capacity {
 		return errors.New("entry capacity mismatch")
 	}
+	iter.displaced = true
 	// The current position of the file is beyond the entry because of buffering
 	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
@@ -118,6 +133,5 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if uint32(n) != entry.Capacity {
 		return fmt.Errorf("expected to write %d bytes, written %d", entry.Capacity, n)
 	}
-	iter.reader.Reset(iter.file)
 	return nil
 }
-- 
2.43.0


From 7f081a613b4b59f52547f7e03344442cde5e3502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 15/30] fix: skip to the end of a reader that reports EOF with
 its last bytes

---
 internal/helpers/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index 6f0cb36..a9c1d78 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -40,7 +40,7 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 		}
 		read, err := reader.Read(dump[:chunk])
 		skipped += read
-		if err != nil {
+		if err != nil && skipped < size {
 			return skipped, err
 		}
 	}
-- 
2.43.0


From dff400c38208c2f793b2edaf0b40f621c300693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 16/30] fix: updating a namespace does not hang

---
 internal/domain/likenamespace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 9432d7f..74fd936 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -71,7 +71,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 	ns.name = name
 	// TODO: rename the files
-	return nil
+	result := make(chan error, 1)
+	result <- nil
+	return result
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
-- 
2.43.0


From c7f0a17d3315402870dee542b56cd60368d22f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 17/30] fix: fetch and update namespaces by the name in the
 path

---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index 3d7027c..a5973d7 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -29,10 +29,10 @@ func (endpoint *NamespaceEndpoint) RegisterRoutes(router gin.IRouter) {
 	router.POST("/api/v1/namespaces", func(ctx *gin.Context) {
 		endpoint.Create(ctx)
 	})
-	router.GET("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.GET("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Get(ctx)
 	})
-	router.PUT("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.PUT("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Update(ctx)
 	})
 }
-- 
2.43.0


From 441a9aafccc5dd706d18c79dd090f085e1d896f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 18/30] fix: make concurrent namespace operations atomic

---
 internal/domain/namespaceservice.go | 64 +++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 47e99fd..f30b555 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"recengine/internal/helpers"
+	"sync"
 )
 
 // A DTO for creating a Namespace.
@@ -26,6 +27,8 @@ type NamespaceUpdateRequest struct {
 
 // Manages namespaces.
 type NamespaceService struct {
+	// Guards the list of namespaces and their settings.
+	mutex               sync.RWMutex
 	namespaces          []Namespace
 	context             context.Context
 	basePath            string
@@ -33,6 +36,28 @@ type NamespaceService struct {
 	indexStorageFactory IndexStorageFactory
 }
 
+// A namespace with the settings it had when it was handed out by the service,
+// which may be changed by another request since then.
+type namespaceSnapshot struct {
+	Namespace
+	name               valueobjects.NamespaceName
+	maxSimilarProfiles uint
+}
+
+func newNamespaceSnapshot(ns Namespace) Namespace {
+	return &namespaceSnapshot{ns, ns.GetName(), ns.GetMaxSimilarProfiles()}
+}
+
+// Returns the name of the namespace.
+func (s *namespaceSnapshot) GetName() valueobjects.NamespaceName {
+	return s.name
+}
+
+// Returns maximum number of similar profiles to be used by recommendation algorithm.
+func (s *namespaceSnapshot) GetMaxSimilarProfiles() uint {
+	return s.maxSimilarProfiles
+}
+
 // Creates a NamespaceService.
 func NewNamespaceService(
 	context context.Context,
@@ -100,6 +125,12 @@ func (s *NamespaceService) LoadNamespaces() error {
 
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.saveNamespaces()
+}
+
+func (s *NamespaceService) saveNamespaces() error {
 	data, err := json.Marshal(s.namespaces)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
@@ -114,7 +145,13 @@ func (s *NamespaceService) SaveNamespaces() error {
 
 // Returns the list of currently loaded namespaces.
 func (s *NamespaceService) GetNamespaces() []Namespace {
-	return s.namespaces
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	namespaces := make([]Namespace, len(s.namespaces))
+	for i, ns := range s.namespaces {
+		namespaces[i] = newNamespaceSnapshot(ns)
+	}
+	return namespaces
 }
 
 // Returns the index of the namespace in the namespace list.
@@ -129,17 +166,21 @@ func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceNa
 
 // Returns the pointer to the namespace by its name, or nil if not found.
 func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) Namespace {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return nil
 	}
-	return s.namespaces[index]
+	return newNamespaceSnapshot(s.namespaces[index])
 }
 
 // Adds domain registration to the engine and persists the change.
 func (s *NamespaceService) CreateNamespace(
 	dto *NamespaceCreateRequest,
 ) (Namespace, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -148,10 +189,10 @@ func (s *NamespaceService) CreateNamespace(
 		return nil, err
 	}
 	s.namespaces = append(s.namespaces, ns)
-	if err = s.SaveNamespaces(); err != nil {
+	if err = s.saveNamespaces(); err != nil {
 		return nil, err
 	}
-	return ns, nil
+	return newNamespaceSnapshot(ns), nil
 }
 
 // Updates the namespace by it's name and persists the change.
@@ -159,10 +200,13 @@ func (s *NamespaceService) UpdateNamespace(
 	name valueobjects.NamespaceName,
 	dto *NamespaceUpdateRequest,
 ) (Namespace, error) {
-	ns := s.GetNamespaceByName(name)
-	if ns == nil {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	index := s.getNamespaceIndexByName(name)
+	if index < 0 {
 		return nil, fmt.Errorf("namespace %s not found", name)
 	}
+	ns := s.namespaces[index]
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -171,22 +215,24 @@ func (s *NamespaceService) UpdateNamespace(
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		return nil, err
 	}
-	return ns, nil
+	return newNamespaceSnapshot(ns), nil
 }
 
 // Removes namespace registration from the engine and persists the change.
 // The deleted namespace stops running automatically.
 func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
 	s.namespaces[index].Stop()
 	s.namespaces = helpers.Remove(s.namespaces, index)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From af6fced9f59a41b19ad668c96a136cae74af69a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 19/30] fix: the registry of namespaces survives a restart

---
 internal/domain/likenamespace.go    |  8 ++++
 internal/domain/namespace.go        |  1 +
 internal/domain/namespaceservice.go | 59 +++++++++++++++++++++++++++--
 3 files changed, 65 insertions(+), 3 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 74fd936..6bdb304 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -93,6 +93,11 @@ func (ns *likeNamespace) SetDislikeFactor(value float32) {
 	ns.dislikeFactor = value
 }
 
+// Returns how much dislikes affect similarity of profiles.
+func (ns *likeNamespace) GetDislikeFactor() float32 {
+	return ns.dislikeFactor
+}
+
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	filePath := ns.basePath + ns.name.Value() + ".delta"
@@ -155,6 +160,9 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 
 // Starts a separate thread to run the work on.
 func (ns *likeNamespace) Start(ctx context.Context) error {
+	if ns.likeStorageFactory == nil {
+		return errors.New("there is no like storage to start the namespace with")
+	}
 	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
 	if err != nil {
 		return err
diff --git a/internal/domain/namespace.go b/internal/domain/namespace.go
index f3fe6b6..b47fdf0 100644
--- a/internal/domain/namespace.go
+++ b/internal/domain/namespace.go
@@ -15,5 +15,6 @@ type Namespace interface {
 	SetMaxSimilarProfiles(limit uint)
 	GetMaxSimilarProfiles() uint
 	SetDislikeFactor(value float32)
+	GetDislikeFactor() float32
 	Stop()
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index f30b555..e3f2488 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"log"
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"recengine/internal/helpers"
@@ -36,6 +37,14 @@ type NamespaceService struct {
 	indexStorageFactory IndexStorageFactory
 }
 
+// A namespace registration as it is stored in the file.
+type namespaceRecord struct {
+	Name               string  `json:"name"`
+	Type               string  `json:"type"`
+	MaxSimilarProfiles uint    `json:"maxSimilarProfiles"`
+	DislikeFactor      float32 `json:"dislikeFactor"`
+}
+
 // A namespace with the settings it had when it was handed out by the service,
 // which may be changed by another request since then.
 type namespaceSnapshot struct {
@@ -98,7 +107,9 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
 	for _, ns := range s.namespaces {
-		ns.Start(ctx)
+		if err := ns.Start(ctx); err != nil {
+			log.Printf("Failed to start namespace %s: %v\n", ns.GetName().Value(), err)
+		}
 	}
 	return nil
 }
@@ -107,6 +118,29 @@ func (s *NamespaceService) getNamespacesJsonPath() string {
 	return s.basePath + "namespaces.json"
 }
 
+// Makes a namespace from its stored registration.
+func (s *NamespaceService) restoreNamespace(record *namespaceRecord) (Namespace, error) {
+	name, err := valueobjects.ParseNamespaceName(record.Name)
+	if err != nil {
+		return nil, err
+	}
+	nsType, err := valueobjects.ParseNamespaceType(record.Type)
+	if err != nil {
+		return nil, err
+	}
+	ns, err := s.forgeNamespace(&NamespaceCreateRequest{
+		Name:               name,
+		Type:               nsType,
+		MaxSimilarProfiles: record.MaxSimilarProfiles,
+		DislikeFactor:      record.DislikeFactor,
+	})
+	if err != nil {
+		return nil, err
+	}
+	ns.SetMaxSimilarProfiles(record.MaxSimilarProfiles)
+	return ns, nil
+}
+
 // Loads namespace list from the file.
 // Warning the function is not thread-safe, so must be called only before
 // starting the engine.
@@ -116,10 +150,20 @@ func (s *NamespaceService) LoadNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to open %s: %v", filePath, err)
 	}
-	err = json.Unmarshal(data, &s.namespaces)
+	var records []namespaceRecord
+	err = json.Unmarshal(data, &records)
 	if err != nil {
 		return fmt.Errorf("failed to decode %s: %v", filePath, err)
 	}
+	namespaces := make([]Namespace, 0, len(records))
+	for _, record := range records {
+		ns, err := s.restoreNamespace(&record)
+		if err != nil {
+			return fmt.Errorf("failed to restore a namespace from %s: %v", filePath, err)
+		}
+		namespaces = append(namespaces, ns)
+	}
+	s.namespaces = namespaces
 	return nil
 }
 
@@ -131,7 +175,16 @@ func (s *NamespaceService) SaveNamespaces() error {
 }
 
 func (s *NamespaceService) saveNamespaces() error {
-	data, err := json.Marshal(s.namespaces)
+	records := make([]namespaceRecord, len(s.namespaces))
+	for i, ns := range s.namespaces {
+		records[i] = namespaceRecord{
+			Name:               ns.GetName().Value(),
+			Type:               ns.GetType().Value(),
+			MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
+			DislikeFactor:      ns.GetDislikeFactor(),
+		}
+	}
+	data, err := json.Marshal(records)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
-- 
2.43.0


From 2bfbe46d808c4be950b4f58000c6905e2093a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 20/30] fix: a crash does not damage the registry of namespaces

---
 internal/domain/namespaceservice.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index e3f2488..e211126 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -189,10 +189,15 @@ func (s *NamespaceService) saveNamespaces() error {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
 	filePath := s.getNamespacesJsonPath()
-	err = os.WriteFile(filePath, data, 0644)
+	// Never leave the file incomplete
+	err = os.WriteFile(filePath+".tmp", data, 0644)
 	if err != nil {
 		return fmt.Errorf("failed to write to %s: %v", filePath, err)
 	}
+	err = os.Rename(filePath+".tmp", filePath)
+	if err != nil {
+		return fmt.Errorf("failed to replace %s: %v", filePath, err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 3cba5873c0398885cc5bc842ac8193bb80fc72ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 21/30] fix: a registry change that cannot be saved has no
 effect

---
 internal/api/shard/endpoints/namespaceendpoint.go |  4 ----
 internal/domain/namespaceservice.go               | 10 +++++++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index a5973d7..b2b9f75 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -137,9 +137,5 @@ func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	if err := endpoint.nsService.SaveNamespaces(); err != nil {
-		ctx.AbortWithStatusJSON(http.StatusInternalServerError, dto.FromError(err))
-		return
-	}
 	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(ns))
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index e211126..3fe4295 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -248,6 +248,7 @@ func (s *NamespaceService) CreateNamespace(
 	}
 	s.namespaces = append(s.namespaces, ns)
 	if err = s.saveNamespaces(); err != nil {
+		s.namespaces = s.namespaces[:len(s.namespaces)-1]
 		return nil, err
 	}
 	return newNamespaceSnapshot(ns), nil
@@ -271,9 +272,13 @@ func (s *NamespaceService) UpdateNamespace(
 	if err := <-ns.Rename(dto.Name); err != nil {
 		return nil, err
 	}
+	oldDislikeFactor, oldMaxSimilarProfiles := ns.GetDislikeFactor(), ns.GetMaxSimilarProfiles()
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
 	if err := s.saveNamespaces(); err != nil {
+		<-ns.Rename(name)
+		ns.SetDislikeFactor(oldDislikeFactor)
+		ns.SetMaxSimilarProfiles(oldMaxSimilarProfiles)
 		return nil, err
 	}
 	return newNamespaceSnapshot(ns), nil
@@ -288,10 +293,13 @@ func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) erro
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
-	s.namespaces[index].Stop()
+	ns := s.namespaces[index]
+	oldNamespaces := append([]Namespace{}, s.namespaces...)
 	s.namespaces = helpers.Remove(s.namespaces, index)
 	if err := s.saveNamespaces(); err != nil {
+		s.namespaces = oldNamespaces
 		return err
 	}
+	ns.Stop()
 	return nil
 }
-- 
2.43.0


From f081cff0684ca6bcd36df1e9fa9e1b60d87abbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 22/30] fix: namespace requests, batching and stopping

---
 internal/domain/likenamespace.go | 137 +++++++++++++++++++++----------
 1 file changed, 92 insertions(+), 45 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 6bdb304..2575d38 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"recengine/internal/domain/valueobjects"
+	"sync"
 	"time"
 )
 
@@ -21,8 +22,13 @@ type likeNamespace struct {
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
 	action                  chan Action
+	stop                    chan struct{} // closed to stop the worker
+	stopOnce                sync.Once
+	stopped                 chan struct{} // closed by the worker when it has stopped
 }
 
+var errNamespaceStopped = errors.New("the namespace stopped")
+
 // Compile-time type check
 var _ = (Namespace)((*likeNamespace)(nil))
 
@@ -49,6 +55,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 		basePath:                dto.BasePath,
 		actionQueueFillWaitTime: time.Millisecond * 50,
 		action:                  make(chan Action, 100),
+		stop:                    make(chan struct{}),
+		stopped:                 make(chan struct{}),
 	}
 	// Set defaults
 	if ns.maxSimilarProfiles == 0 {
@@ -163,6 +171,11 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 	if ns.likeStorageFactory == nil {
 		return errors.New("there is no like storage to start the namespace with")
 	}
+	select {
+	case <-ns.stopped:
+		return errNamespaceStopped
+	default:
+	}
 	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
 	if err != nil {
 		return err
@@ -183,31 +196,35 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
 		defer log.Printf("LikeNamespace %s stopped\n", ns.name)
+		defer close(ns.stopped)
 		for {
 			select {
 			case <-ctx.Done():
-				ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
 				return
-			case action, more := <-ns.action:
-				if !more {
-					ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
-					return
-				}
+			case <-ns.stop:
+				return
+			default:
+			}
+			select {
+			case <-ctx.Done():
+				return
+			case <-ns.stop:
+				return
+			case action := <-ns.action:
 				// We wan't to process as many actions as possible at a time.
 				// But not too much, though.
 				time.Sleep(ns.actionQueueFillWaitTime)
 				// Take out actions from the channel
-				actions := make([]Action, 1, len(ns.action)+1)
+				actions := make([]Action, len(ns.action)+1)
 				actions[0] = action
 				// Warning. We cannot iterate through the queue itself here!
 				for i := 1; i < len(actions); i++ {
-					actions[i], more = <-ns.action
-					if !more || actions[i].ActionType == ActionStop {
-						ns.sendStoppedLikeNamespaceErrorToActionWaiters(&actions)
-						return
-					}
+					actions[i] = <-ns.action
+				}
+				err := likeStorage.ProcessActions(actions)
+				if err != nil {
+					ns.sendErrorToUnansweredActionWaiters(actions, err)
 				}
-				likeStorage.ProcessActions(actions)
 			}
 		}
 	}()
@@ -217,104 +234,134 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
 	log.Printf("Stopping namespace %s...\n", ns.name)
-	close(ns.action)
+	ns.stopOnce.Do(func() { close(ns.stop) })
 }
 
-func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActions *[]Action) {
-	// Get actions from the buffer and send an error to each one
-	for {
-		action, more := <-ns.action
-		if !more {
-			break
+// Answers the actions of a failed batch that the storage has not answered.
+func (ns *likeNamespace) sendErrorToUnansweredActionWaiters(actions []Action, err error) {
+	for _, action := range actions {
+		select {
+		case action.Error <- err:
+		default:
 		}
-		action.Error <- errors.New("the namespace stopped")
 	}
-	// Send an error to each action that has been taken out from the buffer
-	// and should has been processed
-	if takenActions != nil {
-		for _, action := range *takenActions {
-			action.Error <- errors.New("the namespace stopped")
-		}
+}
+
+// Passes the action to the worker. Returns false if the namespace stopped.
+func (ns *likeNamespace) sendAction(action Action) bool {
+	select {
+	case ns.action <- action:
+		return true
+	case <-ns.stopped:
+		return false
+	}
+}
+
+// Passes the action to the worker and waits for it to be completed.
+func (ns *likeNamespace) performAction(actionType ActionType, payload any) error {
+	errChan := make(chan error, 1)
+	if !ns.sendAction(Action{actionType, errChan, payload}) {
+		return errNamespaceStopped
+	}
+	select {
+	case err := <-errChan:
+		return err
+	case <-ns.stopped:
+		return ns.takeLastError(errChan)
+	}
+}
+
+// Returns the error of an action that was waited for when the namespace stopped.
+func (ns *likeNamespace) takeLastError(errChan chan error) error {
+	select {
+	case err := <-errChan:
+		return err
+	default:
+		return errNamespaceStopped
 	}
 }
 
 // Removes the profile by its ID.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) DeleteProfile(user uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteProfile, err, DeleteProfilePayload{user}}
-	return <-err
+	return ns.performAction(ActionDeleteProfile, DeleteProfilePayload{user})
 }
 
 // Returns the profile by its ID or nil if it isn't found.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	profileChan := make(chan *Profile)
-	ns.action <- Action{
+	if !ns.sendAction(Action{
 		ActionGetProfile,
 		errChan,
 		GetProfilePayload{user, profileChan},
+	}) {
+		return nil, errNamespaceStopped
 	}
 	select {
 	case err := <-errChan:
 		return nil, err
 	case profile := <-profileChan:
 		return profile, nil
+	case <-ns.stopped:
+		return nil, ns.takeLastError(errChan)
 	}
 }
 
 // Sets an item of the profile liked.
 func (ns *likeNamespace) Like(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionLike, err, LikePayload{user, item}}
-	return <-err
+	return ns.performAction(ActionLike, LikePayload{user, item})
 }
 
 // Sets an item of the profile disliked.
 func (ns *likeNamespace) Dislike(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDislike, err, DislikePayload{user, item}}
-	return <-err
+	return ns.performAction(ActionDislike, DislikePayload{user, item})
 }
 
 // Sets an item of the profile undefined (not liked nor disliked).
 func (ns *likeNamespace) DeleteItem(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteItem, err, DeleteItemPayload{user, item}}
-	return <-err
+	return ns.performAction(ActionDeleteItem, DeleteItemPayload{user, item})
 }
 
 // Returns the most similar profiles to the given one.
 func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, error) {
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	profilesChan := make(chan *[]SimilarProfile)
-	ns.action <- Action{
+	if !ns.sendAction(Action{
 		ActionGetSimilarProfiles,
 		errChan,
 		GetSimilarProfilesPayload{user, profilesChan},
+	}) {
+		return nil, errNamespaceStopped
 	}
 	select {
 	case err := <-errChan:
 		return nil, err
 	case profiles := <-profilesChan:
 		return profiles, nil
+	case <-ns.stopped:
+		return nil, ns.takeLastError(errChan)
 	}
 }
 
 // Returns the recommended items for the user.
 func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	recsChan := make(chan *[]RecItem)
-	ns.action <- Action{
+	if !ns.sendAction(Action{
 		ActionRecommendItems,
 		errChan,
 		RecommendItemsPayload{user, recsChan},
+	}) {
+		return nil, errNamespaceStopped
 	}
 	select {
 	case err := <-errChan:
 		return nil, err
 	case recs := <-recsChan:
 		return recs, nil
+	case <-ns.stopped:
+		return nil, ns.takeLastError(errChan)
 	}
 }
-- 
2.43.0


From a3db6caf008e84826acde20f4b85b6c573659dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 23/30] fix: return listening errors and do not miss signals

---
 internal/api/shard/application.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index 97b5a67..a61658c 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -50,7 +50,7 @@ func NewApplication(dto *ApplicationDto) *Application {
 // execution until either an error occurs or the OS sends a signal to
 // terminate current process.
 func (srv *Application) Run() error {
-	listenError := make(chan error)
+	listenError := make(chan error, 1)
 
 	go func() {
 		if err := srv.httpSrv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
@@ -63,12 +63,16 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal)
+	quit := make(chan os.Signal, 1)
 	// kill (no param) default send syscanll.SIGTERM
 	// kill -2 is syscall.SIGINT
 	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
 	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
-	<-quit
+	select {
+	case err := <-listenError:
+		return err
+	case <-quit:
+	}
 	log.Println("Shutdown server ...")
 
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-- 
2.43.0


From 299cc45ea6bed8e00fd2f1dd93223acb3e305e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 24/30] fix: do not start with an empty registry if it cannot
 be read

---
 internal/domain/namespaceservice.go | 2 +-
 main.go                             | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 3fe4295..f5358e2 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -148,7 +148,7 @@ func (s *NamespaceService) LoadNamespaces() error {
 	filePath := s.getNamespacesJsonPath()
 	data, err := os.ReadFile(filePath)
 	if err != nil {
-		return fmt.Errorf("failed to open %s: %v", filePath, err)
+		return fmt.Errorf("failed to open %s: %w", filePath, err)
 	}
 	var records []namespaceRecord
 	err = json.Unmarshal(data, &records)
diff --git a/main.go b/main.go
index ea47458..e62dbd7 100644
--- a/main.go
+++ b/main.go
@@ -2,7 +2,9 @@ package main
 
 import (
 	"context"
+	"errors"
 	"log"
+	"os"
 	"recengine/internal/api/shard"
 	"recengine/internal/domain"
 	"recengine/internal/infra/delta"
@@ -19,8 +21,11 @@ func runShard() {
 	indexStorageFactory := index.NewStorageFactory()
 
 	nsService := domain.NewNamespaceService(ctx, deltaStorageFactory, indexStorageFactory)
-	if err := nsService.LoadNamespaces(); err != nil {
+	if err := nsService.LoadNamespaces(); errors.Is(err, os.ErrNotExist) {
 		log.Printf("Warning: couldn't load domains (first load?): %v\n", err)
+	} else if err != nil {
+		// The next change would overwrite the file
+		log.Fatalf("Error loading namespaces: %v\n", err)
 	}
 	if err := nsService.Start(ctx); err != nil {
 		log.Fatalf("Error running namespace service: %v\n", err)
-- 
2.43.0


From b3cbdddda35d79d53b411b441f204b7ca5d950c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 25/30] fix: guard the settings of a namespace, shared by its
 worker and requests

---
 internal/domain/likenamespace.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 2575d38..fd2f28d 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -25,6 +25,7 @@ type likeNamespace struct {
 	stop                    chan struct{} // closed to stop the worker
 	stopOnce                sync.Once
 	stopped                 chan struct{} // closed by the worker when it has stopped
+	settingsMutex           sync.RWMutex  // guards the name, the limit and the factor
 }
 
 var errNamespaceStopped = errors.New("the namespace stopped")
@@ -67,6 +68,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 
 // Returns the name of the namespace.
 func (ns *likeNamespace) GetName() valueobjects.NamespaceName {
+	ns.settingsMutex.RLock()
+	defer ns.settingsMutex.RUnlock()
 	return ns.name
 }
 
@@ -77,7 +80,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 
 // Renames the namespace.
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
+	ns.settingsMutex.Lock()
 	ns.name = name
+	ns.settingsMutex.Unlock()
 	// TODO: rename the files
 	result := make(chan error, 1)
 	result <- nil
@@ -86,11 +91,15 @@ func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
+	ns.settingsMutex.Lock()
+	defer ns.settingsMutex.Unlock()
 	ns.maxSimilarProfiles = limit
 }
 
 // Returns maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
+	ns.settingsMutex.RLock()
+	defer ns.settingsMutex.RUnlock()
 	return ns.maxSimilarProfiles
 }
 
@@ -98,11 +107,15 @@ func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
 // The value ranges from 0 to 1. 0.5 means that likes and dislikes has equal
 // effect on similarity.
 func (ns *likeNamespace) SetDislikeFactor(value float32) {
+	ns.settingsMutex.Lock()
+	defer ns.settingsMutex.Unlock()
 	ns.dislikeFactor = value
 }
 
 // Returns how much dislikes affect similarity of profiles.
 func (ns *likeNamespace) GetDislikeFactor() float32 {
+	ns.settingsMutex.RLock()
+	defer ns.settingsMutex.RUnlock()
 	return ns.dislikeFactor
 }
 
@@ -195,7 +208,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
-		defer log.Printf("LikeNamespace %s stopped\n", ns.name)
+		defer log.Printf("LikeNamespace %s stopped\n", ns.GetName())
 		defer close(ns.stopped)
 		for {
 			select {
@@ -233,7 +246,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
-	log.Printf("Stopping namespace %s...\n", ns.name)
+	log.Printf("Stopping namespace %s...\n", ns.GetName())
 	ns.stopOnce.Do(func() { close(ns.stop) })
 }
 
-- 
2.43.0


From 5666af6f983e4faab6be5c7ac52ff6630465f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 26/30] fix: keep the files of the namespaces next to their
 registry

---
 internal/domain/namespaceservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index f5358e2..280606c 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -94,6 +94,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 			Name:                dto.Name,
 			MaxSimilarProfiles:  dto.MaxSimilarProfiles,
 			DislikeFactor:       dto.DislikeFactor,
+			BasePath:            s.basePath,
 			DeltaStorageFactory: s.deltaStorageFactory,
 			IndexStorageFactory: s.indexStorageFactory,
 		}
-- 
2.43.0


From bbf3c64eeac877257c4757662fb42dd54322e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 27/30] fix: skipping bytes of files side by side does not race

---
 internal/helpers/io.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index a9c1d78..df01e07 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -7,9 +7,6 @@ import (
 // Static zero byte buffer that are used for filling free space in files.
 var zeros = [100]byte{}
 
-// /dev/null
-var dump = [100]byte{}
-
 // Effectively writes continuous range of zero-filled bytes into a writer.
 func WriteZeros(size int, writer io.Writer) (int, error) {
 	total := 0
@@ -32,6 +29,7 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 	if size == 0 {
 		return 0, nil
 	}
+	var dump [100]byte // /dev/null
 	skipped := 0
 	for skipped < size {
 		chunk := size - skipped
-- 
2.43.0


From 98733a92620fc5487c25d67534d391c8e6a914d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 28/30] fix: an IPv6 host can be listened on

---
 internal/api/shard/config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/api/shard/config.go b/internal/api/shard/config.go
index 767726a..286a73a 100644
--- a/internal/api/shard/config.go
+++ b/internal/api/shard/config.go
@@ -3,6 +3,7 @@ package shard
 import (
 	"os"
 	"strconv"
+	"strings"
 )
 
 const defaultServerHost = "localhost"
@@ -42,5 +43,10 @@ func NewConfigFromEnv(defaults *Config) *Config {
 
 // Returns host and port as a string joined with a colon e.g. "localhost:8080".
 func (c *Config) GetHostPort() string {
-	return c.Host + ":" + strconv.Itoa(c.Port)
+	host := c.Host
+	// An IPv6 address must be in brackets
+	if strings.Contains(host, ":") && !strings.HasPrefix(host, "[") {
+		host = "[" + host + "]"
+	}
+	return host + ":" + strconv.Itoa(c.Port)
 }
-- 
2.43.0


From f9ef65d12fbfdb16ad2f0406317c265be3586e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 29/30] fix: the delta file of a namespace is closed even if
 its storage fails to close

---
 internal/domain/likenamespace.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index fd2f28d..e98937e 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -131,7 +131,22 @@ func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 		file.Close()
 		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
 	}
-	return storage, nil
+	return &fileDeltaStorage{storage, file}, nil
+}
+
+// Delta storage that never leaves its file open.
+type fileDeltaStorage struct {
+	DeltaStorage
+	file *os.File
+}
+
+// Closes the storage. If that fails, the file is closed all the same.
+func (s *fileDeltaStorage) Close() error {
+	err := s.DeltaStorage.Close()
+	if err != nil {
+		s.file.Close()
+	}
+	return err
 }
 
 // Opens delta storage and recovers it if it is needed.
-- 
2.43.0


From db8d585ba6b036eafbdaff6ce926bf9090cea678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 30/30] fix: the similarity of profiles is a number whatever
 their items and the factor

---
 internal/domain/profile.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/domain/profile.go b/internal/domain/profile.go
index f4bb114..2d769f7 100644
--- a/internal/domain/profile.go
+++ b/internal/domain/profile.go
@@ -99,7 +99,10 @@ func computeSimilarityBetweenSets(itemsA []uint64, itemsB []uint64) (float32, in
 func (p1 *Profile) ComputeSimilarity(p2 Profile, dislikeFactor float32) float32 {
 	likesSim, likesWeight := computeSimilarityBetweenSets(p1.Likes, p2.Likes)
 	dislikesSim, dislikesWeight := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
-	dislikesWeight = int(float32(dislikesWeight) * dislikeFactor)
-	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*float32(dislikesWeight)) /
-		(float32(likesWeight) + float32(dislikesWeight)))
+	weightedDislikes := float32(dislikesWeight) * dislikeFactor
+	weight := float32(likesWeight) + weightedDislikes
+	if weight == 0 {
+		return 0
+	}
+	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*weightedDislikes) / weight)
 }
-- 
2.43.0

