From ee499ddbf20b7e7e5f80dea94cab1fffcf8968f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 01/21] fix: replace a file with one rename, so that it is
 never missing

SecureSaveFile moved the current file away before moving the new one in: a reader in between, or
a crash or an error there, found no file under the name.
---
 file/File.go | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/file/File.go b/file/File.go
index 131a7b8..71643de 100644
--- a/file/File.go
+++ b/file/File.go
@@ -18,6 +18,8 @@ const (
 	DocumentsMetrics = "metrics"
 	Temp             = "temp"
 	DocumentsRaw     = "raw"
+	//TempSuffix marks a file that is still being written
+	TempSuffix = "%temp"
 )
 
 func CompressData(buf []byte) []byte {
@@ -135,32 +137,18 @@ func ListDirectories(path string) []string {
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
-	tempPath := filepath.Join(path, fileName+"_temp")
-	oldPath := filepath.Join(path, fileName+"_old")
+	tempPath := filepath.Join(path, fileName+TempSuffix)
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
 		return fmt.Errorf("failed to create temp file: %w", err)
 	}
 
-	if Exists(currentPath) {
-		err = RenameFile(currentPath, oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to rename current file to old file: %w", err)
-		}
-	}
-
+	//The rename replaces the current file atomically
 	err = RenameFile(tempPath, currentPath)
 	if err != nil {
 		return fmt.Errorf("failed to rename temp file to current file: %w", err)
 	}
 
-	if Exists(oldPath) {
-		err = Delete(oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to delete old file: %w", err)
-		}
-	}
-
 	return nil
 }
-- 
2.43.0


From 8963b7073e9da2f727a22b25d7421f86d7e2e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 02/21] fix: make an index fragment appear only once it is
 complete

Fragments were written in place: a merge that ran meanwhile, or the first open after a crash,
read half a gzip stream and panicked.
---
 storage/DiskIO.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index ab565ca..3b42d63 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -356,9 +356,14 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 				file.CreteDirIfNotExist(path)
 
 				tempFile := uuid.New().String()
+				//A fragment appears in the folder only when it is complete
+				partial := filepath.Join(d.RootFolder, fieldName, tempFile+file.TempSuffix)
+				err := file.SaveFileOnDisk(partial, file.CompressData(buffer))
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
 				path = filepath.Join(path, tempFile)
-				err := file.SaveFileOnDisk(path, file.CompressData(buffer))
-				//err := file.SecureSaveFile(path, tempFile, file.CompressData(buffer))
+				err = file.RenameFile(partial, path)
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From e76475295e1f0e18929b2364844cf5238977b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 03/21] fix: keep the document frequencies of earlier flushes

Every flush replaced the nfterm file of a field by the terms changed since the previous flush, so
that after a restart all other terms had frequency 0.
---
 storage/DiskIO.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 3b42d63..2c60da0 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -249,7 +249,20 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 				path := filepath.Join(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeNumberFieldTerm(termSize)
+				//Keeps the terms of the earlier flushes
+				allTerms := make(map[string]int)
+				if nfPath := filepath.Join(path, file.NumberFieldTerm); file.Exists(nfPath) {
+					saved, err := file.ReadFileOnDisk(nfPath)
+					if err != nil {
+						log.Fatalf(err.Error())
+					}
+					allTerms = DeserializeNumberFieldTerm(file.DecompressData(saved))
+				}
+				for term, size := range termSize {
+					allTerms[term] = size
+				}
+
+				buf := SerializeNumberFieldTerm(allTerms)
 				err := file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
-- 
2.43.0


From 0d240f5e52af44128ad00f7ab16a2c44f6bf64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 04/21] fix: LRU cache get under the write lock, stable values,
 capacity zero

Get moved pages under the read lock (a data race that corrupts the list) and returned a pointer
that a later Put of the key wrote through; Put into a cache of capacity zero dereferenced nil.
---
 cache/LRU.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 93b5b53..885c0fa 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -26,11 +26,13 @@ func NewLRUCache[T any](capacity int) *LRUCache[T] {
 }
 
 func (l *LRUCache[T]) Get(key string) (*T, bool) {
-	l.RLock()
-	defer l.RUnlock()
+	//Moving the page changes the list
+	l.Lock()
+	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
-		return &elem.Value.(*Page[T]).value, true
+		value := elem.Value.(*Page[T]).value
+		return &value, true
 	}
 	return nil, false
 }
@@ -44,6 +46,10 @@ func (l *LRUCache[T]) Put(key string, value T) {
 		return
 	}
 
+	if l.capacity <= 0 {
+		return
+	}
+
 	if l.pages.Len() >= l.capacity {
 		delete(l.cache, l.pages.Back().Value.(*Page[T]).key)
 		l.pages.Remove(l.pages.Back())
-- 
2.43.0


From fa3cd9ca962f59b00fe7be3b1c3a145684e91ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 05/21] fix: run one index merge at a time

Opening a store in a process that still has one on the same folder ran two merges at once: one
deleted the fragments the other was about to read, which made the open fail and ended the
background merging of the other store for good.
---
 storage/DiskIO.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 2c60da0..322c4c1 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -89,7 +89,13 @@ func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*mo
 	return termDocuments, nil
 }
 
+// mergeMu: a merge must not delete the fragments that another one is reading
+var mergeMu sync.Mutex
+
 func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
+	mergeMu.Lock()
+	defer mergeMu.Unlock()
+
 	fields := file.ListDirectories(d.RootFolder)
 	index := make(map[string]map[string]*model.Set)
 
-- 
2.43.0


From 26cdb3b97a26c3a0db488e990c20ff5a5fc7d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 06/21] fix: saving a document again replaces its old version
 (memory store)

Saving a field of a document a second time counted the document, its length and its terms twice
and kept the document in the postings of the terms it no longer has.
---
 storage/Memory.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/storage/Memory.go b/storage/Memory.go
index 3310ee5..d040460 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -93,7 +93,30 @@ func (m *Memory) GetFields(documentId []string, fieldName string) map[string]mod
 
 }
 
+// removeVersion takes the stored version of the field out of the statistics and the index
+func (m *Memory) removeVersion(documentId string, fieldName string) {
+	old, ok := m.FieldDocument[documentId][fieldName]
+	if !ok {
+		return
+	}
+
+	m.FieldSize[fieldName] -= 1
+	m.FieldLength[fieldName] -= old.Length
+
+	indexField := m.Index[fieldName]
+	for term := range old.TF {
+		m.NumberFieldTerm[fieldName][term] -= 1
+		if set := indexField[term]; set != nil {
+			set.Remove(documentId)
+			if set.Size() == 0 {
+				delete(indexField, term)
+			}
+		}
+	}
+}
+
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	m.removeVersion(documentId, field.Name)
 	m.createFieldDocument(documentId, field)
 
 	m.UpdateIndex(documentId, field)
-- 
2.43.0


From 62441fef635cdedfcac3da066794909e26f16b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 07/21] fix: make the memory store safe for concurrent use

Saves and reads from several goroutines, which the index and search packages start themselves,
were data races on plain maps that can end the process; sets were returned while still changing.
---
 model/Set.go      |  9 +++++++++
 storage/Memory.go | 39 ++++++++++++++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/model/Set.go b/model/Set.go
index 2f0a176..0cf24c9 100644
--- a/model/Set.go
+++ b/model/Set.go
@@ -18,6 +18,15 @@ func (s *Set) Add(element string) {
 	s.data[element] = true
 }
 
+// Copy returns a set that later changes of s do not reach
+func (s *Set) Copy() *Set {
+	c := NewSet()
+	for element := range s.data {
+		c.data[element] = true
+	}
+	return c
+}
+
 func (s *Set) Remove(element string) {
 	delete(s.data, element)
 }
diff --git a/storage/Memory.go b/storage/Memory.go
index d040460..743ae37 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -2,6 +2,7 @@ package storage
 
 import (
 	"github.com/sira-serverless-ir-arch/goirlib/model"
+	"sync"
 )
 
 type Memory struct {
@@ -10,9 +11,16 @@ type Memory struct {
 	FieldLength     map[string]int
 	FieldSize       map[string]int
 	NumberFieldTerm map[string]map[string]int
+	mu              sync.RWMutex
 }
 
 func (m *Memory) UpdateIndex(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.updateIndex(documentId, field)
+}
+
+func (m *Memory) updateIndex(documentId string, field model.Field) {
 	m.FieldSize[field.Name] += 1
 	m.FieldLength[field.Name] += field.Length
 
@@ -35,6 +43,14 @@ func (m *Memory) UpdateIndex(documentId string, field model.Field) {
 	}
 }
 
+func copyIndex(indexField map[string]*model.Set) map[string]*model.Set {
+	temp := make(map[string]*model.Set, len(indexField))
+	for term, set := range indexField {
+		temp[term] = set.Copy()
+	}
+	return temp
+}
+
 func NewMemory() Storage {
 	return &Memory{
 		Index:           make(map[string]map[string]*model.Set),
@@ -46,6 +62,8 @@ func NewMemory() Storage {
 }
 
 func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = m.NumberFieldTerm[fieldName][term]
@@ -54,31 +72,43 @@ func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string
 }
 
 func (m *Memory) GetFieldLength(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldLength[fieldName]
 }
 
 func (m *Memory) GetFieldSize(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldSize[fieldName]
 }
 
 func (m *Memory) GetFieldDocumentTest(documentId string) map[string]model.Field {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldDocument[documentId]
 }
 
 func (m *Memory) GetIndex(fieldName string) map[string]*model.Set {
-	return m.Index[fieldName]
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	return copyIndex(m.Index[fieldName])
 }
 
 func (m *Memory) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	if indexField, ok := m.Index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *set.Copy(), true
 		}
 	}
 	return model.Set{}, false
 }
 
 func (m *Memory) GetFields(documentId []string, fieldName string) map[string]model.Field {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
@@ -116,10 +146,13 @@ func (m *Memory) removeVersion(documentId string, fieldName string) {
 }
 
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	m.removeVersion(documentId, field.Name)
 	m.createFieldDocument(documentId, field)
 
-	m.UpdateIndex(documentId, field)
+	m.updateIndex(documentId, field)
 
 	//numérico de campos que possui o termo
 	fieldTerm := m.NumberFieldTerm[field.Name]
-- 
2.43.0


From 741d30d7a7ded04b6cc318495a4232ac745078cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 08/21] fix: search drops documents whose current version has
 none of the terms

The index files only ever gain postings, so after a restart a search also returned documents
through terms that a later version of the document no longer has.
---
 index/InvertedIndex.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index cf4c37d..d9ff96a 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -92,6 +92,10 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 			semaphoreCh <- struct{}{} // acquire semaphore
 			fields := i.Storage.GetFields(documentsId, fieldName)
 			for documentId, field := range fields {
+				//Postings on disk may still list a document under terms it has lost
+				if !hasAnyTerm(field, terms) {
+					continue
+				}
 				fieldCh <- map[string]model.Field{
 					documentId: field,
 				}
@@ -120,6 +124,15 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 	return result
 }
 
+func hasAnyTerm(field model.Field, terms []string) bool {
+	for _, term := range terms {
+		if _, ok := field.TF[term]; ok {
+			return true
+		}
+	}
+	return false
+}
+
 func (i *InvertedIndex) IndexDocument(documentId string, document model.NormalizedDocument) {
 
 	for _, field := range document.Fields {
-- 
2.43.0


From d24d5a1a3e638090345161cd920058440b3b67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 09/21] fix: read the totals of a field after the postings in a
 search

A search that overlapped the first save of a field found the document but totals of zero, and
scored it NaN.
---
 index/InvertedIndex.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index d9ff96a..b971788 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -36,13 +36,6 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 
 	maxRoutines := runtime.NumCPU() * 2
 
-	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
-	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
-
-	result := model.SearchResult{
-		NumFieldsWithTerm: i.Storage.GetNumberFieldTerm(fieldName, terms),
-	}
-
 	documentIdCh := make(chan string, len(terms))
 	semaphoreCh := make(chan struct{}, maxRoutines)
 
@@ -117,6 +110,13 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 		}
 	}
 
+	//Read after the postings, so that the totals cover every document found above
+	result := model.SearchResult{
+		NumFieldsWithTerm: i.Storage.GetNumberFieldTerm(fieldName, terms),
+	}
+	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
+	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
+
 	result.FieldDocuments = fieldDocuments
 	result.TotalDocuments = fieldSize
 	result.AvgDocLength = fieldLength / fieldSize
-- 
2.43.0


From 410579cd0c1d593db0d0ab2228b666aaf70b4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 10/21] fix: keep the other fields of a document that is not in
 the cache

Saving a field of a document that had been evicted, or not been read since the store was opened,
started from an empty document: its other fields were lost. A document evicted before its flush
could not be read at all. Saves now start from the version that is waiting for its flush or on
disk, and reads find a waiting version. A document that cannot be read is no longer taken for one
that does not exist.
---
 storage/DiskIO.go      | 45 +++++++++++++++++++++++++++--------------
 storage/DiskStorage.go | 46 +++++++++++++++++++-----------------------
 2 files changed, 51 insertions(+), 40 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 322c4c1..298d9d0 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -6,6 +6,7 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/file"
 	"github.com/sira-serverless-ir-arch/goirlib/model"
 	"log"
+	"os"
 	"path/filepath"
 	"sync"
 	"time"
@@ -13,11 +14,18 @@ import (
 
 type DiskIO struct {
 	RootFolder string
+	//documents that are not on disk yet
+	pending *BufferFieldDocument
 }
 
 func NewDiskIO(rootFolder string) DiskIO {
 	file.CreteDirIfNotExist(rootFolder)
-	return DiskIO{rootFolder}
+	return DiskIO{
+		RootFolder: rootFolder,
+		pending: &BufferFieldDocument{
+			data: make(map[string]map[string]model.Field),
+		},
+	}
 }
 
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
@@ -60,11 +68,22 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 }
 
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
+	d.pending.Lock()
+	fieldDocument, ok := d.pending.data[documentId]
+	d.pending.Unlock()
+	if ok {
+		return fieldDocument, true
+	}
+
 	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
 	buf, err := file.ReadFileOnDisk(path)
-	if err != nil {
+	if os.IsNotExist(err) {
 		return nil, false
 	}
+	if err != nil {
+		//Not the same as a document without fields, which the next save would write
+		log.Fatalf(err.Error())
+	}
 	return DeserializeFieldMap(file.DecompressData(buf)), true
 }
 
@@ -171,11 +190,6 @@ type NumberFieldTermTransferData struct {
 	//TermSize  map[string]int
 }
 
-type DocumentFieldTransferData struct {
-	DocumentId string
-	Field      map[string]model.Field
-}
-
 type BufferFieldDocument struct {
 	sync.Mutex
 	data map[string]map[string]model.Field
@@ -192,21 +206,22 @@ type bufferFieldLengthSize struct {
 	Size   map[string]int
 }
 
-func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
+// BufferDocumentField hands a document to SaveDocumentFieldOnDisk; loads see it at once
+func (d *DiskIO) BufferDocumentField(documentId string, fieldDocument map[string]model.Field) {
+	d.pending.Lock()
+	defer d.pending.Unlock()
+	d.pending.data[documentId] = fieldDocument
+}
 
-	localBuffer := BufferFieldDocument{
-		data: make(map[string]map[string]model.Field),
-	}
+func (d *DiskIO) SaveDocumentFieldOnDisk() {
+
+	localBuffer := d.pending
 
 	ticker := time.NewTicker(10 * time.Second)
 	defer ticker.Stop()
 
 	for {
 		select {
-		case fieldDocument := <-data:
-			localBuffer.Lock()
-			localBuffer.data[fieldDocument.DocumentId] = fieldDocument.Field
-			localBuffer.Unlock()
 		case <-ticker.C:
 			localBuffer.Lock()
 			for documentId, fieldMap := range localBuffer.data {
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index ce8fdc1..9bbd4fe 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -12,7 +12,6 @@ type Disk struct {
 	indexCh            chan IndexTransferData
 	fieldCh            chan FieldSizeLengthTransferData
 	numberFieldTermCh  chan NumberFieldTermTransferData
-	documentFieldCh    chan DocumentFieldTransferData
 	index              map[string]map[string]*model.Set
 	fieldLength        map[string]int
 	fieldSize          map[string]int
@@ -27,7 +26,6 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 	indexCh := make(chan IndexTransferData, 100)
 	fieldCh := make(chan FieldSizeLengthTransferData)
 	numberFieldTermCh := make(chan NumberFieldTermTransferData)
-	documentFieldCh := make(chan DocumentFieldTransferData)
 
 	diskIO := NewDiskIO(rootFolder)
 
@@ -57,7 +55,6 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 		indexCh:            indexCh,
 		fieldCh:            fieldCh,
 		numberFieldTermCh:  numberFieldTermCh,
-		documentFieldCh:    documentFieldCh,
 		index:              index,
 		fieldLength:        fieldLength,
 		fieldSize:          fieldSize,
@@ -69,7 +66,7 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 	go diskIO.SaveFieldSizeLengthOnDisc(fieldCh)
 	go diskIO.SaveIndexOnDisk(indexCh)
 	go diskIO.SaveNumberFieldTermOnDisk(numberFieldTermCh)
-	go diskIO.SaveDocumentFieldOnDisk(documentFieldCh)
+	go diskIO.SaveDocumentFieldOnDisk()
 
 	go func() {
 		//merge index fragments to index
@@ -119,18 +116,10 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
-		if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(id); ok {
-			fieldDocument := *fieldDocumentPtr
+		if fieldDocument, ok := d.getFieldDocument(id); ok {
 			if field, ok := fieldDocument[fieldName]; ok {
 				fields[id] = field
 			}
-		} else {
-			if fieldDocument, ok := d.diskIO.LoadFieldDocumentOnHD(id); ok {
-				if field, ok := fieldDocument[fieldName]; ok {
-					fields[id] = field
-				}
-				d.fieldDocumentCache.Put(id, fieldDocument)
-			}
 		}
 	}
 
@@ -138,6 +127,17 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 
 }
 
+func (d *Disk) getFieldDocument(documentId string) (map[string]model.Field, bool) {
+	if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
+		return *fieldDocumentPtr, true
+	}
+	fieldDocument, ok := d.diskIO.LoadFieldDocumentOnHD(documentId)
+	if ok {
+		d.fieldDocumentCache.Put(documentId, fieldDocument)
+	}
+	return fieldDocument, ok
+}
+
 func (d *Disk) UpdateFieldSizeLength(field model.Field) {
 	d.fieldSize[field.Name] += 1
 	d.fieldLength[field.Name] += field.Length
@@ -170,22 +170,18 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 
-	var fieldIndex map[string]model.Field
-
-	if fieldIndexPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
-		fieldIndex = *fieldIndexPtr
-	} else {
-		fieldIndex = make(map[string]model.Field)
+	//The new version is a copy: the old one may still be read or written to disk
+	fieldIndex := make(map[string]model.Field)
+	if fieldDocument, ok := d.getFieldDocument(documentId); ok {
+		for name, f := range fieldDocument {
+			fieldIndex[name] = f
+		}
 	}
 
 	fieldIndex[field.Name] = field
-	d.fieldDocumentCache.Put(documentId, fieldIndex)
-
-	d.documentFieldCh <- DocumentFieldTransferData{
-		DocumentId: documentId,
-		Field:      fieldIndex,
-	}
 
+	d.diskIO.BufferDocumentField(documentId, fieldIndex)
+	d.fieldDocumentCache.Put(documentId, fieldIndex)
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
-- 
2.43.0


From 8dd63c7482846e034d111b28f9ee1204e855e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 11/21] fix: saving a document again replaces its old version
 (disk store)

As in the memory store: a second save of a field counted the document, its length and its terms
twice and kept the document in the postings of the terms it no longer has.
---
 storage/DiskStorage.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 9bbd4fe..f50cceb 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -215,8 +215,46 @@ func (d *Disk) UpdateIndex(documentId string, field model.Field) {
 
 }
 
+// removeVersion takes the stored version of the field out of the statistics and the index
+func (d *Disk) removeVersion(documentId string, field model.Field) {
+	fieldDocument, _ := d.getFieldDocument(documentId)
+	old, ok := fieldDocument[field.Name]
+	if !ok {
+		return
+	}
+
+	//After a crash the totals may be older than the document
+	if d.fieldSize[field.Name] > 0 && d.fieldLength[field.Name] >= old.Length {
+		d.fieldSize[field.Name] -= 1
+		d.fieldLength[field.Name] -= old.Length
+	}
+
+	indexField := d.index[field.Name]
+	fieldTerm := d.numberFieldTerm[field.Name]
+	for term := range old.TF {
+		if fieldTerm[term] > 0 {
+			fieldTerm[term] -= 1
+		}
+		//The terms that the field keeps are counted again
+		if _, kept := field.TF[term]; !kept {
+			d.numberFieldTermCh <- NumberFieldTermTransferData{
+				FieldName: field.Name,
+				Term:      term,
+				Size:      fieldTerm[term],
+			}
+		}
+		if set := indexField[term]; set != nil {
+			set.Remove(documentId)
+			if set.Size() == 0 {
+				delete(indexField, term)
+			}
+		}
+	}
+}
+
 func (d *Disk) SaveOrUpdate(documentId string, field model.Field) {
 
+	d.removeVersion(documentId, field)
 	d.UpdateFieldSizeLength(field)
 	d.UpdateIndex(documentId, field)
 	d.UpdateNumberFieldTerm(field)
-- 
2.43.0


From 4675f015cbf0ecc06f8f2e2655e8f66941213c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 12/21] fix: make the disk store safe for concurrent use

Its mutex was never taken. Saves and reads from several goroutines, as the HTTP service makes
them, were data races on plain maps that can end the process.
---
 storage/DiskStorage.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index f50cceb..89434ad 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -84,6 +84,8 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 }
 
 func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = d.numberFieldTerm[fieldName][term]
@@ -92,27 +94,37 @@ func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]i
 }
 
 func (d *Disk) GetFieldLength(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldLength[fieldName]
 }
 
 func (d *Disk) GetFieldSize(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldSize[fieldName]
 }
 
 func (d *Disk) GetIndex(fieldName string) map[string]*model.Set {
-	return d.index[fieldName]
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+	return copyIndex(d.index[fieldName])
 }
 
 func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	if indexField, ok := d.index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *set.Copy(), true
 		}
 	}
 	return model.Set{}, false
 }
 
 func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model.Field {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
@@ -185,6 +197,12 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	d.updateIndex(documentId, field)
+}
+
+func (d *Disk) updateIndex(documentId string, field model.Field) {
 
 	indexField := d.index[field.Name]
 	if indexField == nil {
@@ -254,9 +272,12 @@ func (d *Disk) removeVersion(documentId string, field model.Field) {
 
 func (d *Disk) SaveOrUpdate(documentId string, field model.Field) {
 
+	d.mu.Lock()
+	defer d.mu.Unlock()
+
 	d.removeVersion(documentId, field)
 	d.UpdateFieldSizeLength(field)
-	d.UpdateIndex(documentId, field)
+	d.updateIndex(documentId, field)
 	d.UpdateNumberFieldTerm(field)
 	d.UpdateFieldDocument(documentId, field)
 }
-- 
2.43.0


From 3dcbd26546682df8a49ec842ed9b37629f7da7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 13/21] fix: keep every document id and field name apart and
 inside the store folder

Ids and field names were used as file names unchanged: a path separator or ".." wrote outside
the store or stopped the process, a field called docs was never loaded again, an id ending in
_temp or _old collided with the files of another document, and ids over 255 bytes stopped the
process. They are now escaped; over-long ids are hashed.
---
 file/File.go      | 53 +++++++++++++++++++++++++++++++++++++++++++++++
 storage/DiskIO.go | 36 +++++++++++++++++++-------------
 2 files changed, 75 insertions(+), 14 deletions(-)

diff --git a/file/File.go b/file/File.go
index 71643de..b4fb560 100644
--- a/file/File.go
+++ b/file/File.go
@@ -3,11 +3,14 @@ package file
 import (
 	"bytes"
 	"compress/gzip"
+	"crypto/sha256"
 	"fmt"
 	"io"
 	"log"
 	"os"
 	"path/filepath"
+	"strconv"
+	"strings"
 )
 
 const (
@@ -20,6 +23,7 @@ const (
 	DocumentsRaw     = "raw"
 	//TempSuffix marks a file that is still being written
 	TempSuffix = "%temp"
+	maxName    = 200
 )
 
 func CompressData(buf []byte) []byte {
@@ -134,6 +138,55 @@ func ListDirectories(path string) []string {
 	return directories
 }
 
+// EncodeName turns any document id or field name into the name of a file or folder. Different names
+// stay different, and names without special characters stay as they are.
+func EncodeName(name string) string {
+	if name == "" {
+		return "%"
+	}
+
+	special := name == "." || name == ".." || name == Documents
+	var b strings.Builder
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if c == '/' || c == '\\' || c == '%' || c == 0 || (special && i == 0) {
+			fmt.Fprintf(&b, "%%%02X", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
+}
+
+// EncodeLongName is EncodeName for names of any length. A name that is too long for a file is hashed.
+func EncodeLongName(name string) string {
+	encoded := EncodeName(name)
+	if len(encoded) > maxName {
+		return fmt.Sprintf("%%%%%x", sha256.Sum256([]byte(name)))
+	}
+	return encoded
+}
+
+// DecodeName is the inverse of EncodeName
+func DecodeName(fileName string) string {
+	if fileName == "%" {
+		return ""
+	}
+
+	var b strings.Builder
+	for i := 0; i < len(fileName); i++ {
+		if fileName[i] == '%' && i+2 < len(fileName) {
+			if c, err := strconv.ParseUint(fileName[i+1:i+3], 16, 8); err == nil {
+				b.WriteByte(byte(c))
+				i += 2
+				continue
+			}
+		}
+		b.WriteByte(fileName[i])
+	}
+	return b.String()
+}
+
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 298d9d0..c95218d 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -28,11 +28,19 @@ func NewDiskIO(rootFolder string) DiskIO {
 	}
 }
 
-func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
+func (d *DiskIO) listFields() []string {
 	fields := file.ListDirectories(d.RootFolder)
+	for i, name := range fields {
+		fields[i] = file.DecodeName(name)
+	}
+	return fields
+}
+
+func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
+	fields := d.listFields()
 	numberFieldTerm := make(map[string]map[string]int)
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
+		path := filepath.Join(d.RootFolder, file.EncodeName(field), file.NumberFieldTerm)
 		if !file.Exists(path) {
 			continue
 		}
@@ -46,11 +54,11 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 }
 
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	fieldSize := make(map[string]int)
 	fieldLength := make(map[string]int)
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.MetricsFile)
+		path := filepath.Join(d.RootFolder, file.EncodeName(field), file.MetricsFile)
 		if !file.Exists(path) {
 			continue
 		}
@@ -75,7 +83,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 		return fieldDocument, true
 	}
 
-	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
+	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.EncodeLongName(documentId))
 	buf, err := file.ReadFileOnDisk(path)
 	if os.IsNotExist(err) {
 		return nil, false
@@ -89,7 +97,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 
 func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*model.Set, error) {
 	termDocuments := make(map[string]*model.Set)
-	path := filepath.Join(rootFolder, field, file.IndexFile)
+	path := filepath.Join(rootFolder, file.EncodeName(field), file.IndexFile)
 	if !file.Exists(path) {
 		return termDocuments, nil
 	}
@@ -115,11 +123,11 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 	mergeMu.Lock()
 	defer mergeMu.Unlock()
 
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	index := make(map[string]map[string]*model.Set)
 
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.Temp)
+		path := filepath.Join(d.RootFolder, file.EncodeName(field), file.Temp)
 		file.CreteDirIfNotExist(path)
 		files := file.ListFiles(path)
 
@@ -155,7 +163,7 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 		}
 
 		buffer := SerializeIndex(tempTermDocuments)
-		indexPath := filepath.Join(d.RootFolder, field)
+		indexPath := filepath.Join(d.RootFolder, file.EncodeName(field))
 		file.CreteDirIfNotExist(indexPath)
 
 		err = file.SecureSaveFile(indexPath, file.IndexFile, file.CompressData(buffer))
@@ -229,7 +237,7 @@ func (d *DiskIO) SaveDocumentFieldOnDisk() {
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldMap(fieldMap)
-				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
+				err := file.SecureSaveFile(path, file.EncodeLongName(documentId), file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
@@ -267,7 +275,7 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 			buffer.Lock()
 			for fieldName, termSize := range buffer.data {
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.EncodeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				//Keeps the terms of the earlier flushes
@@ -319,7 +327,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 				length := buffer.Length[fieldName]
 				size := buffer.Size[fieldName]
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.EncodeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
@@ -386,12 +394,12 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 			bufferData.Lock()
 			for fieldName, terms := range bufferData.buffer {
 				buffer := SerializeIndex(terms)
-				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
+				path := filepath.Join(d.RootFolder, file.EncodeName(fieldName), file.Temp)
 				file.CreteDirIfNotExist(path)
 
 				tempFile := uuid.New().String()
 				//A fragment appears in the folder only when it is complete
-				partial := filepath.Join(d.RootFolder, fieldName, tempFile+file.TempSuffix)
+				partial := filepath.Join(d.RootFolder, file.EncodeName(fieldName), tempFile+file.TempSuffix)
 				err := file.SaveFileOnDisk(partial, file.CompressData(buffer))
 				if err != nil {
 					log.Fatalf(err.Error())
-- 
2.43.0


From f9cf2d61a5b67d39dd5f717ab34c08a46a0c93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 14/21] fix: SyncMap publishes its puts, newest value first

Its writer was never started, so that nothing put was ever visible and the thousand-and-first put
blocked forever; the merge let the old value of a key win over the new one.
---
 cache/Map.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cache/Map.go b/cache/Map.go
index 1406c05..0b9ef52 100644
--- a/cache/Map.go
+++ b/cache/Map.go
@@ -29,7 +29,7 @@ func NewSyncMap[T any]() *SyncMap[T] {
 		Ch:   make(chan TransferData[T], 1000),
 	}
 
-	//go i.writer()
+	go i.writer()
 	return i
 }
 
@@ -55,11 +55,6 @@ func (i *SyncMap[T]) writer() {
 
 			m.Lock()
 			bufferCopy := make(map[string]T, len(i.Data)+len(buffer))
-			for key, value := range buffer {
-				bufferCopy[key] = value
-			}
-			buffer = make(map[string]T)
-			m.Unlock()
 
 			i.RLock()
 			for key, value := range i.Data {
@@ -67,6 +62,13 @@ func (i *SyncMap[T]) writer() {
 			}
 			i.RUnlock()
 
+			//The new values replace the old ones
+			for key, value := range buffer {
+				bufferCopy[key] = value
+			}
+			buffer = make(map[string]T)
+			m.Unlock()
+
 			i.Lock()
 			i.Data = bufferCopy
 			i.Unlock()
-- 
2.43.0


From 0856ffe3615ad9594815af6a9e31426b4255551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 15/21] fix: plain text for document ids that are JSON numbers

The id 7 became "%!s(float64=7)"; a null id became "%!s(<nil>)" instead of empty.
---
 field/FieldProcess.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 628c3a7..edb9587 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -3,6 +3,7 @@ package field
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 )
 
 const ID = "Id"
@@ -19,7 +20,15 @@ func StringToObject(document string) map[string]interface{} {
 func GetID(input map[string]interface{}) string {
 	for k, v := range input {
 		if k == ID {
-			return fmt.Sprintf("%s", v)
+			switch value := v.(type) {
+			case nil:
+				return ""
+			case float64:
+				return strconv.FormatFloat(value, 'f', -1, 64)
+			case string:
+				return value
+			}
+			return fmt.Sprintf("%v", v)
 		}
 	}
 	return ""
-- 
2.43.0


From cfc04c59abc533a74ecd30f13d643196df39a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 16/21] fix: answer queries with fewer than ten matches, and
 concurrent ones

Slicing the first ten of fewer results panicked, so that such a query got no answer; a query
counter shared by all requests, used for nothing, was a data race.
---
 main.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/main.go b/main.go
index aded6c2..8ddec39 100644
--- a/main.go
+++ b/main.go
@@ -46,8 +46,6 @@ func isNotDocumentComplete(doc Document) bool {
 	return false
 }
 
-var id = 0
-
 func maincc() {
 	lru := cache.NewSyncMap[float64]()
 
@@ -179,8 +177,6 @@ func main() {
 		})
 
 		duration := time.Since(start)
-		id += 1
-		//fmt.Println("Qid:", id, len(rs))
 		if len(rs) == 0 {
 			body := Result{
 				Duration:       duration.String(),
@@ -192,6 +188,10 @@ func main() {
 			return
 		}
 
+		if len(rs) > 10 {
+			rs = rs[:10]
+		}
+
 		queryResults := make([]QueryResult, len(rs))
 		for i, score := range rs {
 			queryResults[i] = QueryResult{
@@ -204,10 +204,10 @@ func main() {
 
 		body := Result{
 			Duration:       duration.String(),
-			Total:          10,
+			Total:          len(queryResults),
 			Algorithm:      "BM25",
 			SemanticSearch: false,
-			QueryResults:   queryResults[0:10],
+			QueryResults:   queryResults,
 		}
 		c.JSON(http.StatusOK, body)
 	})
-- 
2.43.0


From 2c1f342b33d435423402d546594c958eb7a83dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 17/21] fix: flatten keeps the leaves under an empty key apart

---
 field/FieldProcess.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index edb9587..58cba5d 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -42,13 +42,10 @@ func Flatten(input map[string]interface{}) map[string]interface{} {
 
 func recFlatten(input map[string]interface{}, output map[string]interface{}, prefix string) {
 	for k, v := range input {
-		key := k
-		if prefix != "" {
-			key = prefix + "." + k
-		}
+		key := prefix + k
 		switch value := v.(type) {
 		case map[string]interface{}:
-			recFlatten(value, output, key)
+			recFlatten(value, output, key+".")
 		default:
 			output[key] = value
 		}
-- 
2.43.0


From 31d5f0235071f2a690a74a06af49572b702b0fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 18/21] fix: finite scores when a crash left the totals behind
 the documents

---
 index/InvertedIndex.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index b971788..4d96304 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -3,6 +3,7 @@ package index
 import (
 	"github.com/sira-serverless-ir-arch/goirlib/model"
 	"github.com/sira-serverless-ir-arch/goirlib/storage"
+	"math"
 	"runtime"
 	"sync"
 )
@@ -117,6 +118,17 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
 	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
 
+	//After a crash the totals on disk may be older than the documents
+	lengthFound := 0
+	for _, field := range fieldDocuments {
+		lengthFound += field.Length
+	}
+	fieldLength = math.Max(fieldLength, float64(lengthFound))
+	fieldSize = math.Max(fieldSize, float64(len(fieldDocuments)))
+	for _, numDocs := range result.NumFieldsWithTerm {
+		fieldSize = math.Max(fieldSize, float64(numDocs))
+	}
+
 	result.FieldDocuments = fieldDocuments
 	result.TotalDocuments = fieldSize
 	result.AvgDocLength = fieldLength / fieldSize
-- 
2.43.0


From 40ed6732ba3a1536a3bdb3f2e76c1ebd0b6d4ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 19/21] fix: saved fields do not share the caller's map

---
 model/Field.go         | 9 +++++++++
 storage/DiskStorage.go | 3 +++
 storage/Memory.go      | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/model/Field.go b/model/Field.go
index 6b48f32..2f4c0ed 100644
--- a/model/Field.go
+++ b/model/Field.go
@@ -6,3 +6,12 @@ type Field struct {
 	TF     map[string]int
 }
 
+// Copy returns a field that later changes of f.TF do not reach
+func (f Field) Copy() Field {
+	tf := make(map[string]int, len(f.TF))
+	for term, frequency := range f.TF {
+		tf[term] = frequency
+	}
+	f.TF = tf
+	return f
+}
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 89434ad..f1425df 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -275,6 +275,9 @@ func (d *Disk) SaveOrUpdate(documentId string, field model.Field) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
+	//The caller may go on using its map
+	field = field.Copy()
+
 	d.removeVersion(documentId, field)
 	d.UpdateFieldSizeLength(field)
 	d.updateIndex(documentId, field)
diff --git a/storage/Memory.go b/storage/Memory.go
index 743ae37..71cd24f 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -149,6 +149,9 @@ func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
+	//The caller may go on using its map
+	field = field.Copy()
+
 	m.removeVersion(documentId, field.Name)
 	m.createFieldDocument(documentId, field)
 
-- 
2.43.0


From e3ca2dff1eeea2f7154818580e4539620e2d1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 20/21] fix: GetData of a LocalMap returns a copy read under
 the lock

---
 cache/LocalMap.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cache/LocalMap.go b/cache/LocalMap.go
index b84c925..786896f 100644
--- a/cache/LocalMap.go
+++ b/cache/LocalMap.go
@@ -20,7 +20,14 @@ func (l *LocalMap[T]) Set(key string, value T) {
 }
 
 func (l *LocalMap[T]) GetData() map[string]*T {
-	return l.store
+	l.mu.RLock()
+	defer l.mu.RUnlock()
+	//A copy: the map itself may only be read under the lock
+	data := make(map[string]*T, len(l.store))
+	for key, value := range l.store {
+		data[key] = value
+	}
+	return data
 }
 
 func (l *LocalMap[T]) Get(key string) (*T, bool) {
-- 
2.43.0


From 19156f0da3fef20c1107f23b115d6efa9ae2c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 21/21] fix: GetFieldDocumentTest returns a copy

It returned the store's own map, which later saves change (without the
lock that the caller does not have).
---
 storage/Memory.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/storage/Memory.go b/storage/Memory.go
index 71cd24f..902d6b8 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -86,7 +86,16 @@ func (m *Memory) GetFieldSize(fieldName string) int {
 func (m *Memory) GetFieldDocumentTest(documentId string) map[string]model.Field {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
-	return m.FieldDocument[documentId]
+	fieldDocument, ok := m.FieldDocument[documentId]
+	if !ok {
+		return nil
+	}
+	//A copy: later saves change the map
+	fields := make(map[string]model.Field, len(fieldDocument))
+	for name, field := range fieldDocument {
+		fields[name] = field
+	}
+	return fields
 }
 
 func (m *Memory) GetIndex(fieldName string) map[string]*model.Set {
-- 
2.43.0

