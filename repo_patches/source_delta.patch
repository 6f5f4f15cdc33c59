From 09f6e56d92c34ee1037c449d647b12e105541729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 01/98] fix: read files with a direct-io buffer that is a
 multiple of 4KB

---
 src/objectserver/internal/usecase/service/objects_service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 9a10a99..f5a26d8 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -146,7 +146,8 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 			return err
 		}
 	}
-	bufSize := math.MinInt(int(size), 8*cst.OS.PageSize)
+	// direct-io requires the buffer to be a multiple of 4KB
+	bufSize := math.MinInt(disk.AlignedSize(int(size)), 8*cst.OS.PageSize)
 	_, err = io.CopyBuffer(writer, disk.LimitReader(file, size), disk.AlignedBlock(bufSize))
 	return err
 }
-- 
2.43.0


From 33045985a3c618153724b8b5d9fa92483c4f5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 02/98] fix: path cache finds single paths and removes whole
 entries

---
 .../internal/db/object_path_cache.go          | 44 ++++++++++---------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/objectserver/internal/db/object_path_cache.go b/src/objectserver/internal/db/object_path_cache.go
index 6baabc0..8647eaf 100644
--- a/src/objectserver/internal/db/object_path_cache.go
+++ b/src/objectserver/internal/db/object_path_cache.go
@@ -41,10 +41,8 @@ func (pc *PathCache) get(txn *badger.Txn, key []byte) ([]byte, error) {
 	var res []byte
 	item, err := txn.Get(key)
 	if err == nil {
-		if err = item.Value(func(val []byte) error {
-			res = val
-			return nil
-		}); err != nil {
+		// the value is only valid inside of the transaction and must not be modified
+		if res, err = item.ValueCopy(nil); err != nil {
 			return nil, err
 		}
 	}
@@ -69,8 +67,13 @@ func (pc *PathCache) Put(name, path string) error {
 		if err != nil && err != badger.ErrKeyNotFound {
 			return err
 		}
-		// not use bytes.Join to avoid memory copy
 		if len(origin) > 0 {
+			for _, b := range bytes.Split(origin, Sep) {
+				// already saved
+				if bytes.Equal(b, value) {
+					return nil
+				}
+			}
 			value = append(append(origin, Sep...), value...)
 		}
 		return txn.Set(key, value)
@@ -86,10 +89,10 @@ func (pc *PathCache) Get(name string) ([]string, error) {
 		if err != nil {
 			return err
 		}
-		sp := bytes.Split(value, Sep)
-		if len(sp) == 0 {
+		if len(value) == 0 {
 			return badger.ErrKeyNotFound
 		}
+		sp := bytes.Split(value, Sep)
 		res = make([]string, 0, len(sp))
 		for _, b := range sp {
 			res = append(res, util.BytesToStr(pc.decodeValue(b)))
@@ -111,11 +114,12 @@ func (pc *PathCache) GetLast(name string) (string, error) {
 		if err != nil {
 			return err
 		}
-		if idx := bytes.LastIndexByte(value, Sep[0]); idx > 0 {
-			res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
-			return nil
+		if len(value) == 0 {
+			return badger.ErrKeyNotFound
 		}
-		return badger.ErrKeyNotFound
+		idx := bytes.LastIndexByte(value, Sep[0])
+		res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
+		return nil
 	})
 	if err == badger.ErrKeyNotFound {
 		err = os.ErrNotExist
@@ -130,17 +134,17 @@ func (pc *PathCache) Remove(name, path string) error {
 		if err != nil {
 			return err
 		}
-		before, after, ok := bytes.Cut(val, pc.encodeValue(util.StrToBytes(path)))
-		if !ok {
-			return badger.ErrKeyNotFound
+		target := pc.encodeValue(util.StrToBytes(path))
+		left := make([][]byte, 0, 1)
+		for _, b := range bytes.Split(val, Sep) {
+			if !bytes.Equal(b, target) {
+				left = append(left, b)
+			}
 		}
-		before = bytes.TrimSuffix(before, Sep)
-		after = bytes.TrimPrefix(after, Sep)
-		// not use bytes.Join to avoid memory allocating and copy
-		if len(before) > 0 {
-			after = append(append(before, Sep...), after...)
+		if len(left) == 0 {
+			return txn.Delete(key)
 		}
-		return txn.Set(key, after)
+		return txn.Set(key, bytes.Join(left, Sep))
 	})
 	if err == badger.ErrKeyNotFound {
 		err = nil
-- 
2.43.0


From afec47fe55fe148cf0d0342c6ce925eba6a64f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 03/98] fix: selecting a driver never reorders or races on the
 shared driver list

---
 .../usecase/component/driver_balancer.go      | 13 ++++++----
 .../usecase/component/driver_manager.go       | 25 +++++++++++++------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/objectserver/internal/usecase/component/driver_balancer.go b/src/objectserver/internal/usecase/component/driver_balancer.go
index fc3912c..6ef861b 100644
--- a/src/objectserver/internal/usecase/component/driver_balancer.go
+++ b/src/objectserver/internal/usecase/component/driver_balancer.go
@@ -5,7 +5,7 @@ import (
 	"common/util/slices"
 	"errors"
 	"math"
-	"sort"
+	"sync"
 )
 
 type DriverBalancer interface {
@@ -22,13 +22,14 @@ func (sf *spaceFirstBalancer) Select(drivers []*Driver) (*Driver, error) {
 	if len(drivers) == 0 {
 		return nil, errors.New("non drivers available")
 	}
-	sort.Slice(drivers, func(i, j int) bool {
-		return drivers[i].FreeSpace < drivers[j].FreeSpace
-	})
-	return slices.Last(drivers), nil
+	// drivers is shared by all requests, never reorder it
+	return slices.Extremal(drivers, func(max, cur *Driver) bool {
+		return cur.FreeSpace > max.FreeSpace
+	}), nil
 }
 
 type spaceWeightedBalancer struct {
+	mu       sync.Mutex
 	weighted map[string]datasize.DataSize
 	factor   datasize.DataSize
 }
@@ -52,6 +53,8 @@ func (sw *spaceWeightedBalancer) Select(drivers []*Driver) (*Driver, error) {
 	if len(drivers) == 0 {
 		return nil, errors.New("non drivers available")
 	}
+	sw.mu.Lock()
+	defer sw.mu.Unlock()
 	if sw.factor == 0 {
 		sw.initFactor(drivers)
 	}
diff --git a/src/objectserver/internal/usecase/component/driver_manager.go b/src/objectserver/internal/usecase/component/driver_manager.go
index 535d6ec..e659ce4 100644
--- a/src/objectserver/internal/usecase/component/driver_manager.go
+++ b/src/objectserver/internal/usecase/component/driver_manager.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"os"
 	"path/filepath"
+	"sync/atomic"
 	"time"
 )
 
@@ -20,7 +21,7 @@ type Driver struct {
 }
 
 type DriverManager struct {
-	drivers  []*Driver
+	drivers  atomic.Pointer[[]*Driver]
 	balancer DriverBalancer
 	Excludes set.Set
 	Includes set.Set
@@ -61,7 +62,14 @@ func (dm *DriverManager) Update() {
 	if len(info) == 0 {
 		logs.Std().Errorf("not found any availeble mountpoints!")
 	}
-	dm.drivers = info
+	dm.drivers.Store(&info)
+}
+
+func (dm *DriverManager) allDrivers() []*Driver {
+	if p := dm.drivers.Load(); p != nil {
+		return *p
+	}
+	return nil
 }
 
 func (dm *DriverManager) StartAutoUpdate() (stop func()) {
@@ -84,11 +92,11 @@ func (dm *DriverManager) StartAutoUpdate() (stop func()) {
 }
 
 func (dm *DriverManager) SelectDriver() (*Driver, error) {
-	return dm.balancer.Select(dm.drivers)
+	return dm.balancer.Select(dm.allDrivers())
 }
 
 func (dm *DriverManager) SelectMountPointFallback(fb string) string {
-	d, err := dm.balancer.Select(dm.drivers)
+	d, err := dm.balancer.Select(dm.allDrivers())
 	if err != nil {
 		return fb
 	}
@@ -96,7 +104,7 @@ func (dm *DriverManager) SelectMountPointFallback(fb string) string {
 }
 
 func (dm *DriverManager) IsPathExist(path string) bool {
-	for _, d := range dm.drivers {
+	for _, d := range dm.allDrivers() {
 		if _, err := os.Stat(filepath.Join(d.MountPoint, path)); !os.IsNotExist(err) {
 			return true
 		}
@@ -105,7 +113,7 @@ func (dm *DriverManager) IsPathExist(path string) bool {
 }
 
 func (dm *DriverManager) FindMountPath(path string) (string, error) {
-	for _, d := range dm.drivers {
+	for _, d := range dm.allDrivers() {
 		fullPath := filepath.Join(d.MountPoint, path)
 		if _, err := os.Stat(fullPath); !os.IsNotExist(err) {
 			return fullPath, nil
@@ -115,8 +123,9 @@ func (dm *DriverManager) FindMountPath(path string) (string, error) {
 }
 
 func (dm *DriverManager) GetAllMountPoint() []string {
-	res := make([]string, 0, len(dm.drivers))
-	for _, driver := range dm.drivers {
+	drivers := dm.allDrivers()
+	res := make([]string, 0, len(drivers))
+	for _, driver := range drivers {
 		res = append(res, driver.MountPoint)
 	}
 	return res
-- 
2.43.0


From 07daf7dca6d0a27b68334990969f7700fc65bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 04/98] fix: object and cached reads honour the requested range
 and never mix errors into data

---
 .../controller/http/objects/objects_cache.go  | 31 ++++++++++++++-----
 .../controller/http/objects/objects_rest.go   | 20 ++++++------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/objectserver/internal/controller/http/objects/objects_cache.go b/src/objectserver/internal/controller/http/objects/objects_cache.go
index 7017b1a..9d29967 100644
--- a/src/objectserver/internal/controller/http/objects/objects_cache.go
+++ b/src/objectserver/internal/controller/http/objects/objects_cache.go
@@ -2,21 +2,36 @@ package objects
 
 import (
 	"common/logs"
+	"common/request"
 	"net/http"
 	"objectserver/internal/usecase/pool"
+	"objectserver/internal/usecase/service"
+	"strconv"
 
 	"github.com/gin-gonic/gin"
 )
 
 func GetFromCache(g *gin.Context) {
 	name := g.Param("name")
-	if bt, ok := pool.Cache.HasGet(name); ok {
-		if _, e := g.Writer.Write(bt); e != nil {
-			logs.Std().Debugf("match file cache %v, but written to response error: %v", name, e)
-			g.AbortWithStatus(http.StatusInternalServerError)
-		} else {
-			logs.Std().Debugf("match file cache %v", name)
-			g.AbortWithStatus(http.StatusOK)
-		}
+	bt, ok := pool.Cache.HasGet(name)
+	if !ok {
+		return
+	}
+	var offset int64
+	var rg request.Range
+	if ok = rg.ConvertFrom(g.GetHeader("Range")); ok {
+		offset = rg.FirstBytes().First
+	}
+	size, err := strconv.ParseInt(g.GetHeader("Size"), 10, 64)
+	// the cache may only hold the head of the object, or outlive the object
+	if err != nil || size <= 0 || offset < 0 || size > int64(len(bt))-offset || !service.Exist(name) {
+		return
+	}
+	if _, e := g.Writer.Write(bt[offset : offset+size]); e != nil {
+		logs.Std().Debugf("match file cache %v, but written to response error: %v", name, e)
+		g.AbortWithStatus(http.StatusInternalServerError)
+	} else {
+		logs.Std().Debugf("match file cache %v", name)
+		g.AbortWithStatus(http.StatusOK)
 	}
 }
diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 605b13f..248fcb4 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -2,9 +2,9 @@ package objects
 
 import (
 	"bytes"
-	"common/graceful"
 	"common/request"
 	"common/response"
+	"common/util"
 	"io"
 	"net/http"
 	"objectserver/internal/entity"
@@ -39,10 +39,7 @@ func Put(c *gin.Context) {
 		return
 	}
 	if cache.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, cache.Bytes())
-		}()
+		pool.Cache.Set(req.Name, cache.Bytes())
 	}
 	response.Ok(c)
 }
@@ -75,19 +72,22 @@ func Get(c *gin.Context) {
 	}
 	var writer io.Writer = c.Writer
 	var buf bytes.Buffer
-	if uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
+	// only cache from the first byte
+	if offset == 0 && uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
 		buf.Grow(int(req.Size))
 		writer = io.MultiWriter(c.Writer, &buf)
 	}
 	if err := service.Get(req.Name, offset, req.Size, req.Compress, writer); err != nil {
+		if c.Writer.Written() {
+			// never mix the error into the data
+			util.LogErrWithPre("get "+req.Name, err)
+			return
+		}
 		response.FailErr(err, c)
 		return
 	}
 	if buf.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, buf.Bytes())
-		}()
+		pool.Cache.Set(req.Name, buf.Bytes())
 	}
 	c.Status(http.StatusOK)
 }
-- 
2.43.0


From 0dc3cc536154bcf02dd9779f7b6202fb0630143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 05/98] fix: objects appear, disappear and are accounted
 atomically with their file

---
 .../internal/usecase/service/common.go        |   6 +-
 .../usecase/service/objects_service.go        | 179 ++++++++++--------
 2 files changed, 100 insertions(+), 85 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/common.go b/src/objectserver/internal/usecase/service/common.go
index 88fc5c6..49688d1 100644
--- a/src/objectserver/internal/usecase/service/common.go
+++ b/src/objectserver/internal/usecase/service/common.go
@@ -12,7 +12,7 @@ import (
 // WarmUpLocateCache walk all objects under the storage path and save marks to cache
 func WarmUpLocateCache() {
 	for _, mp := range pool.DriverManager.GetAllMountPoint() {
-		err := filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(_ string, info fs.FileInfo, err error) error {
+		err := filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(path string, info fs.FileInfo, err error) error {
 			if err != nil {
 				return err
 			}
@@ -21,9 +21,9 @@ func WarmUpLocateCache() {
 			if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
 				return nil
 			}
-			pool.ObjectCap.AddCap(info.Size())
 			if !info.IsDir() {
-				MarkExist(fileName)
+				pool.ObjectCap.AddCap(info.Size())
+				MarkExist(fileName, path)
 			}
 			return nil
 		})
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index f5a26d8..c9c55cd 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -4,17 +4,18 @@ import (
 	"bytes"
 	"common/cst"
 	"common/datasize"
-	"common/graceful"
 	"common/logs"
 	"common/response"
 	"common/system/disk"
 	"common/util"
 	"common/util/math"
 	"fmt"
+	"hash/fnv"
 	"io"
 	global "objectserver/internal/usecase/pool"
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/klauspost/compress/s2"
 )
@@ -23,42 +24,47 @@ const (
 	LocateKeyPrefix = "LocateCache#"
 )
 
-// Exist check if the object exists. pass to ExistPath
+// nameLocks serializes changing the stored file of a name
+var nameLocks [256]sync.Mutex
+
+func lockName(name string) (unlock func()) {
+	h := fnv.New32a()
+	_, _ = h.Write([]byte(name))
+	mu := &nameLocks[h.Sum32()%uint32(len(nameLocks))]
+	mu.Lock()
+	return mu.Unlock
+}
+
+// Exist check if the object exists. pass to FindRealStoragePath
 func Exist(name string) bool {
-	if global.Cache.Has(LocateKeyPrefix+name) || global.Cache.Has(name) {
-		return true
-	}
-	realPath, ok := FindRealStoragePath(name)
-	if !ok {
-		return false
-	}
-	if ExistPath(realPath) {
-		MarkExist(name)
-		return true
-	} else {
-		// remove this no existed path from path-db
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Remove(name, realPath))
-		}()
-		return false
-	}
+	_, ok := FindRealStoragePath(name)
+	return ok
 }
 
-// FindRealStoragePath find storage path with real mount point of this file
+// FindRealStoragePath find storage path with real mount point of this file. the file exists under the returned path
 func FindRealStoragePath(fileName string) (string, bool) {
-	path, err := global.PathDB.GetLast(fileName)
-	if err != nil {
-		path, err = global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
-		if err != nil {
-			return "", false
+	// a mark is only a hint, the file may have been removed or lost
+	if bt, ok := global.Cache.HasGet(LocateKeyPrefix + fileName); ok {
+		if path := string(bt); ExistPath(path) {
+			return path, true
+		}
+		UnMarkExist(fileName)
+	}
+	if path, err := global.PathDB.GetLast(fileName); err == nil {
+		if ExistPath(path) {
+			MarkExist(fileName, path)
+			return path, true
 		}
-		// save path to path-cache
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Put(fileName, path))
-		}()
+		// remove this no existed path from path-db
+		util.LogErr(global.PathDB.Remove(fileName, path))
+	}
+	path, err := global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
+	if err != nil || !ExistPath(path) {
+		return "", false
 	}
+	// save path to path-cache
+	util.LogErr(global.PathDB.Put(fileName, path))
+	MarkExist(fileName, path)
 	return path, true
 }
 
@@ -68,9 +74,9 @@ func ExistPath(fullPath string) bool {
 	return err == nil
 }
 
-// MarkExist save object mark into cache
-func MarkExist(name string) {
-	global.Cache.Set(LocateKeyPrefix+name, []byte{})
+// MarkExist save where the object is stored into cache
+func MarkExist(name, fullPath string) {
+	global.Cache.Set(LocateKeyPrefix+name, []byte(fullPath))
 }
 
 // UnMarkExist remove object mark from cache
@@ -78,6 +84,29 @@ func UnMarkExist(name string) {
 	global.Cache.Delete(LocateKeyPrefix + name)
 }
 
+// saveFile makes a completely written temp file visible as the named object. if the object exists already,
+// the temp file will be removed.
+func saveFile(tempPath, fullPath, fileName string) error {
+	defer lockName(fileName)()
+	info, err := os.Stat(tempPath)
+	if os.IsNotExist(err) {
+		return response.NewError(404, "object not found")
+	}
+	if err != nil {
+		return err
+	}
+	if Exist(fileName) {
+		return os.Remove(tempPath)
+	}
+	if err = os.Rename(tempPath, fullPath); err != nil {
+		return err
+	}
+	global.ObjectCap.AddCap(info.Size())
+	util.LogErr(global.PathDB.Put(fileName, fullPath))
+	MarkExist(fileName, fullPath)
+	return nil
+}
+
 // Put save object to storage path
 func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
 	if Exist(fileName) {
@@ -86,42 +115,36 @@ func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
 
 	mp := global.DriverManager.SelectMountPointFallback(global.Config.BaseMountPoint)
 	fullPath := filepath.Join(mp, global.Config.StoragePath, fileName)
+	// an object is visible only after it has been written completely
+	tempPath := filepath.Join(mp, global.Config.TempPath, GenerateTempID())
 
-	var size int64
 	if compress {
-		size, err = WriteFileCompress(fullPath, fileStream)
+		_, err = WriteFileCompress(tempPath, fileStream)
 	} else {
-		size, err = WriteFile(fullPath, fileStream)
+		_, err = WriteFile(tempPath, fileStream)
+	}
+	if err == nil {
+		err = saveFile(tempPath, fullPath, fileName)
 	}
 	if err != nil {
-		return
+		_ = os.Remove(tempPath)
 	}
-	go func() {
-		defer graceful.Recover()
-		global.ObjectCap.AddCap(size)
-		util.LogErr(global.PathDB.Put(fileName, fullPath))
-		MarkExist(fileName)
-	}()
 	return
 }
 
 // Get read object to writer with provided size. pass to GetFile
 func Get(name string, offset, size int64, compress bool, writer io.Writer) (err error) {
-	if !Exist(name) {
+	fullPath, ok := FindRealStoragePath(name)
+	if !ok {
 		return response.NewError(404, "object not found")
 	}
 
-	fullPath, _ := FindRealStoragePath(name)
 	if compress {
 		err = GetFileCompress(fullPath, offset, size, writer)
 	} else {
 		err = GetFile(fullPath, offset, size, writer)
 	}
-	if err != nil {
-		return err
-	}
-	MarkExist(name)
-	return nil
+	return err
 }
 
 // GetFile read file with provided size. offset corresponds to io.SeekStart.
@@ -154,27 +177,25 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 
 // Delete remove the object under the storage path
 func Delete(name string) error {
-	if !Exist(name) {
+	defer lockName(name)()
+	fullPath, ok := FindRealStoragePath(name)
+	if !ok {
 		return nil
 	}
-	fullPath, _ := FindRealStoragePath(name)
 	size, err := DeleteFile(fullPath, "")
 	if err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		global.ObjectCap.SubCap(size)
-		util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
-		UnMarkExist(name)
-	}()
+	global.ObjectCap.SubCap(size)
+	util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
+	UnMarkExist(name)
 	return nil
 }
 
 // DeleteFile will remove the file under the path. if file not exist, it will do nothing.
 func DeleteFile(path, name string) (int64, error) {
 	pt := filepath.Join(path, name)
-	info, err := os.Stat(path)
+	info, err := os.Stat(pt)
 	if os.IsNotExist(err) {
 		return 0, nil
 	}
@@ -252,13 +273,18 @@ func GetFileCompress(fullPath string, offset, size int64, writer io.Writer) erro
 		return err
 	}
 	defer file.Close()
+	rd := s2.NewReader(file)
 	if offset > 0 {
-		if _, err = file.Seek(offset, io.SeekStart); err != nil {
+		// offset refers to the original data
+		if _, err = io.CopyN(io.Discard, rd, offset); err == io.EOF {
+			return nil
+		}
+		if err != nil {
 			return err
 		}
 	}
 	bufSize := math.MinNumber(8*cst.OS.PageSize, int(size))
-	_, err = io.CopyBuffer(writer, io.LimitReader(s2.NewReader(file), size), make([]byte, bufSize))
+	_, err = io.CopyBuffer(writer, io.LimitReader(rd, size), make([]byte, bufSize))
 	return err
 }
 
@@ -287,9 +313,6 @@ func WriteFileCompress(fullPath string, fileStream io.Reader) (int64, error) {
 func CommitFile(mountPoint, tmpName, fileName string, compress bool) error {
 	filePath := filepath.Join(mountPoint, global.Config.StoragePath, fileName)
 	tempPath := filepath.Join(mountPoint, global.Config.TempPath, tmpName)
-	if ExistPath(filePath) {
-		return nil
-	}
 	if compress {
 		tmp, err := os.Open(tempPath)
 		if err != nil {
@@ -304,24 +327,16 @@ func CommitFile(mountPoint, tmpName, fileName string, compress bool) error {
 			return err
 		}
 		bufSize := math.MinInt(4*datasize.MB.Int(), int(tmpStat.Size()))
-		_, err = AppendFileCompress(filePath, tmp, bufSize)
-		return err
-	} else {
-		if err := os.Rename(tempPath, filePath); err != nil {
-			if os.IsNotExist(err) {
-				return response.NewError(404, "object not found")
-			}
+		// an object is visible only after it has been compressed completely
+		compressPath := filepath.Join(mountPoint, global.Config.TempPath, GenerateTempID())
+		if _, err = AppendFileCompress(compressPath, tmp, bufSize); err == nil {
+			err = saveFile(compressPath, filePath, fileName)
+		}
+		if err != nil {
+			_ = os.Remove(compressPath)
 			return err
 		}
+		return os.Remove(tempPath)
 	}
-
-	go func() {
-		defer graceful.Recover()
-		if info, err := os.Stat(filePath); err == nil {
-			global.ObjectCap.AddCap(info.Size())
-			util.LogErr(global.PathDB.Put(fileName, filePath))
-			MarkExist(fileName)
-		}
-	}()
-	return nil
+	return saveFile(tempPath, filePath, fileName)
 }
-- 
2.43.0


From f2607daf4123c796f025a39ae57cb53bf4f96e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 06/98] fix: remove the file of an expired temp object under
 its own mount point

---
 src/objectserver/internal/usecase/service/temp_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/temp_service.go b/src/objectserver/internal/usecase/service/temp_service.go
index d40e0da..ce5e021 100644
--- a/src/objectserver/internal/usecase/service/temp_service.go
+++ b/src/objectserver/internal/usecase/service/temp_service.go
@@ -45,7 +45,7 @@ func StartTempRemovalBackground(cache cache.ICache, threadNum int) func() {
 				if strings.HasPrefix(entry.Key, entity.TempKeyPrefix) {
 					var ti entity.TempInfo
 					if ok := util.GobDecode(entry.Value, &ti); ok {
-						if _, err := DeleteFile(pool.Config.TempPath, ti.Id); err != nil {
+						if _, err := DeleteFile(ti.FullPath, ""); err != nil {
 							logger.Errorf("remove temp %v(name=%v) error, %v", ti.Id, ti.Name, err)
 							break
 						}
-- 
2.43.0


From fde45b38031cd406737493afc4b2a98d93ebce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 07/98] fix: a truncated request body is not stored as a
 complete chunk

---
 src/common/system/disk/aligend_reader.go           | 14 +++++++++++---
 .../internal/usecase/service/objects_service.go    | 11 ++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/common/system/disk/aligend_reader.go b/src/common/system/disk/aligend_reader.go
index 5e24aa7..d2bff50 100644
--- a/src/common/system/disk/aligend_reader.go
+++ b/src/common/system/disk/aligend_reader.go
@@ -35,9 +35,17 @@ func NewAlignedReader(rd io.Reader) *AlignedReader {
 
 func (ar *AlignedReader) Read(p []byte) (n int, err error) {
 	length := len(p)
-	n, err = io.ReadFull(ar.Reader, p)
-	if err == io.ErrUnexpectedEOF {
-		err = io.EOF
+	for n < length && err == nil {
+		var nn int
+		nn, err = ar.Reader.Read(p[n:])
+		n += nn
+	}
+	// io.ErrUnexpectedEOF of underlying reader means the data is truncated
+	if err != nil && err != io.EOF {
+		return 0, err
+	}
+	if n == length {
+		err = nil
 	}
 	// padding zero if needed
 	paddingEnd := math.MinInt(length, AlignedSize(n))
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index c9c55cd..e5ba8de 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -255,7 +255,16 @@ func AppendFileAligned(fullPath string, fileStream io.Reader, bufSize int) (int6
 		return 0, err
 	}
 	defer file.Close()
-	return io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
+	info, err := file.Stat()
+	if err != nil {
+		return 0, err
+	}
+	n, err := io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
+	if err != nil {
+		// drop the incomplete part so that the chunk can be sent again
+		util.LogErrWithPre("drop incomplete chunk", file.Truncate(info.Size()))
+	}
+	return n, err
 }
 
 // WriteFile will append data to file and work with DIO. make sure size of each write is a multiple of 4096 (except last)
-- 
2.43.0


From ed758f8d5209934fd98110b15df59b68ffab623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 08/98] fix: objects being migrated become visible only when
 complete and none is left behind

---
 .../controller/grpc/migration_server.go       | 28 ++++--
 .../usecase/service/migration_service.go      | 88 +++++++++++++------
 .../internal/usecase/webapi/meta_server.go    |  1 +
 3 files changed, 79 insertions(+), 38 deletions(-)

diff --git a/src/objectserver/internal/controller/grpc/migration_server.go b/src/objectserver/internal/controller/grpc/migration_server.go
index c9b6327..4342dbf 100644
--- a/src/objectserver/internal/controller/grpc/migration_server.go
+++ b/src/objectserver/internal/controller/grpc/migration_server.go
@@ -12,6 +12,7 @@ import (
 	"objectserver/internal/usecase/service"
 	"os"
 	"sync"
+	"sync/atomic"
 
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
@@ -28,14 +29,23 @@ func NewMigrationServer(service *service.MigrationService) *MigrationServer {
 }
 
 func (ms *MigrationServer) ReceiveData(stream pb.ObjectMigration_ReceiveDataServer) (err error) {
-	var file io.WriteCloser
+	var file *service.ReceiveFile
 	var data *pb.ObjectData
-	defer util.CloseAndLog(file)
+	defer func() {
+		if file != nil {
+			util.CloseAndLog(file)
+		}
+	}()
 	logs.Std().Debug("start receive data...")
 	for {
 		data, err = stream.Recv()
 		if err == io.EOF {
-			return stream.SendMsg(&pb.Response{Success: true})
+			if file != nil {
+				if err = file.Commit(); err != nil {
+					break
+				}
+			}
+			return stream.SendAndClose(&pb.Response{Success: true})
 		}
 		if err != nil {
 			break
@@ -77,7 +87,7 @@ func (ms *MigrationServer) RequireSend(_ context.Context, info *pb.RequiredInfo)
 	}
 	if err := ms.Service.SendingTo(curLocate, map[string]int64{
 		info.TargetAddress: info.RequiredSize,
-	}); err != nil {
+	}, false); err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
@@ -96,7 +106,7 @@ func (ms *MigrationServer) LeaveCommand(c context.Context, _ *pb.EmptyReq) (*pb.
 	if err = pool.CloseGraceful(); err != nil {
 		return &pb.Response{Success: false, Message: "close pool fail: " + err.Error()}, nil
 	}
-	if err = ms.Service.SendingTo(curLocate, sizeMap); err != nil {
+	if err = ms.Service.SendingTo(curLocate, sizeMap, true); err != nil {
 		return &pb.Response{Success: false, Message: err.Error()}, nil
 	}
 	return &pb.Response{Success: true, Message: "ok"}, nil
@@ -132,7 +142,7 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 		cliMap[k] = pb.NewObjectMigrationClient(cc)
 	}
 	wg := sync.WaitGroup{}
-	success := true
+	var failed atomic.Bool
 	// sending request to all servers
 	for k, v := range sizeMap {
 		wg.Add(1)
@@ -143,14 +153,14 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 				RequiredSize:  value,
 				TargetAddress: curLocate,
 			}); inner != nil {
-				success = false
+				failed.Store(true)
 				logs.Std().Error(inner)
 			}
 		}(k, v)
 	}
 	wg.Wait()
 	return &pb.Response{
-		Success: success,
-		Message: util.IfElse(success, "ok", "see logs for detail"),
+		Success: !failed.Load(),
+		Message: util.IfElse(failed.Load(), "see logs for detail", "ok"),
 	}, nil
 }
diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 25e6041..d751aca 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"net/http"
 	"objectserver/internal/db"
+	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 	"objectserver/internal/usecase/webapi"
 	"os"
@@ -57,6 +58,7 @@ func (ms *MigrationService) getPeersCapacity() map[string]int64 {
 			msLog.Errorf("get capacity from %s err: %s", ip, err)
 			continue
 		}
+		_ = resp.Body.Close()
 		res[ip] = util.ToInt64(resp.Header.Get("Capacity"))
 	}
 	return res
@@ -160,7 +162,9 @@ func (ms *MigrationService) sendFileTo(path string, client pb.ObjectMigrationCli
 	return nil
 }
 
-func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int64) error {
+// SendingTo sends objects to other servers until the required size of each is reached.
+// if 'all' is true, the last server receives all the remaining objects.
+func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int64, all bool) error {
 	if len(sizeMap) == 0 {
 		return nil
 	}
@@ -184,11 +188,11 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 		clientMap[k] = pb.NewObjectMigrationClient(cc)
 		metric[k] = &atomic.Int32{}
 	}
-	success := true
+	var failed atomic.Bool
 	dg := util.LimitDoneGroup(128)
 	go func() {
-		defer graceful.Recover(func(string) { success = false })
 		defer dg.Close()
+		defer graceful.Recover(func(string) { failed.Store(true) })
 		cur := slices.First(addrs)
 		slices.RemoveFirst(&addrs)
 		leftSize := sizeMap[cur]
@@ -199,7 +203,8 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 					msLog.Errorf("walk path %s err: %s, will skip this path", path, err)
 					return nil
 				}
-				if info.IsDir() {
+				// skip temp file
+				if info.IsDir() || strings.HasPrefix(info.Name(), entity.TempKeyPrefix) {
 					return nil
 				}
 				client := clientMap[cur]
@@ -215,15 +220,11 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 						dg.Errors(inner)
 						return
 					}
-					// remove file async if transfer success
-					go func() {
-						defer graceful.Recover()
-						metric[toAddr].Add(1)
-						// remove local file
-						if inner := Delete(info.Name()); inner != nil {
-							msLog.Errorf("migrate %s success, but delete fail: %s", path, err)
-						}
-					}()
+					metric[toAddr].Add(1)
+					// remove local file
+					if inner := Delete(info.Name()); inner != nil {
+						msLog.Errorf("migrate %s success, but delete fail: %s", path, inner)
+					}
 				}(cur)
 				// switch to next server if already exceeds left size
 				if leftSize -= info.Size(); leftSize <= 0 {
@@ -231,7 +232,7 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 						cur = slices.First(addrs)
 						slices.RemoveFirst(&addrs)
 						leftSize = sizeMap[cur]
-					} else {
+					} else if !all {
 						return io.EOF
 					}
 				}
@@ -252,14 +253,14 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 	}()
 	for err := range dg.WaitError() {
 		msLog.Error(err)
-		success = false
+		failed.Store(true)
 	}
 	resultStr := strings.Builder{}
 	for k, v := range metric {
 		resultStr.WriteString(fmt.Sprintf("\t'%s': %d\n", k, v.Load()))
 	}
 	msLog.Infof("migration result (nums of success files):\n%s", resultStr.String())
-	return util.IfElse(success, nil, fmt.Errorf("migration fail, see logs for detail"))
+	return util.IfElse(failed.Load(), fmt.Errorf("migration fail, see logs for detail"), nil)
 }
 
 func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
@@ -275,8 +276,6 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	if statInfo.Size() != data.Size {
 		return fmt.Errorf("file %s size excpect %d, actual %d", data.FileName, data.Size, statInfo.Size())
 	}
-	// add to capacity db
-	pool.ObjectCap.AddCap(data.Size)
 	newLoc, ok := pool.Discovery.GetService(pool.Config.Registry.Name, pool.Config.Registry.SID())
 	if !ok {
 		return fmt.Errorf("server unregister yet")
@@ -308,29 +307,60 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 		}(addr)
 	}
 	wg.Wait()
-	if fails := failNum.Load(); fails >= int32(xmath.CeilDiv(len(servs), 2)) {
+	// the sender will remove its file, every owner of the metadata must know the new location
+	if fails := failNum.Load(); fails > 0 {
 		return fmt.Errorf("too much failures when updating metadata (%d/%d)", fails, len(servs))
 	}
 	msLog.Debugf("success finish object %s", data.FileName)
 	return nil
 }
 
-func (ms *MigrationService) OpenFile(name string, size int64) (*os.File, error) {
-	path, ok := FindRealStoragePath(name)
-	if !ok {
-		path = filepath.Join(pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint), pool.Config.StoragePath, name)
-		util.LogErrWithPre("path-cache update", pool.PathDB.Put(name, path))
+// ReceiveFile is an object being received from another server. it's not visible until Commit
+type ReceiveFile struct {
+	*os.File
+	name     string
+	size     int64
+	fullPath string
+}
+
+// Commit make received object visible if all data of it have been received
+func (rf *ReceiveFile) Commit() error {
+	info, err := rf.Stat()
+	if err != nil {
+		return err
+	}
+	if info.Size() != rf.size {
+		return fmt.Errorf("file %s size excpect %d, actual %d", rf.name, rf.size, info.Size())
 	}
-	stat, err := os.Stat(path)
-	if err == nil {
+	return saveFile(rf.Name(), rf.fullPath, rf.name)
+}
+
+// Close remove the temp file if not committed
+func (rf *ReceiveFile) Close() error {
+	err := rf.File.Close()
+	if inner := os.Remove(rf.Name()); inner != nil && !os.IsNotExist(inner) {
+		err = errors.Join(err, inner)
+	}
+	return err
+}
+
+// OpenFile returns os.ErrExist if the object has been stored with the same size.
+func (ms *MigrationService) OpenFile(name string, size int64) (*ReceiveFile, error) {
+	if path, ok := FindRealStoragePath(name); ok {
+		stat, err := os.Stat(path)
 		// if size equals, see as existed
-		if stat.Size() == size {
+		if err == nil && stat.Size() == size {
 			return nil, os.ErrExist
 		}
 		// some file may migrate failure. remove it if exists.
-		if err = os.Remove(path); err != nil {
+		if err = Delete(name); err != nil {
 			return nil, err
 		}
 	}
-	return os.OpenFile(path, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	mp := pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint)
+	file, err := os.OpenFile(filepath.Join(mp, pool.Config.TempPath, GenerateTempID()), os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	if err != nil {
+		return nil, err
+	}
+	return &ReceiveFile{file, name, size, filepath.Join(mp, pool.Config.StoragePath, name)}, nil
 }
diff --git a/src/objectserver/internal/usecase/webapi/meta_server.go b/src/objectserver/internal/usecase/webapi/meta_server.go
index 27b5336..8cb444f 100644
--- a/src/objectserver/internal/usecase/webapi/meta_server.go
+++ b/src/objectserver/internal/usecase/webapi/meta_server.go
@@ -44,6 +44,7 @@ func UpdateVersionLocates(ip, versionHash string, shardIndex int, locate string)
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
-- 
2.43.0


From 69d1df0c5131585c098ef1cd651bc543d58f6995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 09/98] fix: done group never loses a delivered error

---
 src/common/util/done_group.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index e9318c4..98b7d49 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -56,12 +56,12 @@ func (d *doneGroup) Done() {
 			d.Error(errors.New(fmt.Sprint(err)))
 		}
 	}()
-	d.WaitGroup.Done()
-	// recover panic of calling goroutine
+	// recover panic of calling goroutine. deliver it before the group is done
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		d.Error(errors.New(fmt.Sprint(err)))
 	}
+	d.WaitGroup.Done()
 }
 
 // Todo equals to wg.Add(1)
@@ -103,7 +103,6 @@ func (d *doneGroup) WaitDone() <-chan struct{} {
 		}()
 		defer close(ch)
 		d.Wait()
-		ch <- struct{}{}
 	}()
 	return ch
 }
@@ -119,7 +118,13 @@ func (d *doneGroup) Close() {
 func (d *doneGroup) WaitUntilError() error {
 	select {
 	case <-d.WaitDone():
-		return nil
+		// an error delivered before the group is done must not be lost
+		select {
+		case e := <-d.WaitError():
+			return e
+		default:
+			return nil
+		}
 	case e := <-d.WaitError():
 		return e
 	}
@@ -141,13 +146,13 @@ func (ldg *limitDoneGroup) Todo() {
 }
 
 func (ldg *limitDoneGroup) Done() {
-	ldg.DoneGroup.Done()
-	<-ldg.limitChan
-	// recover panic of calling goroutine
+	// recover panic of calling goroutine. deliver it before the group is done
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		ldg.Error(errors.New(fmt.Sprint(err)))
 	}
+	<-ldg.limitChan
+	ldg.DoneGroup.Done()
 }
 
 func (ldg *limitDoneGroup) Close() {
-- 
2.43.0


From 2c9b158aebf542d3a6beb8452dd559c6ae89b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 10/98] fix: align the erasure-coding block per shard to whole
 pages

---
 src/apiserver/config/config.go                 | 18 +++++++++++++++---
 src/apiserver/internal/entity/metadata.go      |  7 +------
 .../internal/usecase/service/object_service.go |  6 +-----
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/apiserver/config/config.go b/src/apiserver/config/config.go
index f65fe02..e959649 100644
--- a/src/apiserver/config/config.go
+++ b/src/apiserver/config/config.go
@@ -33,9 +33,7 @@ type Config struct {
 
 func (c *Config) initialize() {
 	c.Registry.ServerPort = c.Port
-	if i := c.Object.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-		newSize := c.Object.ReedSolomon.BlockSize() - i + cst.OS.NetPkgSize
-		c.Object.ReedSolomon.BlockPerShard = newSize / c.Object.ReedSolomon.DataShards
+	if c.Object.ReedSolomon.Align() {
 		logs.Std().Warnf("aligned object.reedsolomon.block-per-shard to %d", c.Object.ReedSolomon.BlockPerShard)
 	}
 	if i := c.Object.Replication.BlockSize % datasize.DataSize(cst.OS.NetPkgSize); i > 0 {
@@ -80,6 +78,20 @@ type RsConfig struct {
 	RewriteAsync  bool `yaml:"rewrite-async" env:"REWRITE_ASYNC" env-default:"true"`      // RewriteAsync store lost shard asynchronously
 }
 
+// Align increases BlockPerShard to make it a multiple of the page size (only the last chunk of a shard is allowed
+// to be unaligned on data-server) and to make BlockSize a multiple of cst.OS.NetPkgSize. returns true if it's changed
+func (r *RsConfig) Align() (changed bool) {
+	if i := r.BlockPerShard % cst.OS.PageSize; i > 0 || r.BlockPerShard == 0 {
+		r.BlockPerShard += cst.OS.PageSize - i
+		changed = true
+	}
+	for r.BlockSize()%cst.OS.NetPkgSize > 0 {
+		r.BlockPerShard += cst.OS.PageSize
+		changed = true
+	}
+	return
+}
+
 func (r *RsConfig) AllShards() int {
 	return r.DataShards + r.ParityShards
 }
diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 0d31256..6c1c48c 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -2,8 +2,6 @@ package entity
 
 import (
 	"apiserver/config"
-	"common/cst"
-	"common/util/math"
 )
 
 type VerMode int32
@@ -107,10 +105,7 @@ func (b *Bucket) MakeConf(conf *config.ObjectConfig, objectSize int64) (cfg conf
 	case ECReedSolomon:
 		cfg.ReedSolomon.DataShards = b.DataShards
 		cfg.ReedSolomon.ParityShards = b.ParityShards
-		if i := cfg.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.ReedSolomon.BlockSize()-i+cst.OS.NetPkgSize, int(objectSize))
-			cfg.ReedSolomon.BlockPerShard = newSize / cfg.ReedSolomon.DataShards
-		}
+		cfg.ReedSolomon.Align()
 	case MultiReplication:
 		cfg.Replication.CopiesCount = b.DataShards
 	}
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 1e4189b..37d1c55 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -14,7 +14,6 @@ import (
 	"common/response"
 	"common/util"
 	"common/util/crypto"
-	"common/util/math"
 	"context"
 	"errors"
 	"fmt"
@@ -256,10 +255,7 @@ func NewStreamProvider(opt *StreamOption, ver *entity.Version) StreamProvider {
 		cfg.DataShards = ver.DataShards
 		cfg.ParityShards = ver.ParityShards
 		// aligned block size
-		if i := cfg.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.BlockSize()-i+cst.OS.NetPkgSize, int(opt.Size))
-			cfg.BlockPerShard = newSize / cfg.DataShards
-		}
+		cfg.Align()
 		return RsStreamProvider(opt, &cfg)
 	case entity.MultiReplication:
 		cfg := pool.Config.Object.Replication
-- 
2.43.0


From 170db9f8339845c1ff05d221bac863cadcb0ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 11/98] fix: degraded erasure-coded reads never mix up blocks
 and repair complete shards only

---
 .../internal/usecase/service/get_stream.go    |  34 +++--
 .../internal/usecase/service/rs_decoder.go    |  86 +++++++------
 .../internal/usecase/service/rs_get_stream.go | 117 +++++++++++++-----
 3 files changed, 162 insertions(+), 75 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/get_stream.go b/src/apiserver/internal/usecase/service/get_stream.go
index a2ad473..08c7d7d 100644
--- a/src/apiserver/internal/usecase/service/get_stream.go
+++ b/src/apiserver/internal/usecase/service/get_stream.go
@@ -12,6 +12,7 @@ type GetStream struct {
 	Locate   string
 	name     string
 	size     int64
+	remain   int64 // remain is the number of bytes still expected from reader
 	compress bool
 }
 
@@ -31,15 +32,24 @@ func (g *GetStream) CheckStat() error {
 	return webapi.HeadObject(g.Locate, g.name)
 }
 
-func (g *GetStream) request(offset int) error {
-	resp, err := webapi.GetObject(g.Locate, g.name, offset, g.size, g.compress)
+func (g *GetStream) request(offset int64) error {
+	if offset > g.size {
+		return io.ErrUnexpectedEOF
+	}
+	if offset == g.size {
+		g.reader = http.NoBody
+		return nil
+	}
+	resp, err := webapi.GetObject(g.Locate, g.name, int(offset), g.size-offset, g.compress)
 	if err != nil {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		defer resp.Body.Close()
 		return fmt.Errorf("get object from dataServer return http code %v", resp.StatusCode)
 	}
 	g.reader = resp.Body
+	g.remain = g.size - offset
 	return nil
 }
 
@@ -51,17 +61,17 @@ func (g *GetStream) Seek(offset int64, whence int) (int64, error) {
 		return 0, fmt.Errorf("get stream only supports SeekStart and SeekCurrent")
 	}
 	if g.reader == nil {
-		if err := g.request(int(offset)); err != nil {
+		if err := g.request(offset); err != nil {
 			return 0, err
 		}
 		return offset, nil
 	}
 	if offset > 0 {
-		n, err := io.ReadFull(g.reader, make([]byte, offset))
-		if err == io.EOF || err == io.ErrUnexpectedEOF {
+		n, err := io.CopyN(io.Discard, readerFunc(g.Read), offset)
+		if err == io.EOF {
 			err = nil
 		}
-		return int64(n), err
+		return n, err
 	}
 	return 0, nil
 }
@@ -72,9 +82,19 @@ func (g *GetStream) Read(bt []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return g.reader.Read(bt)
+	n, err := g.reader.Read(bt)
+	g.remain -= int64(n)
+	if err == io.EOF && g.remain > 0 {
+		// data-server stopped before the end
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
 }
 
+type readerFunc func([]byte) (int, error)
+
+func (f readerFunc) Read(bt []byte) (int, error) { return f(bt) }
+
 func (g *GetStream) Close() error {
 	if g.reader == nil {
 		return nil
diff --git a/src/apiserver/internal/usecase/service/rs_decoder.go b/src/apiserver/internal/usecase/service/rs_decoder.go
index 381a802..dfc663b 100644
--- a/src/apiserver/internal/usecase/service/rs_decoder.go
+++ b/src/apiserver/internal/usecase/service/rs_decoder.go
@@ -21,6 +21,9 @@ type rsDecoder struct {
 	cursor       int
 	total        int64
 	size         int64
+	readFailed   []bool         // readFailed marks readers which can't be used anymore
+	writeFailed  []bool         // writeFailed marks writers whose shard is incomplete
+	rewriting    sync.WaitGroup // rewriting lost shards of the last block
 }
 
 func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *config.RsConfig) *rsDecoder {
@@ -34,6 +37,8 @@ func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *conf
 		cache:        buf[:0], // let cache and shardsBuffer using same address to reduce memory allocate and usage
 		shardsBuffer: buf,
 		rsCfg:        *rsCfg,
+		readFailed:   make([]bool, rsCfg.AllShards()),
+		writeFailed:  make([]bool, rsCfg.AllShards()),
 	}
 }
 
@@ -68,25 +73,36 @@ func (d *rsDecoder) getData() error {
 		return usecase.ErrOverRead
 	}
 
+	// every shard of this block must have the same size
+	shardSize := int64(d.rsCfg.BlockPerShard)
+	if remain := d.size - d.total; remain < int64(d.rsCfg.BlockSize()) {
+		shardSize = int64(d.rsCfg.ShardSize(remain))
+	}
+
+	// blocks of a lost shard must be written in order
+	d.rewriting.Wait()
+
 	// read shards
 	var wg sync.WaitGroup
 	shards := make([][]byte, d.rsCfg.AllShards())
 	for i := range shards {
-		if d.readers[i] == nil {
+		if d.readers[i] == nil || d.readFailed[i] {
 			continue
 		}
-		// split shardsBuffer to avoid new memory alloc
-		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : (i+1)*d.rsCfg.BlockPerShard]
 		wg.Add(1)
 		go func(idx int) {
 			defer graceful.Recover()
 			defer wg.Done()
-			n, err := io.ReadFull(d.readers[idx], shards[idx])
-			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-				logs.Std().Debugf("read shard %d err: %s", idx, err)
-				shards[idx] = nil
+			// split shardsBuffer to avoid new memory alloc
+			begin := int64(idx * d.rsCfg.BlockPerShard)
+			shard := d.shardsBuffer[begin : begin+shardSize : begin+shardSize]
+			if _, err := io.ReadFull(d.readers[idx], shard); err != nil {
+				logs.Std().Errorf("read shard %d err: %s", idx, err)
+				// the position of this reader is unknown now
+				d.readFailed[idx] = true
+				return
 			}
-			shards[idx] = shards[idx][:n]
+			shards[idx] = shard
 		}(i)
 	}
 	wg.Wait()
@@ -97,41 +113,39 @@ func (d *rsDecoder) getData() error {
 	}
 
 	// save lost shards
-	var err error
-	go func() {
-		defer graceful.Recover()
-		for i, w := range d.writers {
-			if w == nil {
-				continue
-			}
-			wg.Add(1)
-			go func(idx int, wt io.Writer) {
-				defer graceful.Recover()
-				defer wg.Done()
-				if _, inner := wt.Write(shards[idx]); inner != nil {
-					err = inner
-					logs.Std().Errorf("rewrite lost shards fail: %s", inner)
-					return
-				}
-			}(i, w)
+	for i, w := range d.writers {
+		if w == nil || d.writeFailed[i] {
+			continue
 		}
-	}()
+		d.rewriting.Add(1)
+		go func(idx int, wt io.Writer) {
+			defer graceful.Recover()
+			defer d.rewriting.Done()
+			if _, err := wt.Write(shards[idx]); err != nil {
+				d.writeFailed[idx] = true
+				logs.Std().Errorf("rewrite lost shards fail: %s", err)
+			}
+		}(i, w)
+	}
+	if !d.rsCfg.RewriteAsync {
+		d.rewriting.Wait()
+	}
 
 	// combine data shards
 	for i := range shards[:d.rsCfg.DataShards] {
-		shardSize := int64(len(shards[i]))
+		size := shardSize
 		// remove padding if exists
-		if d.total+shardSize > d.size {
-			shardSize = d.size - d.total
+		if d.total+size > d.size {
+			size = d.size - d.total
 		}
-		d.cache = append(d.cache, shards[i][:shardSize]...)
-		d.total += shardSize
-	}
-
-	if !d.rsCfg.RewriteAsync {
-		wg.Wait()
-		return err
+		d.cache = append(d.cache, shards[i][:size]...)
+		d.total += size
 	}
 
 	return nil
 }
+
+// completed returns true if the whole object has been decoded
+func (d *rsDecoder) completed() bool {
+	return d.total == d.size
+}
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index 4a12272..52f7e7b 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -4,6 +4,7 @@ import (
 	"apiserver/config"
 	"apiserver/internal/usecase/logic"
 	"bytes"
+	"common/collection/set"
 	"common/graceful"
 	"common/logs"
 	"common/util"
@@ -11,11 +12,13 @@ import (
 	"fmt"
 	"io"
 	"sync"
+	"sync/atomic"
 )
 
 type RSGetStream struct {
 	*rsDecoder
 	*StreamOption
+	original []string // original locates of shards
 }
 
 type provideStream struct {
@@ -52,23 +55,59 @@ func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream,
 	readers := make([]io.Reader, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
 	perSize := rsCfg.ShardSize(option.Size)
-	lb := logic.NewDiscovery().NewDataServSelector()
+	healthy := set.NewMapSet()
+	var lost []int
 	for r := range provideGetStream(option.Hash, option.Locates, perSize, option.Compress) {
 		if r.err != nil {
 			logs.Std().Error(r.err)
-			ip := lb.Select()
-			writers[r.index], r.err = NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
-			if r.err != nil {
-				return nil, r.err
-			}
-			// metadata update required
-			option.Locates[r.index] = ip
+			lost = append(lost, r.index)
 		} else {
 			readers[r.index] = r.stream
+			healthy.Add(option.Locates[r.index])
 		}
 	}
-	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}, nil
+	if len(lost) > rsCfg.ParityShards {
+		return nil, fmt.Errorf("too many shards of %s lost: %v", option.Hash, lost)
+	}
+	// prepare to rewrite lost shards to another server. It doesn't matter for reading if fails
+	opt := *option
+	opt.Locates = append([]string(nil), option.Locates...)
+	if len(lost) > 0 {
+		candidates := repairServers(healthy)
+		for _, idx := range lost {
+			for i, ip := range candidates {
+				w, err := NewPutStream(ip, fmt.Sprintf("%s.%d", opt.Hash, idx), int64(perSize), opt.Compress)
+				if err != nil {
+					logs.Std().Errorf("prepare to rewrite shard %s.%d err: %s", opt.Hash, idx, err)
+					continue
+				}
+				writers[idx] = w
+				// metadata update required
+				opt.Locates[idx] = ip
+				// use it again only if others have been used
+				candidates = append(append(candidates[:i:i], candidates[i+1:]...), ip)
+				break
+			}
+		}
+	}
+	dec := NewDecoder(readers, writers, opt.Size, rsCfg)
+	return &RSGetStream{dec, &opt, option.Locates}, nil
+}
+
+// repairServers sort data-servers for storing lost shards. Servers without a healthy shard come first
+func repairServers(healthy set.Set) []string {
+	var spare, used []string
+	discovery := logic.NewDiscovery()
+	all := discovery.GetDataServers()
+	lb := discovery.NewIPSelector(append([]string(nil), all...))
+	for range all {
+		if ip := lb.Select(); healthy.Contains(ip) {
+			used = append(used, ip)
+		} else {
+			spare = append(spare, ip)
+		}
+	}
+	return append(spare, used...)
 }
 
 func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream {
@@ -80,7 +119,7 @@ func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream
 		readers[idx] = NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), perSize)
 	}
 	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}
+	return &RSGetStream{dec, option, option.Locates}
 }
 
 func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
@@ -111,29 +150,43 @@ func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (g *RSGetStream) Close() error {
-	wg := util.NewDoneGroup()
-	defer wg.Close()
-	var needUpdate bool
-	for _, w := range g.writers {
-		if util.InstanceOf[Committer](w) {
-			needUpdate = true
-			wg.Todo()
-			go func(cm Committer) {
-				defer wg.Done()
-				if e := cm.Commit(true); e != nil {
-					wg.Error(e)
-				}
-			}(w.(Committer))
+	defer func() {
+		for _, r := range g.readers {
+			if cl, ok := r.(io.Closer); ok {
+				util.LogErr(cl.Close())
+			}
 		}
+	}()
+	// wait for the last block
+	g.rewriting.Wait()
+	var wg sync.WaitGroup
+	var updated atomic.Bool
+	for i, w := range g.writers {
+		cm, ok := w.(Committer)
+		if !ok {
+			continue
+		}
+		wg.Add(1)
+		go func(idx int, cm Committer) {
+			defer graceful.Recover()
+			defer wg.Done()
+			// a shard is only valid if it has been written completely
+			valid := g.completed() && !g.writeFailed[idx]
+			err := cm.Commit(valid)
+			if valid && err == nil {
+				updated.Store(true)
+				return
+			}
+			util.LogErr(err)
+			g.Locates[idx] = g.original[idx]
+		}(i, cm)
 	}
-	if err := wg.WaitUntilError(); err != nil {
-		return err
+	wg.Wait()
+	if !updated.Load() {
+		return nil
 	}
-	if needUpdate {
-		if g.Updater == nil {
-			return errors.New("locates updater required but nil")
-		}
-		return g.Updater(g.Locates)
+	if g.Updater == nil {
+		return errors.New("locates updater required but nil")
 	}
-	return nil
+	return g.Updater(g.Locates)
 }
-- 
2.43.0


From 74edfa47b0722b9c3fc6a157126069fe05a4e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 12/98] fix: aborting an upload never flushes the buffered data
 first

---
 src/apiserver/internal/usecase/service/copy_put_stream.go | 6 ++++--
 src/apiserver/internal/usecase/service/rs_encoder.go      | 3 ++-
 src/apiserver/internal/usecase/service/rs_put_stream.go   | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_put_stream.go b/src/apiserver/internal/usecase/service/copy_put_stream.go
index 01a1b0b..7c33f9d 100644
--- a/src/apiserver/internal/usecase/service/copy_put_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_put_stream.go
@@ -93,8 +93,10 @@ func (c *CopyPutStream) Close() error {
 }
 
 func (c *CopyPutStream) Commit(ok bool) error {
-	if err := c.Flush(); err != nil {
-		return err
+	if ok {
+		if err := c.Flush(); err != nil {
+			return err
+		}
 	}
 	wg := util.NewDoneGroup()
 	defer wg.Close()
diff --git a/src/apiserver/internal/usecase/service/rs_encoder.go b/src/apiserver/internal/usecase/service/rs_encoder.go
index 75441e0..75fe644 100644
--- a/src/apiserver/internal/usecase/service/rs_encoder.go
+++ b/src/apiserver/internal/usecase/service/rs_encoder.go
@@ -108,5 +108,6 @@ func (e *rsEncoder) Flush() (int, error) {
 		}(i, v)
 	}
 
-	return int(size), dg.WaitUntilError()
+	err = dg.WaitUntilError()
+	return int(atomic.LoadInt32(&size)), err
 }
diff --git a/src/apiserver/internal/usecase/service/rs_put_stream.go b/src/apiserver/internal/usecase/service/rs_put_stream.go
index 2921064..500b25e 100644
--- a/src/apiserver/internal/usecase/service/rs_put_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_put_stream.go
@@ -46,8 +46,10 @@ func newExistedRSPutStream(ips, ids []string, hash string, compress bool, rsCfg
 }
 
 func (p *RSPutStream) Commit(ok bool) error {
-	if _, err := p.Flush(); err != nil {
-		return err
+	if ok {
+		if _, err := p.Flush(); err != nil {
+			return err
+		}
 	}
 
 	wg := util.NewDoneGroup()
-- 
2.43.0


From c0a35650400102491560d95131df1fe00699d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 13/98] fix: fixing lost copies keeps the locates of healthy
 copies and stores complete copies only

---
 .../usecase/service/copy_fix_stream.go        | 40 ++++++++++-------
 .../usecase/service/copy_get_stream.go        | 43 ++++++++++++-------
 2 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_fix_stream.go b/src/apiserver/internal/usecase/service/copy_fix_stream.go
index f72fb47..a4d268b 100644
--- a/src/apiserver/internal/usecase/service/copy_fix_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_fix_stream.go
@@ -13,22 +13,26 @@ import (
 )
 
 type CopyFixStream struct {
-	fileNames []string
-	locates   []string
-	compress  bool
-	buffer    *bytes.Buffer
-	rpConfig  *config.ReplicationConfig
-	Updater   LocatesUpdater
+	hash     string
+	lost     []int    // lost are indexes of copies that need to be fixed
+	locates  []string // locates of all copies, contains the new locates of lost copies
+	size     int64
+	compress bool
+	buffer   *bytes.Buffer
+	rpConfig *config.ReplicationConfig
+	Updater  LocatesUpdater
 }
 
-func NewCopyFixStream(lostNames []string, newLocates []string, opt *StreamOption, cfg *config.ReplicationConfig) (*CopyFixStream, error) {
+func NewCopyFixStream(lost []int, locates []string, opt *StreamOption, cfg *config.ReplicationConfig) (*CopyFixStream, error) {
 	return &CopyFixStream{
-		fileNames: lostNames,
-		locates:   newLocates,
-		rpConfig:  cfg,
-		compress:  opt.Compress,
-		buffer:    bytes.NewBuffer(make([]byte, 0, opt.Size)),
-		Updater:   opt.Updater,
+		hash:     opt.Hash,
+		lost:     lost,
+		locates:  locates,
+		size:     opt.Size,
+		rpConfig: cfg,
+		compress: opt.Compress,
+		buffer:   bytes.NewBuffer(make([]byte, 0, opt.Size)),
+		Updater:  opt.Updater,
 	}, nil
 }
 
@@ -37,6 +41,10 @@ func (c *CopyFixStream) Write(bt []byte) (int, error) {
 }
 
 func (c *CopyFixStream) Close() error {
+	// never store an incomplete copy
+	if int64(c.buffer.Len()) != c.size {
+		return nil
+	}
 	wait := c.startFix()
 	if c.rpConfig.CopyAsync {
 		go func() {
@@ -56,14 +64,14 @@ func (c *CopyFixStream) startFix() func() error {
 		data := c.buffer.Bytes()
 		errs := set.NewWriteSyncSet()
 		wg := util.NewWaitGroup()
-		for idx, name := range c.fileNames {
+		for _, idx := range c.lost {
 			wg.Todo()
 			go func(i int, key string) {
 				defer wg.Done()
 				if err := webapi.PutObject(c.locates[i], key, c.compress, bytes.NewBuffer(data)); err != nil {
-					errs.Add(fmt.Sprintf("fix %s put-api err: %w", key, err))
+					errs.Add(fmt.Sprintf("fix %s put-api err: %s", key, err))
 				}
-			}(idx, name)
+			}(idx, fmt.Sprint(c.hash, ".", idx))
 		}
 		wg.Wait()
 		if errs.Size() > 0 {
diff --git a/src/apiserver/internal/usecase/service/copy_get_stream.go b/src/apiserver/internal/usecase/service/copy_get_stream.go
index 894178e..0d86bb9 100644
--- a/src/apiserver/internal/usecase/service/copy_get_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_get_stream.go
@@ -2,7 +2,7 @@ package service
 
 import (
 	"apiserver/config"
-	"apiserver/internal/usecase/logic"
+	"common/collection/set"
 	"common/util"
 	"fmt"
 	"io"
@@ -15,26 +15,37 @@ type CopyGetStream struct {
 
 func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*CopyGetStream, error) {
 	var getStream io.ReadSeekCloser
-	var err error
-	var failIds, newLocates []string
-	lb := logic.NewDiscovery().NewDataServSelector()
+	var lost []int
+	healthy := set.NewMapSet()
 	for idx, loc := range opt.Locates {
-		id := fmt.Sprint(opt.Hash, ".", idx)
-		getStream, err = NewGetStream(loc, id, opt.Size, opt.Compress)
+		stream, err := NewGetStream(loc, fmt.Sprint(opt.Hash, ".", idx), opt.Size, opt.Compress)
 		if err == nil {
+			getStream = stream
+			healthy.Add(loc)
 			break
 		}
-		failIds = append(failIds, id)
-		opt.Locates[idx] = lb.Select()
-		newLocates = append(newLocates, opt.Locates[idx])
+		lost = append(lost, idx)
 	}
-	if len(failIds) == len(opt.Locates) {
+	if getStream == nil {
 		return nil, fmt.Errorf("not found any copies of %s", opt.Hash)
 	}
 	var fixStream io.WriteCloser
-	if len(failIds) > rpCfg.ToleranceLossNum() {
-		fixStream, err = NewCopyFixStream(failIds, newLocates, opt, rpCfg)
-		util.LogErrWithPre("fix copies err", err)
+	if len(lost) > rpCfg.ToleranceLossNum() {
+		locates := append([]string(nil), opt.Locates...)
+		for _, loc := range locates[len(lost):] {
+			healthy.Add(loc)
+		}
+		// healthy copies may be on every server
+		if candidates := repairServers(healthy); len(candidates) > 0 {
+			for i, idx := range lost {
+				locates[idx] = candidates[i%len(candidates)]
+			}
+			stream, err := NewCopyFixStream(lost, locates, opt, rpCfg)
+			if err == nil {
+				fixStream = stream
+			}
+			util.LogErrWithPre("fix copies err", err)
+		}
 	}
 	return &CopyGetStream{
 		reader: getStream,
@@ -45,9 +56,9 @@ func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*Copy
 func (c *CopyGetStream) Read(p []byte) (n int, err error) {
 	n, err = c.reader.Read(p)
 	if c.writer != nil && n > 0 {
-		if n, err = c.writer.Write(p[:n]); err != nil {
-			return
-		}
+		// reading doesn't depend on fixing
+		_, inner := c.writer.Write(p[:n])
+		util.LogErrWithPre("fix copies err", inner)
 	}
 	return
 }
-- 
2.43.0


From d99a08e43183efb970e0f3560c66839103f67c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 14/98] fix: an object is only located when every distinct
 shard is found

---
 .../internal/usecase/service/object_service.go        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 37d1c55..099557f 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -94,10 +94,19 @@ func (o *ObjectService) LocateObject(hash string, shardNum int) ([]string, bool)
 				return nil, false
 			}
 			for _, event := range resp.Events {
+				if event.Type != clientv3.EventTypePut {
+					continue
+				}
 				ip, idx := getLocateResp(string(event.Kv.Value))
 				logs.Std().Debugf("located success for index %d of %s at %s", idx, hash, ip)
+				if idx < 0 || idx >= shardNum || ip == "" {
+					continue
+				}
+				// a shard may be found on more than one server
+				if locates[idx] == "" {
+					cnt++
+				}
 				locates[idx] = ip
-				cnt++
 			}
 		case <-tt.C:
 			logs.Std().Warnf("locate object %s timeout!", hash)
-- 
2.43.0


From ace14928b5be4c8871a6f603f893e176ea868050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 15/98] fix: locates of repaired shards are really saved in
 metadata

---
 src/apiserver/internal/usecase/grpcapi/base.go        | 8 +++-----
 src/apiserver/internal/usecase/grpcapi/meta_server.go | 3 ++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/apiserver/internal/usecase/grpcapi/base.go b/src/apiserver/internal/usecase/grpcapi/base.go
index e731558..5c71118 100644
--- a/src/apiserver/internal/usecase/grpcapi/base.go
+++ b/src/apiserver/internal/usecase/grpcapi/base.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
@@ -35,6 +31,8 @@ func getConn(addr string) (*grpc.ClientConn, error) {
 }
 
 func Close() error {
+	poolLock.Lock()
+	defer poolLock.Unlock()
 	var errs []error
 	for _, v := range connPool {
 		if err := v.Close(); err != nil {
diff --git a/src/apiserver/internal/usecase/grpcapi/meta_server.go b/src/apiserver/internal/usecase/grpcapi/meta_server.go
index 0a16c4a..f1c6129 100644
--- a/src/apiserver/internal/usecase/grpcapi/meta_server.go
+++ b/src/apiserver/internal/usecase/grpcapi/meta_server.go
@@ -136,6 +136,7 @@ func UpdateVersion(ip, id string, body *entity.Version) error {
 	})
 	_, err = pb.NewMetadataApiClient(conn).UpdateVersion(context.Background(), &pb.Metadata{
 		Id:      id,
+		Version: body.Sequence,
 		Msgpack: bt,
 	})
 	return proto.ResolveErr(err)
@@ -238,5 +239,5 @@ func RemoveVersion(ip, id string, version int32) error {
 		return err
 	}
 	_, err = pb.NewMetadataApiClient(conn).RemoveVersion(context.Background(), &pb.MetaReq{Id: id, Version: version})
-	return err
+	return proto.ResolveErr(err)
 }
-- 
2.43.0


From dd9414b18bb15b52063e7d93650a9d174f0c2cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 16/98] fix: versions beyond the configuration of the bucket
 are all removed

---
 .../internal/controller/http/big_api.go       | 15 ++++-----
 src/apiserver/internal/entity/metadata.go     |  8 +++++
 .../usecase/service/object_service.go         | 31 +++++++++++++------
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index ee8f1bc..1499d7e 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -225,7 +225,7 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 		defer dg.Done()
 		var inner error
 		metadata, inner = bc.metaService.GetMetadata(metaName, bucketName, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
@@ -250,14 +250,11 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 		if err != nil {
 			return
 		}
-		if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-			go func() {
-				defer graceful.Recover()
-				// if not err, delete first version
-				inner := bc.metaService.RemoveVersion(metadata.Name, metadata.Bucket, int32(metadata.FirstVersion))
-				util.LogErrWithPre("remove first version err", inner)
-			}()
-		}
+		go func() {
+			defer graceful.Recover()
+			inner := service.RemoveExcessVersions(bc.metaService, metaName, bucket)
+			util.LogErrWithPre("remove excess versions err", inner)
+		}()
 	} else {
 		// add metadata
 		verNum, err = bc.metaService.SaveMetadata(&entity.Metadata{
diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 6c1c48c..be12988 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -71,6 +71,14 @@ type Bucket struct {
 	Policies       []string       `json:"policies"`       // Policies is the iam polices for this bucket (No support yet)
 }
 
+// MaxVersions is the number of versions that should be kept for an object. The last version is always kept
+func (b *Bucket) MaxVersions() int {
+	if b.Versioning && b.VersionRemains > 1 {
+		return b.VersionRemains
+	}
+	return 1
+}
+
 func (b *Bucket) MakeVersion(ver *Version, conf *config.ObjectConfig) {
 	if b.Compress {
 		ver.Compress = true
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 099557f..25c6af5 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -127,7 +127,7 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 		defer dg.Done()
 		var inner error
 		metadata, inner = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
@@ -190,17 +190,30 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 	if vn, err = o.metaService.AddVersion(md.Name, md.Bucket, ver); err != nil {
 		return
 	}
-	if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-		go func() {
-			defer graceful.Recover()
-			// if not err, delete first version
-			inner := o.metaService.RemoveVersion(md.Name, md.Bucket, int32(metadata.FirstVersion))
-			util.LogErrWithPre("remove first version err", inner)
-		}()
-	}
+	go func() {
+		defer graceful.Recover()
+		inner := RemoveExcessVersions(o.metaService, md.Name, bucket)
+		util.LogErrWithPre("remove excess versions err", inner)
+	}()
 	return
 }
 
+// RemoveExcessVersions remove the oldest versions of an object until it satisfies the configuration of the bucket
+func RemoveExcessVersions(ms IMetaService, name string, bucket *entity.Bucket) error {
+	for {
+		metadata, err := ms.GetMetadata(name, bucket.Name, int32(entity.VerModeNot), true)
+		if err != nil {
+			return err
+		}
+		if metadata.Total <= bucket.MaxVersions() {
+			return nil
+		}
+		if err = ms.RemoveVersion(name, bucket.Name, int32(metadata.FirstVersion)); err != nil {
+			return err
+		}
+	}
+}
+
 func streamToDataServer(req *entity.PutReq, meta *entity.Version, provider StreamProvider) ([]string, error) {
 	//stream to store
 	stream, locates, err := dataServerStream(meta, provider)
-- 
2.43.0


From 6abc16997aa90237827f054a0b96bfb8c625c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 17/98] fix: resumable uploads are verified and committed
 before they become visible

---
 .../internal/controller/http/big_api.go       | 76 ++++++++++---------
 .../internal/usecase/service/rs_get_stream.go |  5 +-
 .../usecase/service/rs_resumable_stream.go    | 36 ++++++++-
 .../usecase/service/stream_provider.go        |  1 +
 .../internal/usecase/service/temp_stream.go   |  1 +
 5 files changed, 76 insertions(+), 43 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index 1499d7e..e00aa3e 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -1,7 +1,6 @@
 package http
 
 import (
-	"apiserver/config"
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/pool"
@@ -11,6 +10,7 @@ import (
 	"common/response"
 	"common/util"
 	"common/util/crypto"
+	"errors"
 	"fmt"
 
 	"apiserver/internal/usecase/logic"
@@ -76,7 +76,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 			ShardSize:     conf.ShardSize(req.Size),
 			StoreStrategy: entity.ECReedSolomon,
 		}
-		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf)
+		verNum, err := bc.finishUpload(req.Name, req.Bucket, object)
 		if err != nil {
 			response.FailErr(err, g)
 			return
@@ -95,6 +95,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 	}
 	stream, e := service.NewRSResumablePutStream(&service.StreamOption{
 		Hash:     uniqueHash,
+		Digest:   req.Hash,
 		Name:     req.Name,
 		Size:     req.Size,
 		Bucket:   req.Bucket,
@@ -163,35 +164,36 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 		response.FailErr(err, g)
 		return
 	}
-	curSize += n
-	if curSize < stream.Size {
-		// not read enough, see as interrupted
+	if curSize+n < stream.Size {
+		// not read enough, see as interrupted. only complete blocks have been stored
+		curSize += n - n%int64(stream.Config.BlockSize())
 		response.Exec(g).Status(http.StatusPartialContent).
 			Header(gin.H{"Content-Length": curSize})
 		return
 	}
 	// if over the intended size, its invalid
-	if curSize > stream.Size {
+	if curSize+n > stream.Size {
 		util.LogErr(stream.Commit(false))
 		response.Exec(g).Fail(http.StatusForbidden, "file exceed the intended size")
 		return
 	}
 	// if curSize equals expected size
+	if err = bc.commitUpload(stream); err != nil {
+		util.LogErr(stream.Commit(false))
+		response.FailErr(err, g)
+		return
+	}
 	verNum, err := bc.finishUpload(stream.Name, stream.Bucket, &entity.Version{
 		Hash:          stream.Hash,
 		Size:          stream.Size,
+		Compress:      stream.Compress,
 		Locate:        stream.Servers,
 		DataShards:    stream.Config.DataShards,
 		ParityShards:  stream.Config.ParityShards,
 		ShardSize:     stream.Config.ShardSize(stream.Size),
 		StoreStrategy: entity.ECReedSolomon,
-	}, stream.Config)
+	})
 	if err != nil {
-		util.LogErr(stream.Commit(false))
-		response.FailErr(err, g)
-		return
-	}
-	if err = stream.Commit(true); err != nil {
 		response.FailErr(err, g)
 		return
 	}
@@ -202,20 +204,22 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	}, g)
 }
 
-func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig) (verNum int32, err error) {
-	// validate digest
+// commitUpload validate digest of the uploaded data and commit it
+func (bc *BigObjectsController) commitUpload(stream *service.RSResumablePutStream) error {
+	if _, err := stream.Flush(); err != nil {
+		return err
+	}
 	if pool.Config.Object.Checksum {
-		getStream := service.NewRSTempStream(&service.StreamOption{
-			Hash:    v.Hash,
-			Size:    v.Size,
-			Locates: v.Locate,
-		}, conf)
-		hash := crypto.SHA256IO(getStream)
-		if hash != v.Hash {
-			err = response.NewError(http.StatusForbidden, "signature authentication failure")
-			return
+		getStream := stream.TempStream()
+		defer util.CloseAndLog(getStream)
+		if hash := crypto.SHA256IO(getStream); hash != stream.Digest {
+			return response.NewError(http.StatusForbidden, "signature authentication failure")
 		}
 	}
+	return stream.Commit(true)
+}
+
+func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version) (verNum int32, err error) {
 	dg := util.NewDoneGroup()
 	defer dg.Close()
 	// get metadata if exist
@@ -244,27 +248,25 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 	if err = dg.WaitUntilError(); err != nil {
 		return
 	}
-	if metadata != nil {
-		// update metadata
-		verNum, err = bc.metaService.AddVersion(metadata.Name, metadata.Bucket, v)
-		if err != nil {
-			return
-		}
-		go func() {
-			defer graceful.Recover()
-			inner := service.RemoveExcessVersions(bc.metaService, metaName, bucket)
-			util.LogErrWithPre("remove excess versions err", inner)
-		}()
-	} else {
-		// add metadata
+	if metadata == nil {
+		// add metadata. if it exists that means a concurrent problem, add version only
 		verNum, err = bc.metaService.SaveMetadata(&entity.Metadata{
 			Name:     metaName,
 			Bucket:   bucketName,
 			Versions: []*entity.Version{v},
 		})
-		if err != nil {
+		if !errors.Is(err, usecase.ErrMetadataExists) {
 			return
 		}
 	}
+	// update metadata
+	if verNum, err = bc.metaService.AddVersion(metaName, bucketName, v); err != nil {
+		return
+	}
+	go func() {
+		defer graceful.Recover()
+		inner := service.RemoveExcessVersions(bc.metaService, metaName, bucket)
+		util.LogErrWithPre("remove excess versions err", inner)
+	}()
 	return
 }
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index 52f7e7b..2ec3b88 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -110,13 +110,14 @@ func repairServers(healthy set.Set) []string {
 	return append(spare, used...)
 }
 
-func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream {
+// NewRSTempStream read shards from temp objects. ids are identifies of temp objects in order of option.Locates
+func NewRSTempStream(option *StreamOption, ids []string, rsCfg *config.RsConfig) *RSGetStream {
 	readers := make([]io.Reader, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
 	dsNum := int64(rsCfg.DataShards)
 	perSize := (option.Size + dsNum - 1) / dsNum
 	for idx, loc := range option.Locates {
-		readers[idx] = NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), perSize)
+		readers[idx] = NewTempStream(loc, ids[idx], perSize)
 	}
 	dec := NewDecoder(readers, writers, option.Size, rsCfg)
 	return &RSGetStream{dec, option, option.Locates}
diff --git a/src/apiserver/internal/usecase/service/rs_resumable_stream.go b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
index 0144921..486addc 100644
--- a/src/apiserver/internal/usecase/service/rs_resumable_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
@@ -13,6 +13,7 @@ type resumeToken struct {
 	Size     int64            `json:"size"`
 	Name     string           `json:"name"`
 	Hash     string           `json:"hash"`
+	Digest   string           `json:"digest"`
 	Bucket   string           `json:"bucket"`
 	Servers  []string         `json:"servers"`
 	Ids      []string         `json:"ids"`
@@ -51,6 +52,7 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 	token := &resumeToken{
 		Name:     opt.Name,
 		Hash:     opt.Hash,
+		Digest:   opt.Digest,
 		Bucket:   opt.Bucket,
 		Servers:  opt.Locates,
 		Size:     opt.Size,
@@ -63,19 +65,45 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 
 // CurrentSize IO: 请求数据服务器获取分片大小
 func (p *RSResumablePutStream) CurrentSize() (int64, error) {
-	//只请求一个服务器，因为Rs算法保证每次上传到每个服务器的大小一致
-	size, err := webapi.HeadTmpObject(p.Servers[0], p.Ids[0])
-	if err != nil {
+	//Rs算法保证每次上传到每个服务器的大小一致, 不一致说明有上传失败的分片
+	sizes := make([]int64, len(p.Servers))
+	dg := util.NewDoneGroup()
+	defer dg.Close()
+	for i := range p.Servers {
+		dg.Todo()
+		go func(idx int) {
+			defer dg.Done()
+			var err error
+			if sizes[idx], err = webapi.HeadTmpObject(p.Servers[idx], p.Ids[idx]); err != nil {
+				dg.Error(err)
+			}
+		}(i)
+	}
+	if err := dg.WaitUntilError(); err != nil {
 		return 0, err
 	}
+	for _, v := range sizes {
+		if v != sizes[0] {
+			return 0, fmt.Errorf("shards of %s are inconsistent: %v", p.Name, sizes)
+		}
+	}
 	//求乘积得到当前大小
-	size *= int64(p.rsConfig.DataShards)
+	size := sizes[0] * int64(p.rsConfig.DataShards)
 	if size > p.Size {
 		return p.Size, nil
 	}
 	return size, nil
 }
 
+// TempStream read the uploaded data before committing
+func (p *RSResumablePutStream) TempStream() *RSGetStream {
+	return NewRSTempStream(&StreamOption{
+		Hash:    p.Hash,
+		Size:    p.Size,
+		Locates: p.Servers,
+	}, p.Ids, p.Config)
+}
+
 // Token 上传记录
 func (p *RSResumablePutStream) Token() string {
 	return base64.StdEncoding.EncodeToString(util.GobEncode(p.resumeToken))
diff --git a/src/apiserver/internal/usecase/service/stream_provider.go b/src/apiserver/internal/usecase/service/stream_provider.go
index 4c21d2a..bff3f59 100644
--- a/src/apiserver/internal/usecase/service/stream_provider.go
+++ b/src/apiserver/internal/usecase/service/stream_provider.go
@@ -8,6 +8,7 @@ type StreamOption struct {
 	Locates  []string
 	Bucket   string
 	Hash     string
+	Digest   string // Digest is the checksum of content
 	Name     string
 	Size     int64
 	Compress bool
diff --git a/src/apiserver/internal/usecase/service/temp_stream.go b/src/apiserver/internal/usecase/service/temp_stream.go
index d6a62cd..861b47f 100644
--- a/src/apiserver/internal/usecase/service/temp_stream.go
+++ b/src/apiserver/internal/usecase/service/temp_stream.go
@@ -36,6 +36,7 @@ func (ts *tempStream) request() error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		defer resp.Body.Close()
 		return fmt.Errorf("get temp object from dataServer return http code %v", resp.StatusCode)
 	}
 	ts.reader = resp.Body
-- 
2.43.0


From 4e951fcf155de0ee09c94db20be174e59b973ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 18/98] fix: an incomplete object response can be recognised by
 clients

---
 .../internal/controller/http/objects_api.go   | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/apiserver/internal/controller/http/objects_api.go b/src/apiserver/internal/controller/http/objects_api.go
index 1bd1801..c40de3a 100644
--- a/src/apiserver/internal/controller/http/objects_api.go
+++ b/src/apiserver/internal/controller/http/objects_api.go
@@ -7,8 +7,10 @@ import (
 	"common/logs"
 	"common/response"
 	"common/util"
+	"fmt"
 	"github.com/gin-gonic/gin"
 	"io"
+	"net/http"
 )
 
 type ObjectsController struct {
@@ -67,30 +69,39 @@ func (oc *ObjectsController) Get(c *gin.Context) {
 		response.FailErr(err, c).Abort()
 		return
 	}
+	version := metaData.Versions[0]
+	var offset int64
+	if tp, ok := req.Range.GetFirstBytes(); ok {
+		if offset = tp.First; offset < 0 || offset >= version.Size {
+			response.Exec(c).Fail(http.StatusRequestedRangeNotSatisfiable, fmt.Sprintf("object size is %d, but range starts at %d", version.Size, offset))
+			return
+		}
+	}
 	// get object stream
-	stream, err := oc.objectService.GetObject(metaData, metaData.Versions[0])
+	stream, err := oc.objectService.GetObject(metaData, version)
 	if err != nil {
 		response.FailErr(err, c).Abort()
 		return
 	}
 	defer util.CloseAndLog(stream)
 	// try seek
-	if tp, ok := req.Range.GetFirstBytes(); ok {
-		if _, err = stream.Seek(tp.First, io.SeekCurrent); err != nil {
+	if offset > 0 {
+		if _, err = stream.Seek(offset, io.SeekCurrent); err != nil {
 			response.FailErr(err, c)
 			return
 		}
 	}
+	// the client is able to find out if the response is incomplete
+	c.Header("Accept-Ranges", "bytes")
+	c.Header("Content-Length", util.ToString(version.Size-offset))
 	// copy to response
-	n, err := io.Copy(c.Writer, stream)
-	if err != nil {
+	if _, err = io.Copy(c.Writer, stream); err != nil {
 		logs.Std().Error(err)
-		return
+		if !c.Writer.Written() {
+			c.Writer.Header().Del("Content-Length")
+			response.FailErr(err, c)
+		}
 	}
-	response.OkHeader(gin.H{
-		"Accept-Ranges":  "bytes",
-		"Content-Length": n,
-	}, c)
 }
 
 func (oc *ObjectsController) ValidatePut(g *gin.Context) {
-- 
2.43.0


From 7c8965bef2e79d9e3bde7359261c4c0e5d9d9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 19/98] fix: selectors never read the statistics of servers
 while they are changing

---
 .../componet/selector/space_first_selector.go | 45 ++++++++++++-------
 .../componet/selector/weighted_io_first.go    | 38 +++++++++++-----
 2 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
index 9178f46..093c500 100644
--- a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
+++ b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
@@ -7,13 +7,14 @@ import (
 	"common/util/slices"
 	"math"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
 var (
-	spaceUsedMap   = map[string]int64{}
+	spaceUsedMap   atomic.Pointer[map[string]int64]
 	spaceLock      = sync.Mutex{}
-	spaceUpdatedAt time.Time
+	spaceUpdatedAt atomic.Int64
 )
 
 type FreeSpaceFirst struct {
@@ -26,29 +27,45 @@ func (s *FreeSpaceFirst) fetchSpaceInfo(ds []string) {
 		return
 	}
 	defer spaceLock.Unlock()
+	info := make(map[string]int64, len(ds))
+	if old := spaceUsedMap.Load(); old != nil {
+		for ip, v := range *old {
+			info[ip] = v
+		}
+	}
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
 		if err != nil {
-			logs.Std().Errorf("update space info of %s err: %s", ip, err)
+			logs.Std().Errorf("update stat info of %s err: %s", ip, err)
 			// ip is unreachable remove from origin
-			delete(spaceUsedMap, ip)
+			delete(info, ip)
 			continue
 		}
-		spaceUsedMap[ip] = util.ToInt64(hd.Get("Capacity"))
+		info[ip] = util.ToInt64(hd.Get("Capacity"))
 	}
-	spaceUpdatedAt = time.Now()
+	// readers never see a changing map
+	spaceUsedMap.Store(&info)
+	spaceUpdatedAt.Store(time.Now().UnixNano())
 }
 
-func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
+func (s *FreeSpaceFirst) latest(ds []string) map[string]int64 {
+	if time.Since(time.Unix(0, spaceUpdatedAt.Load())) > 1*time.Minute {
 		s.fetchSpaceInfo(ds)
 	}
+	if info := spaceUsedMap.Load(); info != nil {
+		return *info
+	}
+	return nil
+}
+
+func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
+	info := s.latest(ds)
 	idx := slices.ExtremalIndex(ds, func(min, b string) bool {
-		minUsed, ok := spaceUsedMap[min]
+		minUsed, ok := info[min]
 		if !ok {
 			minUsed = math.MaxInt64
 		}
-		bUsed, ok := spaceUsedMap[b]
+		bUsed, ok := info[b]
 		if !ok {
 			// skip if b is unreachable
 			return false
@@ -61,15 +78,13 @@ func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
 }
 
 func (s *FreeSpaceFirst) Select(ds []string) string {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
-		s.fetchSpaceInfo(ds)
-	}
+	info := s.latest(ds)
 	return slices.Extremal(ds, func(min, b string) bool {
-		minUsed, ok := spaceUsedMap[min]
+		minUsed, ok := info[min]
 		if !ok {
 			minUsed = math.MaxInt64
 		}
-		bUsed, ok := spaceUsedMap[b]
+		bUsed, ok := info[b]
 		if !ok {
 			// skip if b is unreachable
 			return false
diff --git a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
index 8d3bc7a..82b3ace 100644
--- a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
+++ b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
@@ -7,6 +7,7 @@ import (
 	"common/util/slices"
 	"math"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -17,9 +18,9 @@ var (
 	//  last update of this field.  This can provide an easy measure of both
 	//  I/O completion time and the backlog that may be accumulating.
 	//  See more: http://www.mjmwired.net/kernel/Documentation/iostats.txt
-	weightedIOMap       = map[string]int32{}
+	weightedIOMap       atomic.Pointer[map[string]int32]
 	weightedIOLock      = sync.Mutex{}
-	weightedIOUpdatedAt time.Time
+	weightedIOUpdatedAt atomic.Int64
 )
 
 type WeightedIOFirst struct {
@@ -32,28 +33,45 @@ func (s *WeightedIOFirst) fetchIoInfo(ds []string) {
 		return
 	}
 	defer weightedIOLock.Unlock()
+	info := make(map[string]int32, len(ds))
+	if old := weightedIOMap.Load(); old != nil {
+		for ip, v := range *old {
+			info[ip] = v
+		}
+	}
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
 		if err != nil {
-			logs.Std().Errorf("update space info of %s err: %s", ip, err)
-			delete(weightedIOMap, ip)
+			logs.Std().Errorf("update stat info of %s err: %s", ip, err)
+			// ip is unreachable remove from origin
+			delete(info, ip)
 			continue
 		}
-		weightedIOMap[ip] = util.ToInt32(hd.Get("Weighted-IO"))
+		info[ip] = util.ToInt32(hd.Get("Weighted-IO"))
 	}
-	weightedIOUpdatedAt = time.Now()
+	// readers never see a changing map
+	weightedIOMap.Store(&info)
+	weightedIOUpdatedAt.Store(time.Now().UnixNano())
 }
 
-func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(weightedIOUpdatedAt) > 1*time.Minute {
+func (s *WeightedIOFirst) latest(ds []string) map[string]int32 {
+	if time.Since(time.Unix(0, weightedIOUpdatedAt.Load())) > 1*time.Minute {
 		s.fetchIoInfo(ds)
 	}
+	if info := weightedIOMap.Load(); info != nil {
+		return *info
+	}
+	return nil
+}
+
+func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
+	info := s.latest(ds)
 	idx := slices.ExtremalIndex(ds, func(target, b string) bool {
-		tWeighted, ok := weightedIOMap[target]
+		tWeighted, ok := info[target]
 		if !ok {
 			tWeighted = math.MaxInt32
 		}
-		bWeighted, ok := weightedIOMap[b]
+		bWeighted, ok := info[b]
 		if !ok {
 			// skip if unreachable
 			return false
-- 
2.43.0


From 4f01d4728f1956cf2292a7e18144049ab7c801ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 20/98] fix: the digest of an upload whose content exists is
 verified too

---
 src/apiserver/internal/usecase/service/object_service.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 25c6af5..604be78 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -163,8 +163,13 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 		ver.Locate, ok = o.LocateObject(ver.Hash, ver.DataShards+ver.ParityShards)
 	}
 
-	// if object not exists, upload to data server
-	if !ok {
+	if ok {
+		// object exists, but it must be the one of request
+		if pool.Config.Object.Checksum && crypto.SHA256IO(req.Body) != req.Hash {
+			return 0, ErrInvalidFile
+		}
+	} else {
+		// if object not exists, upload to data server
 		if ver.Locate, err = streamToDataServer(req, ver, NewStreamProvider(&StreamOption{
 			Bucket:   bucket.Name,
 			Hash:     ver.Hash, // store to data-server with version hash
-- 
2.43.0


From e3aa5774da4724fd99b09131831db02fe170d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 21/98] fix: temp objects of an upload that could not be
 started or flushed are removed

---
 .../internal/usecase/service/copy_put_stream.go     |  2 ++
 .../internal/usecase/service/put_stream.go          | 13 +++++++++++++
 .../internal/usecase/service/rs_put_stream.go       |  2 ++
 3 files changed, 17 insertions(+)

diff --git a/src/apiserver/internal/usecase/service/copy_put_stream.go b/src/apiserver/internal/usecase/service/copy_put_stream.go
index 7c33f9d..2a9df9b 100644
--- a/src/apiserver/internal/usecase/service/copy_put_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_put_stream.go
@@ -33,6 +33,7 @@ func NewCopyPutStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*Copy
 		}(i)
 	}
 	if err := wg.WaitUntilError(); err != nil {
+		go abortPutStreams(wg, writers)
 		return nil, err
 	}
 	return &CopyPutStream{
@@ -95,6 +96,7 @@ func (c *CopyPutStream) Close() error {
 func (c *CopyPutStream) Commit(ok bool) error {
 	if ok {
 		if err := c.Flush(); err != nil {
+			util.LogErr(c.Commit(false))
 			return err
 		}
 	}
diff --git a/src/apiserver/internal/usecase/service/put_stream.go b/src/apiserver/internal/usecase/service/put_stream.go
index 625e886..cb5cf6a 100644
--- a/src/apiserver/internal/usecase/service/put_stream.go
+++ b/src/apiserver/internal/usecase/service/put_stream.go
@@ -6,6 +6,8 @@ import (
 	"bytes"
 	"common/graceful"
 	"common/logs"
+	"common/util"
+	"io"
 	"sync/atomic"
 )
 
@@ -66,3 +68,14 @@ func (p *PutStream) Commit(ok bool) error {
 	}
 	return nil
 }
+
+// abortPutStreams remove temp objects of all created streams after the group is done
+func abortPutStreams(wg util.WaitGroup, writers []io.WriteCloser) {
+	defer graceful.Recover()
+	wg.Wait()
+	for _, w := range writers {
+		if cm, ok := w.(Committer); ok {
+			util.LogErr(cm.Commit(false))
+		}
+	}
+}
diff --git a/src/apiserver/internal/usecase/service/rs_put_stream.go b/src/apiserver/internal/usecase/service/rs_put_stream.go
index 500b25e..8c27500 100644
--- a/src/apiserver/internal/usecase/service/rs_put_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_put_stream.go
@@ -32,6 +32,7 @@ func NewRSPutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSPutStream, er
 		}(i)
 	}
 	if e := wg.WaitUntilError(); e != nil {
+		go abortPutStreams(wg, writers)
 		return nil, e
 	}
 	return &RSPutStream{NewEncoder(writers, rsCfg)}, nil
@@ -48,6 +49,7 @@ func newExistedRSPutStream(ips, ids []string, hash string, compress bool, rsCfg
 func (p *RSPutStream) Commit(ok bool) error {
 	if ok {
 		if _, err := p.Flush(); err != nil {
+			util.LogErr(p.Commit(false))
 			return err
 		}
 	}
-- 
2.43.0


From d12f0a3c486285343eb316ea1c78d6a6d31a2af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 22/98] fix: versions are ordered, counted and listed by their
 number

---
 .../internal/usecase/logic/metadata_logic.go  | 36 +++++---
 .../internal/usecase/repo/metadata_repo.go    | 85 +++++++++----------
 .../usecase/service/metadata_service.go       |  4 +-
 3 files changed, 68 insertions(+), 57 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index bdeec02..efe8f87 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	. "metaserver/internal/usecase"
+	"sort"
 
 	"github.com/google/uuid"
 	bolt "go.etcd.io/bbolt"
@@ -108,22 +109,35 @@ func GetExtra(id string, extra *msg.Extra) TxFunc {
 		if b == nil {
 			return ErrNotFound
 		}
-		extra.Total = b.Stats().KeyN
-		cur := b.Cursor()
-		// first key
-		k, _ := cur.First()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.FirstVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
-		}
-		// last key
-		k, _ = cur.Last()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.LastVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
+		nums := VersionNumbers(b)
+		extra.Total = len(nums)
+		if len(nums) > 0 {
+			extra.FirstVersion = int(nums[0])
+			extra.LastVersion = int(nums[len(nums)-1])
 		}
 		return nil
 	}
 }
 
+// VersionKey is the key of a version in its bucket
+func VersionKey(name string, ver uint64) []byte {
+	return []byte(fmt.Sprint(name, Sep, ver))
+}
+
+// VersionNumbers returns the numbers of all versions in a version bucket in ascending order.
+// The order of keys is not the order of numbers: 'name.10' sorts before 'name.2'.
+func VersionNumbers(b *bolt.Bucket) []uint64 {
+	var nums []uint64
+	_ = b.ForEach(func(k, v []byte) error {
+		if idx := bytes.LastIndexByte(k, Sep[0]); idx >= 0 && v != nil {
+			nums = append(nums, util.ToUint64(string(k[idx+1:])))
+		}
+		return nil
+	})
+	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
+	return nums
+}
+
 func ExistsByUniqueId(tx *bolt.Tx, uniqueId string) error {
 	var byUniqueId []string
 	if err := NewUniqueIdIndex().GetIndex(uniqueId, &byUniqueId)(tx); err != nil {
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 2a23d7d..7475d59 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -8,7 +8,6 @@ import (
 	"common/proto/msg"
 	"common/util"
 	"errors"
-	"fmt"
 	"io"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
@@ -180,46 +179,49 @@ func (m *MetadataRepo) RemoveAllVersion(name string) error {
 	return nil
 }
 
-func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
-	var fst uint64 = 1
-	if err := m.MainDB.View(func(tx *bolt.Tx) error {
-		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().First()
-			if k == nil || v == nil {
-				return usecase.ErrNotFound
-			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			fst = util.ToUint64(util.BytesToStr(k[idx+1:]))
+// versionRange returns the lowest and highest number of existing versions
+func (m *MetadataRepo) versionRange(name string) (fst uint64, last uint64, err error) {
+	err = m.MainDB.View(func(tx *bolt.Tx) error {
+		buk := logic.GetVersionBucket(tx, name)
+		if buk == nil {
+			fst, last = 1, 1
+			return nil
+		}
+		nums := logic.VersionNumbers(buk)
+		if len(nums) == 0 {
+			return usecase.ErrNotFound
 		}
+		fst, last = nums[0], nums[len(nums)-1]
 		return nil
-	}); err != nil {
+	})
+	return
+}
+
+func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
+	fst, _, err := m.versionRange(name)
+	if err != nil {
 		return 0
 	}
 	return fst
 }
 
 func (m *MetadataRepo) GetLastVersionNumber(name string) uint64 {
-	var max uint64 = 1
-	if err := m.MainDB.View(func(tx *bolt.Tx) error {
-		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().Last()
-			if k == nil || v == nil {
-				return usecase.ErrNotFound
-			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			max = util.ToUint64(util.BytesToStr(k[idx+1:]))
+	// the newest version is the last one of the sequence unless that has been removed
+	var seq uint64
+	_ = m.MainDB.View(func(tx *bolt.Tx) error {
+		if buk := logic.GetVersionBucket(tx, name); buk != nil && buk.Get(logic.VersionKey(name, buk.Sequence())) != nil {
+			seq = buk.Sequence()
 		}
 		return nil
-	}); err != nil {
+	})
+	if seq > 0 {
+		return seq
+	}
+	_, last, err := m.versionRange(name)
+	if err != nil {
 		return 0
 	}
-	return max
+	return last
 }
 
 func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error) {
@@ -237,32 +239,27 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	return data, nil
 }
 
+// ListVersions returns the existing versions from position start to position end, both counted from 1 and included,
+// in the order of their numbers.
 func (m *MetadataRepo) ListVersions(name string, start int, end int) (lst []*msg.Version, total int, err error) {
-	size := end - start + 1
-	lst, _, err = m.Cache.ListVersions(name, start, end)
-	if util.InstanceOf[PartlyMatchedErr](err) {
-		start = err.(PartlyMatchedErr).Last()
-	} else if err != nil {
-		return
-	}
 	err = m.MainDB.View(func(tx *bolt.Tx) error {
 		buk := logic.GetVersionBucket(tx, name)
 		if buk == nil {
 			return usecase.ErrNotFound
 		}
-		c := buk.Cursor()
-
-		min := util.StrToBytes(fmt.Sprint(name, logic.Sep, start))
-
-		for k, v := c.Seek(min); k != nil && len(lst) < size; k, v = c.Next() {
+		nums := logic.VersionNumbers(buk)
+		total = len(nums)
+		lst = make([]*msg.Version, 0)
+		for i := start; i <= end && i <= total; i++ {
+			if i < 1 {
+				continue
+			}
 			data := &msg.Version{}
-			if err := util.DecodeMsgp(data, v); err != nil {
+			if err := logic.GetVer(name, nums[i-1], data)(tx); err != nil {
 				return err
 			}
 			lst = append(lst, data)
 		}
-		// record total
-		total = buk.Stats().KeyN
 		return nil
 	})
 	return
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 3435f96..968cf35 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -167,12 +167,12 @@ func (m *MetadataService) GetVersion(name string, ver int) (*msg.Version, error)
 }
 
 func (m *MetadataService) ListVersions(name string, page int, size int) ([]*msg.Version, int, error) {
-	if page == 0 {
+	if page <= 0 {
 		page = 1
 	}
 	// start at 1
 	start := (page-1)*size + 1
-	return m.repo.ListVersions(name, start, start+size)
+	return m.repo.ListVersions(name, start, start+size-1)
 }
 
 func (m *MetadataService) ListMetadata(prefix string, size int) ([]*msg.Metadata, int, error) {
-- 
2.43.0


From a15d283dd65ad8b6a51a383f04590a4f2ff88f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 23/98] fix: indexes of removed and received versions are kept
 in step with the versions

---
 .../internal/usecase/logic/metadata_logic.go  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index efe8f87..cd6933d 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -173,7 +173,7 @@ func AddVerWithSequence(name string, data *msg.Version) TxFunc {
 				return err
 			}
 			keyStr := util.BytesToStr(key)
-			if err = NewUniqueIdIndex().AddIndex(data.Hash, keyStr)(tx); err != nil {
+			if err = NewUniqueIdIndex().AddIndex(data.UniqueId, keyStr)(tx); err != nil {
 				return err
 			}
 			return NewHashIndexLogic().AddIndex(data.Hash, keyStr)(tx)
@@ -226,7 +226,7 @@ func RemoveVer(name string, ver uint64) TxFunc {
 		if err := NewHashIndexLogic().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove hash-index err: %w", err)
 		}
-		if err := NewUniqueIdIndex().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove uniqueId-index err: %w", err)
 		}
 		return b.Delete(key)
@@ -302,9 +302,33 @@ func CreateVersionBucket(tx *bolt.Tx, name string) error {
 }
 
 func RemoveVersionBucket(tx *bolt.Tx, name string) error {
+	if err := removeVersionIndexes(tx, name); err != nil {
+		return err
+	}
 	return getVersionRoot(tx).DeleteBucket(util.StrToBytes(name))
 }
 
+// removeVersionIndexes removes the indexes of all versions
+func removeVersionIndexes(tx *bolt.Tx, name string) error {
+	b := GetVersionBucket(tx, name)
+	if b == nil {
+		return nil
+	}
+	return b.ForEach(func(k, v []byte) error {
+		var data msg.Version
+		if err := util.DecodeMsgp(&data, v); err != nil {
+			return err
+		}
+		if err := NewHashIndexLogic().RemoveIndex(data.Hash, string(k))(tx); err != nil {
+			return fmt.Errorf("remove hash-index err: %w", err)
+		}
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, string(k))(tx); err != nil {
+			return fmt.Errorf("remove uniqueId-index err: %w", err)
+		}
+		return nil
+	})
+}
+
 // getVersionRoot get or create version root bucket
 func getVersionRoot(tx *bolt.Tx) *bolt.Bucket {
 	if tx.Writable() {
-- 
2.43.0


From c9513584d4688741fd970fa49cec1ee768cfeef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 24/98] fix: keys and values never outlive the transaction they
 were read in

---
 src/metaserver/internal/usecase/logic/bucket_logic.go       | 6 ++++--
 src/metaserver/internal/usecase/logic/hash_index_logic.go   | 6 +++---
 .../internal/usecase/logic/unique_id_index_logic.go         | 2 +-
 src/metaserver/internal/usecase/service/hashslot_service.go | 3 ++-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 2f14491..cd99c0d 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -52,10 +52,12 @@ func (b *BucketCrud) GetBytes(name string, bt *[]byte) usecase.TxFunc {
 		if err != nil {
 			return err
 		}
-		*bt = root.Get(util.StrToBytes(name))
-		if *bt == nil {
+		v := root.Get(util.StrToBytes(name))
+		if v == nil {
 			return usecase.ErrNotFound
 		}
+		// the value is only valid during the transaction
+		*bt = append([]byte(nil), v...)
 		return nil
 	}
 }
diff --git a/src/metaserver/internal/usecase/logic/hash_index_logic.go b/src/metaserver/internal/usecase/logic/hash_index_logic.go
index 1e3bd31..d8d97bd 100644
--- a/src/metaserver/internal/usecase/logic/hash_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/hash_index_logic.go
@@ -50,7 +50,7 @@ func (HashIndexLogic) GetIndex(hash string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := hashBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k))
 			return nil
 		})
 		return err
@@ -69,8 +69,8 @@ func (HashIndexLogic) GetIndexPrefix(hash string, prefix []byte, res *[][]byte)
 			return nil
 		}
 		cur := hashBuk.Cursor()
-		for k, v := cur.Seek(prefix); k != nil && bytes.HasPrefix(k, prefix); k, v = cur.Next() {
-			*res= append(*res, v)
+		for k, _ := cur.Seek(prefix); k != nil && bytes.HasPrefix(k, prefix); k, _ = cur.Next() {
+			*res = append(*res, append([]byte(nil), k...))
 		}
 		return nil
 	}
diff --git a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
index 726a54c..93bbb12 100644
--- a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
@@ -50,7 +50,7 @@ func (UniqueIdIndex) GetIndex(uniqueId string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := uniqueIdBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k))
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 9e39cd9..9ead78c 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -347,7 +347,8 @@ func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClie
 		if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
 			return nil
 		}
-		migKeys = append(migKeys, k)
+		// the key is only valid during the transaction
+		migKeys = append(migKeys, append([]byte(nil), k...))
 		return nil
 	})
 	total := len(migKeys)
-- 
2.43.0


From c1591606143699cbfbe428bf3252e170c0f462a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 25/98] fix: cached metadata and buckets are never older than
 what has been acknowledged

---
 src/metaserver/internal/app/app.go            |   9 +-
 src/metaserver/internal/usecase/interfaces.go |  13 +++
 .../usecase/repo/batch_bucket_repo.go         |  16 ++-
 .../internal/usecase/repo/batch_meta_repo.go  |  45 +++++---
 .../usecase/repo/bucket_cache_repo.go         |  29 ++++-
 .../internal/usecase/repo/bucket_repo.go      |  60 +++-------
 .../internal/usecase/repo/cache_guard.go      |  34 ++++++
 .../usecase/repo/metadata_cache_repo.go       |  61 +++++++++--
 .../internal/usecase/repo/metadata_repo.go    | 103 +++++++-----------
 9 files changed, 225 insertions(+), 145 deletions(-)
 create mode 100644 src/metaserver/internal/usecase/repo/cache_guard.go

diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index b21fe17..9f32826 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -23,17 +23,18 @@ func Run(cfg *config.Config) {
 	pool.InitPool(cfg)
 	defer pool.Close()
 	// init repos
-	metaRepo := repo.NewMetadataRepo(pool.Storage, repo.NewMetadataCacheRepo(pool.Cache))
-	bucketRepo := repo.NewBucketRepo(pool.Storage, repo.NewBucketCacheRepo(pool.Cache))
+	metaCache, bucketCache := repo.NewMetadataCacheRepo(pool.Cache), repo.NewBucketCacheRepo(pool.Cache)
+	metaRepo := repo.NewMetadataRepo(pool.Storage, metaCache)
+	bucketRepo := repo.NewBucketRepo(pool.Storage, bucketCache)
 	// init raft
-	fsm := raftimpl.NewFSM(metaRepo, repo.NewBatchRepo(pool.Storage), bucketRepo, repo.NewBatchBucketRepo(pool.Storage), metaRepo)
+	fsm := raftimpl.NewFSM(metaRepo, repo.NewBatchRepo(pool.Storage, metaCache), bucketRepo, repo.NewBatchBucketRepo(pool.Storage, bucketCache), metaRepo)
 	raftWrapper := raftimpl.NewRaft(util.ServerAddress(cfg.Port), cfg.Cluster, fsm)
 	pool.RaftWrapper = raftWrapper
 	// init services
 	bucketServ := service.NewBucketService(bucketRepo, raftWrapper)
 	metaService := service.NewMetadataService(
 		metaRepo,
-		repo.NewBatchRepo(pool.Storage),
+		repo.NewBatchRepo(pool.Storage, metaCache),
 		repo.NewHashIndexRepo(pool.Storage),
 		raftWrapper,
 	)
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 1922298..6d447df 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -121,6 +121,19 @@ type (
 	IMetaCache interface {
 		ReadableRepo
 		WritableRepo
+		// Epoch and Fill: what has been read from the storage is only cached if nothing was written since Epoch
+		Epoch() uint64
+		FillMetadata(epoch uint64, id string, data *msg.Metadata) error
+		FillVersion(epoch uint64, id string, data *msg.Version) error
+		RemoveVersions(id string, last uint64)
+		Clear()
+	}
+
+	IBucketCache interface {
+		BucketRepo
+		Epoch() uint64
+		Fill(epoch uint64, bucket *msg.Bucket) error
+		Clear()
 	}
 
 	BucketWritableRepo interface {
diff --git a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
index 3bc917a..1084740 100644
--- a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
@@ -2,6 +2,7 @@ package repo
 
 import (
 	"common/proto/msg"
+	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
 )
@@ -9,10 +10,11 @@ import (
 type BatchBucketRepo struct {
 	db    *db.Storage
 	logic *logic.BucketCrud
+	cache usecase.IBucketCache
 }
 
-func NewBatchBucketRepo(db *db.Storage) *BatchBucketRepo {
-	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud()}
+func NewBatchBucketRepo(db *db.Storage, cache usecase.IBucketCache) *BatchBucketRepo {
+	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud(), cache: cache}
 }
 
 func (b *BatchBucketRepo) Create(bucket *msg.Bucket) (err error) {
@@ -20,11 +22,17 @@ func (b *BatchBucketRepo) Create(bucket *msg.Bucket) (err error) {
 }
 
 func (b *BatchBucketRepo) Remove(name string) (err error) {
-	return b.db.Batch(b.logic.Delete(name))
+	if err = b.db.Batch(b.logic.Delete(name)); err == nil {
+		err = b.cache.Remove(name)
+	}
+	return
 }
 
 func (b *BatchBucketRepo) Update(bucket *msg.Bucket) (err error) {
-	return b.db.Batch(b.logic.Update(bucket))
+	if err = b.db.Batch(b.logic.Update(bucket)); err == nil {
+		err = b.cache.Update(bucket)
+	}
+	return
 }
 
 func (b *BatchBucketRepo) Sync() error {
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index 6fc235b..d7b59a4 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -2,7 +2,6 @@ package repo
 
 import (
 	"common/proto/msg"
-	bolt "go.etcd.io/bbolt"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
@@ -10,10 +9,11 @@ import (
 
 type BatchMetaRepo struct {
 	Storage *db.Storage
+	Cache   usecase.IMetaCache
 }
 
-func NewBatchRepo(stroe *db.Storage) *BatchMetaRepo {
-	return &BatchMetaRepo{Storage: stroe}
+func NewBatchRepo(stroe *db.Storage, c usecase.IMetaCache) *BatchMetaRepo {
+	return &BatchMetaRepo{Storage: stroe, Cache: c}
 }
 
 func (br *BatchMetaRepo) Sync() error {
@@ -35,11 +35,17 @@ func (br *BatchMetaRepo) UpdateVersion(name string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.UpdateVer(name, data))
+	if err := br.Storage.Batch(logic.UpdateVer(name, data)); err != nil {
+		return err
+	}
+	return br.Cache.UpdateVersion(name, data)
 }
 
 func (br *BatchMetaRepo) RemoveVersion(name string, ver uint64) error {
-	return br.Storage.Batch(logic.RemoveVer(name, ver))
+	if err := br.Storage.Batch(logic.RemoveVer(name, ver)); err != nil {
+		return err
+	}
+	return br.Cache.RemoveVersion(name, ver)
 }
 
 func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
@@ -50,11 +56,22 @@ func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
 }
 
 func (br *BatchMetaRepo) UpdateMetadata(name string, data *msg.Metadata) error {
-	return br.Storage.Batch(logic.UpdateMeta(name, data))
+	if data == nil {
+		return usecase.ErrNilData
+	}
+	if err := br.Storage.Batch(logic.UpdateMeta(name, data)); err != nil {
+		return err
+	}
+	return br.Cache.UpdateMetadata(name, data)
 }
 
 func (br *BatchMetaRepo) RemoveMetadata(name string) error {
-	return br.Storage.Batch(logic.RemoveMeta(name))
+	var last uint64
+	if err := br.Storage.Batch(removeMetadata(name, &last)); err != nil {
+		return err
+	}
+	br.Cache.RemoveVersions(name, last)
+	return br.Cache.RemoveMetadata(name)
 }
 
 func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error {
@@ -65,12 +82,10 @@ func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error
 }
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
-	return br.Storage.Batch(func(tx *bolt.Tx) error {
-		// delete bucket
-		if err := logic.RemoveVersionBucket(tx, id); err != nil {
-			return err
-		}
-		// create an empty bucket
-		return logic.CreateVersionBucket(tx, id)
-	})
+	var last uint64
+	if err := br.Storage.Batch(removeAllVersion(id, &last)); err != nil {
+		return err
+	}
+	br.Cache.RemoveVersions(id, last)
+	return nil
 }
diff --git a/src/metaserver/internal/usecase/repo/bucket_cache_repo.go b/src/metaserver/internal/usecase/repo/bucket_cache_repo.go
index 3b8bd4a..bb15dc0 100644
--- a/src/metaserver/internal/usecase/repo/bucket_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_cache_repo.go
@@ -6,6 +6,7 @@ import (
 	"common/util"
 	"fmt"
 	"metaserver/internal/usecase"
+	"sync/atomic"
 )
 
 const (
@@ -13,15 +14,22 @@ const (
 )
 
 type BucketCacheRepo struct {
+	cacheGuard
 	cache cache.ICache
+	// generation is part of all keys, increasing it drops everything cached so far
+	generation atomic.Uint64
 }
 
 func NewBucketCacheRepo(cache cache.ICache) *BucketCacheRepo {
 	return &BucketCacheRepo{cache: cache}
 }
 
+func (b *BucketCacheRepo) key(name string) string {
+	return fmt.Sprint(BucketCachePrefix, b.generation.Load(), ".", name)
+}
+
 func (b *BucketCacheRepo) Get(name string) (*msg.Bucket, error) {
-	bt, ok := b.cache.HasGet(fmt.Sprint(BucketCachePrefix, name))
+	bt, ok := b.cache.HasGet(b.key(name))
 	if !ok {
 		return nil, usecase.ErrNotFound
 	}
@@ -35,21 +43,32 @@ func (b *BucketCacheRepo) Create(bucket *msg.Bucket) error {
 	if err != nil {
 		return err
 	}
-	b.cache.Set(fmt.Sprint(BucketCachePrefix, bucket.Name), bt)
+	b.cache.Set(b.key(bucket.Name), bt)
 	return nil
 }
 
 func (b *BucketCacheRepo) Remove(name string) error {
-	b.cache.Delete(fmt.Sprint(BucketCachePrefix, name))
+	b.invalidate(func() { b.cache.Delete(b.key(name)) })
 	return nil
 }
 
 func (b *BucketCacheRepo) Update(bucket *msg.Bucket) error {
-	return b.Create(bucket)
+	return b.Remove(bucket.Name)
+}
+
+// Fill caches a bucket which was read from the storage after epoch was recorded
+func (b *BucketCacheRepo) Fill(epoch uint64, bucket *msg.Bucket) (err error) {
+	b.fill(epoch, func() { err = b.Create(bucket) })
+	return
+}
+
+// Clear removes everything
+func (b *BucketCacheRepo) Clear() {
+	b.invalidate(func() { b.generation.Add(1) })
 }
 
 func (b *BucketCacheRepo) GetBytes(name string) ([]byte, error) {
-	bt, ok := b.cache.HasGet(fmt.Sprint(BucketCachePrefix, name))
+	bt, ok := b.cache.HasGet(b.key(name))
 	if !ok {
 		return nil, usecase.ErrNotFound
 	}
diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index 22a8b3b..cd68d22 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -1,7 +1,6 @@
 package repo
 
 import (
-	"common/graceful"
 	"common/proto/msg"
 	"common/util"
 	"errors"
@@ -13,10 +12,10 @@ import (
 type BucketRepo struct {
 	db    *db.Storage
 	logic *logic.BucketCrud
-	cache usecase.BucketRepo
+	cache usecase.IBucketCache
 }
 
-func NewBucketRepo(db *db.Storage, cache usecase.BucketRepo) *BucketRepo {
+func NewBucketRepo(db *db.Storage, cache usecase.IBucketCache) *BucketRepo {
 	return &BucketRepo{db: db, logic: logic.NewBucketCrud(), cache: cache}
 }
 
@@ -28,67 +27,44 @@ func (b *BucketRepo) Get(name string) (res *msg.Bucket, err error) {
 	if data, err := b.cache.Get(name); err == nil {
 		return data, nil
 	}
+	epoch := b.cache.Epoch()
 	res = new(msg.Bucket)
-	err = b.db.View(b.logic.Get(name, res))
-	go func() {
-		defer graceful.Recover()
-		if err == nil {
-			util.LogErrWithPre("bucket cache", b.cache.Create(res))
-		}
-	}()
+	if err = b.db.View(b.logic.Get(name, res)); err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Fill(epoch, res))
+	}
 	return
 }
 
 func (b *BucketRepo) Create(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
-			}
-		}()
-	}()
 	return b.db.Update(b.logic.Create(bucket))
 }
 
 func (b *BucketRepo) Remove(name string) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Remove(name))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Delete(name))
+	if err = b.db.Update(b.logic.Delete(name)); err == nil {
+		err = b.cache.Remove(name)
+	}
+	return
 }
 
 func (b *BucketRepo) Update(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
-			}
-		}()
-	}()
-
-	return b.db.Update(b.logic.Update(bucket))
+	if err = b.db.Update(b.logic.Update(bucket)); err == nil {
+		err = b.cache.Update(bucket)
+	}
+	return
 }
 
 func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
 	var total int
+	epoch := b.cache.Epoch()
 	list := make([]*msg.Bucket, 0, size)
 	err := b.db.View(b.logic.List(prefix, size, &list, &total))
 	// ignore not found err.
 	if errors.Is(err, usecase.ErrNotFound) {
 		err = nil
 	}
-	go func() {
-		defer graceful.Recover()
-		for _, item := range list {
-			util.LogErrWithPre("bucket cache", b.cache.Create(item))
-		}
-	}()
+	for _, item := range list {
+		util.LogErrWithPre("bucket cache", b.cache.Fill(epoch, item))
+	}
 	return list, total, err
 }
 
diff --git a/src/metaserver/internal/usecase/repo/cache_guard.go b/src/metaserver/internal/usecase/repo/cache_guard.go
new file mode 100644
index 0000000..1a560d0
--- /dev/null
+++ b/src/metaserver/internal/usecase/repo/cache_guard.go
@@ -0,0 +1,34 @@
+package repo
+
+import "sync"
+
+// cacheGuard keeps cached values in step with the storage. What was read from the storage is only cached if nothing
+// has been written meanwhile, and what has been written is no longer cached when the writer gets its answer.
+type cacheGuard struct {
+	mu    sync.Mutex
+	epoch uint64
+}
+
+// Epoch has to be recorded before reading from the storage
+func (g *cacheGuard) Epoch() uint64 {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	return g.epoch
+}
+
+// fill runs fn unless something has been invalidated since epoch
+func (g *cacheGuard) fill(epoch uint64, fn func()) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	if g.epoch == epoch {
+		fn()
+	}
+}
+
+// invalidate runs fn, which removes values from the cache. To be called when a write is committed.
+func (g *cacheGuard) invalidate(fn func()) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	g.epoch++
+	fn()
+}
diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 271d930..1a1cc79 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/logic"
+	"sync/atomic"
 )
 
 type PartlyMatchedErr interface {
@@ -31,15 +32,27 @@ func (pe *partlyErr) Error() string {
 }
 
 const (
-	MetaCachePrefix = "metadata_"
+	MetaCachePrefix    = "metadata_"
+	VersionCachePrefix = "version_"
 )
 
 type MetadataCacheRepo struct {
+	cacheGuard
 	cache cache.ICache
+	// generation is part of all keys, increasing it drops everything cached so far
+	generation atomic.Uint64
 }
 
 func NewMetadataCacheRepo(c cache.ICache) *MetadataCacheRepo {
-	return &MetadataCacheRepo{c}
+	return &MetadataCacheRepo{cache: c}
+}
+
+func (m *MetadataCacheRepo) metaKey(s string) string {
+	return fmt.Sprint(MetaCachePrefix, m.generation.Load(), logic.Sep, s)
+}
+
+func (m *MetadataCacheRepo) versionKey(s string, u uint64) string {
+	return fmt.Sprint(VersionCachePrefix, m.generation.Load(), logic.Sep, s, logic.Sep, u)
 }
 
 func (m *MetadataCacheRepo) ListMetadata(string, int) ([]*msg.Metadata, int, error) {
@@ -47,7 +60,7 @@ func (m *MetadataCacheRepo) ListMetadata(string, int) ([]*msg.Metadata, int, err
 }
 
 func (m *MetadataCacheRepo) GetMetadata(s string) (*msg.Metadata, error) {
-	if bt, ok := m.cache.HasGet(fmt.Sprint(MetaCachePrefix, s)); ok {
+	if bt, ok := m.cache.HasGet(m.metaKey(s)); ok {
 		var en msg.Metadata
 		if err := util.DecodeMsgp(&en, bt); err != nil {
 			return nil, err
@@ -58,7 +71,7 @@ func (m *MetadataCacheRepo) GetMetadata(s string) (*msg.Metadata, error) {
 }
 
 func (m *MetadataCacheRepo) GetVersion(s string, u uint64) (*msg.Version, error) {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, u)
+	key := m.versionKey(s, u)
 	if bt, ok := m.cache.HasGet(key); ok {
 		var en msg.Version
 		if err := util.DecodeMsgp(&en, bt); err != nil {
@@ -89,12 +102,12 @@ func (m *MetadataCacheRepo) AddMetadata(id string, metadata *msg.Metadata) error
 	if err != nil {
 		return err
 	}
-	m.cache.Set(fmt.Sprint(MetaCachePrefix, id), bt)
+	m.cache.Set(m.metaKey(id), bt)
 	return nil
 }
 
 func (m *MetadataCacheRepo) AddVersion(s string, version *msg.Version) error {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, version.Sequence)
+	key := m.versionKey(s, version.Sequence)
 	bt, err := util.EncodeMsgp(version)
 	if err != nil {
 		return err
@@ -103,24 +116,50 @@ func (m *MetadataCacheRepo) AddVersion(s string, version *msg.Version) error {
 	return nil
 }
 
-func (m *MetadataCacheRepo) UpdateMetadata(id string, metadata *msg.Metadata) error {
-	return m.AddMetadata(id, metadata)
+// FillMetadata caches metadata which was read from the storage after epoch was recorded
+func (m *MetadataCacheRepo) FillMetadata(epoch uint64, id string, metadata *msg.Metadata) (err error) {
+	m.fill(epoch, func() { err = m.AddMetadata(id, metadata) })
+	return
+}
+
+// FillVersion caches a version which was read from the storage after epoch was recorded
+func (m *MetadataCacheRepo) FillVersion(epoch uint64, s string, version *msg.Version) (err error) {
+	m.fill(epoch, func() { err = m.AddVersion(s, version) })
+	return
+}
+
+func (m *MetadataCacheRepo) UpdateMetadata(id string, _ *msg.Metadata) error {
+	return m.RemoveMetadata(id)
 }
 
 func (m *MetadataCacheRepo) UpdateVersion(s string, version *msg.Version) error {
-	return m.AddVersion(s, version)
+	return m.RemoveVersion(s, version.Sequence)
 }
 
 func (m *MetadataCacheRepo) RemoveMetadata(s string) error {
-	m.cache.Delete(fmt.Sprint(MetaCachePrefix, s))
+	m.invalidate(func() { m.cache.Delete(m.metaKey(s)) })
 	return nil
 }
 
 func (m *MetadataCacheRepo) RemoveVersion(s string, u uint64) error {
-	m.cache.Delete(fmt.Sprint(MetaCachePrefix, s, logic.Sep, u))
+	m.invalidate(func() { m.cache.Delete(m.versionKey(s, u)) })
 	return nil
 }
 
+// RemoveVersions removes versions up to the last one
+func (m *MetadataCacheRepo) RemoveVersions(s string, last uint64) {
+	m.invalidate(func() {
+		for i := uint64(1); i <= last; i++ {
+			m.cache.Delete(m.versionKey(s, i))
+		}
+	})
+}
+
+// Clear removes everything
+func (m *MetadataCacheRepo) Clear() {
+	m.invalidate(func() { m.generation.Add(1) })
+}
+
 func (m *MetadataCacheRepo) RemoveAllVersion(string) error {
 	panic("not impl RemoveAllVersion")
 }
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 7475d59..abbd3cb 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -3,7 +3,6 @@ package repo
 import (
 	"bytes"
 	"common/cst"
-	"common/graceful"
 	"common/logs"
 	"common/proto/msg"
 	"common/util"
@@ -35,11 +34,6 @@ func (m *MetadataRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.AddMeta(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddMetadata(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
 	return nil
 }
 
@@ -50,41 +44,55 @@ func (m *MetadataRepo) UpdateMetadata(name string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.UpdateMeta(name, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateMetadata(name, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.UpdateMetadata(name, data))
 	return nil
 }
 
 func (m *MetadataRepo) RemoveMetadata(name string) error {
-	lastVer := m.GetLastVersionNumber(name)
-	if err := m.MainDB.Update(logic.RemoveMeta(name)); err != nil {
+	var last uint64
+	if err := m.MainDB.Update(removeMetadata(name, &last)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
-		for i := uint64(1); i <= lastVer; i++ {
-			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
-		}
-	}()
+	m.Cache.RemoveVersions(name, last)
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
 	return nil
 }
 
+// removeMetadata removes metadata with all versions. 'last' is the highest number a version had.
+func removeMetadata(name string, last *uint64) usecase.TxFunc {
+	return func(tx *bolt.Tx) error {
+		if b := logic.GetVersionBucket(tx, name); b != nil {
+			*last = b.Sequence()
+		}
+		return logic.RemoveMeta(name)(tx)
+	}
+}
+
+// removeAllVersion removes all versions. 'last' is the highest number a version had.
+func removeAllVersion(name string, last *uint64) usecase.TxFunc {
+	return func(tx *bolt.Tx) error {
+		if b := logic.GetVersionBucket(tx, name); b != nil {
+			*last = b.Sequence()
+		}
+		// delete bucket
+		if err := logic.RemoveVersionBucket(tx, name); err != nil {
+			return err
+		}
+		// create an empty bucket
+		return logic.CreateVersionBucket(tx, name)
+	}
+}
+
 func (m *MetadataRepo) GetMetadata(id string) (*msg.Metadata, error) {
 	if data, err := m.Cache.GetMetadata(id); err == nil {
 		return data, nil
 	}
+	epoch := m.Cache.Epoch()
 	data := &msg.Metadata{}
 	if err := m.MainDB.View(logic.GetMeta(id, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.Cache.FillMetadata(epoch, id, data))
 	return data, nil
 }
 
@@ -101,11 +109,6 @@ func (m *MetadataRepo) AddVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
 	return nil
 }
 
@@ -122,11 +125,6 @@ func (m *MetadataRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVerWithSequence(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersionFromRaft(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
 	return nil
 }
 
@@ -137,11 +135,7 @@ func (m *MetadataRepo) UpdateVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.UpdateVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.UpdateVersion(id, data))
 	return nil
 }
 
@@ -149,33 +143,16 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 	if err := m.MainDB.Update(logic.RemoveVer(name, ver)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.RemoveVersion(name, ver)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, ver))
 	return nil
 }
 
 func (m *MetadataRepo) RemoveAllVersion(name string) error {
-	last := m.GetLastVersionNumber(name)
-	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
-		// delete bucket
-		if err := logic.RemoveVersionBucket(tx, name); err != nil {
-			return err
-		}
-		// create an empty bucket
-		return logic.CreateVersionBucket(tx, name)
-	}); err != nil {
+	var last uint64
+	if err := m.MainDB.Update(removeAllVersion(name, &last)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		for i := uint64(0); i <= last; i++ {
-			err := m.Cache.RemoveVersion(name, i)
-			util.LogErrWithPre("remove version cache", err)
-		}
-	}()
+	m.Cache.RemoveVersions(name, last)
 	return nil
 }
 
@@ -228,14 +205,12 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	if data, err := m.Cache.GetVersion(name, ver); err == nil {
 		return data, nil
 	}
+	epoch := m.Cache.Epoch()
 	data := &msg.Version{}
 	if err := m.MainDB.View(logic.GetVer(name, ver, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.Cache.FillVersion(epoch, name, data))
 	return data, nil
 }
 
-- 
2.43.0


From 8f96bef6005db5e6437accc39af33eaea315b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 26/98] fix: raft logs are applied exactly once, also when they
 are replayed after a restart

---
 src/metaserver/internal/usecase/db/storage.go | 63 ++++++++++++++-
 src/metaserver/internal/usecase/interfaces.go |  1 +
 .../internal/usecase/raftimpl/fsm_impl.go     | 78 +++++++++----------
 .../internal/usecase/raftimpl/raft_impl.go    | 11 +++
 .../internal/usecase/repo/bucket_repo.go      |  1 +
 .../internal/usecase/repo/metadata_repo.go    | 32 +++-----
 .../usecase/service/metadata_service.go       |  7 +-
 7 files changed, 123 insertions(+), 70 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/storage.go b/src/metaserver/internal/usecase/db/storage.go
index 6bddebe..26f85e3 100644
--- a/src/metaserver/internal/usecase/db/storage.go
+++ b/src/metaserver/internal/usecase/db/storage.go
@@ -24,6 +24,8 @@ type Storage struct {
 	originalPath string
 	current      atomic.Value
 	rdOnly       atomic.Value
+	logIndex     atomic.Uint64
+	onReplaced   []func()
 }
 
 func NewStorage() *Storage {
@@ -56,7 +58,7 @@ func (s *Storage) Update(fn usecase.TxFunc) error {
 	if s.rdOnly.Load().(bool) {
 		return usecase.ErrReadOnly
 	}
-	return s.DB().Update(fn)
+	return s.DB().Update(s.withLogIndex(fn))
 }
 
 func (s *Storage) Batch(fn usecase.TxFunc) error {
@@ -69,7 +71,61 @@ func (s *Storage) Batch(fn usecase.TxFunc) error {
 	if s.rdOnly.Load().(bool) {
 		return usecase.ErrReadOnly
 	}
-	return s.DB().Batch(fn)
+	return s.DB().Batch(s.withLogIndex(fn))
+}
+
+const lastAppliedIndexKey = "go.dfs.metadata.special.lastAppliedIndexKey"
+
+// Applying runs fn, whose writes belong to the raft log at this index. The index is saved within the same transaction,
+// so that a log is never applied twice even if all logs are replayed after a restart.
+func (s *Storage) Applying(index uint64, fn func()) {
+	s.logIndex.Store(index)
+	defer s.logIndex.Store(0)
+	fn()
+}
+
+func (s *Storage) withLogIndex(fn usecase.TxFunc) usecase.TxFunc {
+	index := s.logIndex.Load()
+	if index == 0 {
+		return fn
+	}
+	return func(tx *bolt.Tx) error {
+		if err := fn(tx); err != nil {
+			return err
+		}
+		return saveAppliedIndex(tx, index)
+	}
+}
+
+func saveAppliedIndex(tx *bolt.Tx, index uint64) error {
+	specBuc, err := tx.CreateBucketIfNotExists([]byte(lastAppliedIndexKey))
+	if err != nil {
+		return err
+	}
+	return specBuc.SetSequence(index)
+}
+
+// LastAppliedIndex is the index of the last raft log which has been applied to this storage
+func (s *Storage) LastAppliedIndex() (r uint64, err error) {
+	err = s.View(func(tx *bolt.Tx) error {
+		if specBuc := tx.Bucket([]byte(lastAppliedIndexKey)); specBuc != nil {
+			r = specBuc.Sequence()
+		}
+		return nil
+	})
+	return
+}
+
+// ApplyIndex saves the index of a raft log which has written nothing else
+func (s *Storage) ApplyIndex(index uint64) error {
+	return s.DB().Update(func(tx *bolt.Tx) error {
+		return saveAppliedIndex(tx, index)
+	})
+}
+
+// OnReplaced registers a function to be called after the whole content has been replaced
+func (s *Storage) OnReplaced(fn func()) {
+	s.onReplaced = append(s.onReplaced, fn)
 }
 
 func (s *Storage) Stop() error {
@@ -133,6 +189,9 @@ func (s *Storage) Replace(replacePath string) (err error) {
 	old := s.DB()
 	// change current db to new one
 	s.current.Store(newDB)
+	for _, fn := range s.onReplaced {
+		fn()
+	}
 	// close and remove old db file
 	go func() {
 		defer graceful.Recover()
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 6d447df..f2606cd 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -75,6 +75,7 @@ type (
 		Restore(io.Reader) error
 		LastAppliedIndex() (uint64, error)
 		ApplyIndex(i uint64) error
+		Applying(i uint64, fn func())
 	}
 
 	RaftApply interface {
diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 0b11cd0..2dff937 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -5,7 +5,6 @@ import (
 	"common/response"
 	"common/util"
 	"compress/gzip"
-	"errors"
 	"fmt"
 	"io"
 	"metaserver/internal/entity"
@@ -95,6 +94,11 @@ func (f *FSMImpl) applyVersionAll(data *entity.RaftData) *FSMResponse {
 }
 
 func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
+	return f.applyLog(lg, false)
+}
+
+// applyLog applies a log unless it has already been applied before a restart
+func (f *FSMImpl) applyLog(lg *raft.Log, batch bool) (r any) {
 	if lg == nil || len(lg.Data) == 0 {
 		return FSMResult(ErrNilData)
 	}
@@ -106,50 +110,41 @@ func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 	if err := util.DecodeMsgp(&data, lg.Data); err != nil {
 		return err
 	}
+	data.Batch = batch
 
+	last, err := f.snapshot.LastAppliedIndex()
+	if err != nil {
+		return err
+	}
+	if lg.Index > 0 && lg.Index <= last {
+		return FSMResult(nil)
+	}
+	f.snapshot.Applying(lg.Index, func() { r = f.applyData(&data) })
+	if resp, ok := r.(*FSMResponse); !ok || !resp.Ok() {
+		// nothing has been written, neither has the index
+		util.LogErrWithPre("save applied index", f.snapshot.ApplyIndex(lg.Index))
+	}
+	return r
+}
+
+func (f *FSMImpl) applyData(data *entity.RaftData) any {
 	switch data.Dest {
 	case entity.DestMetadata:
-		return f.applyMetadata(&data)
+		return f.applyMetadata(data)
 	case entity.DestVersion:
-		return f.applyVersion(&data)
+		return f.applyVersion(data)
 	case entity.DestVersionAll:
-		return f.applyVersionAll(&data)
+		return f.applyVersionAll(data)
 	case entity.DestBucket:
-		return f.applyBucket(&data)
+		return f.applyBucket(data)
 	}
 	return ErrUnknownRaftLog
 }
 
 func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
-	var data entity.RaftData
 	res := make([]any, len(lgs))
-
 	for i, lg := range lgs {
-		if lg == nil || len(lg.Data) == 0 {
-			res[i] = FSMResult(ErrNilData)
-			continue
-		}
-		if lg.Type != raft.LogCommand {
-			res[i] = fmt.Errorf("drop recieved fsmLog type %v", lg.Type)
-			continue
-		}
-		if err := util.DecodeMsgp(&data, lg.Data); err != nil {
-			res[i] = err
-			continue
-		}
-		data.Batch = true
-		switch data.Dest {
-		case entity.DestMetadata:
-			res[i] = f.applyMetadata(&data)
-		case entity.DestVersion:
-			res[i] = f.applyVersion(&data)
-		case entity.DestVersionAll:
-			res[i] = f.applyVersionAll(&data)
-		case entity.DestBucket:
-			res[i] = f.applyBucket(&data)
-		default:
-			res[i] = ErrUnknownRaftLog
-		}
+		res[i] = f.applyLog(lg, true)
 	}
 	//NOTICE: metaBatch Sync and bucketBatch Sync it's same for now.
 	if err := f.metaBatch.Sync(); err != nil {
@@ -163,6 +158,11 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 	return res
 }
 
+// ResetApplied forgets which logs have been applied. To be used if logs start again from the beginning.
+func (f *FSMImpl) ResetApplied() error {
+	return f.snapshot.ApplyIndex(0)
+}
+
 func (f *FSMImpl) Snapshot() (raft.FSMSnapshot, error) {
 	snap, err := f.snapshot.Snapshot()
 	if err != nil {
@@ -187,11 +187,15 @@ type snapshot struct {
 
 func (s *snapshot) Persist(sink raft.SnapshotSink) error {
 	gzipWt := gzip.NewWriter(sink)
-	if _, err := s.WriteTo(gzipWt); err != nil {
+	_, err := s.WriteTo(gzipWt)
+	if err == nil {
+		err = gzipWt.Close()
+	}
+	if err != nil {
 		fsmLog.Error(err)
-		return sink.Cancel()
+		util.LogErr(sink.Cancel())
+		return err
 	}
-	util.LogErr(gzipWt.Close())
 	return sink.Close()
 }
 
@@ -205,10 +209,6 @@ type FSMResponse struct {
 }
 
 func FSMResult(err error) *FSMResponse {
-	// ignore thie exists check eror
-	if errors.Is(err, ErrExists) {
-		return &FSMResponse{&response.Err{Status: 200}, nil}
-	}
 	switch err := err.(type) {
 	case *response.Err:
 		return &FSMResponse{err, nil}
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 0f36234..7b16081 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -53,6 +53,17 @@ func NewRaft(localAddr string, cfg config.ClusterConfig, fsm raft.FSM) *RaftWrap
 	})
 	ldb, sdb, fss, closeFn := newRaftStore(baseDir)
 
+	// logs of a new raft node start from the beginning
+	exists, err := raft.HasExistingState(ldb, sdb, fss)
+	if err != nil {
+		panic(fmt.Errorf("raft.HasExistingState: %v", err))
+	}
+	if rs, ok := fsm.(interface{ ResetApplied() error }); ok && !exists {
+		if err = rs.ResetApplied(); err != nil {
+			panic(fmt.Errorf("reset applied index: %v", err))
+		}
+	}
+
 	r, err := raft.NewRaft(c, fsm, ldb, sdb, fss, manager.Transport())
 	if err != nil {
 		panic(fmt.Errorf("raft.NewRaft: %v", err))
diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index cd68d22..1145f23 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -16,6 +16,7 @@ type BucketRepo struct {
 }
 
 func NewBucketRepo(db *db.Storage, cache usecase.IBucketCache) *BucketRepo {
+	db.OnReplaced(cache.Clear)
 	return &BucketRepo{db: db, logic: logic.NewBucketCrud(), cache: cache}
 }
 
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index abbd3cb..7bbd3cb 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -24,6 +24,7 @@ type MetadataRepo struct {
 }
 
 func NewMetadataRepo(db *db.Storage, c usecase.IMetaCache) *MetadataRepo {
+	db.OnReplaced(c.Clear)
 	return &MetadataRepo{MainDB: db, Cache: c}
 }
 
@@ -280,7 +281,7 @@ func (m *MetadataRepo) Snapshot() (usecase.SnapshotTx, error) {
 func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 	dbPath := m.MainDB.DB().Path() + "_replace"
 	// open new db file
-	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, cst.OS.ModeUser)
 	if err != nil {
 		logs.Std().Errorf("restore fail on open new file: %v", err)
 		return err
@@ -288,6 +289,7 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 	// save new db data
 	n, err := io.Copy(newFile, r)
 	if err != nil {
+		util.LogErrWithPre("close new db file", newFile.Close())
 		logs.Std().Errorf("restore fail on copy data to new file: %v, written %d", err, n)
 		return err
 	}
@@ -331,32 +333,16 @@ func (m *MetadataRepo) GetExtra(id string) (*msg.Extra, error) {
 	return &i, err
 }
 
-const lastAppliedIndexKey = "go.dfs.metadata.special.lastAppliedIndexKey"
-
 func (m *MetadataRepo) LastAppliedIndex() (uint64, error) {
-	var r uint64
-	err := m.MainDB.View(func(tx *bolt.Tx) error {
-		specBuc := tx.Bucket(util.StrToBytes(lastAppliedIndexKey))
-		if specBuc == nil {
-			return nil
-		}
-		r = specBuc.Sequence()
-		return nil
-	})
-	return r, err
+	return m.MainDB.LastAppliedIndex()
 }
 
 func (m *MetadataRepo) ApplyIndex(i uint64) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
-		specBuc, err := tx.CreateBucketIfNotExists(util.StrToBytes(lastAppliedIndexKey))
-		if err != nil {
-			return err
-		}
-		if i > specBuc.Sequence() {
-			return specBuc.SetSequence(i)
-		}
-		return nil
-	})
+	return m.MainDB.ApplyIndex(i)
+}
+
+func (m *MetadataRepo) Applying(i uint64, fn func()) {
+	m.MainDB.Applying(i, fn)
 }
 
 func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 968cf35..9e6ab0d 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -208,23 +208,18 @@ func (m *MetadataService) FindByHash(hash string) (res []*msg.Version, err error
 		return nil, err
 	}
 	res = make([]*msg.Version, 0, len(keys))
-	needSync := false
 	for _, key := range keys {
 		idx := strings.LastIndexByte(key, '.')
 		name, sequence := key[0:idx], util.ToInt(key[idx+1:])
 		ver, err := m.GetVersion(name, sequence)
 		if errors.Is(err, usecase.ErrNotFound) {
-			needSync = true
-			_ = m.hashIndex.Remove(hash, key)
+			// removed meanwhile
 			continue
 		} else if err != nil {
 			return nil, err
 		}
 		res = append(res, ver)
 	}
-	if needSync {
-		err = m.hashIndex.Sync()
-	}
 	return
 }
 
-- 
2.43.0


From da51cdcbed7b1bab27f9312f85d5b723afdff2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 27/98] fix: a raft node that is not the leader never writes on
 its own

---
 .../internal/controller/grpc/middleware.go    |  1 +
 .../internal/usecase/raftimpl/raft_apply.go   | 44 ++++++++++---------
 .../internal/usecase/raftimpl/raft_impl.go    | 20 +++++++--
 3 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/middleware.go b/src/metaserver/internal/controller/grpc/middleware.go
index ffb3d33..723c45d 100644
--- a/src/metaserver/internal/controller/grpc/middleware.go
+++ b/src/metaserver/internal/controller/grpc/middleware.go
@@ -35,6 +35,7 @@ var checkWritableMethods = set.OfString([]string{
 	"/proto.MetadataApi/SaveVersion",
 	"/proto.MetadataApi/SaveMetadata",
 	"/proto.MetadataApi/UpdateMetadata",
+	"/proto.MetadataApi/UpdateVersion",
 	"/proto.MetadataApi/SaveBucket",
 	"/proto.MetadataApi/RemoveVersion",
 })
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_apply.go b/src/metaserver/internal/usecase/raftimpl/raft_apply.go
index bdb09f4..a8600d0 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_apply.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_apply.go
@@ -16,26 +16,30 @@ func RaftApplier(wrapper *RaftWrapper) usecase.RaftApply {
 	return &raftApplier{wrapper: wrapper}
 }
 
+// ApplyRaft returns false if raft is not enabled
 func (r *raftApplier) ApplyRaft(data *entity.RaftData) (bool, any, error) {
-	if rf, ok := r.wrapper.GetRaftIfLeader(); ok {
-		bt, err := util.EncodeMsgp(data)
-		if err != nil {
-			return true, nil, err
-		}
-		feat := rf.Apply(bt, 5*time.Second)
-		if err = feat.Error(); err != nil {
-			return true, nil, err
-		}
-		resp := feat.Response()
-		if resp == nil {
-			return true, nil, fmt.Errorf("unknown response from fsm: %v", resp)
-		}
-		if rp, ok := resp.(*FSMResponse); ok {
-			return true, rp.Data, rp.ToError()
-		}
-		if rp, ok := resp.(error); ok {
-			return true, nil, rp
-		}		
+	if !r.wrapper.Enabled {
+		return false, nil, nil
+	}
+	rf, ok := r.wrapper.GetRaftIfLeader()
+	if !ok {
+		// only the leader is able to replicate
+		return true, nil, usecase.ErrReadOnly
+	}
+	bt, err := util.EncodeMsgp(data)
+	if err != nil {
+		return true, nil, err
+	}
+	feat := rf.Apply(bt, 5*time.Second)
+	if err = feat.Error(); err != nil {
+		return true, nil, err
+	}
+	switch resp := feat.Response().(type) {
+	case *FSMResponse:
+		return true, resp.Data, resp.ToError()
+	case error:
+		return true, nil, resp
+	default:
+		return true, nil, fmt.Errorf("unknown response from fsm: %v", resp)
 	}
-	return false, nil, nil
 }
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 7b16081..36aa4bf 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -14,6 +14,8 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
+	"sync/atomic"
 
 	"github.com/hashicorp/raft"
 	boltdb "github.com/hashicorp/raft-boltdb/v2"
@@ -27,7 +29,8 @@ type RaftWrapper struct {
 	ID                  string
 	Address             string
 	Enabled             bool
-	isLeader            bool
+	isLeader            atomic.Bool
+	eventMux            sync.Mutex
 	leaderChangedEvents []IRaftLeaderChanged
 	closeRaftStore      func()
 }
@@ -140,7 +143,7 @@ func (rw *RaftWrapper) subscribeLeaderCh() {
 	go func() {
 		defer graceful.Recover()
 		for is := range rw.Raft.LeaderCh() {
-			rw.isLeader = is
+			rw.isLeader.Store(is)
 			rw.OnLeaderChanged(is)
 			raftLog.Infof("server %s leader", util.IfElse(is, "become", "lose"))
 		}
@@ -148,6 +151,8 @@ func (rw *RaftWrapper) subscribeLeaderCh() {
 }
 
 func (rw *RaftWrapper) OnLeaderChanged(isLeader bool) {
+	rw.eventMux.Lock()
+	defer rw.eventMux.Unlock()
 	for _, event := range rw.leaderChangedEvents {
 		go func(e IRaftLeaderChanged) {
 			defer graceful.Recover()
@@ -163,7 +168,16 @@ func (rw *RaftWrapper) Init() {
 }
 
 func (rw *RaftWrapper) RegisterLeaderChangedEvent(event IRaftLeaderChanged) {
+	rw.eventMux.Lock()
+	defer rw.eventMux.Unlock()
 	rw.leaderChangedEvents = append(rw.leaderChangedEvents, event)
+	// it may have become leader before
+	if rw.IsLeader() {
+		go func() {
+			defer graceful.Recover()
+			event.OnLeaderChanged(true)
+		}()
+	}
 }
 
 func (rw *RaftWrapper) GetRaftIfLeader() (IRaft, bool) {
@@ -174,7 +188,7 @@ func (rw *RaftWrapper) GetRaftIfLeader() (IRaft, bool) {
 }
 
 func (rw *RaftWrapper) IsLeader() bool {
-	return rw.isLeader && rw.Enabled
+	return rw.isLeader.Load() && rw.Enabled
 }
 
 func (rw *RaftWrapper) LeaderID() string {
-- 
2.43.0


From 14ec0163c25722959bba1bd58209cb192ad45ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 28/98] fix: updating locates is replicated, complete and never
 out of range

---
 src/metaserver/internal/usecase/interfaces.go |  1 -
 .../internal/usecase/repo/metadata_repo.go    | 24 ----------
 .../usecase/service/metadata_service.go       | 46 +++++++++++++++++--
 3 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index f2606cd..61237d7 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -85,7 +85,6 @@ type (
 	IMetadataRepo interface {
 		WritableRepo
 		ReadableRepo
-		UpdateLocateByHash(hash string, index int, value string) error
 		GetLastVersionNumber(id string) uint64
 		GetFirstVersionNumber(id string) uint64
 		ForeachVersionBytes(string, func([]byte) bool)
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 7bbd3cb..1fd281b 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -13,7 +13,6 @@ import (
 	"metaserver/internal/usecase/logic"
 	"os"
 	"strings"
-	"time"
 
 	bolt "go.etcd.io/bbolt"
 )
@@ -345,29 +344,6 @@ func (m *MetadataRepo) Applying(i uint64, fn func()) {
 	m.MainDB.Applying(i, fn)
 }
 
-func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
-		var keys []string
-		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
-			return err
-		}
-		var v msg.Version
-		for _, key := range keys {
-			idx := strings.LastIndexByte(key, '.')
-			metaId, sequence := key[:idx], util.ToUint64(key[idx+1:])
-			if err := logic.GetVer(metaId, sequence, &v)(tx); err != nil {
-				return err
-			}
-			v.Ts = time.Now().UnixMilli()
-			v.Locate[index] = value
-			if err := logic.UpdateVer(metaId, &v)(tx); err != nil {
-				return err
-			}
-		}
-		return nil
-	})
-}
-
 func (m *MetadataRepo) ExistsByUniqueId(uniqueId string) (bool, error) {
 	var res []string
 	if err := m.MainDB.View(logic.NewUniqueIdIndex().GetIndex(uniqueId, &res)); err != nil {
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 9e6ab0d..b2d2274 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -1,14 +1,17 @@
 package service
 
 import (
-	"metaserver/internal/usecase/logic"
 	"common/proto/msg"
+	"common/response"
 	"common/util"
 	"errors"
+	"fmt"
 	"metaserver/internal/entity"
 	"metaserver/internal/usecase"
+	"metaserver/internal/usecase/logic"
 	"metaserver/internal/usecase/raftimpl"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -17,10 +20,11 @@ type MetadataService struct {
 	repo      usecase.IMetadataRepo
 	batch     usecase.IBatchMetaRepo
 	hashIndex usecase.IHashIndexRepo
+	locateMux sync.Mutex
 }
 
 func NewMetadataService(repo usecase.IMetadataRepo, batch usecase.IBatchMetaRepo, hashIndex usecase.IHashIndexRepo, rw *raftimpl.RaftWrapper) *MetadataService {
-	return &MetadataService{raftimpl.RaftApplier(rw), repo, batch, hashIndex}
+	return &MetadataService{RaftApply: raftimpl.RaftApplier(rw), repo: repo, batch: batch, hashIndex: hashIndex}
 }
 
 func (m *MetadataService) AddMetadata(id string, data *msg.Metadata) error {
@@ -223,6 +227,42 @@ func (m *MetadataService) FindByHash(hash string) (res []*msg.Version, err error
 	return
 }
 
+// UpdateLocates updates a locate of all versions with this hash
 func (m *MetadataService) UpdateLocates(hash string, index int, locate string) error {
-	return m.repo.UpdateLocateByHash(hash, index, locate)
+	m.locateMux.Lock()
+	defer m.locateMux.Unlock()
+	keys, err := m.hashIndex.FindAll(hash)
+	if err != nil {
+		return err
+	}
+	var errs []error
+	outOfRange := 0
+	for _, key := range keys {
+		idx := strings.LastIndexByte(key, '.')
+		name, sequence := key[0:idx], util.ToInt(key[idx+1:])
+		ver, err := m.GetVersion(name, sequence)
+		if errors.Is(err, usecase.ErrNotFound) {
+			// removed meanwhile
+			continue
+		} else if err != nil {
+			errs = append(errs, err)
+			continue
+		}
+		// versions of the same content may have different numbers of copies
+		if index < 0 || index >= len(ver.Locate) {
+			outOfRange++
+			continue
+		}
+		ver.Locate[index] = locate
+		if err = m.UpdateVersion(name, sequence, ver); err != nil && !errors.Is(err, usecase.ErrNotFound) {
+			errs = append(errs, err)
+		}
+	}
+	if outOfRange > 0 && outOfRange == len(keys) {
+		return response.NewError(400, fmt.Sprintf("locate index %d out of range", index))
+	}
+	if len(errs) == 1 {
+		return errs[0]
+	}
+	return errors.Join(errs...)
 }
-- 
2.43.0


From d04a6582fcc1659b1bb9217c5048fe59b67ecc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 29/98] fix: two updates within a millisecond are both accepted

---
 src/metaserver/internal/usecase/logic/bucket_logic.go   | 2 +-
 src/metaserver/internal/usecase/logic/metadata_logic.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index cd99c0d..4d2be7f 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -102,7 +102,7 @@ func (b *BucketCrud) Update(data *msg.Bucket) usecase.TxFunc {
 		if err := b.Get(data.Name, &origin)(tx); err != nil {
 			return err
 		}
-		if data.UpdateTime <= origin.UpdateTime {
+		if data.UpdateTime < origin.UpdateTime {
 			return usecase.ErrOldData
 		}
 		root, _ := b.getBucketBucket(tx)
diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index cd6933d..d0a3129 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -82,7 +82,7 @@ func UpdateMeta(id string, data *msg.Metadata) TxFunc {
 		if err := getMeta(root, id, &origin); err != nil {
 			return err
 		}
-		if data.UpdateTime <= origin.UpdateTime {
+		if data.UpdateTime < origin.UpdateTime {
 			return ErrOldData
 		}
 		// not save Extra
@@ -243,7 +243,7 @@ func UpdateVer(id string, data *msg.Version) TxFunc {
 				return err
 			}
 			// validate timestamp
-			if data.Ts <= origin.Ts {
+			if data.Ts < origin.Ts {
 				return ErrOldData
 			}
 			// those updating are not allowed
-- 
2.43.0


From 135132ac9760a50b162bd47ead3b1fe487f6524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 30/98] fix: listing versions of an unknown name is answered
 with not found

---
 src/metaserver/internal/controller/grpc/metadata_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/metadata_server.go b/src/metaserver/internal/controller/grpc/metadata_server.go
index 7ddc199..2b198c6 100644
--- a/src/metaserver/internal/controller/grpc/metadata_server.go
+++ b/src/metaserver/internal/controller/grpc/metadata_server.go
@@ -32,7 +32,7 @@ func (m *MetadataApiServer) GetVersionsByHash(_ context.Context, req *pb.MetaReq
 	}
 	res, err := m.Service.FindByHash(req.Hash)
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
@@ -50,7 +50,7 @@ func (m *MetadataApiServer) ListVersion(_ context.Context, req *pb.MetaReq) (*pb
 	}
 	res, total, err := m.Service.ListVersions(req.Id, int(req.Page.Page), int(req.Page.PageSize))
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
-- 
2.43.0


From 9c9716275a86c5ab3ae131c0ea88eb8def314176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 31/98] fix: an object's name does not depend on how its url
 was escaped

---
 src/apiserver/internal/controller/http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apiserver/internal/controller/http/server.go b/src/apiserver/internal/controller/http/server.go
index 3548a80..4378d5c 100644
--- a/src/apiserver/internal/controller/http/server.go
+++ b/src/apiserver/internal/controller/http/server.go
@@ -25,7 +25,7 @@ func NewHttpServer(port string, o IObjectService, m IMetaService, b repo.IBucket
 	eng := gin.New()
 	eng.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out))
 	eng.UseRawPath = true
-	eng.UnescapePathValues = false
+	eng.UnescapePathValues = true
 
 	eng.GET("/ping", Ping)
 	eng.GET("/config", Config)
-- 
2.43.0


From 25f9e15b352e107328d89e0f987ef58068fdd3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 32/98] fix: updating or removing a bucket escapes its name

---
 src/apiserver/internal/usecase/webapi/bucket_api.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/apiserver/internal/usecase/webapi/bucket_api.go b/src/apiserver/internal/usecase/webapi/bucket_api.go
index 18205c4..a4e577b 100644
--- a/src/apiserver/internal/usecase/webapi/bucket_api.go
+++ b/src/apiserver/internal/usecase/webapi/bucket_api.go
@@ -7,11 +7,12 @@ import (
 	"common/util"
 	"fmt"
 	"net/http"
+	"net/url"
 )
 
 func GetBucket(ip, name string) (*entity.Bucket, error) {
 	defer perform(false)()
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s", ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -28,7 +29,7 @@ func GetBucket(ip, name string) (*entity.Bucket, error) {
 
 func PutBucket(ip string, data *entity.Bucket) error {
 	defer perform(true)()
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("http://%s/bucket/%s", ip, data.Name), data)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("http://%s/bucket/%s", ip, url.PathEscape(data.Name)), data)
 	if err != nil {
 		return err
 	}
@@ -62,7 +63,7 @@ func PostBucket(ip string, data *entity.Bucket) error {
 
 func DeleteBucket(ip, name string) error {
 	defer perform(true)()
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("http://%s/bucket/%s", ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5b9ebbc4b6d329980d51a7e83bdf3e5350370e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 33/98] fix: a plus sign in a path parameter is kept

---
 src/apiserver/internal/controller/http/server.go |  5 +++--
 src/common/request/request.go                    | 13 +++++++++++++
 src/metaserver/internal/controller/http/http.go  |  4 +++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/apiserver/internal/controller/http/server.go b/src/apiserver/internal/controller/http/server.go
index 4378d5c..eebfdf4 100644
--- a/src/apiserver/internal/controller/http/server.go
+++ b/src/apiserver/internal/controller/http/server.go
@@ -7,6 +7,7 @@ import (
 	"apiserver/internal/usecase/pool"
 	"apiserver/internal/usecase/repo"
 	"common/logs"
+	"common/request"
 	"github.com/gin-gonic/gin"
 	"net/http"
 )
@@ -23,9 +24,9 @@ func NewHttpServer(port string, o IObjectService, m IMetaService, b repo.IBucket
 	)
 
 	eng := gin.New()
-	eng.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out))
+	eng.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out), request.UnescapeParams)
 	eng.UseRawPath = true
-	eng.UnescapePathValues = true
+	eng.UnescapePathValues = false
 
 	eng.GET("/ping", Ping)
 	eng.GET("/config", Config)
diff --git a/src/common/request/request.go b/src/common/request/request.go
index c0ebd8a..64833f6 100644
--- a/src/common/request/request.go
+++ b/src/common/request/request.go
@@ -52,3 +52,16 @@ func JsonReq(method string, url string, data any) (*http.Request, error) {
 func UrlValuesEncode(url string, form *url.Values) (*http.Request, error) {
 	return http.NewRequest(http.MethodGet, fmt.Sprint(url, "?", form.Encode()), nil)
 }
+
+// UnescapeParams decodes the params of a raw path. Unlike the decoding gin offers it keeps a '+', which only means
+// a space in queries.
+func UnescapeParams(c *gin.Context) {
+	if c.Request.URL.RawPath == "" {
+		return
+	}
+	for i := range c.Params {
+		if v, err := url.PathUnescape(c.Params[i].Value); err == nil {
+			c.Params[i].Value = v
+		}
+	}
+}
diff --git a/src/metaserver/internal/controller/http/http.go b/src/metaserver/internal/controller/http/http.go
index 9d29fbe..46f9bc0 100644
--- a/src/metaserver/internal/controller/http/http.go
+++ b/src/metaserver/internal/controller/http/http.go
@@ -2,6 +2,7 @@ package http
 
 import (
 	"common/logs"
+	"common/request"
 	"common/util"
 	"context"
 	"errors"
@@ -21,12 +22,13 @@ func NewHttpServer(port string, grpcServer *grpc.Server, service IMetadataServic
 	engine.Use(
 		gin.LoggerWithWriter(logs.Std().Out),
 		gin.RecoveryWithWriter(logs.Std().Out),
+		request.UnescapeParams,
 		CheckInNormal,
 		CheckLeaderInRaftMode,
 		CheckKeySlot,
 	)
 	engine.UseRawPath = true
-	engine.UnescapePathValues = true
+	engine.UnescapePathValues = false
 	//Http router
 	NewMetadataController(service).RegisterRoute(engine)
 	NewVersionController(service).RegisterRoute(engine)
-- 
2.43.0


From c2f9e6a29bd6e546e3f851b8772b35a1a4b1f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 34/98] fix: a compressed upload that is cut off is not taken
 for complete

---
 src/objectserver/internal/usecase/service/objects_service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index e5ba8de..e4ddcd9 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -306,7 +306,8 @@ func AppendFileCompress(fullPath string, fileStream io.Reader, bufSize int) (int
 	defer file.Close()
 	blockSize := math.MinInt(2*datasize.MB.Int(), math.MaxInt(bufSize, 4*datasize.KB.Int()))
 	wt := s2.NewWriter(file, s2.WriterBetterCompression(), s2.WriterBlockSize(blockSize))
-	n, err := io.CopyBuffer(wt, fileStream, make([]byte, bufSize))
+	// hide ReadFrom of the s2 writer, which takes an unexpected EOF for the end of the stream
+	n, err := io.CopyBuffer(struct{ io.Writer }{wt}, fileStream, make([]byte, bufSize))
 	if err != nil {
 		return n, err
 	}
-- 
2.43.0


From cc5724164d45e42ec84cd04d724acb402f259e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 35/98] fix: names that aren't plain or are reserved can't be
 object names

---
 .../internal/controller/http/objects/objects_rest.go   |  8 ++++++++
 src/objectserver/internal/controller/http/router.go    | 10 +++++-----
 .../internal/usecase/service/objects_service.go        |  8 ++++++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 248fcb4..1b517b1 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -15,6 +15,14 @@ import (
 	"github.com/gin-gonic/gin/binding"
 )
 
+// FilterInvalidName refuses names which can't be the name of an object
+func FilterInvalidName(c *gin.Context) {
+	if !service.ValidName(c.Param("name")) {
+		response.BadRequestMsg("invalid object name", c)
+		c.Abort()
+	}
+}
+
 func Put(c *gin.Context) {
 	req := &struct {
 		Name     string `uri:"name"`
diff --git a/src/objectserver/internal/controller/http/router.go b/src/objectserver/internal/controller/http/router.go
index 8ff46b6..303057a 100644
--- a/src/objectserver/internal/controller/http/router.go
+++ b/src/objectserver/internal/controller/http/router.go
@@ -21,12 +21,12 @@ type Server struct {
 func NewHttpServer(port string, grpcServer *grpc.Server) *Server {
 	r := gin.New()
 	r.Use(gin.LoggerWithWriter(logs.Std().Out), gin.RecoveryWithWriter(logs.Std().Out))
-	r.GET("/objects/:name", objects.GetFromCache, objects.Get)
-	r.HEAD("/objects/:name", objects.Head)
-	r.PUT("/objects/:name", temp.FilterEmptyRequest, objects.Put)
-	r.DELETE("/objects/:name", objects.Delete)
+	r.GET("/objects/:name", objects.FilterInvalidName, objects.GetFromCache, objects.Get)
+	r.HEAD("/objects/:name", objects.FilterInvalidName, objects.Head)
+	r.PUT("/objects/:name", objects.FilterInvalidName, temp.FilterEmptyRequest, objects.Put)
+	r.DELETE("/objects/:name", objects.FilterInvalidName, objects.Delete)
 
-	r.POST("/temp/:name", temp.Post)
+	r.POST("/temp/:name", objects.FilterInvalidName, temp.Post)
 	r.PATCH("/temp/:name", temp.FilterExpired, temp.FilterEmptyRequest, temp.Patch)
 	r.DELETE("/temp/:name", temp.FilterExpired, temp.Delete)
 	r.HEAD("/temp/:name", temp.FilterExpired, temp.Head)
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index e4ddcd9..445a0af 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -12,9 +12,11 @@ import (
 	"fmt"
 	"hash/fnv"
 	"io"
+	"objectserver/internal/entity"
 	global "objectserver/internal/usecase/pool"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/klauspost/compress/s2"
@@ -35,6 +37,12 @@ func lockName(name string) (unlock func()) {
 	return mu.Unlock
 }
 
+// ValidName returns false if the name is not a plain file name or is reserved
+func ValidName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\\\x00") &&
+		!strings.HasPrefix(name, LocateKeyPrefix) && !strings.HasPrefix(name, entity.TempKeyPrefix)
+}
+
 // Exist check if the object exists. pass to FindRealStoragePath
 func Exist(name string) bool {
 	_, ok := FindRealStoragePath(name)
-- 
2.43.0


From 6bb3c0b45c209c78e4c420cfbfa568327bc08a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 36/98] fix: temp files of the last run are removed on start

---
 src/objectserver/internal/usecase/service/common.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/common.go b/src/objectserver/internal/usecase/service/common.go
index 49688d1..3a1533d 100644
--- a/src/objectserver/internal/usecase/service/common.go
+++ b/src/objectserver/internal/usecase/service/common.go
@@ -2,9 +2,11 @@ package service
 
 import (
 	"common/logs"
+	"common/util"
 	"io/fs"
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
+	"os"
 	"path/filepath"
 	"strings"
 )
@@ -17,8 +19,11 @@ func WarmUpLocateCache() {
 				return err
 			}
 			fileName := info.Name()
-			// skip temp file
+			// a temp file of the last run can't be continued or committed anymore
 			if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
+				if !info.IsDir() {
+					util.LogErrWithPre("remove temp file", os.Remove(path))
+				}
 				return nil
 			}
 			if !info.IsDir() {
-- 
2.43.0


From 7b45fad527ea0c38ff6df6b0b7b71f4f4dbfeeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 37/98] fix: cached objects don't evict the infos of temp
 objects

---
 src/objectserver/internal/app/app.go                  |  2 +-
 .../internal/controller/http/temp/temp_mid.go         |  2 +-
 src/objectserver/internal/usecase/pool/instance.go    | 11 +++++++++++
 .../internal/usecase/service/temp_service.go          |  6 +++---
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/objectserver/internal/app/app.go b/src/objectserver/internal/app/app.go
index 1645a02..ba8be2f 100644
--- a/src/objectserver/internal/app/app.go
+++ b/src/objectserver/internal/app/app.go
@@ -35,7 +35,7 @@ func Run(cfg *config.Config) {
 			// locating serv
 			service.NewLocator(pool.Etcd).StartLocate(),
 			// cleaning serv
-			service.StartTempRemovalBackground(pool.Cache, pool.Config.TempCleaners),
+			service.StartTempRemovalBackground(pool.TempCache, pool.Config.TempCleaners),
 			// auto update driver stat
 			pool.DriverManager.StartAutoUpdate(),
 			// system info sync
diff --git a/src/objectserver/internal/controller/http/temp/temp_mid.go b/src/objectserver/internal/controller/http/temp/temp_mid.go
index de768c5..672d3ab 100644
--- a/src/objectserver/internal/controller/http/temp/temp_mid.go
+++ b/src/objectserver/internal/controller/http/temp/temp_mid.go
@@ -9,7 +9,7 @@ import (
 
 func FilterExpired(c *gin.Context) {
 	id := c.Param("name")
-	if !pool.Cache.Has(id) {
+	if !pool.TempCache.Has(id) {
 		c.AbortWithStatus(http.StatusNotFound)
 	}
 }
diff --git a/src/objectserver/internal/usecase/pool/instance.go b/src/objectserver/internal/usecase/pool/instance.go
index 2e8a790..283b947 100644
--- a/src/objectserver/internal/usecase/pool/instance.go
+++ b/src/objectserver/internal/usecase/pool/instance.go
@@ -31,6 +31,7 @@ var (
 	PathDB        *db.PathCache
 	DriverManager *component.DriverManager
 	Cache         cache.ICache
+	TempCache     cache.ICache
 	Registry      *registry.EtcdRegistry
 	Discovery     registry.Discovery
 )
@@ -137,6 +138,15 @@ func initCache(cfg *config.CacheConfig) {
 	cacheConf.Verbose = false
 	cacheConf.MaxEntriesInWindow = int(cfg.MaxSize / cfg.MaxItemSize)
 	Cache = cache.NewCache(cacheConf)
+
+	// infos of temp objects must not be evicted by cached objects
+	tempConf := bigcache.DefaultConfig(cfg.TTL)
+	tempConf.CleanWindow = cfg.CleanInterval
+	tempConf.MaxEntrySize = int(datasize.KB)
+	tempConf.Shards = 64
+	tempConf.Verbose = false
+	tempConf.MaxEntriesInWindow = 1024
+	TempCache = cache.NewCache(tempConf)
 }
 
 func initEtcd(cfg *etcd.Config) {
@@ -161,6 +171,7 @@ func initRegister(et *clientv3.Client, cfg *config.Config) {
 func CloseAll() {
 	defer Etcd.Close()
 	defer Cache.Close()
+	defer TempCache.Close()
 	defer PathDB.Close()
 	defer Close()
 }
diff --git a/src/objectserver/internal/usecase/service/temp_service.go b/src/objectserver/internal/usecase/service/temp_service.go
index ce5e021..dd5f428 100644
--- a/src/objectserver/internal/usecase/service/temp_service.go
+++ b/src/objectserver/internal/usecase/service/temp_service.go
@@ -14,15 +14,15 @@ import (
 )
 
 func SetTempInfo(t *entity.TempInfo) bool {
-	return pool.Cache.SetGob(t.Id, t)
+	return pool.TempCache.SetGob(t.Id, t)
 }
 
 func GetTempInfo(key string) (*entity.TempInfo, bool) {
-	return cache.GetGob[entity.TempInfo](pool.Cache, key)
+	return cache.GetGob[entity.TempInfo](pool.TempCache, key)
 }
 
 func RemoveTempInfo(key string) {
-	pool.Cache.Delete(key)
+	pool.TempCache.Delete(key)
 }
 
 func GenerateTempID() string {
-- 
2.43.0


From e3e828055f870f17dbd37cbada9b6d2713eed658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 38/98] fix: the block size of an erasure coded object doesn't
 depend on the configured number of shards

block-per-shard was first aligned in place for the configured number of data shards and then again for the number
of the object's bucket or version, so that api servers with different data-shards (or the same one after changing
it) used different layouts for the same object and read back wrong bytes.
---
 src/apiserver/config/config.go            | 6 ++++--
 src/apiserver/internal/entity/metadata.go | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/apiserver/config/config.go b/src/apiserver/config/config.go
index e959649..5979863 100644
--- a/src/apiserver/config/config.go
+++ b/src/apiserver/config/config.go
@@ -33,8 +33,10 @@ type Config struct {
 
 func (c *Config) initialize() {
 	c.Registry.ServerPort = c.Port
-	if c.Object.ReedSolomon.Align() {
-		logs.Std().Warnf("aligned object.reedsolomon.block-per-shard to %d", c.Object.ReedSolomon.BlockPerShard)
+	// BlockPerShard is kept as configured. it's aligned for the number of shards of each object, which has to give
+	// the same result whatever number of shards is configured.
+	if rs := c.Object.ReedSolomon; rs.Align() {
+		logs.Std().Warnf("aligned object.reedsolomon.block-per-shard to %d", rs.BlockPerShard)
 	}
 	if i := c.Object.Replication.BlockSize % datasize.DataSize(cst.OS.NetPkgSize); i > 0 {
 		c.Object.Replication.BlockSize = c.Object.Replication.BlockSize - i + datasize.DataSize(cst.OS.NetPkgSize)
diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index be12988..c16c9ad 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -113,9 +113,10 @@ func (b *Bucket) MakeConf(conf *config.ObjectConfig, objectSize int64) (cfg conf
 	case ECReedSolomon:
 		cfg.ReedSolomon.DataShards = b.DataShards
 		cfg.ReedSolomon.ParityShards = b.ParityShards
-		cfg.ReedSolomon.Align()
 	case MultiReplication:
 		cfg.Replication.CopiesCount = b.DataShards
 	}
+	// aligned block size
+	cfg.ReedSolomon.Align()
 	return
 }
-- 
2.43.0


From c4c83a3f569b6c08cc2110bc70db358dc1156dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 39/98] fix: a callback answering neither 200 nor an error
 refuses the request visibly

An answer like 201 or 204 of the callback refuses the request but was passed on as the status of the response, which
told the client that the request succeeded. The body of an accepting answer is closed too.
---
 .../internal/usecase/componet/auth/callback_validator.go  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/componet/auth/callback_validator.go b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
index 42ce775..d06b080 100644
--- a/src/apiserver/internal/usecase/componet/auth/callback_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
@@ -29,8 +29,14 @@ func (cv *CallbackValidator) Verify(token Credential) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
-		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+		status := resp.StatusCode
+		if status < http.StatusBadRequest {
+			// the request is refused, it mustn't look like a success
+			status = http.StatusForbidden
+		}
+		return response.NewError(status, response.MessageFromJSONBody(resp.Body))
 	}
 	return nil
 }
-- 
2.43.0


From ac65097dd6add2b8454def17a9cb04e04fbbaed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 40/98] fix: the callback is told the bucket and object that
 the request is about

It was told the first label of the host (for an IP its first number) while the handlers use the Bucket header, the
name of a bucket as an object of another one for requests about buckets, and nothing of the bucket and object that
the token of a resumable upload is for. A callback could so be made to decide about something else.
---
 .../internal/controller/http/server.go        | 37 ++++++++++++++++++-
 .../componet/auth/callback_validator.go       | 29 ++++++++++-----
 .../usecase/service/rs_resumable_stream.go    | 19 +++++++++-
 3 files changed, 72 insertions(+), 13 deletions(-)

diff --git a/src/apiserver/internal/controller/http/server.go b/src/apiserver/internal/controller/http/server.go
index eebfdf4..95739cc 100644
--- a/src/apiserver/internal/controller/http/server.go
+++ b/src/apiserver/internal/controller/http/server.go
@@ -2,14 +2,21 @@ package http
 
 import (
 	"apiserver/config"
+	"apiserver/internal/entity"
 	. "apiserver/internal/usecase"
 	"apiserver/internal/usecase/componet/auth"
 	"apiserver/internal/usecase/pool"
 	"apiserver/internal/usecase/repo"
+	"apiserver/internal/usecase/service"
+	"bytes"
 	"common/logs"
 	"common/request"
-	"github.com/gin-gonic/gin"
+	"encoding/json"
+	"io"
 	"net/http"
+	"net/url"
+
+	"github.com/gin-gonic/gin"
 )
 
 type Server struct {
@@ -19,7 +26,7 @@ type Server struct {
 
 func NewHttpServer(port string, o IObjectService, m IMetaService, b repo.IBucketRepo) *Server {
 	authMid := auth.AuthenticationMiddleware(&pool.Config.Auth,
-		auth.NewCallbackValidator(&pool.Config.Auth.Callback),
+		auth.NewCallbackValidator(&pool.Config.Auth.Callback, requestResource),
 		auth.NewPasswordValidator(pool.Etcd, &pool.Config.Auth.Password),
 	)
 
@@ -51,3 +58,29 @@ func (s *Server) ListenAndServe() error {
 	}
 	return s.Server.ListenAndServe()
 }
+
+// requestResource finds out which bucket and object a request is about, as its handler will do
+func requestResource(c *gin.Context) (bucket, name string, err error) {
+	switch c.FullPath() {
+	case "/v1/bucket":
+		// the name is in the body, which is still to be read by the handler
+		var buf bytes.Buffer
+		var body entity.Bucket
+		err = json.NewDecoder(io.TeeReader(c.Request.Body, &buf)).Decode(&body)
+		c.Request.Body = struct {
+			io.Reader
+			io.Closer
+		}{io.MultiReader(&buf, c.Request.Body), c.Request.Body}
+		return body.Name, "", err
+	case "/v1/bucket/:name":
+		return c.Param("name"), "", nil
+	case "/v1/big/:token":
+		var token string
+		if token, err = url.PathUnescape(c.Param("token")); err != nil {
+			return
+		}
+		return service.ResumeTokenResource(token)
+	default:
+		return c.GetHeader("Bucket"), c.Param("name"), nil
+	}
+}
diff --git a/src/apiserver/internal/usecase/componet/auth/callback_validator.go b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
index d06b080..20498f2 100644
--- a/src/apiserver/internal/usecase/componet/auth/callback_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
@@ -15,11 +15,16 @@ import (
 
 // CallbackValidator send a http request to validte access, will cost 40ms+ delay
 type CallbackValidator struct {
-	cfg *CallbackConfig
+	cfg      *CallbackConfig
+	resource ResourceFunc
 }
 
-func NewCallbackValidator(cfg *CallbackConfig) *CallbackValidator {
-	return &CallbackValidator{cfg: cfg}
+// ResourceFunc finds out which bucket and which object (empty if none) a request is about. The bucket is empty if the
+// request doesn't tell.
+type ResourceFunc func(c *gin.Context) (bucket, name string, err error)
+
+func NewCallbackValidator(cfg *CallbackConfig, resource ResourceFunc) *CallbackValidator {
+	return &CallbackValidator{cfg: cfg, resource: resource}
 }
 
 func (cv *CallbackValidator) Verify(token Credential) error {
@@ -45,17 +50,21 @@ func (cv *CallbackValidator) Middleware(c *gin.Context) (bool, error) {
 	if !cv.cfg.Enable {
 		return false, nil
 	}
-	var bucket string
-	idx := strings.IndexByte(c.Request.Host, '.')
-	if idx > 0 {
+	bucket, name, err := cv.resource(c)
+	if err != nil {
+		return false, response.NewError(http.StatusBadRequest, err.Error())
+	}
+	if bucket == "" {
+		idx := strings.IndexByte(c.Request.Host, '.')
+		if idx <= 0 {
+			return false, response.NewError(http.StatusBadRequest, "Host or Header does not contains bucket")
+		}
 		bucket = c.Request.Host[:idx]
-	} else if bucket = c.GetHeader("Bucket"); bucket == "" {
-		return false, response.NewError(http.StatusBadRequest, "Host or Header does not contains bucket")
 	}
 	token := &credential.CallbackToken{
 		Bucket:   bucket,
 		Region:   c.GetHeader("Region"),
-		FileName: c.Param("name"),
+		FileName: name,
 		Version:  util.ToInt(c.Query("version")),
 		Method:   c.Request.Method,
 		Extra:    make(map[string][]string),
@@ -67,6 +76,6 @@ func (cv *CallbackValidator) Middleware(c *gin.Context) (bool, error) {
 		}
 		token.Extra[key] = arr
 	}
-	err := cv.Verify(token)
+	err = cv.Verify(token)
 	return err == nil, err
 }
diff --git a/src/apiserver/internal/usecase/service/rs_resumable_stream.go b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
index 486addc..0b5f2a0 100644
--- a/src/apiserver/internal/usecase/service/rs_resumable_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
@@ -28,13 +28,30 @@ type RSResumablePutStream struct {
 
 // NewRSResumablePutStreamFromToken 恢复一个断点续传
 func NewRSResumablePutStreamFromToken(token string) (*RSResumablePutStream, error) {
+	tk, err := decodeResumeToken(token)
+	if err != nil {
+		return nil, err
+	}
+	return &RSResumablePutStream{newExistedRSPutStream(tk.Servers, tk.Ids, tk.Hash, tk.Compress, tk.Config), tk}, nil
+}
+
+// ResumeTokenResource returns the bucket and the name of the object that is uploaded with this token
+func ResumeTokenResource(token string) (bucket, name string, err error) {
+	tk, err := decodeResumeToken(token)
+	if err != nil {
+		return "", "", err
+	}
+	return tk.Bucket, tk.Name, nil
+}
+
+func decodeResumeToken(token string) (*resumeToken, error) {
 	bt, err := base64.StdEncoding.DecodeString(token)
 	if err != nil {
 		return nil, err
 	}
 	var tk resumeToken
 	if ok := util.GobDecode(bt, &tk); ok {
-		return &RSResumablePutStream{newExistedRSPutStream(tk.Servers, tk.Ids, tk.Hash, tk.Compress, tk.Config), &tk}, nil
+		return &tk, nil
 	}
 	return nil, fmt.Errorf("invalid token")
 }
-- 
2.43.0


From 1adfe954fa2ca81077f014b494cf0b8c0d121db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 41/98] fix: failing to read the credentials at startup doesn't
 replace them

When etcd answered the read with an error the configured credentials were written over those in use.
---
 .../internal/usecase/componet/auth/password_validator.go        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/apiserver/internal/usecase/componet/auth/password_validator.go b/src/apiserver/internal/usecase/componet/auth/password_validator.go
index dcaeeef..3670d78 100644
--- a/src/apiserver/internal/usecase/componet/auth/password_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/password_validator.go
@@ -32,7 +32,9 @@ func (pv *PasswordValidator) init(cfg *PasswordConfig) {
 	}
 	resp, err := pv.cli.Get(context.Background(), cst.EtcdPrefix.ApiCredential)
 	if err != nil {
+		// never replace a credential that may exist
 		logs.Std().Errorf("init PasswordValidator: %s", err)
+		return
 	} else if len(resp.Kvs) != 0 || cfg.Username == "" || cfg.Password == "" {
 		logs.Std().Info("exist credential, skip init admin credential")
 		return
-- 
2.43.0


From c6304ed37f6b37f9075a1517e7f45fde61b3831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 42/98] fix: content announced with a false size isn't accepted
 as the stored content

A resumable upload announcing the digest of stored content with another size was acknowledged at once and added a
version that could not be read back. The size is part of what identifies stored content now.
---
 src/apiserver/internal/controller/http/big_api.go        | 2 +-
 src/apiserver/internal/usecase/interfaces.go             | 2 +-
 src/apiserver/internal/usecase/service/object_service.go | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index e00aa3e..64d01b0 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -61,7 +61,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 	// configure by bucket config
 	conf := bucket.MakeConf(&pool.Config.Object, req.Size).ReedSolomon
 	// generate a unique hash as version hash
-	uniqueHash := bc.objectService.UniqueHash(req.Hash, entity.ECReedSolomon, conf.DataShards, conf.ParityShards, req.Compress)
+	uniqueHash := bc.objectService.UniqueHash(req.Hash, req.Size, entity.ECReedSolomon, conf.DataShards, conf.ParityShards, req.Compress)
 	// filter duplicate
 	locates, ok := bc.objectService.LocateObject(uniqueHash, conf.AllShards())
 	if ok {
diff --git a/src/apiserver/internal/usecase/interfaces.go b/src/apiserver/internal/usecase/interfaces.go
index bdd8ad8..5f860e2 100644
--- a/src/apiserver/internal/usecase/interfaces.go
+++ b/src/apiserver/internal/usecase/interfaces.go
@@ -15,7 +15,7 @@ type (
 		RemoveVersion(name, bucket string, version int32) error
 	}
 	IObjectService interface {
-		UniqueHash(digest string, ss entity.ObjectStrategy, ds, ps int, compress bool) string
+		UniqueHash(digest string, size int64, ss entity.ObjectStrategy, ds, ps int, compress bool) string
 		LocateObject(hash string, shardNum int) ([]string, bool)
 		StoreObject(req *entity.PutReq, md *entity.Metadata) (int32, error)
 		GetObject(meta *entity.Metadata, ver *entity.Version) (io.ReadSeekCloser, error)
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 604be78..85df008 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -52,12 +52,12 @@ func NewObjectService(s IMetaService, b repo.IBucketRepo, etcd *clientv3.Client)
 }
 
 // UniqueHash generate unique identify for an object
-func (o *ObjectService) UniqueHash(digest string, ss entity.ObjectStrategy, ds, ps int, compress bool) string {
+func (o *ObjectService) UniqueHash(digest string, size int64, ss entity.ObjectStrategy, ds, ps int, compress bool) string {
 	if ss == entity.MultiReplication {
 		// MultiReplication doesn't care about shards number
 		ds, ps = 0, 0
 	}
-	return crypto.SHA256(util.StrToBytes(fmt.Sprint(digest, ss, ds, ps, compress)))
+	return crypto.SHA256(util.StrToBytes(fmt.Sprint(digest, size, ss, ds, ps, compress)))
 }
 
 // LocateObject locate object shards by hash. send "hash.idx#key" expect "ip#idx"
@@ -156,7 +156,7 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 	// check bucket configuration and change version info
 	bucket.MakeVersion(ver, &pool.Config.Object)
 	// generate unique hash as this version hash
-	ver.Hash = o.UniqueHash(ver.Hash, ver.StoreStrategy, ver.DataShards, ver.ParityShards, ver.Compress)
+	ver.Hash = o.UniqueHash(ver.Hash, ver.Size, ver.StoreStrategy, ver.DataShards, ver.ParityShards, ver.Compress)
 	// filter duplicate
 	var ok bool
 	if datasize.DataSize(ver.Size) >= pool.Config.Object.DistinctSize {
-- 
2.43.0


From d1bcbb8729f6f67c7218e2ba533c5587638de882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 43/98] fix: recovering a panic panics again and ends the
 server

---
 src/common/graceful/recover.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/graceful/recover.go b/src/common/graceful/recover.go
index 32cdec0..162394a 100644
--- a/src/common/graceful/recover.go
+++ b/src/common/graceful/recover.go
@@ -19,7 +19,8 @@ func Recover(fn ...func(msg string)) {
 }
 
 func PrintStacks(msg any) {
-	logger.Panicf("%s\n%s", msg, GetStacks())
+	// logging on panic level would panic again
+	logger.Errorf("%s\n%s", msg, GetStacks())
 }
 
 func GetStacks() string {
-- 
2.43.0


From f8705a5f70d64770e67db6b3a87b4bd526c5a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 44/98] fix: closing a limited group makes its running and
 later tasks panic

---
 src/common/util/done_group.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index 98b7d49..1afb256 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -154,8 +154,3 @@ func (ldg *limitDoneGroup) Done() {
 	<-ldg.limitChan
 	ldg.DoneGroup.Done()
 }
-
-func (ldg *limitDoneGroup) Close() {
-	close(ldg.limitChan)
-	ldg.DoneGroup.Close()
-}
-- 
2.43.0


From bd601082073e65153852ae4a793ce5ca6d75cf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 45/98] fix: sizes are written rounded, and writing the size 0
 panics

---
 src/common/datasize/datasize.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/common/datasize/datasize.go b/src/common/datasize/datasize.go
index f60bbe1..ada9ae6 100644
--- a/src/common/datasize/datasize.go
+++ b/src/common/datasize/datasize.go
@@ -2,7 +2,6 @@ package datasize
 
 import (
 	"fmt"
-	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -48,14 +47,12 @@ func (d DataSize) PetaByte() uint64 {
 }
 
 func (d DataSize) String() string {
-	i := int(math.Floor(math.Log(float64(d)) / math.Log(1024)))
-	exceed := 1.0
-	if i >= len(units) {
-		exceed = math.Pow(Step, float64(i-len(units)+1))
-		i = len(units) - 1
+	// the largest unit that keeps the exact size
+	i := 0
+	for i < len(units)-1 && d > 0 && d%units[i+1].value == 0 {
+		i++
 	}
-	num := float64(d) / math.Pow(Step, float64(i)) * exceed
-	return fmt.Sprintf("%.0f%s", num, units[i].name)
+	return fmt.Sprintf("%d%s", uint64(d/units[i].value), units[i].name)
 }
 
 func (d DataSize) Int() int {
-- 
2.43.0


From 22bf049680647a7f71527b8e9702714e671b4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 46/98] fix: sizes whose bytes do not fit are taken as other
 sizes

---
 src/common/datasize/datasize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/datasize/datasize.go b/src/common/datasize/datasize.go
index ada9ae6..7f7e563 100644
--- a/src/common/datasize/datasize.go
+++ b/src/common/datasize/datasize.go
@@ -101,7 +101,7 @@ func Parse(s string) (DataSize, error) {
 	}
 	if u, ok := unitNameMap[res[0][2]]; ok {
 		if IsExceedLimit(num, u) {
-			return 0, fmt.Errorf("data size '%dPB' exceed limit 1024PB", num)
+			return 0, fmt.Errorf("data size '%s' exceed limit 1024PB", s)
 		}
 		return DataSize(num) * u, nil
 	}
@@ -118,5 +118,5 @@ func MustParse(s string) DataSize {
 
 // IsExceedLimit Max size is 1023PB
 func IsExceedLimit(num int, unit DataSize) bool {
-	return unit == PB && num >= Step
+	return uint64(num) >= uint64(Step*PB/unit)
 }
-- 
2.43.0


From 97c855e4d5adcb7ce65975aaa9c9546226b77ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 47/98] fix: decoding a truncated array panics

---
 src/common/util/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/util/util.go b/src/common/util/util.go
index 50323fc..04c3fbb 100644
--- a/src/common/util/util.go
+++ b/src/common/util/util.go
@@ -239,12 +239,16 @@ func EncodeArrayMsgp[T msgp.Marshaler](arr []T) (res []byte, err error) {
 func DecodeArrayMsgp[T msgp.Unmarshaler](data []byte, constructor func() T) (arr []T, err error) {
 	for cur := 0; cur < len(data); {
 		item := constructor()
-		size, n := binary.Uvarint(data[cur : cur+binary.MaxVarintLen32])
-		if n <= 0 {
+		if len(data)-cur < binary.MaxVarintLen32 {
 			err = errors.New("decode array msgp: format err")
 			return
 		}
+		size, n := binary.Uvarint(data[cur : cur+binary.MaxVarintLen32])
 		cur += binary.MaxVarintLen32
+		if n <= 0 || size > uint64(len(data)-cur) {
+			err = errors.New("decode array msgp: format err")
+			return
+		}
 		if _, err = item.UnmarshalMsg(data[cur : cur+int(size)]); err != nil {
 			return
 		}
-- 
2.43.0


From 1b5bba4de7a3db6df8d725700b62abfc79bc2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 48/98] fix: pages out of range give offsets out of range

---
 src/common/util/util.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/common/util/util.go b/src/common/util/util.go
index 04c3fbb..f515f37 100644
--- a/src/common/util/util.go
+++ b/src/common/util/util.go
@@ -259,16 +259,14 @@ func DecodeArrayMsgp[T msgp.Unmarshaler](data []byte, constructor func() T) (arr
 }
 
 func PagingOffset(page, size, total int) (int, int, bool) {
-	if page == 0 {
+	// dividing instead of multiplying keeps huge pages from overflowing
+	if page <= 0 || size <= 0 || total <= 0 || page-1 > (total-1)/size {
 		return 0, 0, false
 	}
 	offset := (page - 1) * size
-	if offset >= total {
-		return 0, 0, false
-	}
-	end := offset + size
-	if end > total {
-		end = total
+	end := total
+	if size < total-offset {
+		end = offset + size
 	}
 	return offset, end, true
 }
-- 
2.43.0


From e16b30606996e1dcc326e6ae24796f260b28b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 49/98] fix: chunks counted from the tail go out of range

---
 src/common/util/math/math.go     | 7 ++++---
 src/common/util/slices/slices.go | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common/util/math/math.go b/src/common/util/math/math.go
index 6ab1218..0c5de95 100644
--- a/src/common/util/math/math.go
+++ b/src/common/util/math/math.go
@@ -3,10 +3,11 @@ package math
 import "math"
 
 func LogicMod(a, b int) int {
-	if a < 0 || b < 0 {
-		return b + (a % b)
+	m := a % b
+	if m != 0 && (m < 0) != (b < 0) {
+		m += b
 	}
-	return a % b
+	return m
 }
 
 func MinNumber[T Number](i, j T) T {
diff --git a/src/common/util/slices/slices.go b/src/common/util/slices/slices.go
index 64fa2ed..426f7ca 100644
--- a/src/common/util/slices/slices.go
+++ b/src/common/util/slices/slices.go
@@ -96,6 +96,9 @@ func SafeChunk[T any](arr []T, start, end int) []T {
 	// a mod b = a mod (-b)
 	// a mod b = - (-a mod b)
 
+	if len(arr) == 0 {
+		return arr
+	}
 	if start < 0 {
 		start = math.LogicMod(start, len(arr))
 	} else if start >= len(arr) {
-- 
2.43.0


From 161d2b8adee93bcd0cd0cd2ca22e2bdb2dfa712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 50/98] fix: dividing large numbers rounds them

---
 src/common/util/math/math.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/util/math/math.go b/src/common/util/math/math.go
index 0c5de95..8fcfd4f 100644
--- a/src/common/util/math/math.go
+++ b/src/common/util/math/math.go
@@ -1,7 +1,5 @@
 package math
 
-import "math"
-
 func LogicMod(a, b int) int {
 	m := a % b
 	if m != 0 && (m < 0) != (b < 0) {
@@ -18,7 +16,11 @@ func MinNumber[T Number](i, j T) T {
 }
 
 func CeilDiv(a, b int) int {
-	return int(math.Ceil(float64(a) / float64(b)))
+	q := a / b
+	if a%b != 0 && (a < 0) == (b < 0) {
+		q++
+	}
+	return q
 }
 
 func MaxNumber[T Number](i, j T) T {
-- 
2.43.0


From da3ac239cbce00d275d1f0c6e239167b9151cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 51/98] fix: malformed ranges are taken as ranges from the
 start

---
 src/common/request/range.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/common/request/range.go b/src/common/request/range.go
index 8d8a94a..658f3bf 100644
--- a/src/common/request/range.go
+++ b/src/common/request/range.go
@@ -1,7 +1,7 @@
 package request
 
 import (
-	"common/util"
+	"strconv"
 	"strings"
 )
 
@@ -33,25 +33,35 @@ func (rg *Range) ConvertFrom(str string) bool {
 	if str == "" {
 		return false
 	}
-	_, str, ok := strings.Cut(str, "bytes=")
-	if !ok {
+	pre, str, ok := strings.Cut(str, "bytes=")
+	if !ok || pre != "" {
 		return false
 	}
 	tuples := strings.Split(str, ",")
 	if len(tuples) == 0 {
 		return false
 	}
-	rg.Bytes = make([]Int64Tuple, 0, len(tuples))
+	res := make([]Int64Tuple, 0, len(tuples))
 	for _, t := range tuples {
-		v := strings.Split(strings.TrimSpace(t), "-")
-		var tp Int64Tuple
-		if len(v) > 0 {
-			tp.First = util.ToInt64(v[0])
+		first, second, ok := strings.Cut(strings.TrimSpace(t), "-")
+		if !ok {
+			return false
 		}
-		if len(v) > 1 {
-			tp.Second = util.ToInt64(v[1])
+		// ParseUint accepts digits only
+		st, err := strconv.ParseUint(first, 10, 63)
+		if err != nil {
+			return false
 		}
-		rg.Bytes = append(rg.Bytes, tp)
+		tp := Int64Tuple{First: int64(st)}
+		if second != "" {
+			ed, err := strconv.ParseUint(second, 10, 63)
+			if err != nil {
+				return false
+			}
+			tp.Second = int64(ed)
+		}
+		res = append(res, tp)
 	}
+	rg.Bytes = res
 	return true
 }
-- 
2.43.0


From 6ebac5779686254b738233ba864ea5e7275b31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 52/98] fix: reading past a broken reader never ends

---
 src/common/system/disk/multi_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/system/disk/multi_reader.go b/src/common/system/disk/multi_reader.go
index 3956cc1..49db457 100644
--- a/src/common/system/disk/multi_reader.go
+++ b/src/common/system/disk/multi_reader.go
@@ -40,6 +40,8 @@ func (mr *multiReader) Read(p []byte) (n int, err error) {
 			// after performing flatten (Issue 18232).
 			mr.readers[0] = eofReader{} // permit earlier GC
 			mr.readers = mr.readers[1:]
+		} else if err != nil {
+			return
 		}
 		if n >= bufSize {
 			if err == io.EOF && len(mr.readers) > 0 {
-- 
2.43.0


From d2d961d88ef83fa940019453b58b35ee01894fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 53/98] fix: reading up to a limit goes beyond the buffer

---
 src/common/system/disk/aligend_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/system/disk/aligend_reader.go b/src/common/system/disk/aligend_reader.go
index d2bff50..ac6f05b 100644
--- a/src/common/system/disk/aligend_reader.go
+++ b/src/common/system/disk/aligend_reader.go
@@ -63,8 +63,8 @@ func (l *AlignedLimitedReader) Read(p []byte) (n int, err error) {
 		return 0, io.EOF
 	}
 	// aligned and reduce buffer for last read
-	if int64(len(p)) > l.N {
-		p = p[0:AlignedSize64(l.N)]
+	if aligned := AlignedSize64(l.N); int64(len(p)) > aligned {
+		p = p[0:aligned]
 	}
 	n, err = l.R.Read(p)
 	// ignore aligned part and return actual size of data on last reading
-- 
2.43.0


From dab88ea03620617933f42e3034dab97a12415e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 54/98] fix: different metadata have the same identifier

---
 src/common/proto/msg/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/proto/msg/metadata.go b/src/common/proto/msg/metadata.go
index a4852a9..993c672 100644
--- a/src/common/proto/msg/metadata.go
+++ b/src/common/proto/msg/metadata.go
@@ -22,7 +22,7 @@ type Metadata struct {
 }
 
 func (z *Metadata) ID() string {
-	return fmt.Sprintf(z.Bucket, "/", z.Name)
+	return fmt.Sprint(z.Bucket, "/", z.Name)
 }
 
 type Version struct {
-- 
2.43.0


From c780e9d9774ba5e0ecdf9e0093284759cee0354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 55/98] fix: lock the service list in every access

---
 src/common/registry/service_list.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/registry/service_list.go b/src/common/registry/service_list.go
index e6f9e70..fb2bd95 100644
--- a/src/common/registry/service_list.go
+++ b/src/common/registry/service_list.go
@@ -16,6 +16,8 @@ func newServiceListOf(mp map[string]string) *serviceList {
 }
 
 func (s *serviceList) combine(mp map[string]string) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	for k, v := range mp {
 		s.data[k] = v
 	}
@@ -34,9 +36,9 @@ func (s *serviceList) remove(registerKey string) {
 }
 
 func (s *serviceList) list() []string {
-	ls := make([]string, 0, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make([]string, 0, len(s.data))
 	for _, v := range s.data {
 		ls = append(ls, v)
 	}
@@ -45,9 +47,9 @@ func (s *serviceList) list() []string {
 
 // copy returns a map of value=address key=registered key
 func (s *serviceList) copy() map[string]string {
-	ls := make(map[string]string, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make(map[string]string, len(s.data))
 	for k, v := range s.data {
 		ls[k] = v
 	}
@@ -55,5 +57,7 @@ func (s *serviceList) copy() map[string]string {
 }
 
 func (s *serviceList) Len() int {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.data)
 }
-- 
2.43.0


From 2a6b48a70a039881f0ffb9e43bffb8b77284c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 56/98] fix: fill the discovery's service map before goroutines
 read it

---
 src/common/registry/etcd_discovery.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 5c35a33..d3339f7 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -30,8 +30,12 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 		context:  ctx,
 		Close:    cancel,
 	}
+	// the map is read by other goroutines from here on, so it has to be complete
+	d.services[cfg.Name] = newServiceList()
 	for _, s := range cfg.Services {
 		d.services[s] = newServiceList()
+	}
+	for _, s := range cfg.Services {
 		d.initService(s)
 	}
 	// save self
@@ -143,7 +147,7 @@ func (e *EtcdDiscovery) GetService(name string, id string) (string, bool) {
 
 func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[string]string {
 	if sl, ok := e.services[name]; ok {
-		res := make(map[string]string, len(sl.data))
+		res := make(map[string]string)
 		for k, addr := range sl.copy() {
 			idx := strings.LastIndexByte(k, '/')
 			if idx < 0 {
@@ -174,7 +178,7 @@ func (e *EtcdDiscovery) GetServicesWith(name string, master bool) []string {
 
 func (e *EtcdDiscovery) addService(name string, value string, key string) {
 	if e.services[name] == nil {
-		e.services[name] = newServiceList()
+		return
 	}
 	e.services[name].add(value, key)
 }
-- 
2.43.0


From fd04b8b4648591d7d2e2c221244ad79c57ff1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 57/98] fix: guard the admin server's statistics against
 concurrent use

---
 .../internal/usecase/db/server_stat_db.go     | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/adminserver/internal/usecase/db/server_stat_db.go b/src/adminserver/internal/usecase/db/server_stat_db.go
index 4413eb5..6608f43 100644
--- a/src/adminserver/internal/usecase/db/server_stat_db.go
+++ b/src/adminserver/internal/usecase/db/server_stat_db.go
@@ -28,6 +28,7 @@ type TimeStat struct {
 }
 
 type statTimeline struct {
+	mux sync.Mutex
 	cpu *list.List
 	mem *list.List
 }
@@ -40,6 +41,8 @@ func newStatTimeline() *statTimeline {
 }
 
 func (st *statTimeline) Append(cpu *TimeStat, mem *TimeStat) {
+	st.mux.Lock()
+	defer st.mux.Unlock()
 	if st.cpu.Len() == maxTimeStat {
 		elm := st.cpu.Front()
 		elm.Value = cpu
@@ -57,6 +60,8 @@ func (st *statTimeline) Append(cpu *TimeStat, mem *TimeStat) {
 }
 
 func (st *statTimeline) CPUTimeline() []*TimeStat {
+	st.mux.Lock()
+	defer st.mux.Unlock()
 	arr := make([]*TimeStat, 0, st.cpu.Len())
 	for itr := st.cpu.Front(); itr != nil; itr = itr.Next() {
 		arr = append(arr, itr.Value.(*TimeStat))
@@ -65,6 +70,8 @@ func (st *statTimeline) CPUTimeline() []*TimeStat {
 }
 
 func (st *statTimeline) MEMTimeline() []*TimeStat {
+	st.mux.Lock()
+	defer st.mux.Unlock()
 	arr := make([]*TimeStat, 0, st.mem.Len())
 	for itr := st.mem.Front(); itr != nil; itr = itr.Next() {
 		arr = append(arr, itr.Value.(*TimeStat))
@@ -82,6 +89,7 @@ type ServerStatDB struct {
 	GroupName string
 	Services  []string
 	closeFn   func()
+	mux       sync.RWMutex // guards timeline
 	timeline  map[string]map[string]*statTimeline
 }
 
@@ -97,16 +105,18 @@ func NewServerStatDB(cli ServerStatCli, groupName string, services []string) *Se
 }
 
 func (sdb *ServerStatDB) GetTimeline(servName string) map[string]*statTimeline {
-	if tls, ok := sdb.timeline[servName]; ok {
-		return tls
+	sdb.mux.RLock()
+	defer sdb.mux.RUnlock()
+	tls := make(map[string]*statTimeline, len(sdb.timeline[servName]))
+	for id, tl := range sdb.timeline[servName] {
+		tls[id] = tl
 	}
-	return map[string]*statTimeline{}
+	return tls
 }
 
 func (sdb *ServerStatDB) init() {
 	ctx, cancel := context.WithCancel(context.Background())
 	sdb.closeFn = cancel
-	var mux sync.Mutex
 	for _, name := range sdb.Services {
 		go func(v string) {
 			defer graceful.Recover()
@@ -117,11 +127,9 @@ func (sdb *ServerStatDB) init() {
 				statLog.Errorf("init stat of %s fail, %s", v, err)
 			}
 			for _, kv := range res.Kvs {
-				mux.Lock()
 				if err := sdb.addStat(v, kv.Key, kv.Value); err != nil {
 					statLog.Error(err)
 				}
-				mux.Unlock()
 			}
 			// watch channel
 			ch := sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix())
@@ -132,17 +140,19 @@ func (sdb *ServerStatDB) init() {
 
 func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
 	ts := time.Now()
-	mp, ok := sdb.timeline[serv]
-	if !ok {
-		mp = map[string]*statTimeline{}
-		sdb.timeline[serv] = mp
-	}
 	idx := bytes.LastIndex(key, cst.EtcdPrefix.Sep)
 	id := string(key[idx+1:])
 	var sysInfo system.Info
 	if err := util.DecodeMsgp(&sysInfo, value); err != nil {
 		return err
 	}
+	sdb.mux.Lock()
+	defer sdb.mux.Unlock()
+	mp, ok := sdb.timeline[serv]
+	if !ok {
+		mp = map[string]*statTimeline{}
+		sdb.timeline[serv] = mp
+	}
 	tl, ok := mp[id]
 	if !ok {
 		mp[id] = newStatTimeline()
-- 
2.43.0


From fbd8c3efd31855a8aae3a66923e755eac8420744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 58/98] fix: look up pooled connections under the lock

---
 src/adminserver/internal/usecase/logic/conn.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/conn.go b/src/adminserver/internal/usecase/logic/conn.go
index 4d67865..06ae7b3 100644
--- a/src/adminserver/internal/usecase/logic/conn.go
+++ b/src/adminserver/internal/usecase/logic/conn.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
@@ -35,6 +31,8 @@ func getConn(addr string) (*grpc.ClientConn, error) {
 }
 
 func Close() error {
+	poolLock.Lock()
+	defer poolLock.Unlock()
 	var errs []error
 	for _, v := range connPool {
 		if err := v.Close(); err != nil {
-- 
2.43.0


From 52f97a284f2241c83c3c7474bcd0138163494bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 59/98] fix: set the collector's stop function before its
 goroutine starts

---
 src/common/performance/collector.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/performance/collector.go b/src/common/performance/collector.go
index c0eeb81..9df6c8a 100644
--- a/src/common/performance/collector.go
+++ b/src/common/performance/collector.go
@@ -136,11 +136,12 @@ func (c *pmCollector) Close() error {
 }
 
 func (c *pmCollector) startAutoFlush() {
+	ctx, cancel := context.WithCancel(context.Background())
+	c.stopAutoSave = cancel
 	go func() {
 		defer graceful.Recover()
 		tk := time.NewTicker(c.conf.FlushInterval)
-		ctx, cancel := context.WithCancel(context.Background())
-		c.stopAutoSave = cancel
+		defer tk.Stop()
 		flushFn := func() {
 			c.mux.Lock()
 			defer c.mux.Unlock()
-- 
2.43.0


From 712f11987f1b9c38c65abdd8040a43fd2220bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 60/98] fix: guard the cache's eviction listeners and report
 what Set did

---
 src/common/cache/cache.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/common/cache/cache.go b/src/common/cache/cache.go
index eb04342..446fe35 100644
--- a/src/common/cache/cache.go
+++ b/src/common/cache/cache.go
@@ -5,12 +5,14 @@ import (
 	"common/util"
 	"context"
 	"log"
+	"sync"
 
 	"github.com/allegro/bigcache/v3"
 )
 
 type Cache struct {
 	cache         *bigcache.BigCache
+	mux           sync.RWMutex // guards notifyEvicted
 	notifyEvicted []chan Entry
 	close         func()
 }
@@ -44,15 +46,20 @@ func GetGob[T interface{}](c ICache, k string) (*T, bool) {
 }
 
 func (c *Cache) onRemove(k string, v []byte, r bigcache.RemoveReason) {
+	c.mux.RLock()
+	chs := c.notifyEvicted
+	c.mux.RUnlock()
 	go func() {
 		defer graceful.Recover()
-		for _, ch := range c.notifyEvicted {
+		for _, ch := range chs {
 			ch <- Entry{k, v, r}
 		}
 	}()
 }
 
 func (c *Cache) NotifyEvicted() <-chan Entry {
+	c.mux.Lock()
+	defer c.mux.Unlock()
 	ch := make(chan Entry, 5)
 	c.notifyEvicted = append(c.notifyEvicted, ch)
 	return ch
@@ -76,7 +83,7 @@ func (c *Cache) Has(k string) bool {
 }
 
 func (c *Cache) Set(k string, v []byte) bool {
-	return c.cache.Set(k, v) != nil
+	return c.cache.Set(k, v) == nil
 }
 
 func (c *Cache) Delete(k string) {
@@ -89,7 +96,9 @@ func (c *Cache) Delete(k string) {
 func (c *Cache) Close() error {
 	defer c.close()
 	// make it closing by GC
+	c.mux.Lock()
 	c.notifyEvicted = nil
+	c.mux.Unlock()
 	return c.cache.Close()
 }
 
-- 
2.43.0


From 92dfabc29239fca26d6dd727bdf9926cb4c196a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 61/98] fix: shut servers down without panicking on open calls
 and wait for the end

---
 src/metaserver/internal/controller/grpc/grpc.go     | 5 +++--
 src/metaserver/internal/controller/http/http.go     | 1 +
 src/objectserver/internal/controller/grpc/grpc.go   | 5 +++--
 src/objectserver/internal/controller/http/router.go | 1 +
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/grpc.go b/src/metaserver/internal/controller/grpc/grpc.go
index e666251..c156883 100644
--- a/src/metaserver/internal/controller/grpc/grpc.go
+++ b/src/metaserver/internal/controller/grpc/grpc.go
@@ -23,6 +23,7 @@ func NewRpcServer(maxStreams uint32, rw *raftimpl.RaftWrapper, serv1 usecase.IMe
 		util.CommonUnaryInterceptors(),
 		util.CommonStreamInterceptors(),
 		grpc.MaxConcurrentStreams(maxStreams),
+		grpc.WaitForHandlers(true),
 		grpc.ChainUnaryInterceptor(
 			CheckKeySlot,
 			CheckWritableUnary,
@@ -55,11 +56,11 @@ func (r *Server) Shutdown(ctx context.Context) error {
 	finish := make(chan struct{})
 	go func() {
 		defer close(finish)
-		r.Server.GracefulStop()
+		// GracefulStop panics on the connections of an http server, so running calls can not be drained
+		r.Server.Stop()
 	}()
 	select {
 	case <-ctx.Done():
-		r.Server.Stop()
 		return errors.New("graceful stop grpc server timeout")
 	case <-finish:
 		return nil
diff --git a/src/metaserver/internal/controller/http/http.go b/src/metaserver/internal/controller/http/http.go
index 46f9bc0..be33b72 100644
--- a/src/metaserver/internal/controller/http/http.go
+++ b/src/metaserver/internal/controller/http/http.go
@@ -59,5 +59,6 @@ func (s *Server) Shutdown(c context.Context) error {
 		defer dg.Done()
 		err2 = s.Server.Shutdown(c)
 	}()
+	dg.Wait()
 	return errors.Join(err1, err2)
 }
diff --git a/src/objectserver/internal/controller/grpc/grpc.go b/src/objectserver/internal/controller/grpc/grpc.go
index 6712fe1..408cff8 100644
--- a/src/objectserver/internal/controller/grpc/grpc.go
+++ b/src/objectserver/internal/controller/grpc/grpc.go
@@ -17,6 +17,7 @@ type Server struct {
 func NewServer(service *service.MigrationService) *Server {
 	serv := grpc.NewServer(
 		grpc.MaxConcurrentStreams(100),
+		grpc.WaitForHandlers(true),
 		grpc.MaxRecvMsgSize(int(8*datasize.MB)),
 		util.CommonUnaryInterceptors(),
 		util.CommonStreamInterceptors(),
@@ -34,11 +35,11 @@ func (r *Server) Shutdown(ctx context.Context) error {
 	finish := make(chan struct{})
 	go func() {
 		defer close(finish)
-		r.Server.GracefulStop()
+		// GracefulStop panics on the connections of an http server, so running calls can not be drained
+		r.Server.Stop()
 	}()
 	select {
 	case <-ctx.Done():
-		r.Server.Stop()
 		return errors.New("graceful stop grpc server timeout")
 	case <-finish:
 		return nil
diff --git a/src/objectserver/internal/controller/http/router.go b/src/objectserver/internal/controller/http/router.go
index 303057a..2a48532 100644
--- a/src/objectserver/internal/controller/http/router.go
+++ b/src/objectserver/internal/controller/http/router.go
@@ -62,5 +62,6 @@ func (s *Server) Shutdown(c context.Context) error {
 		defer dg.Done()
 		err2 = s.Server.Shutdown(c)
 	}()
+	dg.Wait()
 	return errors.Join(err1, err2)
 }
-- 
2.43.0


From addaf17e19fe19c493bf0c5fe92108f79a2917e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 62/98] fix: keep, return and clear the records of the etcd
 performance store

---
 src/common/performance/etcd_store.go | 215 ++++++++++++++-------------
 1 file changed, 108 insertions(+), 107 deletions(-)

diff --git a/src/common/performance/etcd_store.go b/src/common/performance/etcd_store.go
index aa2f361..f3e8905 100644
--- a/src/common/performance/etcd_store.go
+++ b/src/common/performance/etcd_store.go
@@ -2,13 +2,13 @@ package performance
 
 import (
 	"common/collection/set"
-	"common/graceful"
-	"common/util"
-	"common/util/slices"
 	"context"
 	"fmt"
+	"go.etcd.io/etcd/api/v3/mvccpb"
 	clientv3 "go.etcd.io/etcd/client/v3"
 	"go.etcd.io/etcd/client/v3/concurrency"
+	"math/rand"
+	"sort"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -16,44 +16,92 @@ import (
 )
 
 const etcdPrefix = "performance-data"
+const etcdLockPrefix = "performance-lock" // not under etcdPrefix, where all keys are records
 const maxSize = 1000 * 100
+const lockTimeout = 10 * time.Second
+const maxTxnOps = 128 // the most that etcd accepts by default
 
 // EtcdStore implements Store using ETCD to storage data.
 // it will not save all the data written.
-// maximum write capacity limit to 10,000 entries and only the specified actions are allowed to be written to.
+// maximum write capacity limit to 100,000 entries and only the specified actions are allowed to be written to.
 type EtcdStore struct {
-	kv             clientv3.KV
+	kv             *clientv3.Client
 	allowedActions set.Set
-	mux            sync.Locker
+	mux            sync.Mutex
+	id             string // id tells the keys of this store from those of others
+	seq            atomic.Int64
 }
 
 func (es *EtcdStore) getKeyPrefix(action, kind string) string {
-	return fmt.Sprintf("%s/%s/%s", etcdPrefix, action, kind)
+	if kind == "" {
+		return fmt.Sprintf("%s/%s/", etcdPrefix, action)
+	}
+	return fmt.Sprintf("%s/%s/%s/", etcdPrefix, action, kind)
+}
+
+func (es *EtcdStore) actions(action string) []string {
+	if action != "" {
+		return []string{action}
+	}
+	return set.To[string](es.allowedActions)
 }
 
 func (es *EtcdStore) removeOldKeys(limit int) error {
-	resp, err := es.kv.Get(context.Background(), etcdPrefix,
-		clientv3.WithPrefix(),
-		clientv3.WithKeysOnly(),
-		clientv3.WithSort(clientv3.SortByKey, clientv3.SortAscend),
-		clientv3.WithLimit(int64(limit)),
-	)
-	if err != nil {
-		return err
+	var kvs []*mvccpb.KeyValue
+	for _, act := range es.actions("") {
+		resp, err := es.kv.Get(context.Background(), es.getKeyPrefix(act, ""),
+			clientv3.WithPrefix(),
+			clientv3.WithKeysOnly(),
+			clientv3.WithSort(clientv3.SortByCreateRevision, clientv3.SortAscend),
+			clientv3.WithLimit(int64(limit)),
+		)
+		if err != nil {
+			return err
+		}
+		kvs = append(kvs, resp.Kvs...)
 	}
-	if len(resp.Kvs) == 0 {
-		return nil
+	sort.SliceStable(kvs, func(i, j int) bool { return kvs[i].CreateRevision < kvs[j].CreateRevision })
+	ops := make([]clientv3.Op, 0, limit)
+	for _, kv := range kvs {
+		if len(ops) == limit {
+			break
+		}
+		ops = append(ops, clientv3.OpDelete(string(kv.Key)))
 	}
-	_, err = es.kv.Delete(context.Background(),
-		util.BytesToStr(slices.First(resp.Kvs).Key),
-		clientv3.WithRange(util.BytesToStr(slices.Last(resp.Kvs).Key)),
-	)
-	return err
+	return es.commit(ops)
+}
+
+// commit executes the operations in as many transactions as they need
+func (es *EtcdStore) commit(ops []clientv3.Op) error {
+	for len(ops) > 0 {
+		n := len(ops)
+		if n > maxTxnOps {
+			n = maxTxnOps
+		}
+		if _, err := es.kv.Txn(context.Background()).Then(ops[:n]...).Commit(); err != nil {
+			return err
+		}
+		ops = ops[n:]
+	}
+	return nil
 }
 
 func (es *EtcdStore) checkSize(addedSize int) error {
 	es.mux.Lock()
 	defer es.mux.Unlock()
+	// a session only for this time, so that one lost once is not missing from then on
+	ctx, cancel := context.WithTimeout(context.Background(), lockTimeout)
+	defer cancel()
+	sess, err := concurrency.NewSession(es.kv, concurrency.WithTTL(15), concurrency.WithContext(ctx))
+	if err != nil {
+		return fmt.Errorf("etcd locker: %w", err)
+	}
+	defer sess.Close()
+	locker := concurrency.NewMutex(sess, etcdLockPrefix)
+	if err = locker.Lock(ctx); err != nil {
+		return fmt.Errorf("etcd locker: %w", err)
+	}
+	defer locker.Unlock(ctx)
 	curSize, err := es.Size("", "")
 	if err != nil {
 		return err
@@ -73,103 +121,60 @@ func (es *EtcdStore) Put(pm []*Perform) error {
 			allows = append(allows, data)
 		}
 	}
+	if len(allows) == 0 {
+		return nil
+	}
 	if err := es.checkSize(len(allows)); err != nil {
 		return err
 	}
-	tx := es.kv.Txn(context.Background())
+	ops := make([]clientv3.Op, 0, len(allows))
 	for _, data := range allows {
-		key := fmt.Sprintf("%s/%d", es.getKeyPrefix(data.Action, data.KindOf), time.Now().UnixMilli())
-		tx.Then(clientv3.OpPut(key, data.Cost.String()))
+		key := fmt.Sprintf("%s%d-%s-%d", es.getKeyPrefix(data.Action, data.KindOf), time.Now().UnixMilli(), es.id, es.seq.Add(1))
+		ops = append(ops, clientv3.OpPut(key, data.Cost.String()))
 	}
-	_, err := tx.Commit()
-	return err
+	return es.commit(ops)
 }
 
 func (es *EtcdStore) Get(kindOf, action string) (res []*Perform, err error) {
-	allowedActions := set.To[string](es.allowedActions)
-	if action != "" {
-		allowedActions = []string{action}
-	}
-	resCh := make(chan []*Perform, 1)
-	go func() {
-		defer graceful.Recover()
-		defer close(resCh)
-		ctx, cancel := context.WithCancel(context.Background())
-		defer cancel()
-		dg := util.NewDoneGroup()
-		defer dg.Close()
-		for _, act := range allowedActions {
-			dg.Todo()
-			go func(a string) {
-				defer dg.Done()
-				resp, err := es.kv.Get(ctx, es.getKeyPrefix(a, kindOf), clientv3.WithPrefix())
-				if err != nil {
-					dg.Error(err)
-					return
-				}
-				arr := make([]*Perform, 0, len(resp.Kvs))
-				for _, kv := range resp.Kvs {
-					key := util.BytesToStr(kv.Key)
-					idx := strings.LastIndexByte(key, '/')
-					if idx < 0 {
-						continue
-					}
-					arr = append(arr, &Perform{
-						KindOf: key[idx+1:],
-						Action: action,
-						Cost:   time.Duration(util.ToInt64(util.BytesToStr(kv.Value))),
-					})
-				}
-				resCh <- arr
-			}(act)
+	for _, act := range es.actions(action) {
+		resp, err := es.kv.Get(context.Background(), es.getKeyPrefix(act, kindOf), clientv3.WithPrefix())
+		if err != nil {
+			return nil, err
+		}
+		prefix := es.getKeyPrefix(act, "")
+		for _, kv := range resp.Kvs {
+			// the key is like performance-data/${action}/${kind}/${unique}
+			kind, _, ok := strings.Cut(strings.TrimPrefix(string(kv.Key), prefix), "/")
+			if !ok {
+				continue
+			}
+			cost, err := time.ParseDuration(string(kv.Value))
+			if err != nil {
+				return nil, err
+			}
+			res = append(res, &Perform{KindOf: kind, Action: act, Cost: cost})
 		}
-		err = dg.WaitUntilError()
-	}()
-	for arr := range resCh {
-		res = append(res, arr...)
 	}
-	return
+	return res, nil
 }
 
-func (es *EtcdStore) Clear(kindOf, action string) (err error) {
-	allowedActions := set.To[string](es.allowedActions)
-	if action != "" {
-		allowedActions = []string{action}
+func (es *EtcdStore) Clear(kindOf, action string) error {
+	var ops []clientv3.Op
+	for _, act := range es.actions(action) {
+		ops = append(ops, clientv3.OpDelete(es.getKeyPrefix(act, kindOf), clientv3.WithPrefix()))
 	}
-	tx := es.kv.Txn(context.Background())
-	for _, act := range allowedActions {
-		tx.Then(clientv3.OpDelete(es.getKeyPrefix(act, kindOf), clientv3.WithPrefix()))
-	}
-	_, err = tx.Commit()
-	return
+	return es.commit(ops)
 }
 
 func (es *EtcdStore) Size(kindOf, action string) (total int64, err error) {
-	allowedActions := set.To[string](es.allowedActions)
-	if action != "" {
-		allowedActions = []string{action}
-	}
-	go func() {
-		defer graceful.Recover()
-		ctx, cancel := context.WithCancel(context.Background())
-		defer cancel()
-		dg := util.NewDoneGroup()
-		defer dg.Close()
-		for _, act := range allowedActions {
-			dg.Todo()
-			go func(a string) {
-				defer dg.Done()
-				resp, err := es.kv.Get(ctx, es.getKeyPrefix(a, kindOf), clientv3.WithPrefix(), clientv3.WithCountOnly())
-				if err != nil {
-					dg.Error(err)
-					return
-				}
-				atomic.AddInt64(&total, resp.Count)
-			}(act)
+	for _, act := range es.actions(action) {
+		resp, err := es.kv.Get(context.Background(), es.getKeyPrefix(act, kindOf), clientv3.WithPrefix(), clientv3.WithCountOnly())
+		if err != nil {
+			return 0, err
 		}
-		err = dg.WaitUntilError()
-	}()
-	return
+		total += resp.Count
+	}
+	return total, nil
 }
 
 func (es *EtcdStore) Average(string, string) ([]*Perform, error) {
@@ -181,13 +186,9 @@ func (es *EtcdStore) Sum(string, string) ([]*Perform, error) {
 }
 
 func NewEtcdStore(client *clientv3.Client, allowedActions []string) Store {
-	sess, err := concurrency.NewSession(client, concurrency.WithTTL(15))
-	if err != nil {
-		util.PanicErr(fmt.Errorf("init etcd locker fail: %w", err))
-	}
 	return AvgSumStore(&EtcdStore{
 		kv:             client,
 		allowedActions: set.OfString(allowedActions),
-		mux:            concurrency.NewLocker(sess, etcdPrefix),
+		id:             fmt.Sprintf("%x", rand.New(rand.NewSource(time.Now().UnixNano())).Int63()),
 	})
 }
-- 
2.43.0


From bcf563f41f1e2e76d1e33412bb6da1da46dc0acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 63/98] fix: copy keys of the local performance store out of
 the database and name actions by their bucket

---
 src/common/performance/local_store.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/common/performance/local_store.go b/src/common/performance/local_store.go
index 942b818..9ad41fc 100644
--- a/src/common/performance/local_store.go
+++ b/src/common/performance/local_store.go
@@ -110,9 +110,8 @@ func (ls *LocalStore) Put(data []*Perform) error {
 }
 
 func (ls *LocalStore) keyPrefix(key string) string {
-	sp := strings.Split(key, ".")
-	if len(sp) == 2 {
-		return sp[0]
+	if idx := strings.LastIndexByte(key, '.'); idx >= 0 {
+		return key[:idx]
 	}
 	return ""
 }
@@ -131,12 +130,13 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 			var k, v []byte
 			cur := kndBuk.Cursor()
 			if action != "" {
-				k, v = cur.Seek(util.StrToBytes(action))
+				k, v = cur.Seek([]byte(action + "."))
 			} else {
 				k, v = cur.First()
 			}
 			for k != nil {
-				act := ls.keyPrefix(util.BytesToStr(k))
+				// keys are only valid within the transaction
+				act := ls.keyPrefix(string(k))
 				if action != "" && act != action {
 					break
 				}
@@ -157,18 +157,18 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 			return actBuk.ForEach(func(k, v []byte) error {
 				if v == nil {
 					// if k is a nest bucket (when action is emtpy, action root bucket has nest buckets)
-					actBuk.Bucket(k).ForEach(func(k, v []byte) error {
+					act := string(k)
+					return actBuk.Bucket(k).ForEach(func(k, v []byte) error {
 						res = append(res, &Perform{
-							KindOf: ls.keyPrefix(util.BytesToStr(k)),
-							Action: util.BytesToStr(k),
+							KindOf: ls.keyPrefix(string(k)),
+							Action: act,
 							Cost:   time.Duration(util.BytesToInt(v)),
 						})
 						return nil
 					})
-					return nil
 				}
 				res = append(res, &Perform{
-					KindOf: ls.keyPrefix(util.BytesToStr(k)),
+					KindOf: ls.keyPrefix(string(k)),
 					Action: action,
 					Cost:   time.Duration(util.BytesToInt(v)),
 				})
-- 
2.43.0


From 680429006bc8a5e24562051021510c4440f35818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 64/98] fix: let the local performance store clear exactly what
 is asked for

---
 src/common/performance/local_store.go | 62 +++++++++++----------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/src/common/performance/local_store.go b/src/common/performance/local_store.go
index 9ad41fc..80ab114 100644
--- a/src/common/performance/local_store.go
+++ b/src/common/performance/local_store.go
@@ -188,18 +188,7 @@ func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, pref
 		if err != nil {
 			return err
 		}
-		cur := nest.Cursor()
-		bk, _ := cur.Seek(prefix)
-		for bk != nil {
-			if !bytes.HasPrefix(bk, prefix) {
-				break
-			}
-			if err = cur.Delete(); err != nil {
-				return err
-			}
-			bk, _ = cur.Next()
-		}
-		return nil
+		return ls.deletePrefix(nest, prefix)
 	}
 	// get root bucket
 	root, err := ls.getBucket(tx, rootName, "")
@@ -214,21 +203,23 @@ func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, pref
 		if v != nil {
 			return nil
 		}
-		cur := root.Bucket(k).Cursor()
-		bk, _ := cur.Seek(prefix)
-		for bk != nil {
-			if !bytes.HasPrefix(bk, prefix) {
-				break
-			}
-			if err = cur.Delete(); err != nil {
-				return err
-			}
-			bk, _ = cur.Next()
-		}
-		return nil
+		return ls.deletePrefix(root.Bucket(k), prefix)
 	})
 }
 
+// deletePrefix removes the records whose keys are the prefix and a number
+func (ls *LocalStore) deletePrefix(b *bolt.Bucket, prefix []byte) error {
+	prefix = append(append([]byte(nil), prefix...), '.')
+	cur := b.Cursor()
+	// Next would skip the record that follows a deleted one
+	for bk, _ := cur.Seek(prefix); bytes.HasPrefix(bk, prefix); bk, _ = cur.Seek(prefix) {
+		if err := cur.Delete(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (ls *LocalStore) checkDatabase() error {
 	ls.mux.Lock()
 	defer ls.mux.Unlock()
@@ -264,7 +255,7 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete kind bucket directly
-			if err = kindRoot.Delete(util.StrToBytes(kind)); err != nil {
+			if err = kindRoot.DeleteBucket([]byte(kind)); err != nil && err != bolt.ErrBucketNotFound {
 				return err
 			}
 			// delete from action buckets
@@ -281,7 +272,7 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete action bucket directly
-			if err = actionRoot.Delete(util.StrToBytes(action)); err != nil {
+			if err = actionRoot.DeleteBucket([]byte(action)); err != nil && err != bolt.ErrBucketNotFound {
 				return err
 			}
 			// delete from kind buckets
@@ -298,17 +289,14 @@ func (ls *LocalStore) Clear(kind, action string) error {
 			return ls.delete(tx, kindBucketRoot, kind, actionBt)
 		})
 	} else {
-		// close db
-		if err := ls.db.Close(); err != nil {
-			return err
-		}
-		// remove db file
-		path := ls.db.Path()
-		if err := os.Remove(path); err != nil {
-			return err
-		}
-		// re-open db
-		return ls.openDatabase(path)
+		return ls.db.Update(func(tx *bolt.Tx) error {
+			for _, root := range [][]byte{actionBucketRoot, kindBucketRoot} {
+				if err := tx.DeleteBucket(root); err != nil && err != bolt.ErrBucketNotFound {
+					return err
+				}
+			}
+			return nil
+		})
 	}
 }
 
-- 
2.43.0


From ecdd4b6ae211b4bc18200ba242d4f5741baa4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 65/98] fix: wait for running h2c requests before the stores
 are closed

---
 src/common/util/h2c_handler.go                | 52 ++++++++++++++++++-
 .../internal/controller/http/http.go          | 11 ++--
 .../internal/controller/http/router.go        | 10 ++--
 3 files changed, 63 insertions(+), 10 deletions(-)

diff --git a/src/common/util/h2c_handler.go b/src/common/util/h2c_handler.go
index 13e764e..e51c217 100644
--- a/src/common/util/h2c_handler.go
+++ b/src/common/util/h2c_handler.go
@@ -11,18 +11,66 @@ import (
 	"google.golang.org/grpc/status"
 	"net/http"
 	"strings"
+	"sync"
 )
 
 type H2Server struct {
 	httpHandler http.Handler
 	grpcHandler http.Handler
+	mux         sync.Mutex
+	running     int
+	idle        chan struct{} // closed as soon as nothing is running any more
 }
 
-func H2CHandler(httpHandler http.Handler, grpcHandler http.Handler) http.Handler {
-	return h2c.NewHandler(&H2Server{httpHandler: httpHandler, grpcHandler: grpcHandler}, &http2.Server{})
+// ServeH2C lets the server handle h2c connections, too. Such connections are hijacked: to shut the server down,
+// wait for the running requests by H2Server.Wait after http.Server.Shutdown.
+func ServeH2C(server *http.Server, httpHandler http.Handler, grpcHandler http.Handler) *H2Server {
+	h := &H2Server{httpHandler: httpHandler, grpcHandler: grpcHandler}
+	h2 := &http2.Server{}
+	// go away on shutdown
+	LogErrWithPre("configure http2", http2.ConfigureServer(server, h2))
+	server.Handler = h2c.NewHandler(h, h2)
+	return h
+}
+
+// Wait waits until no request is running
+func (h *H2Server) Wait(ctx context.Context) error {
+	h.mux.Lock()
+	if h.running == 0 {
+		h.mux.Unlock()
+		return nil
+	}
+	if h.idle == nil {
+		h.idle = make(chan struct{})
+	}
+	idle := h.idle
+	h.mux.Unlock()
+	select {
+	case <-idle:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
+func (h *H2Server) begin() {
+	h.mux.Lock()
+	defer h.mux.Unlock()
+	h.running++
+}
+
+func (h *H2Server) end() {
+	h.mux.Lock()
+	defer h.mux.Unlock()
+	if h.running--; h.running == 0 && h.idle != nil {
+		close(h.idle)
+		h.idle = nil
+	}
 }
 
 func (h *H2Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+	h.begin()
+	defer h.end()
 	if r.ProtoMajor == 2 &&
 		strings.HasPrefix(r.Header.Get("Content-Type"), "application/grpc") {
 		h.grpcHandler.ServeHTTP(w, r)
diff --git a/src/metaserver/internal/controller/http/http.go b/src/metaserver/internal/controller/http/http.go
index be33b72..bf0d269 100644
--- a/src/metaserver/internal/controller/http/http.go
+++ b/src/metaserver/internal/controller/http/http.go
@@ -15,6 +15,7 @@ import (
 type Server struct {
 	http.Server
 	grpcServer *grpc.Server
+	h2         *util.H2Server
 }
 
 func NewHttpServer(port string, grpcServer *grpc.Server, service IMetadataService, bucketService BucketService) *Server {
@@ -33,10 +34,9 @@ func NewHttpServer(port string, grpcServer *grpc.Server, service IMetadataServic
 	NewMetadataController(service).RegisterRoute(engine)
 	NewVersionController(service).RegisterRoute(engine)
 	NewBucketController(bucketService).RegisterRoute(engine)
-	return &Server{http.Server{
-		Addr:    ":" + port,
-		Handler: util.H2CHandler(engine, grpcServer),
-	}, grpcServer}
+	srv := &Server{Server: http.Server{Addr: ":" + port}, grpcServer: grpcServer}
+	srv.h2 = util.ServeH2C(&srv.Server, engine, grpcServer)
+	return srv
 }
 
 func (s *Server) ListenAndServe() error {
@@ -60,5 +60,8 @@ func (s *Server) Shutdown(c context.Context) error {
 		err2 = s.Server.Shutdown(c)
 	}()
 	dg.Wait()
+	if err2 == nil {
+		err2 = s.h2.Wait(c)
+	}
 	return errors.Join(err1, err2)
 }
diff --git a/src/objectserver/internal/controller/http/router.go b/src/objectserver/internal/controller/http/router.go
index 2a48532..665192d 100644
--- a/src/objectserver/internal/controller/http/router.go
+++ b/src/objectserver/internal/controller/http/router.go
@@ -16,6 +16,7 @@ import (
 type Server struct {
 	*http.Server
 	grpcServer *grpc.Server
+	h2         *util.H2Server
 }
 
 func NewHttpServer(port string, grpcServer *grpc.Server) *Server {
@@ -36,10 +37,8 @@ func NewHttpServer(port string, grpcServer *grpc.Server) *Server {
 	r.GET("/ping", stat.Ping)
 	r.GET("/stat", stat.Info)
 
-	return &Server{&http.Server{
-		Addr:    ":" + port,
-		Handler: util.H2CHandler(r, grpcServer),
-	}, grpcServer}
+	srv := &http.Server{Addr: ":" + port}
+	return &Server{srv, grpcServer, util.ServeH2C(srv, r, grpcServer)}
 }
 
 func (h *Server) ListenAndServe() error {
@@ -63,5 +62,8 @@ func (s *Server) Shutdown(c context.Context) error {
 		err2 = s.Server.Shutdown(c)
 	}()
 	dg.Wait()
+	if err2 == nil {
+		err2 = s.h2.Wait(c)
+	}
 	return errors.Join(err1, err2)
 }
-- 
2.43.0


From 336b44188dfe4a69fd7544b6736759da7a1b7115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 66/98] fix: stop raft before its storage is closed

---
 src/metaserver/internal/usecase/pool/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/pool/pool.go b/src/metaserver/internal/usecase/pool/pool.go
index 9ddb56e..23fb998 100644
--- a/src/metaserver/internal/usecase/pool/pool.go
+++ b/src/metaserver/internal/usecase/pool/pool.go
@@ -97,11 +97,12 @@ func initCache(cfg config.CacheConfig) {
 }
 
 func Close() {
-	util.LogErr(Storage.Stop())
 	util.LogErr(Lifecycle.Close())
 	util.LogErr(HashSlot.Close(time.Minute))
 	if RaftWrapper != nil {
 		util.LogErr(RaftWrapper.Close())
 	}
+	// raft and migrations write to the storage till they end
+	util.LogErr(Storage.Stop())
 	util.LogErr(Etcd.Close())
 }
-- 
2.43.0


From c2bc81d9788ede9069903c3c611f5a6895260c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 67/98] fix: shutting down without own hash slots panics

---
 src/metaserver/internal/app/app.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index 9f32826..fdd12e9 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -69,8 +69,8 @@ func Run(cfg *config.Config) {
 
 	// remove and update slots info from etcd if shutdown as a leader
 	defer func() {
-		slot, _, err := pool.HashSlot.Get(cfg.HashSlot.StoreID)
-		if err == nil {
+		slot, ok, err := pool.HashSlot.Get(cfg.HashSlot.StoreID)
+		if err == nil && ok {
 			cfg.HashSlot.Slots = slot.Slots
 		}
 		if raftWrapper.IsLeader() || !raftWrapper.Enabled {
-- 
2.43.0


From eed7342e75643be8757ff6711bc63ea702722807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 68/98] fix: guard the hash slot status against concurrent use

---
 .../internal/usecase/db/hashslot_db.go        | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index cb4eb7e..fd85dea 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -7,10 +7,11 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
+	"sync/atomic"
 	"time"
 
 	clientv3 "go.etcd.io/etcd/client/v3"
-	"sync/atomic"
 )
 
 var (
@@ -44,7 +45,8 @@ type HashSlotDB struct {
 	kv             clientv3.KV
 	status         *atomic.Int32
 	provider       *atomic.Pointer[hashslot.IEdgeProvider]
-	updatedAt      int64
+	updatedAt      atomic.Int64
+	migratingMux   sync.RWMutex // guards changes of the status together with host and slots
 	migratingSlots []string
 	migratingHost  string
 	KeyPrefix      string
@@ -66,15 +68,19 @@ func (h *HashSlotDB) IsNormal() bool {
 }
 
 func (h *HashSlotDB) GetMigrateTo() (bool, string, []string) {
+	h.migratingMux.RLock()
+	defer h.migratingMux.RUnlock()
 	return h.status.Load() == StatusMigrateTo, h.migratingHost, h.migratingSlots
 }
 
 func (h *HashSlotDB) GetMigrateFrom() (bool, string, []string) {
+	h.migratingMux.RLock()
+	defer h.migratingMux.RUnlock()
 	return h.status.Load() == StatusMigrateFrom, h.migratingHost, h.migratingSlots
 }
 
 func (h *HashSlotDB) IsExpired() bool {
-	return time.Now().Unix()-h.updatedAt > MaxExpireUnix
+	return time.Now().Unix()-h.updatedAt.Load() > MaxExpireUnix
 }
 
 // GetEdgeProvider identify is http-location of server
@@ -108,13 +114,16 @@ func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 		return fmt.Errorf("reloadProvider: %w", err)
 	}
 	if h.provider.CompareAndSwap(old, &data) {
-		h.updatedAt = time.Now().Unix()
-		hsLog.Infof("update hash-slots success at %d", h.updatedAt)
+		now := time.Now().Unix()
+		h.updatedAt.Store(now)
+		hsLog.Infof("update hash-slots success at %d", now)
 	}
 	return nil
 }
 
 func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
+	h.migratingMux.Lock()
+	defer h.migratingMux.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateFrom) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -125,6 +134,8 @@ func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
 }
 
 func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
+	h.migratingMux.Lock()
+	defer h.migratingMux.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateTo) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -135,6 +146,8 @@ func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
 }
 
 func (h *HashSlotDB) FinishMigrateTo() error {
+	h.migratingMux.Lock()
+	defer h.migratingMux.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateTo, StatusNormal) {
 		h.migratingHost = ""
 		h.migratingSlots = nil
@@ -145,6 +158,8 @@ func (h *HashSlotDB) FinishMigrateTo() error {
 }
 
 func (h *HashSlotDB) FinishMigrateFrom() error {
+	h.migratingMux.Lock()
+	defer h.migratingMux.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateFrom, StatusNormal) {
 		h.migratingHost = ""
 		h.migratingSlots = nil
-- 
2.43.0


From d7b6333f3e95d1a7f5179643f3800d2e2f3f9a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 69/98] fix: followers refuse their own keys for minutes after
 the leader changed

---
 .../internal/usecase/db/hashslot_db.go        | 33 ++++++++++++++-----
 .../internal/usecase/logic/hashslot_logic.go  | 12 ++++++-
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index fd85dea..e477a29 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -46,6 +46,8 @@ type HashSlotDB struct {
 	status         *atomic.Int32
 	provider       *atomic.Pointer[hashslot.IEdgeProvider]
 	updatedAt      atomic.Int64
+	reloadMux      sync.Mutex
+	reloadedAt     time.Time    // when the last reload started
 	migratingMux   sync.RWMutex // guards changes of the status together with host and slots
 	migratingSlots []string
 	migratingHost  string
@@ -85,16 +87,23 @@ func (h *HashSlotDB) IsExpired() bool {
 
 // GetEdgeProvider identify is http-location of server
 func (h *HashSlotDB) GetEdgeProvider(reload bool) (hashslot.IEdgeProvider, error) {
-	item := h.provider.Load()
 	if h.IsExpired() || reload {
-		if err := h.reloadProvider(item); err != nil {
+		if err := h.reloadProvider(time.Now()); err != nil {
 			return nil, err
 		}
 	}
 	return *h.provider.Load(), nil
 }
 
-func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
+// reloadProvider loads the slots as they are at that time or later
+func (h *HashSlotDB) reloadProvider(at time.Time) error {
+	// one after another, so that an older state never replaces a newer one
+	h.reloadMux.Lock()
+	defer h.reloadMux.Unlock()
+	if h.reloadedAt.After(at) {
+		return nil
+	}
+	start := time.Now()
 	slotsMap := make(map[string][]string)
 	// get slots data from etcd (only master saves into to etcd)
 	res, err := h.kv.Get(context.Background(), h.KeyPrefix, clientv3.WithPrefix())
@@ -113,11 +122,10 @@ func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 	if err != nil {
 		return fmt.Errorf("reloadProvider: %w", err)
 	}
-	if h.provider.CompareAndSwap(old, &data) {
-		now := time.Now().Unix()
-		h.updatedAt.Store(now)
-		hsLog.Infof("update hash-slots success at %d", now)
-	}
+	h.provider.Store(&data)
+	h.reloadedAt = start
+	h.updatedAt.Store(start.Unix())
+	hsLog.Infof("update hash-slots success at %d", start.Unix())
 	return nil
 }
 
@@ -198,6 +206,7 @@ func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
 	info.GroupID = id
 	// saving
 	_, err = h.kv.Put(context.Background(), key, string(bt))
+	h.expire()
 	return err
 }
 
@@ -207,12 +216,20 @@ func (h *HashSlotDB) Remove(id string) error {
 	}
 	key := fmt.Sprint(h.KeyPrefix, id)
 	_, err := h.kv.Delete(context.Background(), key)
+	h.expire()
 	if err != nil {
 		return err
 	}
 	return nil
 }
 
+// expire lets the next use reload the slots
+func (h *HashSlotDB) expire() {
+	h.reloadMux.Lock()
+	defer h.reloadMux.Unlock()
+	h.updatedAt.Store(0)
+}
+
 func (h *HashSlotDB) GetKeyIdentify(key string) (string, error) {
 	slots, err := h.GetEdgeProvider(false)
 	if err != nil {
diff --git a/src/metaserver/internal/usecase/logic/hashslot_logic.go b/src/metaserver/internal/usecase/logic/hashslot_logic.go
index 6e1260d..c936930 100644
--- a/src/metaserver/internal/usecase/logic/hashslot_logic.go
+++ b/src/metaserver/internal/usecase/logic/hashslot_logic.go
@@ -13,11 +13,21 @@ func NewHashSlot() HashSlot { return HashSlot{} }
 
 func (h HashSlot) IsKeyOnThisServer(key string) (bool, string) {
 	id, err := pool.HashSlot.GetKeyIdentify(key)
+	if err == nil && !isThisServer(id) {
+		// the leader or the slots of it may have changed
+		if _, err = pool.HashSlot.GetEdgeProvider(true); err == nil {
+			id, err = pool.HashSlot.GetKeyIdentify(key)
+		}
+	}
 	if err != nil {
 		logs.Std().Error(err)
 		return false, ""
 	}
-	return id == pool.Config.Registry.SID() || id == pool.RaftWrapper.LeaderID(), id
+	return isThisServer(id), id
+}
+
+func isThisServer(id string) bool {
+	return id == pool.Config.Registry.SID() || id == pool.RaftWrapper.LeaderID()
 }
 
 func (HashSlot) GetSlotsProvider() (hashslot.IEdgeProvider, error) {
-- 
2.43.0


From b8c5dc13c181ea5537481eeff2901a9060b3c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 70/98] fix: guard the lease of the system info, and register
 object servers which join again

---
 src/apiserver/internal/app/app.go    |  6 +----
 src/common/system/syncer.go          | 38 +++++++++++++++++++++++++---
 src/metaserver/internal/app/app.go   |  6 +----
 src/objectserver/internal/app/app.go | 15 +++++------
 4 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/apiserver/internal/app/app.go b/src/apiserver/internal/app/app.go
index ce6adc6..24b5799 100644
--- a/src/apiserver/internal/app/app.go
+++ b/src/apiserver/internal/app/app.go
@@ -10,7 +10,6 @@ import (
 	"common/graceful"
 	"common/registry"
 	"common/system"
-	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
 func Run(cfg *Config) {
@@ -34,10 +33,7 @@ func Run(cfg *Config) {
 
 	// system-info auto saving
 	syncer := system.Syncer(pool.Etcd, cst.EtcdPrefix.FmtSystemInfo(cfg.Registry.Group, cfg.Registry.Name, cfg.Registry.SID()))
-	lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
-		_ = syncer.Sync()
-	})
+	lifecycle.Subscribe(syncer.OnLease)
 	defer syncer.StartAutoSave()()
 
 	// start lifecycle
diff --git a/src/common/system/syncer.go b/src/common/system/syncer.go
index 9292b97..60fa496 100644
--- a/src/common/system/syncer.go
+++ b/src/common/system/syncer.go
@@ -7,6 +7,7 @@ import (
 	"common/util"
 	"context"
 	clientv3 "go.etcd.io/etcd/client/v3"
+	"sync"
 	"time"
 )
 
@@ -14,10 +15,14 @@ var (
 	syncLog = logs.New("sys-sync")
 )
 
+const saveTimeout = 3 * time.Second
+
 type StatSyncer struct {
 	cli     clientv3.KV
 	key     string
-	LeaseID clientv3.LeaseID
+	mux     sync.Mutex
+	lease   clientv3.LeaseID
+	stopped bool
 }
 
 func Syncer(c clientv3.KV, key string) *StatSyncer {
@@ -27,8 +32,12 @@ func Syncer(c clientv3.KV, key string) *StatSyncer {
 func (d *StatSyncer) StartAutoSave() func() {
 	ctx, cancel := context.WithCancel(context.Background())
 	tk := time.NewTicker(time.Minute)
+	d.mux.Lock()
+	d.stopped = false
+	d.mux.Unlock()
 	go func() {
 		defer graceful.Recover()
+		defer tk.Stop()
 		for {
 			select {
 			case <-ctx.Done():
@@ -49,6 +58,16 @@ func (d *StatSyncer) StartAutoSave() func() {
 	}
 }
 
+// OnLease saves the info with the lease, now and from now on
+func (d *StatSyncer) OnLease(id clientv3.LeaseID) {
+	d.mux.Lock()
+	d.lease = id
+	d.mux.Unlock()
+	if err := d.Sync(); err != nil {
+		syncLog.Warnf("sync err: %s", err)
+	}
+}
+
 func (d *StatSyncer) Sync() error {
 	info, err := NewInfo(disk.Root)
 	if err != nil {
@@ -58,11 +77,24 @@ func (d *StatSyncer) Sync() error {
 	if err != nil {
 		return err
 	}
-	_, err = d.cli.Put(context.Background(), d.key, string(bt), clientv3.WithLease(d.LeaseID))
+	d.mux.Lock()
+	defer d.mux.Unlock()
+	// without a lease it would never be removed
+	if d.stopped || d.lease == clientv3.NoLease {
+		return nil
+	}
+	ctx, cancel := context.WithTimeout(context.Background(), saveTimeout)
+	defer cancel()
+	_, err = d.cli.Put(ctx, d.key, string(bt), clientv3.WithLease(d.lease))
 	return err
 }
 
 func (d *StatSyncer) Clear() error {
-	_, err := d.cli.Delete(context.Background(), d.key)
+	d.mux.Lock()
+	defer d.mux.Unlock()
+	d.stopped = true
+	ctx, cancel := context.WithTimeout(context.Background(), saveTimeout)
+	defer cancel()
+	_, err := d.cli.Delete(ctx, d.key)
 	return err
 }
diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index fdd12e9..be7d134 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -5,7 +5,6 @@ import (
 	"common/graceful"
 	"common/system"
 	"common/util"
-	clientv3 "go.etcd.io/etcd/client/v3"
 	"metaserver/config"
 	"metaserver/internal/controller/grpc"
 	"metaserver/internal/controller/http"
@@ -44,10 +43,7 @@ func Run(cfg *config.Config) {
 	httpServer := http.NewHttpServer(cfg.Port, grpcServer, metaService, bucketServ)
 	// auto sync sys-info
 	syncer := system.Syncer(pool.Etcd, cst.EtcdPrefix.FmtSystemInfo(cfg.Registry.Group, cfg.Registry.Name, cfg.Registry.SID()))
-	pool.Lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
-		_ = syncer.Sync()
-	})
+	pool.Lifecycle.Subscribe(syncer.OnLease)
 	defer syncer.StartAutoSave()()
 	// registry
 	if raftWrapper.Enabled {
diff --git a/src/objectserver/internal/app/app.go b/src/objectserver/internal/app/app.go
index ba8be2f..b4a4c33 100644
--- a/src/objectserver/internal/app/app.go
+++ b/src/objectserver/internal/app/app.go
@@ -5,7 +5,6 @@ import (
 	"common/graceful"
 	"common/registry"
 	"common/system"
-	clientv3 "go.etcd.io/etcd/client/v3"
 	"objectserver/config"
 	"objectserver/internal/controller/grpc"
 	"objectserver/internal/controller/http"
@@ -18,16 +17,13 @@ func Run(cfg *config.Config) {
 	pool.InitPool(cfg)
 	defer pool.CloseAll()
 	// init components
-	lifecycle := registry.NewLifecycle(pool.Etcd, cfg.Registry.Interval)
 	syncer := system.Syncer(pool.Etcd, cst.EtcdPrefix.FmtSystemInfo(cfg.Registry.Group, cfg.Registry.Name, cfg.Registry.SID()))
-	// lifecycle event
-	lifecycle.Subscribe(pool.Registry.Register)
-	lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
-		_ = syncer.Sync()
-	})
 	pool.OnOpen(func() {
-		go lifecycle.DeadLoop()
+		// a lifecycle ends with its closing, the server may be opened again
+		lifecycle := registry.NewLifecycle(pool.Etcd, cfg.Registry.Interval)
+		// lifecycle event
+		lifecycle.Subscribe(pool.Registry.Register)
+		lifecycle.Subscribe(syncer.OnLease)
 		pool.OnClose(
 			func() { lifecycle.Close() },
 			// unregister
@@ -41,6 +37,7 @@ func Run(cfg *config.Config) {
 			// system info sync
 			syncer.StartAutoSave(),
 		)
+		go lifecycle.DeadLoop()
 	})
 	pool.Open()
 	// warmup serv
-- 
2.43.0


From 0edc9405f530bd748510714069dad7ce2a534ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 71/98] fix: a failing lease grant or registration leaves the
 server unregistered for ever

---
 src/common/registry/etcd_lifecycle.go |  71 +++++++++++---
 src/common/registry/etcd_registry.go  | 136 ++++++++++++++++++++++----
 2 files changed, 170 insertions(+), 37 deletions(-)

diff --git a/src/common/registry/etcd_lifecycle.go b/src/common/registry/etcd_lifecycle.go
index 927c85f..358a8da 100644
--- a/src/common/registry/etcd_lifecycle.go
+++ b/src/common/registry/etcd_lifecycle.go
@@ -16,8 +16,11 @@ type Lifecycle struct {
 	ctx         context.Context
 	cancel      func()
 	notifyLease []func(id clientv3.LeaseID)
+	done        chan struct{} // closed when the loop has ended
 }
 
+const revokeTimeout = 3 * time.Second
+
 func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
 	ctx, cancel := context.WithCancel(context.Background())
 	return &Lifecycle{
@@ -29,11 +32,11 @@ func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
 	}
 }
 
-func (lc *Lifecycle) notifying() {
+func (lc *Lifecycle) notifying(lease clientv3.LeaseID) {
 	for _, f := range lc.notifyLease {
 		go func(fn func(id clientv3.LeaseID)) {
 			defer graceful.Recover()
-			fn(lc.lease)
+			fn(lease)
 		}(f)
 	}
 }
@@ -44,43 +47,69 @@ func (lc *Lifecycle) Lease() clientv3.LeaseID {
 	return lc.lease
 }
 
+// wait before the next try, false if closed
+func (lc *Lifecycle) wait() bool {
+	select {
+	case <-lc.ctx.Done():
+		return false
+	case <-time.After(time.Second):
+		return true
+	}
+}
+
+func (lc *Lifecycle) revoke(lease clientv3.LeaseID) {
+	ctx, cancel := context.WithTimeout(context.Background(), revokeTimeout)
+	defer cancel()
+	_, _ = lc.Client.Revoke(ctx, lease)
+}
+
 func (lc *Lifecycle) DeadLoop() {
 	defer graceful.Recover()
+	done := make(chan struct{})
+	defer close(done)
+	lc.mux.Lock()
+	lc.done = done
+	lc.mux.Unlock()
 	for {
-		// lock to update lease
-		lc.mux.Lock()
-		leaseResp, err := lc.Client.Grant(context.Background(), int64(lc.ttl.Seconds()))
+		leaseResp, err := lc.Client.Grant(lc.ctx, int64(lc.ttl.Seconds()))
 		if err != nil {
 			registryLog.Errorf("grant lifecycle lease err: %s", err)
-			time.Sleep(5 * time.Second)
+			if !lc.wait() {
+				return
+			}
 			continue
 		}
-		lc.lease = leaseResp.ID
+		lease := leaseResp.ID
+		lc.mux.Lock()
+		lc.lease = lease
 		lc.mux.Unlock()
 
 		// notify lease change
-		lc.notifying()
+		lc.notifying(lease)
 
 		// keepalive new lease
-		response, err := lc.Client.KeepAlive(lc.ctx, lc.lease)
+		response, err := lc.Client.KeepAlive(lc.ctx, lease)
 		if err != nil {
-			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lc.lease, err)
-			time.Sleep(5 * time.Second)
-			continue
-		}
-		for r := range response {
-			registryLog.Tracef("keepalive lease %d success: ttl=%d", r.ID, r.TTL)
+			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lease, err)
+		} else {
+			for r := range response {
+				registryLog.Tracef("keepalive lease %d success: ttl=%d", r.ID, r.TTL)
+			}
 		}
+		// nothing may stay attached to a lease which is not kept alive
+		lc.revoke(lease)
 
 		// break loop if closed
 		select {
 		case <-lc.ctx.Done():
-			_, _ = lc.Client.Revoke(context.Background(), lc.lease)
 			registryLog.Infof("stop keepalive lifecycle lease")
 			return
 		default:
 			registryLog.Warnf("lifecycle lease revoked, start grant a new lease")
 		}
+		if err != nil && !lc.wait() {
+			return
+		}
 	}
 }
 
@@ -90,5 +119,15 @@ func (lc *Lifecycle) Subscribe(fn func(id clientv3.LeaseID)) {
 
 func (lc *Lifecycle) Close() error {
 	lc.cancel()
+	// wait for the lease to be revoked
+	lc.mux.RLock()
+	done := lc.done
+	lc.mux.RUnlock()
+	if done != nil {
+		select {
+		case <-done:
+		case <-time.After(revokeTimeout):
+		}
+	}
 	return nil
 }
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 3161a17..e29998a 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -1,23 +1,52 @@
 package registry
 
 import (
-	"bytes"
 	. "common/cst"
 	"common/logs"
 	"common/util"
 	"context"
+	"errors"
 	"fmt"
+	"strings"
+	"sync"
+	"time"
+
+	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
 	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
+const (
+	roleMaster = "_master"
+	roleSlave  = "_slave"
+
+	registerTimeout = 3 * time.Second
+)
+
 var registryLog = logs.New("etcd-registry")
 
 type EtcdRegistry struct {
 	cli     *clientv3.Client
 	cfg     Config
 	stdName string
-	name    string
 	addr    string
+	mux     sync.Mutex // guards all below and orders the changes of the registration
+	name    string
+	changes int // counts the registrations asked for and withdrawn
+}
+
+// servicePrefix is what the keys of a service start with
+func servicePrefix(group, name string) string {
+	return EtcdPrefix.FmtRegistry(group, name) + "/"
+}
+
+// splitKey splits what follows the prefix of the service into the id of the server and its role
+func splitKey(id string) (string, string) {
+	for _, role := range []string{roleMaster, roleSlave} {
+		if strings.HasSuffix(id, role) {
+			return strings.TrimSuffix(id, role), role
+		}
+	}
+	return id, ""
 }
 
 func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
@@ -37,42 +66,62 @@ func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
 }
 
 func (e *EtcdRegistry) Key() string {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	return e.key()
+}
+
+func (e *EtcdRegistry) key() string {
 	return EtcdPrefix.FmtRegistry(e.cfg.Group, e.name)
 }
 
-func (e *EtcdRegistry) AsMaster() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "master")
+// keys are all the server may be registered under
+func (e *EtcdRegistry) keys() []string {
+	if e.name == e.stdName {
+		return []string{e.key()}
+	}
+	return []string{
+		EtcdPrefix.FmtRegistry(e.cfg.Group, e.stdName+roleMaster),
+		EtcdPrefix.FmtRegistry(e.cfg.Group, e.stdName+roleSlave),
+	}
+}
+
+// as changes the role, the next registration replaces the one under the former role
+func (e *EtcdRegistry) as(role string) *EtcdRegistry {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	if name := e.stdName + role; name != e.name {
+		e.changes++
+		e.name = name
+	}
 	return e
 }
 
+func (e *EtcdRegistry) AsMaster() *EtcdRegistry {
+	return e.as(roleMaster)
+}
+
 func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "slave")
-	return e
+	return e.as(roleSlave)
 }
 
 func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	prefix := servicePrefix(e.cfg.Group, name)
+	resp, err := e.cli.Get(context.Background(), prefix, clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Errorf("get services: %s", err)
 		return map[string]string{}
 	}
 	res := make(map[string]string, len(resp.Kvs))
 	for _, kv := range resp.Kvs {
-		idx1 := bytes.LastIndexByte(kv.Key, '/')
-		if idx1 < 0 {
-			continue
-		}
-		idx2 := bytes.LastIndexByte(kv.Key, '_')
-		if idx2 < 0 {
-			idx2 = len(kv.Key)
-		}
-		res[util.BytesToStr(kv.Key[idx1+1:idx2])] = util.BytesToStr(kv.Value)
+		id, _ := splitKey(strings.TrimPrefix(util.BytesToStr(kv.Key), prefix))
+		res[id] = util.BytesToStr(kv.Value)
 	}
 	return res
 }
 
 func (e *EtcdRegistry) GetServices(name string) []string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), servicePrefix(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Infof("get services: %s", err)
 		return []string{}
@@ -90,15 +139,60 @@ func (e *EtcdRegistry) GetService(name string, id string) (string, bool) {
 	return v, ok
 }
 
+// Register registers the server as long as the lease lives. It tries until it has success, the lease is gone
+// or something else has been asked for in the meantime.
 func (e *EtcdRegistry) Register(id clientv3.LeaseID) {
-	if _, err := e.cli.Put(context.Background(), e.Key(), e.addr, clientv3.WithLease(id)); err != nil {
-		registryLog.Errorf("register %s fails: %s", e.addr, err)
+	if id == clientv3.NoLease {
+		// would never be removed, there will be a lease later
 		return
 	}
-	registryLog.Infof("register %s success", e.Key())
+	e.mux.Lock()
+	e.changes++
+	change := e.changes
+	e.mux.Unlock()
+	for {
+		err, again := e.register(id, change)
+		if err == nil {
+			return
+		}
+		registryLog.Errorf("register %s fails: %s", e.addr, err)
+		if !again {
+			return
+		}
+		time.Sleep(time.Second)
+	}
+}
+
+func (e *EtcdRegistry) register(id clientv3.LeaseID, change int) (err error, again bool) {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	if e.changes != change {
+		return nil, false
+	}
+	ctx, cancel := context.WithTimeout(context.Background(), registerTimeout)
+	defer cancel()
+	if _, err = e.cli.Txn(ctx).Then(append(e.removals(e.key()), clientv3.OpPut(e.key(), e.addr, clientv3.WithLease(id)))...).Commit(); err != nil {
+		return err, !errors.Is(err, rpctypes.ErrLeaseNotFound)
+	}
+	registryLog.Infof("register %s success", e.key())
+	return nil, false
+}
+
+func (e *EtcdRegistry) removals(except string) (ops []clientv3.Op) {
+	for _, key := range e.keys() {
+		if key != except {
+			ops = append(ops, clientv3.OpDelete(key))
+		}
+	}
+	return
 }
 
 func (e *EtcdRegistry) Unregister() error {
-	_, err := e.cli.Delete(context.Background(), e.Key())
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.changes++
+	ctx, cancel := context.WithTimeout(context.Background(), registerTimeout)
+	defer cancel()
+	_, err := e.cli.Txn(ctx).Then(e.removals("")...).Commit()
 	return err
 }
-- 
2.43.0


From 733c0ebd6089ca27f600dc524d4d596b4df7bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 72/98] fix: the view of the registered servers misses changes
 and mixes up names

---
 src/common/registry/etcd_discovery.go | 136 +++++++++++++-------------
 src/common/registry/service_list.go   |  19 +++-
 2 files changed, 80 insertions(+), 75 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index d3339f7..52594e2 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -1,7 +1,6 @@
 package registry
 
 import (
-	"common/cst"
 	"common/graceful"
 	"common/util"
 	"context"
@@ -15,6 +14,7 @@ import (
 type EtcdDiscovery struct {
 	cli      *clientv3.Client
 	group    string
+	self     string // key of this server, which always knows itself
 	services map[string]*serviceList
 	context  context.Context
 	Close    func()
@@ -32,91 +32,90 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 	}
 	// the map is read by other goroutines from here on, so it has to be complete
 	d.services[cfg.Name] = newServiceList()
+	// save self
+	addr, _ := cfg.RegisterAddr()
+	d.self = servicePrefix(cfg.Group, cfg.Name) + cfg.SID()
 	for _, s := range cfg.Services {
 		d.services[s] = newServiceList()
 	}
+	d.addService(cfg.Name, addr, d.self)
 	for _, s := range cfg.Services {
 		d.initService(s)
 	}
-	// save self
-	addr, _ := cfg.RegisterAddr()
-	d.addService(cfg.Name, addr, cfg.RegisterKey())
 	return d
 }
 
 func (e *EtcdDiscovery) initService(serv string) {
 	go func() {
 		defer graceful.Recover()
-		// fetch kvs
-		prefix := cst.EtcdPrefix.FmtRegistry(e.group, serv)
-		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-		defer cancel()
-		res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
-		if err != nil {
-			registryLog.Warnf("discovery init service %s error: %s", prefix, err)
-			return
-		}
-		// wrap kvs
-		mp := make(map[string]string)
-		for _, kv := range res.Kvs {
-			mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+		prefix := servicePrefix(e.group, serv)
+		for {
+			rev, err := e.load(serv, prefix)
+			if err != nil {
+				registryLog.Warnf("discovery init service %s error: %s", prefix, err)
+			} else {
+				e.watch(serv, prefix, rev+1)
+			}
+			// wait before the next try, unless closed
+			select {
+			case <-e.context.Done():
+				return
+			case <-time.After(time.Second):
+			}
 		}
-		// init serv
-		e.services[serv].combine(mp)
-		// start watch change
-		e.asyncWatch(serv, prefix)
 	}()
 }
 
-func (e *EtcdDiscovery) asyncWatch(serv, prefix string) {
-	go func() {
-		defer graceful.Recover()
-		for {
-			var success bool
-			ch := e.cli.Watch(e.context, prefix, clientv3.WithPrefix())
-			for res := range ch {
-				if res.Canceled {
-					registryLog.Errorf("dicovery for %s abort: %s", serv, res.Err())
-					success = false
-					break
-				}
-				for _, event := range res.Events {
-					// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
-					key := util.BytesToStr(event.Kv.Key)
-					addr := util.BytesToStr(event.Kv.Value)
-					switch event.Type {
-					case mvccpb.PUT:
-						registryLog.Tracef("%s:%s added", serv, addr)
-						e.addService(serv, addr, key)
-					case mvccpb.DELETE:
-						registryLog.Tracef("%s:%s removed", serv, key)
-						e.removeService(serv, key)
-					}
-				}
-			}
-			// break if canceled by context
-			if success {
-				break
+// load takes over the registered servers and returns the revision they are of
+func (e *EtcdDiscovery) load(serv, prefix string) (int64, error) {
+	ctx, cancel := context.WithTimeout(e.context, 5*time.Second)
+	defer cancel()
+	res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
+	if err != nil {
+		return 0, err
+	}
+	// wrap kvs
+	mp := make(map[string]string)
+	for _, kv := range res.Kvs {
+		mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+	}
+	// init serv
+	e.services[serv].replace(mp, e.self)
+	return res.Header.Revision, nil
+}
+
+// watch follows the changes since a revision till that is not possible any more
+func (e *EtcdDiscovery) watch(serv, prefix string, rev int64) {
+	ctx, cancel := context.WithCancel(e.context)
+	defer cancel()
+	for res := range e.cli.Watch(ctx, prefix, clientv3.WithPrefix(), clientv3.WithRev(rev)) {
+		if res.Canceled {
+			registryLog.Errorf("dicovery for %s abort: %s", serv, res.Err())
+			return
+		}
+		for _, event := range res.Events {
+			// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
+			key := util.BytesToStr(event.Kv.Key)
+			addr := util.BytesToStr(event.Kv.Value)
+			switch event.Type {
+			case mvccpb.PUT:
+				registryLog.Tracef("%s:%s added", serv, addr)
+				e.addService(serv, addr, key)
+			case mvccpb.DELETE:
+				registryLog.Tracef("%s:%s removed", serv, key)
+				e.removeService(serv, key)
 			}
-			// sleep 2 sec before retry
-			time.Sleep(2 * time.Second)
 		}
-	}()
+	}
 }
 
 func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
 	res := make(map[string]string)
 	if sl, ok := e.services[name]; ok {
+		prefix := servicePrefix(e.group, name)
 		for k, addr := range sl.copy() {
-			idx1 := strings.LastIndexByte(k, '/')
-			if idx1 < 0 {
-				continue
-			}
-			idx2 := strings.LastIndexByte(k, '_')
-			if idx2 < 0 {
-				idx2 = len(k)
-			}
-			res[k[idx1+1:idx2]] = addr
+			id, _ := splitKey(strings.TrimPrefix(k, prefix))
+			res[id] = addr
 		}
 	}
 	return res
@@ -148,17 +147,14 @@ func (e *EtcdDiscovery) GetService(name string, id string) (string, bool) {
 func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[string]string {
 	if sl, ok := e.services[name]; ok {
 		res := make(map[string]string)
+		prefix := servicePrefix(e.group, name)
 		for k, addr := range sl.copy() {
-			idx := strings.LastIndexByte(k, '/')
-			if idx < 0 {
-				continue
-			}
-			sid, role, contains := strings.Cut(k[idx+1:], "_")
+			sid, role := splitKey(strings.TrimPrefix(k, prefix))
 			if master {
-				if !contains || role == "master" {
+				if role != roleSlave {
 					res[sid] = addr
 				}
-			} else if role == "slave" {
+			} else if role == roleSlave {
 				res[sid] = addr
 			}
 		}
@@ -184,7 +180,7 @@ func (e *EtcdDiscovery) addService(name string, value string, key string) {
 }
 
 func (e *EtcdDiscovery) removeService(name string, key string) {
-	if e.services[name] == nil {
+	if e.services[name] == nil || key == e.self {
 		return
 	}
 	e.services[name].remove(key)
diff --git a/src/common/registry/service_list.go b/src/common/registry/service_list.go
index fb2bd95..a09b83f 100644
--- a/src/common/registry/service_list.go
+++ b/src/common/registry/service_list.go
@@ -15,9 +15,15 @@ func newServiceListOf(mp map[string]string) *serviceList {
 	return &serviceList{mp, &sync.RWMutex{}}
 }
 
-func (s *serviceList) combine(mp map[string]string) {
+// replace takes over all of mp, of the former ones only the kept key stays
+func (s *serviceList) replace(mp map[string]string, kept string) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
+	for k := range s.data {
+		if _, ok := mp[k]; !ok && k != kept {
+			delete(s.data, k)
+		}
+	}
 	for k, v := range mp {
 		s.data[k] = v
 	}
@@ -39,8 +45,13 @@ func (s *serviceList) list() []string {
 	s.lock.RLock()
 	defer s.lock.RUnlock()
 	ls := make([]string, 0, len(s.data))
+	seen := make(map[string]struct{}, len(s.data))
 	for _, v := range s.data {
-		ls = append(ls, v)
+		// a server is known by more than one key for a while when its role changes
+		if _, ok := seen[v]; !ok {
+			seen[v] = struct{}{}
+			ls = append(ls, v)
+		}
 	}
 	return ls
 }
@@ -57,7 +68,5 @@ func (s *serviceList) copy() map[string]string {
 }
 
 func (s *serviceList) Len() int {
-	s.lock.RLock()
-	defer s.lock.RUnlock()
-	return len(s.data)
+	return len(s.list())
 }
-- 
2.43.0


From 0dc3147cc9f07e6cc4373f057a481f887e1f23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 73/98] fix: leader events which follow each other fast end in
 a former state

---
 .../internal/usecase/raftimpl/raft_impl.go    | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 36aa4bf..12d3742 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -31,10 +31,16 @@ type RaftWrapper struct {
 	Enabled             bool
 	isLeader            atomic.Bool
 	eventMux            sync.Mutex
-	leaderChangedEvents []IRaftLeaderChanged
+	leaderChangedEvents []*leaderListener
+	lastEvent           atomic.Bool
 	closeRaftStore      func()
 }
 
+type leaderListener struct {
+	IRaftLeaderChanged
+	mux sync.Mutex
+}
+
 func NewDisabledRaft() *RaftWrapper {
 	return &RaftWrapper{Enabled: false}
 }
@@ -153,14 +159,22 @@ func (rw *RaftWrapper) subscribeLeaderCh() {
 func (rw *RaftWrapper) OnLeaderChanged(isLeader bool) {
 	rw.eventMux.Lock()
 	defer rw.eventMux.Unlock()
+	rw.lastEvent.Store(isLeader)
 	for _, event := range rw.leaderChangedEvents {
-		go func(e IRaftLeaderChanged) {
-			defer graceful.Recover()
-			e.OnLeaderChanged(isLeader)
-		}(event)
+		rw.notify(event)
 	}
 }
 
+// notify tells the last state, so that events which follow each other fast never end in a former state
+func (rw *RaftWrapper) notify(l *leaderListener) {
+	go func() {
+		defer graceful.Recover()
+		l.mux.Lock()
+		defer l.mux.Unlock()
+		l.OnLeaderChanged(rw.lastEvent.Load())
+	}()
+}
+
 func (rw *RaftWrapper) Init() {
 	// if enabled raft, init as slave
 	// else init as singleton master
@@ -170,13 +184,11 @@ func (rw *RaftWrapper) Init() {
 func (rw *RaftWrapper) RegisterLeaderChangedEvent(event IRaftLeaderChanged) {
 	rw.eventMux.Lock()
 	defer rw.eventMux.Unlock()
-	rw.leaderChangedEvents = append(rw.leaderChangedEvents, event)
+	l := &leaderListener{IRaftLeaderChanged: event}
+	rw.leaderChangedEvents = append(rw.leaderChangedEvents, l)
 	// it may have become leader before
-	if rw.IsLeader() {
-		go func() {
-			defer graceful.Recover()
-			event.OnLeaderChanged(true)
-		}()
+	if rw.lastEvent.Load() {
+		rw.notify(l)
 	}
 }
 
-- 
2.43.0


From 4436ecf371e7c064aa4fd4efe13925d694f60d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 74/98] fix: refuse hash slots which another server has instead
 of failing every request

---
 .../internal/usecase/db/hashslot_db.go        | 53 ++++++++++++++++---
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index e477a29..f62c5c8 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -17,6 +17,7 @@ import (
 var (
 	hsLog         = logs.New("hash-slot-db")
 	MaxExpireUnix = int64(5 * time.Minute.Seconds())
+	saveTimeout   = 5 * time.Second
 )
 
 const (
@@ -198,16 +199,56 @@ func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
 	if h.status.Load() != StatusNormal {
 		return errors.New("status not in normal")
 	}
+	info.GroupID = id
+	defer h.expire()
+	for {
+		saved, err := h.trySave(id, info)
+		if err != nil || saved {
+			return err
+		}
+	}
+}
+
+// trySave saves the slots unless others have some of them. Returns false if any slots changed in the meantime
+func (h *HashSlotDB) trySave(id string, info *hashslot.SlotInfo) (bool, error) {
+	ctx, cancel := context.WithTimeout(context.Background(), saveTimeout)
+	defer cancel()
 	key := fmt.Sprint(h.KeyPrefix, id)
 	bt, err := util.EncodeMsgp(info)
 	if err != nil {
-		return err
+		return false, err
 	}
-	info.GroupID = id
-	// saving
-	_, err = h.kv.Put(context.Background(), key, string(bt))
-	h.expire()
-	return err
+	if _, err = hashslot.WrapSlotsToEdges(info.Slots, info.ServerID); err != nil {
+		return false, err
+	}
+	res, err := h.kv.Get(ctx, h.KeyPrefix, clientv3.WithPrefix())
+	if err != nil {
+		return false, err
+	}
+	for _, kv := range res.Kvs {
+		var other hashslot.SlotInfo
+		if string(kv.Key) == key || util.DecodeMsgp(&other, kv.Value) != nil || other.ServerID == info.ServerID {
+			continue
+		}
+		if _, err = hashslot.WrapSlotsToEdges(other.Slots, other.ServerID); err != nil {
+			continue
+		}
+		if _, err = hashslot.WrapSlots(map[string][]string{
+			info.ServerID:  info.Slots,
+			other.ServerID: other.Slots,
+		}); err != nil {
+			return false, fmt.Errorf("slots of %s: %w", id, err)
+		}
+	}
+	// all slots must be as they were read
+	resp, err := h.kv.Txn(ctx).
+		If(clientv3.Compare(clientv3.ModRevision(h.KeyPrefix), "<", res.Header.Revision+1).WithPrefix()).
+		Then(clientv3.OpPut(key, string(bt))).
+		Commit()
+	if err != nil {
+		return false, err
+	}
+	return resp.Succeeded, nil
 }
 
 func (h *HashSlotDB) Remove(id string) error {
-- 
2.43.0


From e298d2ab524b897805e8dfe3d17dbf2bdc07f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 75/98] fix: keep trying to save the hash slots after becoming
 leader

---
 src/metaserver/internal/app/app.go            |  1 +
 .../usecase/service/hashslot_service.go       | 58 ++++++++++++++-----
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index be7d134..29b5c73 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -65,6 +65,7 @@ func Run(cfg *config.Config) {
 
 	// remove and update slots info from etcd if shutdown as a leader
 	defer func() {
+		hsService.OnLeaderChanged(false)
 		slot, ok, err := pool.HashSlot.Get(cfg.HashSlot.StoreID)
 		if err == nil && ok {
 			cfg.HashSlot.Slots = slot.Slots
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 9ead78c..1929441 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -18,6 +18,7 @@ import (
 	"metaserver/internal/usecase/logic"
 	"metaserver/internal/usecase/pool"
 	"net"
+	"sync"
 	"time"
 
 	"google.golang.org/grpc"
@@ -33,6 +34,8 @@ type HashSlotService struct {
 	BucketService usecase.BucketService
 	Cfg           *config.HashSlotConfig
 	startReceive  func()
+	leaderMux     sync.Mutex
+	leaderTerm    int
 }
 
 func NewHashSlotService(st *db.HashSlotDB, serv usecase.IMetadataService, bucketService usecase.BucketService, cfg *config.HashSlotConfig) *HashSlotService {
@@ -46,26 +49,51 @@ func NewHashSlotService(st *db.HashSlotDB, serv usecase.IMetadataService, bucket
 }
 
 func (h *HashSlotService) OnLeaderChanged(isLeader bool) {
-	if isLeader {
-		var (
-			info  *hashslot.SlotInfo
-			exist bool
-			err   error
-		)
-		// if not exist, read from configuration
-		if info, exist, err = h.Store.Get(h.Cfg.StoreID); !exist {
-			if err != nil {
-				logs.Std().Errorf("get slot-info when leader changed: %s", err)
+	h.leaderMux.Lock()
+	h.leaderTerm++
+	term := h.leaderTerm
+	h.leaderMux.Unlock()
+	if !isLeader || h.saveAsLeader(term) {
+		return
+	}
+	// nobody else tells the others that this server is the leader
+	go func() {
+		defer graceful.Recover()
+		for {
+			time.Sleep(time.Second)
+			if h.saveAsLeader(term) {
 				return
 			}
-			info = &hashslot.SlotInfo{Slots: h.Cfg.Slots, GroupID: h.Cfg.StoreID}
-			logs.Std().Infof("no exist slots, init from config: id=%s, slots=%s", info.GroupID, info.Slots)
 		}
-		if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
-			logs.Std().Error(err)
-			return
+	}()
+}
+
+// saveAsLeader returns false if it failed and should be tried again
+func (h *HashSlotService) saveAsLeader(term int) bool {
+	h.leaderMux.Lock()
+	defer h.leaderMux.Unlock()
+	if h.leaderTerm != term {
+		return true
+	}
+	var (
+		info  *hashslot.SlotInfo
+		exist bool
+		err   error
+	)
+	// if not exist, read from configuration
+	if info, exist, err = h.Store.Get(h.Cfg.StoreID); !exist {
+		if err != nil {
+			logs.Std().Errorf("get slot-info when leader changed: %s", err)
+			return false
 		}
+		info = &hashslot.SlotInfo{Slots: h.Cfg.Slots, GroupID: h.Cfg.StoreID}
+		logs.Std().Infof("no exist slots, init from config: id=%s, slots=%s", info.GroupID, info.Slots)
+	}
+	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
+		logs.Std().Error(err)
+		return false
 	}
+	return true
 }
 
 func (h *HashSlotService) GetCurrentSlots(reload bool) (map[string][]string, error) {
-- 
2.43.0


From a022954d04924c3fa34db8e86e5bb0527754e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 76/98] fix: keep the hash slots of a raft group when its
 leader shuts down

---
 src/metaserver/internal/app/app.go              |  4 ++--
 .../internal/usecase/raftimpl/raft_impl.go      | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index 29b5c73..5cb0fe8 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -63,14 +63,14 @@ func Run(cfg *config.Config) {
 	raftWrapper.RegisterLeaderChangedEvent(hsService)
 	raftWrapper.RegisterLeaderChangedEvent(logic.NewRegistry())
 
-	// remove and update slots info from etcd if shutdown as a leader
+	// remove and update slots info from etcd if nobody else serves them
 	defer func() {
 		hsService.OnLeaderChanged(false)
 		slot, ok, err := pool.HashSlot.Get(cfg.HashSlot.StoreID)
 		if err == nil && ok {
 			cfg.HashSlot.Slots = slot.Slots
 		}
-		if raftWrapper.IsLeader() || !raftWrapper.Enabled {
+		if !raftWrapper.Enabled || raftWrapper.IsLeader() && !raftWrapper.HasPeers() {
 			util.LogErr(pool.HashSlot.Remove(cfg.HashSlot.StoreID))
 		}
 	}()
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 12d3742..7a2b390 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -203,6 +203,23 @@ func (rw *RaftWrapper) IsLeader() bool {
 	return rw.isLeader.Load() && rw.Enabled
 }
 
+// HasPeers returns true if there are other members in the raft group
+func (rw *RaftWrapper) HasPeers() bool {
+	if !rw.Enabled {
+		return false
+	}
+	f := rw.Raft.GetConfiguration()
+	if f.Error() != nil {
+		return true
+	}
+	for _, v := range f.Configuration().Servers {
+		if string(v.ID) != rw.ID {
+			return true
+		}
+	}
+	return false
+}
+
 func (rw *RaftWrapper) LeaderID() string {
 	if !rw.Enabled {
 		return ""
-- 
2.43.0


From fc2c81aded3e8ceb1e7b1ae16530c324c5d57653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 77/98] fix: a migration of hash slots waits for running
 writes, later ones check the slots again

---
 .../internal/controller/grpc/grpc.go          |  2 +-
 .../internal/controller/grpc/middleware.go    | 12 ++++---
 .../internal/controller/http/middleware.go    | 11 +++---
 .../internal/usecase/db/hashslot_db.go        | 36 +++++++++++++++++++
 4 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/grpc.go b/src/metaserver/internal/controller/grpc/grpc.go
index c156883..1e0d37a 100644
--- a/src/metaserver/internal/controller/grpc/grpc.go
+++ b/src/metaserver/internal/controller/grpc/grpc.go
@@ -25,8 +25,8 @@ func NewRpcServer(maxStreams uint32, rw *raftimpl.RaftWrapper, serv1 usecase.IMe
 		grpc.MaxConcurrentStreams(maxStreams),
 		grpc.WaitForHandlers(true),
 		grpc.ChainUnaryInterceptor(
-			CheckKeySlot,
 			CheckWritableUnary,
+			CheckKeySlot,
 			CheckRaftEnabledUnary,
 			CheckRaftLeaderUnary,
 			CheckRaftNonLeaderUnary,
diff --git a/src/metaserver/internal/controller/grpc/middleware.go b/src/metaserver/internal/controller/grpc/middleware.go
index 723c45d..9d00b2a 100644
--- a/src/metaserver/internal/controller/grpc/middleware.go
+++ b/src/metaserver/internal/controller/grpc/middleware.go
@@ -6,6 +6,7 @@ import (
 	"context"
 	"metaserver/internal/usecase/logic"
 	"metaserver/internal/usecase/pool"
+	"strings"
 
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
@@ -63,14 +64,15 @@ func CheckWritableUnary(ctx context.Context, req interface{}, info *grpc.UnarySe
 		if pool.RaftWrapper.Enabled && !pool.RaftWrapper.IsLeader() {
 			return nil, status.Error(codes.Unavailable, "server is not writable")
 		}
-		if info.FullMethod == "/proto.HashSlot/StreamingReceive" {
-			goto RETURNS
-		}
-		if !pool.HashSlot.IsNormal() {
+		if strings.HasPrefix(info.FullMethod, "/proto.MetadataApi/") {
+			if !pool.HashSlot.BeginWrite() {
+				return nil, status.Error(codes.Unavailable, "server in migration")
+			}
+			defer pool.HashSlot.EndWrite()
+		} else if !pool.HashSlot.IsNormal() {
 			return nil, status.Error(codes.Unavailable, "server in migration")
 		}
 	}
-RETURNS:
 	return handler(ctx, req)
 }
 
diff --git a/src/metaserver/internal/controller/http/middleware.go b/src/metaserver/internal/controller/http/middleware.go
index 79625d9..39e3356 100644
--- a/src/metaserver/internal/controller/http/middleware.go
+++ b/src/metaserver/internal/controller/http/middleware.go
@@ -26,10 +26,13 @@ func CheckLeaderInRaftMode(c *gin.Context) {
 }
 
 func CheckInNormal(c *gin.Context) {
-	if isWriteMethod(c.Request.Method) && !pool.HashSlot.IsNormal() {
-		response.Exec(c).Fail(http.StatusConflict, "server in migration")
-		c.Abort()
-		return
+	if isWriteMethod(c.Request.Method) {
+		if !pool.HashSlot.BeginWrite() {
+			response.Exec(c).Fail(http.StatusConflict, "server in migration")
+			c.Abort()
+			return
+		}
+		defer pool.HashSlot.EndWrite()
 	}
 	c.Next()
 }
diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index f62c5c8..5a2d659 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -52,6 +52,7 @@ type HashSlotDB struct {
 	migratingMux   sync.RWMutex // guards changes of the status together with host and slots
 	migratingSlots []string
 	migratingHost  string
+	writing        atomic.Int64 // writes of names that are running
 	KeyPrefix      string
 }
 
@@ -70,6 +71,30 @@ func (h *HashSlotDB) IsNormal() bool {
 	return h.status.Load() == StatusNormal
 }
 
+// BeginWrite returns false if names must not be written for now. Otherwise EndWrite has to follow.
+func (h *HashSlotDB) BeginWrite() bool {
+	h.writing.Add(1)
+	if h.IsNormal() {
+		return true
+	}
+	h.EndWrite()
+	return false
+}
+
+func (h *HashSlotDB) EndWrite() {
+	h.writing.Add(-1)
+}
+
+// waitWrites waits for the end of writes which began before the status has changed
+func (h *HashSlotDB) waitWrites(timeout time.Duration) bool {
+	for end := time.Now().Add(timeout); h.writing.Load() > 0; time.Sleep(5 * time.Millisecond) {
+		if time.Now().After(end) {
+			return false
+		}
+	}
+	return true
+}
+
 func (h *HashSlotDB) GetMigrateTo() (bool, string, []string) {
 	h.migratingMux.RLock()
 	defer h.migratingMux.RUnlock()
@@ -142,7 +167,18 @@ func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
 	return errors.New("status is not in normal")
 }
 
+// ReadyMigrateTo returns after all writes have ended
 func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
+	if err := h.switchMigrateTo(loc, slots); err != nil {
+		return err
+	}
+	if !h.waitWrites(saveTimeout) {
+		return errors.Join(errors.New("writes are still running"), h.FinishMigrateTo())
+	}
+	return nil
+}
+
+func (h *HashSlotDB) switchMigrateTo(loc string, slots []string) error {
 	h.migratingMux.Lock()
 	defer h.migratingMux.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateTo) {
-- 
2.43.0


From a96fabe1279e24c4d614f454c0ba3f57da0be349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 78/98] fix: names moved with their hash slots keep their times
 and numbers and replace leftovers

---
 src/metaserver/internal/usecase/interfaces.go |  7 ++++
 .../internal/usecase/logic/metadata_logic.go  | 13 ++++++
 .../internal/usecase/raftimpl/fsm_impl.go     |  2 +
 .../internal/usecase/repo/batch_meta_repo.go  | 12 ++++++
 .../usecase/repo/metadata_cache_repo.go       |  4 ++
 .../internal/usecase/repo/metadata_repo.go    | 40 ++++++++++++++++++-
 .../usecase/service/bucket_service.go         | 12 ++++++
 .../usecase/service/hashslot_service.go       | 18 ++++-----
 .../usecase/service/metadata_service.go       | 19 +++++++++
 9 files changed, 116 insertions(+), 11 deletions(-)

diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 61237d7..7ee0664 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -15,6 +15,7 @@ type (
 	MetadataRpcService interface {
 		ForeachVersionBytes(string, func([]byte) bool)
 		GetMetadataBytes(string) ([]byte, error)
+		VersionSequence(string) uint64
 		FilterKeys(fn func(string) bool) []string
 		FindByHash(hash string) (res []*msg.Version, err error)
 		UpdateLocates(hash string, locateIndex int, locate string) error
@@ -22,6 +23,7 @@ type (
 
 	IMetadataService interface {
 		MetadataRpcService
+		ReceiveMetadata(name string, sequence uint64, data *msg.Metadata) error
 		ReceiveVersion(string, *msg.Version) error
 		AddMetadata(string, *msg.Metadata) error
 		AddVersion(string, *msg.Version) (int, error)
@@ -37,6 +39,8 @@ type (
 
 	WritableRepo interface {
 		AddMetadata(string, *msg.Metadata) error
+		// ReceiveMetadata replaces metadata and all of its versions. Numbers of versions go on after the sequence.
+		ReceiveMetadata(name string, sequence uint64, data *msg.Metadata) error
 		AddVersion(string, *msg.Version) error
 		UpdateMetadata(string, *msg.Metadata) error
 		UpdateVersion(string, *msg.Version) error
@@ -89,6 +93,7 @@ type (
 		GetFirstVersionNumber(id string) uint64
 		ForeachVersionBytes(string, func([]byte) bool)
 		GetMetadataBytes(string) ([]byte, error)
+		VersionSequence(string) uint64
 		GetExtra(id string) (*msg.Extra, error)
 	}
 
@@ -157,5 +162,7 @@ type (
 
 	BucketService interface {
 		BucketRepo
+		// Receive replaces a bucket and keeps its times
+		Receive(bucket *msg.Bucket) error
 	}
 )
diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index d0a3129..6691d90 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -56,6 +56,19 @@ func AddMeta(id string, data *msg.Metadata) TxFunc {
 	}
 }
 
+// ReceiveMeta replaces metadata and all of its versions
+func ReceiveMeta(id string, sequence uint64, data *msg.Metadata) TxFunc {
+	return func(tx *bolt.Tx) error {
+		if err := RemoveMeta(id)(tx); err != nil {
+			return err
+		}
+		if err := AddMeta(id, data)(tx); err != nil {
+			return err
+		}
+		return GetVersionBucket(tx, id).SetSequence(sequence)
+	}
+}
+
 func RemoveMeta(name string) TxFunc {
 	return func(tx *bolt.Tx) error {
 		key := util.StrToBytes(name)
diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 2dff937..7d8c445 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -54,6 +54,8 @@ func (f *FSMImpl) applyMetadata(data *entity.RaftData) *FSMResponse {
 	switch data.Type {
 	case entity.LogInsert:
 		return FSMResult(repo.AddMetadata(data.Name, data.Metadata))
+	case entity.LogMigrate:
+		return FSMResult(repo.ReceiveMetadata(data.Name, data.Sequence, data.Metadata))
 	case entity.LogRemove:
 		return FSMResult(repo.RemoveMetadata(data.Name))
 	case entity.LogUpdate:
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index d7b59a4..1c06d11 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -55,6 +55,18 @@ func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
 	return br.Storage.Batch(logic.AddMeta(id, data))
 }
 
+func (br *BatchMetaRepo) ReceiveMetadata(id string, sequence uint64, data *msg.Metadata) error {
+	if data == nil {
+		return usecase.ErrNilData
+	}
+	var last uint64
+	if err := br.Storage.Batch(receiveMetadata(id, sequence, data, &last)); err != nil {
+		return err
+	}
+	br.Cache.RemoveVersions(id, last)
+	return br.Cache.RemoveMetadata(id)
+}
+
 func (br *BatchMetaRepo) UpdateMetadata(name string, data *msg.Metadata) error {
 	if data == nil {
 		return usecase.ErrNilData
diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 1a1cc79..70cbde8 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -164,6 +164,10 @@ func (m *MetadataCacheRepo) RemoveAllVersion(string) error {
 	panic("not impl RemoveAllVersion")
 }
 
+func (m *MetadataCacheRepo) ReceiveMetadata(string, uint64, *msg.Metadata) error {
+	panic("not impl ReceiveMetadata")
+}
+
 func (m *MetadataCacheRepo) AddVersionFromRaft(s string, version *msg.Version) error {
 	return m.AddVersion(s, version)
 }
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 1fd281b..fcf9807 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -37,6 +37,29 @@ func (m *MetadataRepo) AddMetadata(id string, data *msg.Metadata) error {
 	return nil
 }
 
+func (m *MetadataRepo) ReceiveMetadata(id string, sequence uint64, data *msg.Metadata) error {
+	if data == nil {
+		return usecase.ErrNilData
+	}
+	var last uint64
+	if err := m.MainDB.Update(receiveMetadata(id, sequence, data, &last)); err != nil {
+		return err
+	}
+	m.Cache.RemoveVersions(id, last)
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(id))
+	return nil
+}
+
+// receiveMetadata replaces metadata and all of its versions. 'last' is the highest number a version had.
+func receiveMetadata(id string, sequence uint64, data *msg.Metadata, last *uint64) usecase.TxFunc {
+	return func(tx *bolt.Tx) error {
+		if b := logic.GetVersionBucket(tx, id); b != nil {
+			*last = b.Sequence()
+		}
+		return logic.ReceiveMeta(id, sequence, data)(tx)
+	}
+}
+
 func (m *MetadataRepo) UpdateMetadata(name string, data *msg.Metadata) error {
 	if data == nil {
 		return usecase.ErrNilData
@@ -300,9 +323,24 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 	return m.MainDB.Replace(dbPath)
 }
 
+// VersionSequence returns the highest number a version had
+func (m *MetadataRepo) VersionSequence(name string) (seq uint64) {
+	_ = m.MainDB.View(func(tx *bolt.Tx) error {
+		if b := logic.GetVersionBucket(tx, name); b != nil {
+			seq = b.Sequence()
+		}
+		return nil
+	})
+	return
+}
+
 func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 	_ = m.MainDB.View(func(tx *bolt.Tx) error {
-		_ = logic.GetVersionBucket(tx, name).ForEach(func(k, v []byte) error {
+		b := logic.GetVersionBucket(tx, name)
+		if b == nil {
+			return nil
+		}
+		_ = b.ForEach(func(k, v []byte) error {
 			if !fn(v) {
 				return usecase.ErrNotFound
 			}
diff --git a/src/metaserver/internal/usecase/service/bucket_service.go b/src/metaserver/internal/usecase/service/bucket_service.go
index cf949ac..9b5cdb4 100644
--- a/src/metaserver/internal/usecase/service/bucket_service.go
+++ b/src/metaserver/internal/usecase/service/bucket_service.go
@@ -23,6 +23,18 @@ func (b *BucketService) Create(bucket *msg.Bucket) error {
 	}
 	bucket.CreateTime = time.Now().UnixMilli()
 	bucket.UpdateTime = bucket.CreateTime
+	return b.create(bucket)
+}
+
+// Receive replaces a bucket and keeps its times
+func (b *BucketService) Receive(bucket *msg.Bucket) error {
+	if err := b.Remove(bucket.Name); err != nil {
+		return err
+	}
+	return b.create(bucket)
+}
+
+func (b *BucketService) create(bucket *msg.Bucket) error {
 	if ok, _, err := b.ApplyRaft(&entity.RaftData{
 		Type:   entity.LogInsert,
 		Dest:   entity.DestBucket,
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 1929441..668e6a4 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -233,20 +233,17 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.Service.AddMetadata(item.Name, &i)
+		err = h.Service.ReceiveMetadata(item.Name, item.Sequence, &i)
 	case entity.DestBucket:
 		var i msg.Bucket
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.BucketService.Create(&i)
+		err = h.BucketService.Receive(&i)
 	default:
-		hsLog.Errorf("unknown migration item: %d", item.Dest)
+		err = fmt.Errorf("unknown migration item: %d", item.Dest)
 	}
-	if err != nil && !errors.Is(err, usecase.ErrExists) {
-		return err
-	}
-	return nil
+	return err
 }
 
 // AutoMigrate migrate data
@@ -315,9 +312,10 @@ func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveCli
 		}
 		// send data
 		if err = stream.Send(&pb.MigrationItem{
-			Name: key,
-			Data: data,
-			Dest: int32(entity.DestMetadata),
+			Name:     key,
+			Data:     data,
+			Dest:     int32(entity.DestMetadata),
+			Sequence: h.Service.VersionSequence(key),
 		}); err != nil {
 			hsLog.Debugf("send metadata %s err: %s", key, err)
 			errs = append(errs, err)
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index b2d2274..a44d24b 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -63,6 +63,21 @@ func (m *MetadataService) AddVersion(name string, data *msg.Version) (int, error
 	return int(data.Sequence), nil
 }
 
+// ReceiveMetadata replaces metadata and all of its versions
+func (m *MetadataService) ReceiveMetadata(name string, sequence uint64, data *msg.Metadata) error {
+	if ok, _, err := m.ApplyRaft(&entity.RaftData{
+		Type:     entity.LogMigrate,
+		Dest:     entity.DestMetadata,
+		Name:     name,
+		Sequence: sequence,
+		Metadata: data,
+	}); ok {
+		return err
+	}
+
+	return m.repo.ReceiveMetadata(name, sequence, data)
+}
+
 func (m *MetadataService) ReceiveVersion(name string, data *msg.Version) error {
 	if ok, _, err := m.ApplyRaft(&entity.RaftData{
 		Type:    entity.LogMigrate,
@@ -206,6 +221,10 @@ func (m *MetadataService) GetMetadataBytes(name string) ([]byte, error) {
 	return m.repo.GetMetadataBytes(name)
 }
 
+func (m *MetadataService) VersionSequence(name string) uint64 {
+	return m.repo.VersionSequence(name)
+}
+
 func (m *MetadataService) FindByHash(hash string) (res []*msg.Version, err error) {
 	keys, err := m.hashIndex.FindAll(hash)
 	if err != nil {
-- 
2.43.0


From a6bfc8d781c888919bfbc4f46acc2299832b3a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 79/98] fix: hash slots are moved at once, and what was moved
 is removed only afterwards

---
 src/common/hashslot/hash_slot.go              |  32 ++
 .../controller/grpc/hashslot_server.go        |  11 +-
 .../internal/usecase/db/hashslot_db.go        | 143 ++++++-
 src/metaserver/internal/usecase/interfaces.go |   3 +-
 .../internal/usecase/logic/hashslot_logic.go  |   9 +-
 .../internal/usecase/logic/metadata_logic.go  |   3 +
 .../internal/usecase/raftimpl/raft_impl.go    |   9 +
 .../usecase/service/hashslot_service.go       | 369 +++++++++---------
 8 files changed, 387 insertions(+), 192 deletions(-)

diff --git a/src/common/hashslot/hash_slot.go b/src/common/hashslot/hash_slot.go
index 89be98a..0d0c4f8 100644
--- a/src/common/hashslot/hash_slot.go
+++ b/src/common/hashslot/hash_slot.go
@@ -199,6 +199,38 @@ func CombineEdges(src EdgeList, dest EdgeList) EdgeList {
 	return newEdges
 }
 
+// HasSlots returns true if all of the other slots are in slots
+func HasSlots(slots []string, others []string) (bool, error) {
+	left, err := RemoveSlots(others, slots)
+	return err == nil && len(left) == 0, err
+}
+
+// AddSlots returns slots and the others
+func AddSlots(slots []string, others []string) ([]string, error) {
+	src, err := WrapSlotsToEdges(slots, "")
+	if err != nil {
+		return nil, err
+	}
+	dest, err := WrapSlotsToEdges(others, "")
+	if err != nil {
+		return nil, err
+	}
+	return CombineEdges(src, dest).Strings(), nil
+}
+
+// RemoveSlots returns slots without the others
+func RemoveSlots(slots []string, others []string) ([]string, error) {
+	src, err := WrapSlotsToEdges(slots, "")
+	if err != nil {
+		return nil, err
+	}
+	dest, err := WrapSlotsToEdges(others, "")
+	if err != nil {
+		return nil, err
+	}
+	return RemoveEdges(src, dest).Strings(), nil
+}
+
 // RemoveEdges remove edges contains in dest from src
 func RemoveEdges(src EdgeList, dest EdgeList) EdgeList {
 	buf1 := make(EdgeList, 0, len(src)+len(dest))
diff --git a/src/metaserver/internal/controller/grpc/hashslot_server.go b/src/metaserver/internal/controller/grpc/hashslot_server.go
index cff0de6..6aa2f9e 100644
--- a/src/metaserver/internal/controller/grpc/hashslot_server.go
+++ b/src/metaserver/internal/controller/grpc/hashslot_server.go
@@ -20,7 +20,7 @@ func NewHashSlotServer(serv usecase.IHashSlotService) *HashSlotServer {
 }
 
 func (h *HashSlotServer) PrepareMigration(_ context.Context, req *pb.PrepareReq) (*pb.Response, error) {
-	if err := h.Service.PrepareMigrationFrom(req.GetLocation(), req.GetSlots()); err != nil {
+	if err := h.Service.PrepareMigrationFrom(req.GetId(), req.GetLocation(), req.GetSlots()); err != nil {
 		return &pb.Response{Success: false, Message: err.Error()}, nil
 	}
 	return okResp, nil
@@ -37,8 +37,12 @@ func (h *HashSlotServer) StartMigration(_ context.Context, req *pb.MigrationReq)
 }
 
 func (h *HashSlotServer) StreamingReceive(stream pb.HashSlot_StreamingReceiveServer) (err error) {
+	if err = h.Service.StartReceive(); err != nil {
+		return err
+	}
+	finished := false
 	defer func() {
-		if err != nil {
+		if !finished {
 			log.Errorf("stream receive abort, migrate failed: %s", err)
 			if err2 := h.Service.FinishReceiveItem(false); err2 != nil {
 				err = fmt.Errorf("%w: %s", err2, err)
@@ -54,6 +58,7 @@ func (h *HashSlotServer) StreamingReceive(stream pb.HashSlot_StreamingReceiveSer
 		item, err = stream.Recv()
 		// if client side close send
 		if err == io.EOF {
+			finished = true
 			return nil
 		}
 		// if client side abort
@@ -63,6 +68,8 @@ func (h *HashSlotServer) StreamingReceive(stream pb.HashSlot_StreamingReceiveSer
 		if err = h.Service.ReceiveItem(item); err != nil {
 			resp.Success = false
 			resp.Message = err.Error()
+			util.LogErr(stream.Send(&resp))
+			return
 		}
 		util.LogErr(stream.Send(&resp))
 	}
diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index 5a2d659..e484170 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -11,6 +11,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"go.etcd.io/etcd/api/v3/mvccpb"
 	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
@@ -236,7 +237,7 @@ func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
 		return errors.New("status not in normal")
 	}
 	info.GroupID = id
-	defer h.expire()
+	defer h.Expire()
 	for {
 		saved, err := h.trySave(id, info)
 		if err != nil || saved {
@@ -293,15 +294,149 @@ func (h *HashSlotDB) Remove(id string) error {
 	}
 	key := fmt.Sprint(h.KeyPrefix, id)
 	_, err := h.kv.Delete(context.Background(), key)
-	h.expire()
+	h.Expire()
 	if err != nil {
 		return err
 	}
 	return nil
 }
 
-// expire lets the next use reload the slots
-func (h *HashSlotDB) expire() {
+// read returns a record and its revision
+func (h *HashSlotDB) read(ctx context.Context, id string) (*hashslot.SlotInfo, *mvccpb.KeyValue, error) {
+	resp, err := h.kv.Get(ctx, fmt.Sprint(h.KeyPrefix, id))
+	if err != nil || len(resp.Kvs) == 0 {
+		return nil, nil, err
+	}
+	var info hashslot.SlotInfo
+	return &info, resp.Kvs[0], util.DecodeMsgp(&info, resp.Kvs[0].Value)
+}
+
+// Revision returns when the record has been saved and whether it has all of the slots
+func (h *HashSlotDB) Revision(id string, slots []string) (int64, bool, error) {
+	ctx, cancel := context.WithTimeout(context.Background(), saveTimeout)
+	defer cancel()
+	info, kv, err := h.read(ctx, id)
+	if err != nil || info == nil {
+		return 0, false, err
+	}
+	has, err := hashslot.HasSlots(info.Slots, slots)
+	return kv.ModRevision, has, err
+}
+
+// Take moves slots from the store 'from' to the store 'to' at once, unless 'from' was saved after the revision.
+// It tries until etcd tells the outcome.
+func (h *HashSlotDB) Take(from string, revision int64, to, serverID string, slots []string) error {
+	defer h.Expire()
+	for {
+		if done, err := h.tryTake(from, revision, to, serverID, slots); done {
+			return err
+		} else if err != nil {
+			hsLog.Errorf("take slots from %s: %s", from, err)
+			time.Sleep(time.Second)
+		}
+	}
+}
+
+func (h *HashSlotDB) tryTake(from string, revision int64, to, serverID string, slots []string) (bool, error) {
+	ctx, cancel := context.WithTimeout(context.Background(), saveTimeout)
+	defer cancel()
+	src, srcKv, err := h.read(ctx, from)
+	if err != nil {
+		return false, err
+	}
+	dst, dstKv, err := h.read(ctx, to)
+	if err != nil {
+		return false, err
+	}
+	dstRevision := int64(0)
+	if dst != nil {
+		dstRevision = dstKv.ModRevision
+		// an attempt of which the answer was lost
+		if has, err := hashslot.HasSlots(dst.Slots, slots); err != nil || has {
+			return true, err
+		}
+		if dst.ServerID != serverID {
+			return true, fmt.Errorf("%s is not the server of %s", serverID, to)
+		}
+	} else {
+		dst = &hashslot.SlotInfo{GroupID: to, ServerID: serverID}
+	}
+	if src == nil || srcKv.ModRevision != revision {
+		return true, fmt.Errorf("slots of %s have changed", from)
+	}
+	if src.Slots, err = hashslot.RemoveSlots(src.Slots, slots); err != nil {
+		return true, err
+	}
+	if dst.Slots, err = hashslot.AddSlots(dst.Slots, slots); err != nil {
+		return true, err
+	}
+	srcBt, err := util.EncodeMsgp(src)
+	if err != nil {
+		return true, err
+	}
+	dstBt, err := util.EncodeMsgp(dst)
+	if err != nil {
+		return true, err
+	}
+	srcKey, dstKey := fmt.Sprint(h.KeyPrefix, from), fmt.Sprint(h.KeyPrefix, to)
+	resp, err := h.kv.Txn(ctx).
+		If(
+			clientv3.Compare(clientv3.ModRevision(srcKey), "=", revision),
+			clientv3.Compare(clientv3.ModRevision(dstKey), "=", dstRevision),
+		).
+		Then(clientv3.OpPut(srcKey, string(srcBt)), clientv3.OpPut(dstKey, string(dstBt))).
+		Commit()
+	if err != nil {
+		return false, err
+	}
+	return resp.Succeeded, nil
+}
+
+// Taken tells whether another store has taken the slots. If not, it is not able to do so any more.
+// It tries until etcd tells the outcome.
+func (h *HashSlotDB) Taken(id string, slots []string) bool {
+	defer h.Expire()
+	for {
+		done, taken, err := h.tryTaken(id, slots)
+		if done {
+			return taken
+		} else if err != nil {
+			hsLog.Errorf("outcome of the migration: %s", err)
+			time.Sleep(time.Second)
+		}
+	}
+}
+
+func (h *HashSlotDB) tryTaken(id string, slots []string) (done bool, taken bool, err error) {
+	ctx, cancel := context.WithTimeout(context.Background(), saveTimeout)
+	defer cancel()
+	info, kv, err := h.read(ctx, id)
+	if err != nil {
+		return false, false, err
+	}
+	if info == nil {
+		return true, false, nil
+	}
+	has, err := hashslot.HasSlots(info.Slots, slots)
+	if err != nil {
+		return false, false, err
+	}
+	if !has {
+		return true, true, nil
+	}
+	// a new revision
+	resp, err := h.kv.Txn(ctx).
+		If(clientv3.Compare(clientv3.ModRevision(string(kv.Key)), "=", kv.ModRevision)).
+		Then(clientv3.OpPut(string(kv.Key), string(kv.Value))).
+		Commit()
+	if err != nil {
+		return false, false, err
+	}
+	return resp.Succeeded, false, nil
+}
+
+// Expire lets the next use reload the slots
+func (h *HashSlotDB) Expire() {
 	h.reloadMux.Lock()
 	defer h.reloadMux.Unlock()
 	h.updatedAt.Store(0)
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 7ee0664..10723a4 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -116,8 +116,9 @@ type (
 
 	IHashSlotService interface {
 		AutoMigrate(toLoc *pb.LocationInfo, slots []string) error
-		PrepareMigrationFrom(loc *pb.LocationInfo, slots []string) error
+		PrepareMigrationFrom(id string, loc *pb.LocationInfo, slots []string) error
 		PrepareMigrationTo(loc *pb.LocationInfo, slots []string) error
+		StartReceive() error
 		ReceiveItem(*pb.MigrationItem) error
 		FinishReceiveItem(bool) error
 		GetCurrentSlots(bool) (map[string][]string, error)
diff --git a/src/metaserver/internal/usecase/logic/hashslot_logic.go b/src/metaserver/internal/usecase/logic/hashslot_logic.go
index c936930..9049314 100644
--- a/src/metaserver/internal/usecase/logic/hashslot_logic.go
+++ b/src/metaserver/internal/usecase/logic/hashslot_logic.go
@@ -37,14 +37,19 @@ func (HashSlot) GetSlotsProvider() (hashslot.IEdgeProvider, error) {
 func (h HashSlot) SaveToEtcd(id string, info *hashslot.SlotInfo) error {
 	info.GroupID = id
 	info.ServerID = pool.Config.Registry.SID()
+	h.Persist(info.Slots)
+	return pool.HashSlot.Save(id, info)
+}
+
+// Persist saves slots to the configuration
+func (HashSlot) Persist(slots []string) {
 	go func() {
-		pool.Config.HashSlot.Slots = info.Slots
+		pool.Config.HashSlot.Slots = slots
 		if err := pool.Config.Persist(); err != nil {
 			logs.Std().Errorf("persist config err: %s", err)
 			return
 		}
 	}()
-	return pool.HashSlot.Save(id, info)
 }
 
 func (HashSlot) RemoveFromEtcd(id string) error {
diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 6691d90..6e79104 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -23,6 +23,9 @@ const (
 func ForeachKeys(fn func(string) bool) TxFunc {
 	return func(tx *bolt.Tx) error {
 		root := GetMetadataBucket(tx)
+		if root == nil {
+			return nil
+		}
 		return root.ForEach(func(k, v []byte) error {
 			if !fn(string(k)) {
 				return ErrNotFound
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 7a2b390..82828d6 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -16,6 +16,7 @@ import (
 	"strings"
 	"sync"
 	"sync/atomic"
+	"time"
 
 	"github.com/hashicorp/raft"
 	boltdb "github.com/hashicorp/raft-boltdb/v2"
@@ -203,6 +204,14 @@ func (rw *RaftWrapper) IsLeader() bool {
 	return rw.isLeader.Load() && rw.Enabled
 }
 
+// Barrier returns after everything that is committed has been applied
+func (rw *RaftWrapper) Barrier(timeout time.Duration) error {
+	if !rw.Enabled {
+		return nil
+	}
+	return rw.Raft.Barrier(timeout).Error()
+}
+
 // HasPeers returns true if there are other members in the raft group
 func (rw *RaftWrapper) HasPeers() bool {
 	if !rw.Enabled {
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 668e6a4..cc6dc69 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -11,6 +11,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"io"
 	"metaserver/config"
 	"metaserver/internal/entity"
 	"metaserver/internal/usecase"
@@ -33,7 +34,8 @@ type HashSlotService struct {
 	Service       usecase.IMetadataService
 	BucketService usecase.BucketService
 	Cfg           *config.HashSlotConfig
-	startReceive  func()
+	incomingMux   sync.Mutex
+	incoming      *incoming
 	leaderMux     sync.Mutex
 	leaderTerm    int
 }
@@ -44,7 +46,6 @@ func NewHashSlotService(st *db.HashSlotDB, serv usecase.IMetadataService, bucket
 		Service:       serv,
 		BucketService: bucketService,
 		Cfg:           cfg,
-		startReceive:  func() {},
 	}
 }
 
@@ -53,6 +54,8 @@ func (h *HashSlotService) OnLeaderChanged(isLeader bool) {
 	h.leaderTerm++
 	term := h.leaderTerm
 	h.leaderMux.Unlock()
+	// others may have been the leader since the slots were loaded
+	h.Store.Expire()
 	if !isLeader || h.saveAsLeader(term) {
 		return
 	}
@@ -108,29 +111,41 @@ func (h *HashSlotService) GetCurrentSlots(reload bool) (map[string][]string, err
 	return res, nil
 }
 
-func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []string) error {
-	// validate slots
-	provider, err := h.Store.GetEdgeProvider(false)
+func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []string) (err error) {
+	// ensure all slots is in this server
+	if len(slots) == 0 {
+		return errors.New("no slots")
+	}
+	_, has, err := h.Store.Revision(h.Cfg.StoreID, slots)
 	if err != nil {
 		return err
 	}
-	edges, err := hashslot.WrapSlotsToEdges(slots, pool.Config.Registry.SID())
-	if err != nil {
+	if !has {
+		return fmt.Errorf("slots %s are not in this server", slots)
+	}
+	address := net.JoinHostPort(loc.GetHost(), loc.GetPort())
+	// change status to migrate-to
+	if err = h.Store.ReadyMigrateTo(address, slots); err != nil {
 		return err
 	}
-	// ensure all slots is in this server
-	for _, edge := range edges {
-		if !hashslot.IsValidEdge(edge, provider) {
-			return fmt.Errorf("slot %s is not in this server", edge)
+	defer func() {
+		if err != nil {
+			util.LogErr(h.Store.FinishMigrateTo())
 		}
+	}()
+	// the storage has to be up-to-date
+	if err = pool.RaftWrapper.Barrier(5 * time.Second); err != nil {
+		return err
 	}
 	// send prepare rpc to target
-	cc, err := grpc.Dial(net.JoinHostPort(loc.GetHost(), loc.GetPort()), grpc.WithInsecure())
+	cc, err := grpc.Dial(address, grpc.WithInsecure())
 	if err != nil {
 		return err
 	}
-	client := pb.NewHashSlotClient(cc)
-	resp, err := client.PrepareMigration(context.Background(), &pb.PrepareReq{
+	defer cc.Close()
+	ctx, cancel := context.WithTimeout(context.Background(), h.Cfg.PrepareTimeout)
+	defer cancel()
+	resp, err := pb.NewHashSlotClient(cc).PrepareMigration(ctx, &pb.PrepareReq{
 		Id: h.Cfg.StoreID,
 		Location: &pb.LocationInfo{
 			Host: util.DetectServerIP(),
@@ -144,82 +159,112 @@ func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []strin
 	if !resp.GetSuccess() {
 		return errors.New(resp.GetMessage())
 	}
-	// change status to migrate-to
-	return h.Store.ReadyMigrateTo(loc.GetHost(), slots)
+	return nil
+}
+
+// incoming are slots being received
+type incoming struct {
+	from     string // store which has the slots
+	revision int64  // when they have been saved
+	slots    []string
+	edges    hashslot.EdgeList
+	started  bool
+	names    []string
+	buckets  []string
 }
 
 // PrepareMigrationFrom Change into migrate-from. Status will change back if timeout
-func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []string) error {
-	// validate slots
-	provider, err := h.Store.GetEdgeProvider(false)
+func (h *HashSlotService) PrepareMigrationFrom(id string, loc *pb.LocationInfo, slots []string) error {
+	edges, err := hashslot.WrapSlotsToEdges(slots, "")
 	if err != nil {
 		return err
 	}
-	edges, err := hashslot.WrapSlotsToEdges(slots, pool.Config.Registry.SID())
+	if id == h.Cfg.StoreID {
+		return fmt.Errorf("slots %s are currently in this server", slots)
+	}
+	// ensure all slots are in that store
+	revision, has, err := h.Store.Revision(id, slots)
 	if err != nil {
 		return err
 	}
-	// ensure all slots is not in this server
-	for _, edge := range edges {
-		if hashslot.IsValidEdge(edge, provider) {
-			return fmt.Errorf("slot %s is currently in this server", edge)
-		}
+	if !has {
+		return fmt.Errorf("slots %s are not in %s", slots, id)
 	}
 	// change status to migrate-from
-	if err = h.Store.ReadyMigrateFrom(loc.GetHost(), slots); err != nil {
+	if err = h.Store.ReadyMigrateFrom(net.JoinHostPort(loc.GetHost(), loc.GetPort()), slots); err != nil {
 		return err
 	}
-	cancelCh := make(chan struct{})
-	h.startReceive = func() {
-		close(cancelCh)
-		h.startReceive = func() {}
-	}
-	go func() {
-		select {
-		case <-cancelCh:
-			logs.Std().Debug("migration-from timeout-ctx canceled")
-		case <-time.NewTicker(h.Cfg.PrepareTimeout).C:
-			_ = h.Store.FinishMigrateFrom()
+	in := &incoming{from: id, revision: revision, slots: slots, edges: edges}
+	h.incomingMux.Lock()
+	defer h.incomingMux.Unlock()
+	h.incoming = in
+	time.AfterFunc(h.Cfg.PrepareTimeout, func() {
+		h.incomingMux.Lock()
+		defer h.incomingMux.Unlock()
+		if h.incoming == in && !in.started {
+			h.incoming = nil
+			util.LogErr(h.Store.FinishMigrateFrom())
 			logs.Std().Errorf("timeout migrating from %s", loc.GetHost())
 		}
-	}()
+	})
 	return nil
 }
 
-func (h *HashSlotService) FinishReceiveItem(success bool) error {
-	h.startReceive()
-	var (
-		newSlots []string
-		fromHost string
-		ok       bool
-	)
-	if ok, fromHost, newSlots = h.Store.GetMigrateFrom(); !ok {
-		return fmt.Errorf("get received slots fails: server is not in migrate-from")
-	}
-	if err := h.Store.FinishMigrateFrom(); err != nil {
-		util.LogErr(err)
-	}
-	if !success {
-		return nil
+// StartReceive has to be called once before items are received. FinishReceiveItem has to follow.
+func (h *HashSlotService) StartReceive() error {
+	h.incomingMux.Lock()
+	defer h.incomingMux.Unlock()
+	if h.incoming == nil || h.incoming.started {
+		return errors.New("server is not ready to receive")
+	}
+	h.incoming.started = true
+	return nil
+}
+
+func (h *HashSlotService) FinishReceiveItem(success bool) (err error) {
+	h.incomingMux.Lock()
+	in := h.incoming
+	h.incomingMux.Unlock()
+	if in == nil {
+		return errors.New("server is not receiving")
+	}
+	defer func() {
+		h.incomingMux.Lock()
+		h.incoming = nil
+		h.incomingMux.Unlock()
+		util.LogErr(h.Store.FinishMigrateFrom())
+	}()
+	if success {
+		err = h.Store.Take(in.from, in.revision, h.Cfg.StoreID, pool.Config.Registry.SID(), in.slots)
+		if err == nil {
+			logs.Std().Debugf("finish migration from %s success", in.from)
+			if info, ok, err := h.Store.Get(h.Cfg.StoreID); err == nil && ok {
+				logic.NewHashSlot().Persist(info.Slots)
+			}
+			return nil
+		}
+		err = fmt.Errorf("update slot fails after finish migration: %w", err)
 	}
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
-	if err != nil {
-		return fmt.Errorf("update slot fails after finish migration: %w", err)
+	// the slots still belong to the sender
+	for _, name := range in.names {
+		util.LogErrWithPre("remove received metadata", h.Service.RemoveMetadata(name))
 	}
-	// combine to new slots, ignore error because both have been validated
-	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
-	newEdges, _ := hashslot.WrapSlotsToEdges(newSlots, "")
-	info.Slots = hashslot.CombineEdges(curEdges, newEdges).Strings()
-	// save new slot-info
-	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
-		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
+	for _, name := range in.buckets {
+		util.LogErrWithPre("remove received bucket", h.BucketService.Remove(name))
 	}
-	logs.Std().Debugf("finish migration from %s success", fromHost)
-	return nil
+	return err
 }
 
 func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
-	h.startReceive()
+	h.incomingMux.Lock()
+	in := h.incoming
+	h.incomingMux.Unlock()
+	if in == nil || !in.started {
+		return errors.New("server is not receiving")
+	}
+	if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot([]byte(item.Name)), in.edges) {
+		return fmt.Errorf("%s is not in the slots to be received", item.Name)
+	}
 	var err error
 	switch entity.Dest(item.Dest) {
 	case entity.DestVersion:
@@ -233,12 +278,17 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
+		in.names = append(in.names, item.Name)
 		err = h.Service.ReceiveMetadata(item.Name, item.Sequence, &i)
 	case entity.DestBucket:
 		var i msg.Bucket
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
+		if i.Name != item.Name {
+			return fmt.Errorf("bucket %s is named %s", item.Name, i.Name)
+		}
+		in.buckets = append(in.buckets, item.Name)
 		err = h.BucketService.Receive(&i)
 	default:
 		err = fmt.Errorf("unknown migration item: %d", item.Dest)
@@ -249,12 +299,17 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 // AutoMigrate migrate data
 // TODO(perf): multi goroutine
 func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) error {
-	if ok, host, _ := h.Store.GetMigrateTo(); !ok || host != toLoc.GetHost() {
-		return fmt.Errorf("no ready to migrate to %s", toLoc.GetHost())
+	address := net.JoinHostPort(toLoc.GetHost(), toLoc.GetPort())
+	if ok, host, _ := h.Store.GetMigrateTo(); !ok || host != address {
+		return fmt.Errorf("no ready to migrate to %s", address)
 	}
 	defer h.Store.FinishMigrateTo() // avoid status stick if PANIC
+	edges, err := hashslot.WrapSlotsToEdges(slots, "")
+	if err != nil {
+		return err
+	}
 	// connect to target
-	cc, err := grpc.Dial(net.JoinHostPort(toLoc.Host, toLoc.Port), grpc.WithInsecure())
+	cc, err := grpc.Dial(address, grpc.WithInsecure())
 	if err != nil {
 		return err
 	}
@@ -265,156 +320,104 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	if err != nil {
 		return err
 	}
-	delEdges, _ := hashslot.WrapSlotsToEdges(slots, "")
-	var errs []error
-	errs = append(errs, h.migrateMetadata(stream, delEdges)...)
-	errs = append(errs, h.migrateBuckets(stream, delEdges)...)
-	if len(errs) > 0 {
-		return errors.Join(errs...)
-	}
-	// all migrate success
-	if err = h.Store.FinishMigrateTo(); err != nil {
-		hsLog.Debugf("switch status to normal err: %s", err)
+	names, err := h.migrateMetadata(stream, edges)
+	if err != nil {
+		return err
 	}
-	// remove slots from current slot-info
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
+	buckets, err := h.migrateBuckets(stream, edges)
 	if err != nil {
-		return fmt.Errorf("update slot fails after finish migration: %w", err)
+		return err
 	}
-	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
-	info.Slots = hashslot.RemoveEdges(curEdges, delEdges).Strings()
-	// save new slot-info
-	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
-		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
+	// the target takes the slots at the end of the stream
+	if err = stream.CloseSend(); err == nil {
+		if _, err = stream.Recv(); err == nil {
+			err = errors.New("unexpected response of target")
+		}
+	}
+	if !h.Store.Taken(h.Cfg.StoreID, slots) {
+		return fmt.Errorf("target has not taken the slots: %w", err)
 	}
-	// close stream as success
-	if err = stream.CloseSend(); err != nil {
-		hsLog.Error(err)
+	if info, ok, err := h.Store.Get(h.Cfg.StoreID); err == nil && ok {
+		logic.NewHashSlot().Persist(info.Slots)
+	}
+	// nobody asks for them here any more
+	for _, name := range names {
+		util.LogErrWithPre("remove migrated metadata", h.Service.RemoveMetadata(name))
+	}
+	for _, name := range buckets {
+		util.LogErrWithPre("remove migrated bucket", h.BucketService.Remove(name))
 	}
 	hsLog.Infof("finish migration to %s success", toLoc.Host)
 	return nil
 }
 
-func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var sucNum int
-	metaKeys := h.Service.FilterKeys(func(s string) bool {
+func sendItem(stream pb.HashSlot_StreamingReceiveClient, item *pb.MigrationItem) error {
+	if err := stream.Send(item); err != nil && err != io.EOF {
+		return err
+	}
+	// recv response
+	_, err := proto.ResolveResponse(stream.Recv())
+	return err
+}
+
+// migrateMetadata sends all metadata and versions. Returns the names
+func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) ([]string, error) {
+	names := h.Service.FilterKeys(func(s string) bool {
 		return hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(s)), edges)
 	})
-	total := len(metaKeys)
-	// send all metadata and versions
-	for len(metaKeys) > 0 {
-		key := metaKeys[0]
-		metaKeys = metaKeys[1:] // for earlier GC
+	for _, key := range names {
 		data, err := h.Service.GetMetadataBytes(key)
 		if err != nil {
-			errs = append(errs, err)
-			continue
+			return nil, err
 		}
-		// send data
-		if err = stream.Send(&pb.MigrationItem{
+		if err = sendItem(stream, &pb.MigrationItem{
 			Name:     key,
 			Data:     data,
 			Dest:     int32(entity.DestMetadata),
 			Sequence: h.Service.VersionSequence(key),
 		}); err != nil {
-			hsLog.Debugf("send metadata %s err: %s", key, err)
-			errs = append(errs, err)
-			continue
-		}
-		// recv response
-		_, err = proto.ResolveResponse(stream.Recv())
-		if err != nil {
-			hsLog.Debugf("recv send-metadata %s response err: %s", key, err)
-			errs = append(errs, err)
-			continue
+			return nil, fmt.Errorf("send metadata %s: %w", key, err)
 		}
-		// start send versions
-		allVersionSuccess := true
 		h.Service.ForeachVersionBytes(key, func(b []byte) bool {
-			// send version
-			if err = stream.Send(&pb.MigrationItem{
+			err = sendItem(stream, &pb.MigrationItem{
 				Name: key,
 				Data: b,
 				Dest: int32(entity.DestVersion),
-			}); err != nil {
-				errs = append(errs, err)
-				allVersionSuccess = false
-				hsLog.Debugf("send-metadata-version %s err: %s", key, err)
-			}
-			// recv response
-			_, err = proto.ResolveResponse(stream.Recv())
-			if err != nil {
-				errs = append(errs, err)
-				allVersionSuccess = false
-				hsLog.Debugf("send-metadata-version %s recv err: %s", key, err)
-			}
-			return true
+			})
+			return err == nil
 		})
-		if !allVersionSuccess {
-			continue
+		if err != nil {
+			return nil, fmt.Errorf("send version of %s: %w", key, err)
 		}
-		sucNum++
-		// delete if all success
-		go func() {
-			defer graceful.Recover()
-			if inner := h.Service.RemoveMetadata(key); inner != nil {
-				hsLog.Errorf("delete-metadata %s fail: %s", key, inner)
-			}
-		}()
 	}
-	hsLog.Infof("migration totally %d metadata and successed %d verions", total, sucNum)
-	return
+	hsLog.Infof("migration totally %d metadata", len(names))
+	return names, nil
 }
 
-func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var successBuckets int
-	var migKeys [][]byte
-	err := h.BucketService.Foreach(func(k []byte, _ []byte) error {
-		if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
-			return nil
+// migrateBuckets sends all buckets. Returns the names
+func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (names []string, err error) {
+	err = h.BucketService.Foreach(func(k []byte, _ []byte) error {
+		if hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
+			names = append(names, string(k))
 		}
-		// the key is only valid during the transaction
-		migKeys = append(migKeys, append([]byte(nil), k...))
 		return nil
 	})
-	total := len(migKeys)
-	for len(migKeys) > 0 {
-		k := migKeys[0]
-		migKeys = migKeys[1:] // for earlier GC
-		keyStr := util.BytesToStr(k)
-		v, err := h.BucketService.GetBytes(keyStr)
+	if err != nil && !usecase.IsNotFound(err) {
+		return nil, err
+	}
+	for _, name := range names {
+		data, err := h.BucketService.GetBytes(name)
 		if err != nil {
-			errs = append(errs, err)
-			continue
+			return nil, err
 		}
-		// send data
-		if err = stream.Send(&pb.MigrationItem{
-			Name: keyStr,
-			Data: v,
+		if err = sendItem(stream, &pb.MigrationItem{
+			Name: name,
+			Data: data,
 			Dest: int32(entity.DestBucket),
 		}); err != nil {
-			hsLog.Debugf("send bucket %s err: %s", keyStr, err)
-			errs = append(errs, err)
-			continue
-		}
-		// recv response
-		_, err = proto.ResolveResponse(stream.Recv())
-		if err != nil {
-			hsLog.Debugf("recv send-bucket %s response err: %s", keyStr, err)
-			errs = append(errs, err)
-			continue
+			return nil, fmt.Errorf("send bucket %s: %w", name, err)
 		}
-		successBuckets++
-		go func() {
-			defer graceful.Recover()
-			if err := h.BucketService.Remove(keyStr); err != nil {
-				hsLog.Errorf("delete-bucket %s err: %s", keyStr, err)
-			}
-		}()
-	}
-	if err != nil {
-		errs = append(errs, err)
 	}
-	hsLog.Infof("migration totally %d buckets and successed %d", total, successBuckets)
-	return
+	hsLog.Infof("migration totally %d buckets", len(names))
+	return names, nil
 }
-- 
2.43.0


From ea173e7a8e1e15506eb71825d7773f8ad8c76ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 80/98] fix: refuse reading names of other servers over http as
 over grpc

---
 .../internal/controller/http/middleware.go    | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/metaserver/internal/controller/http/middleware.go b/src/metaserver/internal/controller/http/middleware.go
index 39e3356..e631d92 100644
--- a/src/metaserver/internal/controller/http/middleware.go
+++ b/src/metaserver/internal/controller/http/middleware.go
@@ -38,19 +38,17 @@ func CheckInNormal(c *gin.Context) {
 }
 
 func CheckKeySlot(c *gin.Context) {
-	if isWriteMethod(c.Request.Method) {
-		name := c.Param("name")
-		if name == "" {
-			c.Next()
-			return
-		}
-		if ok, other := logic.NewHashSlot().IsKeyOnThisServer(name); !ok {
-			response.Exec(c).
-				Header(gin.H{"Location": logic.NewDiscovery().PeerLocation(other, c)}).
-				Fail(http.StatusBadRequest, "see other")
-			c.Abort()
-			return
-		}
+	name := c.Param("name")
+	if name == "" {
+		c.Next()
+		return
+	}
+	if ok, other := logic.NewHashSlot().IsKeyOnThisServer(name); !ok {
+		response.Exec(c).
+			Header(gin.H{"Location": logic.NewDiscovery().PeerLocation(other, c)}).
+			Fail(http.StatusBadRequest, "see other")
+		c.Abort()
+		return
 	}
 	c.Next()
 }
-- 
2.43.0


From 268ddd63ace8dc57588dacd293cd2506c6e0b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 81/98] fix: what an earlier migration left does not come back
 with the hash slots

---
 .../usecase/service/hashslot_service.go       | 127 +++++++++++-------
 1 file changed, 77 insertions(+), 50 deletions(-)

diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index cc6dc69..0199c4f 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -169,8 +169,6 @@ type incoming struct {
 	slots    []string
 	edges    hashslot.EdgeList
 	started  bool
-	names    []string
-	buckets  []string
 }
 
 // PrepareMigrationFrom Change into migrate-from. Status will change back if timeout
@@ -212,13 +210,68 @@ func (h *HashSlotService) PrepareMigrationFrom(id string, loc *pb.LocationInfo,
 
 // StartReceive has to be called once before items are received. FinishReceiveItem has to follow.
 func (h *HashSlotService) StartReceive() error {
+	in, err := h.startIncoming()
+	if err != nil {
+		return err
+	}
+	// an earlier migration may have left something
+	if err = pool.RaftWrapper.Barrier(5 * time.Second); err == nil {
+		err = h.clear(in.edges)
+	}
+	if err != nil {
+		h.finishIncoming()
+		return err
+	}
+	return nil
+}
+
+func (h *HashSlotService) startIncoming() (*incoming, error) {
 	h.incomingMux.Lock()
 	defer h.incomingMux.Unlock()
 	if h.incoming == nil || h.incoming.started {
-		return errors.New("server is not ready to receive")
+		return nil, errors.New("server is not ready to receive")
 	}
 	h.incoming.started = true
-	return nil
+	return h.incoming, nil
+}
+
+func (h *HashSlotService) finishIncoming() {
+	h.incomingMux.Lock()
+	h.incoming = nil
+	h.incomingMux.Unlock()
+	util.LogErr(h.Store.FinishMigrateFrom())
+}
+
+// clear removes everything that is in the slots
+func (h *HashSlotService) clear(edges hashslot.EdgeList) (err error) {
+	for _, name := range h.names(edges) {
+		err = errors.Join(err, h.Service.RemoveMetadata(name))
+	}
+	buckets, err2 := h.buckets(edges)
+	err = errors.Join(err, err2)
+	for _, name := range buckets {
+		err = errors.Join(err, h.BucketService.Remove(name))
+	}
+	return err
+}
+
+func (h *HashSlotService) names(edges hashslot.EdgeList) []string {
+	return h.Service.FilterKeys(func(s string) bool {
+		return hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(s)), edges)
+	})
+}
+
+func (h *HashSlotService) buckets(edges hashslot.EdgeList) (names []string, err error) {
+	err = h.BucketService.Foreach(func(k []byte, _ []byte) error {
+		if hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
+			names = append(names, string(k))
+		}
+		return nil
+	})
+	if usecase.IsNotFound(err) {
+		err = nil
+	}
+	return names, err
 }
 
 func (h *HashSlotService) FinishReceiveItem(success bool) (err error) {
@@ -228,12 +281,7 @@ func (h *HashSlotService) FinishReceiveItem(success bool) (err error) {
 	if in == nil {
 		return errors.New("server is not receiving")
 	}
-	defer func() {
-		h.incomingMux.Lock()
-		h.incoming = nil
-		h.incomingMux.Unlock()
-		util.LogErr(h.Store.FinishMigrateFrom())
-	}()
+	defer h.finishIncoming()
 	if success {
 		err = h.Store.Take(in.from, in.revision, h.Cfg.StoreID, pool.Config.Registry.SID(), in.slots)
 		if err == nil {
@@ -246,12 +294,7 @@ func (h *HashSlotService) FinishReceiveItem(success bool) (err error) {
 		err = fmt.Errorf("update slot fails after finish migration: %w", err)
 	}
 	// the slots still belong to the sender
-	for _, name := range in.names {
-		util.LogErrWithPre("remove received metadata", h.Service.RemoveMetadata(name))
-	}
-	for _, name := range in.buckets {
-		util.LogErrWithPre("remove received bucket", h.BucketService.Remove(name))
-	}
+	util.LogErrWithPre("remove what was received", h.clear(in.edges))
 	return err
 }
 
@@ -278,7 +321,6 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		in.names = append(in.names, item.Name)
 		err = h.Service.ReceiveMetadata(item.Name, item.Sequence, &i)
 	case entity.DestBucket:
 		var i msg.Bucket
@@ -288,7 +330,6 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 		if i.Name != item.Name {
 			return fmt.Errorf("bucket %s is named %s", item.Name, i.Name)
 		}
-		in.buckets = append(in.buckets, item.Name)
 		err = h.BucketService.Receive(&i)
 	default:
 		err = fmt.Errorf("unknown migration item: %d", item.Dest)
@@ -320,12 +361,10 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	if err != nil {
 		return err
 	}
-	names, err := h.migrateMetadata(stream, edges)
-	if err != nil {
+	if err = h.migrateMetadata(stream, edges); err != nil {
 		return err
 	}
-	buckets, err := h.migrateBuckets(stream, edges)
-	if err != nil {
+	if err = h.migrateBuckets(stream, edges); err != nil {
 		return err
 	}
 	// the target takes the slots at the end of the stream
@@ -341,12 +380,7 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 		logic.NewHashSlot().Persist(info.Slots)
 	}
 	// nobody asks for them here any more
-	for _, name := range names {
-		util.LogErrWithPre("remove migrated metadata", h.Service.RemoveMetadata(name))
-	}
-	for _, name := range buckets {
-		util.LogErrWithPre("remove migrated bucket", h.BucketService.Remove(name))
-	}
+	util.LogErrWithPre("remove what was migrated", h.clear(edges))
 	hsLog.Infof("finish migration to %s success", toLoc.Host)
 	return nil
 }
@@ -360,15 +394,13 @@ func sendItem(stream pb.HashSlot_StreamingReceiveClient, item *pb.MigrationItem)
 	return err
 }
 
-// migrateMetadata sends all metadata and versions. Returns the names
-func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) ([]string, error) {
-	names := h.Service.FilterKeys(func(s string) bool {
-		return hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(s)), edges)
-	})
+// migrateMetadata sends all metadata and versions
+func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) error {
+	names := h.names(edges)
 	for _, key := range names {
 		data, err := h.Service.GetMetadataBytes(key)
 		if err != nil {
-			return nil, err
+			return err
 		}
 		if err = sendItem(stream, &pb.MigrationItem{
 			Name:     key,
@@ -376,7 +408,7 @@ func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveCli
 			Dest:     int32(entity.DestMetadata),
 			Sequence: h.Service.VersionSequence(key),
 		}); err != nil {
-			return nil, fmt.Errorf("send metadata %s: %w", key, err)
+			return fmt.Errorf("send metadata %s: %w", key, err)
 		}
 		h.Service.ForeachVersionBytes(key, func(b []byte) bool {
 			err = sendItem(stream, &pb.MigrationItem{
@@ -387,37 +419,32 @@ func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveCli
 			return err == nil
 		})
 		if err != nil {
-			return nil, fmt.Errorf("send version of %s: %w", key, err)
+			return fmt.Errorf("send version of %s: %w", key, err)
 		}
 	}
 	hsLog.Infof("migration totally %d metadata", len(names))
-	return names, nil
+	return nil
 }
 
-// migrateBuckets sends all buckets. Returns the names
-func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (names []string, err error) {
-	err = h.BucketService.Foreach(func(k []byte, _ []byte) error {
-		if hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
-			names = append(names, string(k))
-		}
-		return nil
-	})
-	if err != nil && !usecase.IsNotFound(err) {
-		return nil, err
+// migrateBuckets sends all buckets
+func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) error {
+	names, err := h.buckets(edges)
+	if err != nil {
+		return err
 	}
 	for _, name := range names {
 		data, err := h.BucketService.GetBytes(name)
 		if err != nil {
-			return nil, err
+			return err
 		}
 		if err = sendItem(stream, &pb.MigrationItem{
 			Name: name,
 			Data: data,
 			Dest: int32(entity.DestBucket),
 		}); err != nil {
-			return nil, fmt.Errorf("send bucket %s: %w", name, err)
+			return fmt.Errorf("send bucket %s: %w", name, err)
 		}
 	}
 	hsLog.Infof("migration totally %d buckets", len(names))
-	return names, nil
+	return nil
 }
-- 
2.43.0


From fc1affbd138d0214d60cf915acc5442a26575c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 82/98] fix: an upload to a name that exists already does not
 fail when a follower does not know it yet

---
 src/apiserver/internal/usecase/service/object_service.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 85df008..a8fdc78 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -183,14 +183,10 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 
 	// save metadata
 	if metadata == nil {
-		// if SaveMetadata returns ErrMetadataExists that means a concurrent problem, get the metadata and continue it.
+		// if SaveMetadata returns ErrMetadataExists that means a concurrent problem, continue with the existing one.
 		if vn, err = o.metaService.SaveMetadata(md); !errors.Is(err, ErrMetadataExists) {
 			return
 		}
-		metadata, err = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil {
-			return
-		}
 	}
 	if vn, err = o.metaService.AddVersion(md.Name, md.Bucket, ver); err != nil {
 		return
-- 
2.43.0


From 6526bb46e0a66ffd6a5c3985c8bf99b0bacf8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:07 +0000
Subject: [PATCH 83/98] fix: a server that left a raft group and does not know
 it yet joins again when told to

---
 .../controller/grpc/raft_cmd_server.go        | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/raft_cmd_server.go b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
index 82403ea..7dbfc3e 100644
--- a/src/metaserver/internal/controller/grpc/raft_cmd_server.go
+++ b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
@@ -174,26 +174,25 @@ func (rcs *RaftCmdServerImpl) JoinLeader(ctx context.Context, req *pb.JoinLeader
 	}
 	// send rpc request by client
 	client := pb.NewRaftCmdClient(cc)
-	if rcs.rf.LeaderID() != req.MasterId {
-		if rcs.rf.LeaderID() != "" {
-			// demote voter
-			_, err = client.RemoveFollower(ctx, &pb.RemoveFollowerReq{
-				FollowerId: rcs.rf.ID,
-			})
-			if err != nil {
-				return nil, err
-			}
-		}
-		_, err = proto.ResolveResponse(client.AddVoter(ctx, &pb.AddVoterReq{
-			Voters: []*pb.Voter{{
-				Id:      rcs.rf.ID,
-				Address: rcs.rf.Address,
-			}},
-		}))
+	if leaderID := rcs.rf.LeaderID(); leaderID != "" && leaderID != req.MasterId {
+		// demote voter
+		_, err = client.RemoveFollower(ctx, &pb.RemoveFollowerReq{
+			FollowerId: rcs.rf.ID,
+		})
 		if err != nil {
-			return &pb.Response{Message: err.Error()}, nil
+			return nil, err
 		}
 	}
+	// following the leader doesn't mean to be a voter: this server may have left and not know it yet
+	_, err = proto.ResolveResponse(client.AddVoter(ctx, &pb.AddVoterReq{
+		Voters: []*pb.Voter{{
+			Id:      rcs.rf.ID,
+			Address: rcs.rf.Address,
+		}},
+	}))
+	if err != nil {
+		return &pb.Response{Message: err.Error()}, nil
+	}
 	// get leader config
 	msg, err := proto.ResolveResponse(client.Config(context.Background(), new(pb.EmptyReq)))
 	if err != nil {
-- 
2.43.0


From c0c855cdd56e1c6df939c05fb0130fd136aaa086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 84/98] fix: an object sent by a server to itself is not
 removed

---
 .../internal/usecase/service/migration_service.go             | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index d751aca..a8e9b6d 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -280,6 +280,10 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	if !ok {
 		return fmt.Errorf("server unregister yet")
 	}
+	// the sender will remove its file, which is the same one
+	if newLoc == data.OriginLocate {
+		return fmt.Errorf("file %s is sent to the server where it is", data.FileName)
+	}
 	idx := strings.LastIndexByte(data.FileName, '.')
 	seq := util.ToInt(data.FileName[idx+1:])
 	hash := data.FileName[:idx]
-- 
2.43.0


From df7fbf3c2111bf0426861ce1d617bd77cf302b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 85/98] fix: receiving an object of another size does not
 remove the stored one

---
 .../internal/usecase/service/migration_service.go            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index a8e9b6d..82a9473 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -356,10 +356,11 @@ func (ms *MigrationService) OpenFile(name string, size int64) (*ReceiveFile, err
 		if err == nil && stat.Size() == size {
 			return nil, os.ErrExist
 		}
-		// some file may migrate failure. remove it if exists.
-		if err = Delete(name); err != nil {
+		if err != nil {
 			return nil, err
 		}
+		// it's complete and in use, objects become visible not until then
+		return nil, fmt.Errorf("file %s exists with size %d, not %d", name, stat.Size(), size)
 	}
 	mp := pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint)
 	file, err := os.OpenFile(filepath.Join(mp, pool.Config.TempPath, GenerateTempID()), os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
-- 
2.43.0


From 880911d0c1033effbc6f1dd060d30f77cd4a8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 86/98] fix: objects received from other servers have valid
 names

---
 src/objectserver/internal/usecase/service/migration_service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 82a9473..d223c02 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -350,6 +350,9 @@ func (rf *ReceiveFile) Close() error {
 
 // OpenFile returns os.ErrExist if the object has been stored with the same size.
 func (ms *MigrationService) OpenFile(name string, size int64) (*ReceiveFile, error) {
+	if !ValidName(name) {
+		return nil, fmt.Errorf("file name %q is invalid", name)
+	}
 	if path, ok := FindRealStoragePath(name); ok {
 		stat, err := os.Stat(path)
 		// if size equals, see as existed
-- 
2.43.0


From e60d8ef0f4bf1f88e28ce0e111e7152a83625a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:52 +0000
Subject: [PATCH 87/98] fix: reading an object that is being moved to another
 server does not fail, its repair does not undo the move

---
 .../internal/controller/http/objects_api.go   | 49 +++++++++++++++----
 .../usecase/service/object_service.go         | 23 ++++++++-
 2 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/src/apiserver/internal/controller/http/objects_api.go b/src/apiserver/internal/controller/http/objects_api.go
index c40de3a..013e78e 100644
--- a/src/apiserver/internal/controller/http/objects_api.go
+++ b/src/apiserver/internal/controller/http/objects_api.go
@@ -3,16 +3,23 @@ package http
 import (
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
+	"bytes"
+	"common/cst"
 	"common/datasize"
 	"common/logs"
 	"common/response"
 	"common/util"
+	"common/util/math"
 	"fmt"
 	"github.com/gin-gonic/gin"
 	"io"
 	"net/http"
+	"reflect"
 )
 
+// maxOpenRetry max times of opening an object again
+const maxOpenRetry = 3
+
 type ObjectsController struct {
 	objectService usecase.IObjectService
 	metaService   usecase.IMetaService
@@ -78,24 +85,26 @@ func (oc *ObjectsController) Get(c *gin.Context) {
 		}
 	}
 	// get object stream
-	stream, err := oc.objectService.GetObject(metaData, version)
+	stream, first, err := oc.open(metaData, version, offset)
+	// the object may have been moved to other servers after getting its metadata
+	for retry := 0; err != nil && retry < maxOpenRetry; retry++ {
+		latest, inner := oc.metaService.GetMetadata(req.Name, req.Bucket, int32(version.Sequence), false)
+		if inner != nil || latest.Versions[0].Hash != version.Hash || reflect.DeepEqual(latest.Versions[0].Locate, version.Locate) {
+			break
+		}
+		metaData, version = latest, latest.Versions[0]
+		stream, first, err = oc.open(metaData, version, offset)
+	}
 	if err != nil {
 		response.FailErr(err, c).Abort()
 		return
 	}
 	defer util.CloseAndLog(stream)
-	// try seek
-	if offset > 0 {
-		if _, err = stream.Seek(offset, io.SeekCurrent); err != nil {
-			response.FailErr(err, c)
-			return
-		}
-	}
 	// the client is able to find out if the response is incomplete
 	c.Header("Accept-Ranges", "bytes")
 	c.Header("Content-Length", util.ToString(version.Size-offset))
 	// copy to response
-	if _, err = io.Copy(c.Writer, stream); err != nil {
+	if _, err = io.Copy(c.Writer, io.MultiReader(bytes.NewReader(first), stream)); err != nil {
 		logs.Std().Error(err)
 		if !c.Writer.Written() {
 			c.Writer.Header().Del("Content-Length")
@@ -104,6 +113,28 @@ func (oc *ObjectsController) Get(c *gin.Context) {
 	}
 }
 
+// open returns a stream of the object which starts at 'offset', and the data have been read from it.
+func (oc *ObjectsController) open(md *entity.Metadata, ver *entity.Version, offset int64) (io.ReadSeekCloser, []byte, error) {
+	stream, err := oc.objectService.GetObject(md, ver)
+	if err != nil {
+		return nil, nil, err
+	}
+	if offset > 0 {
+		if _, err = stream.Seek(offset, io.SeekCurrent); err != nil {
+			util.CloseAndLog(stream)
+			return nil, nil, err
+		}
+	}
+	// shards are not read until now
+	buf := make([]byte, math.MinNumber(ver.Size-offset, int64(8*cst.OS.PageSize)))
+	n, err := io.ReadFull(stream, buf)
+	if err != nil {
+		util.CloseAndLog(stream)
+		return nil, nil, err
+	}
+	return stream, buf[:n], nil
+}
+
 func (oc *ObjectsController) ValidatePut(g *gin.Context) {
 	var req entity.PutReq
 	if err := req.Bind(g); err != nil {
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index a8fdc78..d081961 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -254,9 +254,28 @@ func streamToDataServer(req *entity.PutReq, meta *entity.Version, provider Strea
 }
 
 func (o *ObjectService) GetObject(meta *entity.Metadata, ver *entity.Version) (io.ReadSeekCloser, error) {
+	original := append([]string(nil), ver.Locate...)
 	up := func(locates []string) error {
-		ver.Locate = locates
-		return o.metaService.UpdateVersion(meta.Name, meta.Bucket, ver)
+		// shards may have been moved since the metadata was read, only change the repaired ones
+		latest, err := o.metaService.GetVersion(meta.Name, meta.Bucket, int32(ver.Sequence))
+		if err != nil {
+			return err
+		}
+		if latest.Hash != ver.Hash || len(latest.Locate) != len(locates) || len(original) != len(locates) {
+			return nil
+		}
+		changed := false
+		for i, ip := range locates {
+			if ip != original[i] && latest.Locate[i] == original[i] {
+				latest.Locate[i] = ip
+				changed = true
+			}
+		}
+		if !changed {
+			return nil
+		}
+		ver.Locate = latest.Locate
+		return o.metaService.UpdateVersion(meta.Name, meta.Bucket, latest)
 	}
 	opt := &StreamOption{
 		Hash:     ver.Hash,
-- 
2.43.0


From 5bc6a74c53820788d221cab5c7a3341a50f5ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:52 +0000
Subject: [PATCH 88/98] fix: an object that is being sent to another server is
 not taken over again, complete ones replace those of another size

---
 .../usecase/service/migration_service.go      | 74 +++++++++++++++++--
 .../usecase/service/objects_service.go        | 30 +++++++-
 2 files changed, 96 insertions(+), 8 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index d223c02..ac0233f 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -37,10 +37,53 @@ var (
 
 type MigrationService struct {
 	CapacityDB *db.ObjectCapacity
+	moves      sync.Mutex
+	moved      *sync.Cond      // some object is not being sent or finished anymore
+	sending    map[string]bool // names of objects being sent to others
+	finishing  map[string]int  // names of objects whose location is being changed to this server
+}
+
+// beginSend waits until an object is not being moved by others.
+func (ms *MigrationService) beginSend(name string) {
+	ms.moves.Lock()
+	defer ms.moves.Unlock()
+	for ms.sending[name] || ms.finishing[name] > 0 {
+		ms.moved.Wait()
+	}
+	ms.sending[name] = true
+}
+
+func (ms *MigrationService) endSend(name string) {
+	ms.moves.Lock()
+	defer ms.moves.Unlock()
+	delete(ms.sending, name)
+	ms.moved.Broadcast()
+}
+
+// beginFinish returns false if the object is being sent to others.
+func (ms *MigrationService) beginFinish(name string) bool {
+	ms.moves.Lock()
+	defer ms.moves.Unlock()
+	if ms.sending[name] {
+		return false
+	}
+	ms.finishing[name]++
+	return true
+}
+
+func (ms *MigrationService) endFinish(name string) {
+	ms.moves.Lock()
+	defer ms.moves.Unlock()
+	if ms.finishing[name]--; ms.finishing[name] == 0 {
+		delete(ms.finishing, name)
+	}
+	ms.moved.Broadcast()
 }
 
 func NewMigrationService(c *db.ObjectCapacity) *MigrationService {
-	return &MigrationService{CapacityDB: c}
+	ms := &MigrationService{CapacityDB: c, sending: make(map[string]bool), finishing: make(map[string]int)}
+	ms.moved = sync.NewCond(&ms.moves)
+	return ms
 }
 
 // getPeersCapacity returns peers capacity info expect self. key=addr,value=cap
@@ -212,6 +255,16 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 				dg.Todo()
 				go func(toAddr string) {
 					defer dg.Done()
+					// it can't become the location of the object until the local file is removed
+					ms.beginSend(info.Name())
+					defer ms.endSend(info.Name())
+					info, inner := os.Stat(path)
+					if inner != nil {
+						if !os.IsNotExist(inner) {
+							dg.Errors(inner)
+						}
+						return
+					}
 					if inner := ms.sendFileTo(path, client, &pb.ObjectInfo{
 						FileName:     info.Name(),
 						Size:         info.Size(),
@@ -264,6 +317,11 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 }
 
 func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
+	// the file will be removed if it's being sent to others. never wait here, two servers may send the same object to each other
+	if !ms.beginFinish(data.FileName) {
+		return fmt.Errorf("file %s is being sent to others", data.FileName)
+	}
+	defer ms.endFinish(data.FileName)
 	// check file existed
 	realPath, ok := FindRealStoragePath(data.FileName)
 	if !ok {
@@ -336,7 +394,7 @@ func (rf *ReceiveFile) Commit() error {
 	if info.Size() != rf.size {
 		return fmt.Errorf("file %s size excpect %d, actual %d", rf.name, rf.size, info.Size())
 	}
-	return saveFile(rf.Name(), rf.fullPath, rf.name)
+	return replaceFile(rf.Name(), rf.fullPath, rf.name)
 }
 
 // Close remove the temp file if not committed
@@ -353,6 +411,7 @@ func (ms *MigrationService) OpenFile(name string, size int64) (*ReceiveFile, err
 	if !ValidName(name) {
 		return nil, fmt.Errorf("file name %q is invalid", name)
 	}
+	var mp, fullPath string
 	if path, ok := FindRealStoragePath(name); ok {
 		stat, err := os.Stat(path)
 		// if size equals, see as existed
@@ -362,13 +421,16 @@ func (ms *MigrationService) OpenFile(name string, size int64) (*ReceiveFile, err
 		if err != nil {
 			return nil, err
 		}
-		// it's complete and in use, objects become visible not until then
-		return nil, fmt.Errorf("file %s exists with size %d, not %d", name, stat.Size(), size)
+		// sizes of compressed objects may differ. it's in use until the received one is complete
+		fullPath = path
+		mp = strings.TrimSuffix(path, filepath.Join(pool.Config.StoragePath, name))
+	} else {
+		mp = pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint)
+		fullPath = filepath.Join(mp, pool.Config.StoragePath, name)
 	}
-	mp := pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint)
 	file, err := os.OpenFile(filepath.Join(mp, pool.Config.TempPath, GenerateTempID()), os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
 	if err != nil {
 		return nil, err
 	}
-	return &ReceiveFile{file, name, size, filepath.Join(mp, pool.Config.StoragePath, name)}, nil
+	return &ReceiveFile{file, name, size, fullPath}, nil
 }
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 445a0af..cdfbd31 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -106,10 +106,36 @@ func saveFile(tempPath, fullPath, fileName string) error {
 	if Exist(fileName) {
 		return os.Remove(tempPath)
 	}
-	if err = os.Rename(tempPath, fullPath); err != nil {
+	return moveFile(tempPath, fullPath, fileName, info.Size())
+}
+
+// replaceFile makes a completely written temp file visible as the named object, even if 'fullPath' exists already.
+func replaceFile(tempPath, fullPath, fileName string) error {
+	defer lockName(fileName)()
+	info, err := os.Stat(tempPath)
+	if err != nil {
+		return err
+	}
+	size := info.Size()
+	if path, ok := FindRealStoragePath(fileName); ok {
+		// stored at another place meanwhile
+		if path != fullPath {
+			return os.Remove(tempPath)
+		}
+		if info, err = os.Stat(path); err != nil {
+			return err
+		}
+		size -= info.Size()
+		global.Cache.Delete(fileName)
+	}
+	return moveFile(tempPath, fullPath, fileName, size)
+}
+
+func moveFile(tempPath, fullPath, fileName string, capacity int64) error {
+	if err := os.Rename(tempPath, fullPath); err != nil {
 		return err
 	}
-	global.ObjectCap.AddCap(info.Size())
+	global.ObjectCap.AddCap(capacity)
 	util.LogErr(global.PathDB.Put(fileName, fullPath))
 	MarkExist(fileName, fullPath)
 	return nil
-- 
2.43.0


From 17257572e27036fabb49cecee07096dbc5259be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 89/98] fix: totals of listed metadata and buckets count all
 the matches of a prefix

---
 .../internal/usecase/logic/bucket_logic.go        | 15 ++++++++++-----
 .../internal/usecase/repo/metadata_repo.go        |  9 ++++++---
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 4d2be7f..45b9207 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -127,24 +127,29 @@ func (b *BucketCrud) List(prefix string, limit int, res *[]*msg.Bucket, total *i
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(prefixBt)
-			defer func() { *total = len(*res) }()
 		} else {
 			*total = root.Stats().KeyN
 			k, v = cur.First()
 		}
-		for k != nil && len(*res) < limit {
+		// all matched keys are counted if there is a prefix
+		for ; k != nil && (prefix != "" || len(*res) < limit); k, v = cur.Next() {
+			if prefix != "" && !bytes.HasPrefix(k, prefixBt) {
+				break
+			}
 			if v == nil {
 				continue
 			}
-			if prefix != "" && !bytes.HasPrefix(k, prefixBt) {
-				break
+			if prefix != "" {
+				*total++
+			}
+			if len(*res) >= limit {
+				continue
 			}
 			var i msg.Bucket
 			if err = util.DecodeMsgp(&i, v); err != nil {
 				return err
 			}
 			*res = append(*res, &i)
-			k, v = cur.Next()
 		}
 		return nil
 	}
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index fcf9807..a64d4e4 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -273,16 +273,19 @@ func (m *MetadataRepo) ListMetadata(prefix string, size int) (lst []*msg.Metadat
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(util.StrToBytes(prefix))
-			defer func() { total = len(lst) }()
 		} else {
 			k, v = cur.First()
 			total = root.Stats().KeyN
 		}
-		for k != nil && len(lst) < size {
+		// all matched keys are counted if there is a prefix
+		for k != nil && (prefix != "" || len(lst) < size) {
 			if prefix != "" && !strings.HasPrefix(util.BytesToStr(k), prefix) {
 				break
 			}
-			if len(v) > 0 {
+			if prefix != "" && len(v) > 0 {
+				total++
+			}
+			if len(v) > 0 && len(lst) < size {
 				var data msg.Metadata
 				if err := util.DecodeMsgp(&data, v); err != nil {
 					return err
-- 
2.43.0


From 6b9c4d9671fa6a6e2c3761e856e59ba06fec0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 90/98] fix: admin server escapes names in urls of api servers,
 names with slashes are routed

---
 src/adminserver/internal/controller/http_server.go   |  2 ++
 .../internal/usecase/webapi/api_server.go            | 12 ++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/adminserver/internal/controller/http_server.go b/src/adminserver/internal/controller/http_server.go
index ec84969..ba8a39d 100644
--- a/src/adminserver/internal/controller/http_server.go
+++ b/src/adminserver/internal/controller/http_server.go
@@ -20,6 +20,8 @@ type HttpServer struct {
 
 func NewHttpServer(port string, webFs static.ServeFileSystem) *HttpServer {
 	eng := gin.Default()
+	// names may contain slashes
+	eng.UseRawPath = true
 
 	randSec := uuid.New()
 	eng.Use(static.Serve("/", webFs))
diff --git a/src/adminserver/internal/usecase/webapi/api_server.go b/src/adminserver/internal/usecase/webapi/api_server.go
index 6cded40..a6ebffa 100644
--- a/src/adminserver/internal/usecase/webapi/api_server.go
+++ b/src/adminserver/internal/usecase/webapi/api_server.go
@@ -13,8 +13,8 @@ import (
 )
 
 func ListVersion(ip, name, bucket string, page, pageSize int, token string) ([]byte, int, error) {
-	url := fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, name, page, pageSize)
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	reqUrl := fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, url.PathEscape(name), page, pageSize)
+	req, err := http.NewRequest(http.MethodGet, reqUrl, nil)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -54,8 +54,8 @@ func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, t
 	return nil
 }
 
-func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, error) {
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, name, version), nil)
+func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, int64, error) {
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, url.PathEscape(name), version), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -106,7 +106,7 @@ func CreateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func UpdateBucket(ip string, b *msg.Bucket, token string) error {
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, b.Name), b)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(b.Name)), b)
 	if err != nil {
 		return err
 	}
@@ -123,7 +123,7 @@ func UpdateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func DeleteBucket(ip, name string, token string) error {
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 91af2667683cf2245488ba4c48ecc304607be5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 91/98] fix: admin server reports failed leaving of raft
 clusters, reuses connections for joining

---
 .../internal/usecase/logic/metadata_logic.go           | 10 ++++++++--
 src/adminserver/internal/usecase/logic/object_logic.go |  3 +--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index 7c13dcd..0067caa 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -192,8 +192,14 @@ func (m Metadata) LeaveRaftCluster(servId string) error {
 	if err != nil {
 		return err
 	}
-	_, err = pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
-	return err
+	resp, err := pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
+	if err != nil {
+		return err
+	}
+	if !resp.Success {
+		return response.NewError(400, resp.Message)
+	}
+	return nil
 }
 
 func (m Metadata) JoinRaftCluster(masterId, servId string) error {
diff --git a/src/adminserver/internal/usecase/logic/object_logic.go b/src/adminserver/internal/usecase/logic/object_logic.go
index b46c4e2..36cac14 100644
--- a/src/adminserver/internal/usecase/logic/object_logic.go
+++ b/src/adminserver/internal/usecase/logic/object_logic.go
@@ -8,7 +8,6 @@ import (
 	"common/util"
 	"common/util/crypto"
 	"context"
-	"google.golang.org/grpc"
 	"io"
 	"mime/multipart"
 )
@@ -46,7 +45,7 @@ func (Objects) JoinCluster(serverId string) error {
 	if !ok {
 		return response.NewError(400, "serverId not exist")
 	}
-	cc, err := grpc.Dial(addr, grpc.WithInsecure())
+	cc, err := getConn(addr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From bd092b66f98b133aa3fa6006abbb9ab3e2770898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 92/98] fix: pages of the admin server beyond the last one keep
 the total, invalid ones are refused

---
 .../internal/usecase/logic/metadata_logic.go  | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index 0067caa..c4d47a3 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -39,6 +39,16 @@ type BucketCond struct {
 	Desc     bool   `form:"desc"`
 }
 
+// maxListSize is the max size of a list from metadata servers
+const maxListSize = 10000
+
+func checkPaging(page, size int) error {
+	if page <= 0 || size <= 0 || page > maxListSize/size {
+		return response.NewError(400, fmt.Sprintf("page and pageSize must be positive, and not exceed %d items together", maxListSize))
+	}
+	return nil
+}
+
 type Metadata struct{}
 
 func NewMetadata() Metadata {
@@ -47,7 +57,10 @@ func NewMetadata() Metadata {
 
 func (m Metadata) MetadataPaging(cond *MetadataCond) ([]*msg.Metadata, int, error) {
 	servers := pool.Discovery.GetServicesWith(pool.Config.Discovery.MetaServName, true)
-	lst := make([]*msg.Metadata, 0, len(servers)*cond.Page*cond.PageSize)
+	if err := checkPaging(cond.Page, cond.PageSize); err != nil {
+		return nil, 0, err
+	}
+	lst := make([]*msg.Metadata, 0, cond.PageSize)
 	if len(servers) == 0 {
 		logs.Std().Warn("not found any metadata server")
 		return lst, 0, nil
@@ -81,7 +94,7 @@ func (m Metadata) MetadataPaging(cond *MetadataCond) ([]*msg.Metadata, int, erro
 	if st, ed, ok := util.PagingOffset(cond.Page, cond.PageSize, len(lst)); ok {
 		return lst[st:ed], totals, nil
 	}
-	return []*msg.Metadata{}, 0, nil
+	return []*msg.Metadata{}, totals, nil
 }
 
 func (m Metadata) VersionPaging(cond MetadataCond, token string) ([]byte, int, error) {
@@ -90,7 +103,10 @@ func (m Metadata) VersionPaging(cond MetadataCond, token string) ([]byte, int, e
 
 func (m Metadata) BucketPaging(cond *BucketCond) ([]*msg.Bucket, int, error) {
 	servers := pool.Discovery.GetServicesWith(pool.Config.Discovery.MetaServName, true)
-	lst := make([]*msg.Bucket, 0, len(servers)*cond.Page*cond.PageSize)
+	if err := checkPaging(cond.Page, cond.PageSize); err != nil {
+		return nil, 0, err
+	}
+	lst := make([]*msg.Bucket, 0, cond.PageSize)
 	if len(servers) == 0 {
 		logs.Std().Warn("not found any metadata server")
 		return lst, 0, nil
@@ -120,8 +136,10 @@ func (m Metadata) BucketPaging(cond *BucketCond) ([]*msg.Bucket, int, error) {
 	sort.Slice(lst, func(i, j int) bool {
 		return lst[i].ID() < lst[j].ID()
 	})
-	st, ed, _ := util.PagingOffset(cond.Page, cond.PageSize, len(lst))
-	return lst[st:ed], totals, nil
+	if st, ed, ok := util.PagingOffset(cond.Page, cond.PageSize, len(lst)); ok {
+		return lst[st:ed], totals, nil
+	}
+	return []*msg.Bucket{}, totals, nil
 }
 
 func (m Metadata) StartMigration(srcID, destID string, slots []string) error {
-- 
2.43.0


From 7815f50f206b087b5ac4edaec4bff47977865bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 93/98] fix: admin server survives failing etcd when it loads
 statistics, watches again if canceled

---
 .../internal/usecase/db/server_stat_db.go      | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/adminserver/internal/usecase/db/server_stat_db.go b/src/adminserver/internal/usecase/db/server_stat_db.go
index 6608f43..2d22327 100644
--- a/src/adminserver/internal/usecase/db/server_stat_db.go
+++ b/src/adminserver/internal/usecase/db/server_stat_db.go
@@ -125,15 +125,21 @@ func (sdb *ServerStatDB) init() {
 			res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
 			if err != nil {
 				statLog.Errorf("init stat of %s fail, %s", v, err)
+			} else {
+				for _, kv := range res.Kvs {
+					if err := sdb.addStat(v, kv.Key, kv.Value); err != nil {
+						statLog.Error(err)
+					}
+				}
 			}
-			for _, kv := range res.Kvs {
-				if err := sdb.addStat(v, kv.Key, kv.Value); err != nil {
-					statLog.Error(err)
+			// watch channel. it's closed if the watching is canceled by server
+			for ctx.Err() == nil {
+				sdb.watching(v, sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix()))
+				select {
+				case <-ctx.Done():
+				case <-time.After(time.Second):
 				}
 			}
-			// watch channel
-			ch := sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix())
-			sdb.watching(v, ch)
 		}(name)
 	}
 }
-- 
2.43.0


From 86954e60ad32074320c91a5d769d0494b96c44e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 94/98] fix: states of servers require a token as well

---
 src/adminserver/internal/controller/http/server_state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adminserver/internal/controller/http/server_state.go b/src/adminserver/internal/controller/http/server_state.go
index 671779d..b093f1e 100644
--- a/src/adminserver/internal/controller/http/server_state.go
+++ b/src/adminserver/internal/controller/http/server_state.go
@@ -19,7 +19,7 @@ func NewServerStateController() *ServerStateController {
 }
 
 func (ss *ServerStateController) Register(r gin.IRouter) {
-	r.Group("server").
+	r.Group("server").Use(RequireToken).
 		GET("/stat", ss.Stat).
 		GET("/overview", ss.Overview).
 		GET("/etcdstat", ss.EtcdStat).
-- 
2.43.0


From 2abf0a206942c35a09faf9573c0c9666796e1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 95/98] fix: a session keeps its token until logout, and not
 after it

---
 src/adminserver/internal/controller/http/auth.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/adminserver/internal/controller/http/auth.go b/src/adminserver/internal/controller/http/auth.go
index 3b2e95d..c102222 100644
--- a/src/adminserver/internal/controller/http/auth.go
+++ b/src/adminserver/internal/controller/http/auth.go
@@ -17,6 +17,10 @@ func SaveToken(c *gin.Context) {
 	sess := sessions.Default(c)
 	originToken := sess.Get(authTokenKey)
 	authToken := c.GetHeader("Authorization")
+	// the saved one is in use if there isn't a new one
+	if authToken == "" {
+		return
+	}
 	if originToken != nil && originToken.(string) == authToken {
 		return
 	}
@@ -44,7 +48,12 @@ func RequireToken(c *gin.Context) {
 
 func ClearCredential(router gin.IRouter) {
 	router.POST("/logout", func(c *gin.Context) {
-		sessions.Default(c).Clear()
+		sess := sessions.Default(c)
+		sess.Clear()
+		if err := sess.Save(); err != nil {
+			response.FailErr(err, c)
+			return
+		}
 		response.Ok(c)
 	})
 }
-- 
2.43.0


From 7e89cd835fe08850ea57a603b1f512604ce97563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 96/98] fix: admin server without available api servers answers
 an error, broken downloads are recognizable

---
 .../internal/controller/http/auth.go          |  7 ++++++-
 .../internal/controller/http/metadata.go      | 21 ++++++++++++++++---
 .../internal/controller/http/object.go        | 15 +++++++++++--
 .../usecase/logic/api_server_logic.go         |  9 ++++++--
 .../internal/usecase/logic/metadata_logic.go  |  6 +++++-
 .../internal/usecase/logic/object_logic.go    | 15 ++++++++++---
 .../internal/usecase/webapi/api_server.go     |  8 +++----
 7 files changed, 65 insertions(+), 16 deletions(-)

diff --git a/src/adminserver/internal/controller/http/auth.go b/src/adminserver/internal/controller/http/auth.go
index c102222..d009fd1 100644
--- a/src/adminserver/internal/controller/http/auth.go
+++ b/src/adminserver/internal/controller/http/auth.go
@@ -61,7 +61,12 @@ func ClearCredential(router gin.IRouter) {
 func CheckCredential(router gin.IRouter) {
 	router.POST("/login", func(c *gin.Context) {
 		token := GetAuthToken(c)
-		err := webapi.CheckToken(logic.SelectApiServer(), token)
+		ip, err := logic.SelectApiServer()
+		if err != nil {
+			response.FailErr(err, c)
+			return
+		}
+		err = webapi.CheckToken(ip, token)
 		if err != nil {
 			response.FailErr(err, c)
 			return
diff --git a/src/adminserver/internal/controller/http/metadata.go b/src/adminserver/internal/controller/http/metadata.go
index 3f1dfd6..688f12b 100644
--- a/src/adminserver/internal/controller/http/metadata.go
+++ b/src/adminserver/internal/controller/http/metadata.go
@@ -182,7 +182,12 @@ func (mc *MetadataController) CreateBucket(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
-	err := webapi.CreateBucket(logic.SelectApiServer(), &b, GetAuthToken(c))
+	ip, err := logic.SelectApiServer()
+	if err != nil {
+		response.FailErr(err, c)
+		return
+	}
+	err = webapi.CreateBucket(ip, &b, GetAuthToken(c))
 	if err != nil {
 		response.FailErr(err, c)
 		return
@@ -196,7 +201,12 @@ func (mc *MetadataController) UpdateBucket(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
-	err := webapi.UpdateBucket(logic.SelectApiServer(), &b, GetAuthToken(c))
+	ip, err := logic.SelectApiServer()
+	if err != nil {
+		response.FailErr(err, c)
+		return
+	}
+	err = webapi.UpdateBucket(ip, &b, GetAuthToken(c))
 	if err != nil {
 		response.FailErr(err, c)
 		return
@@ -206,7 +216,12 @@ func (mc *MetadataController) UpdateBucket(c *gin.Context) {
 
 func (mc *MetadataController) DeleteBucket(c *gin.Context) {
 	name := c.Param("name")
-	err := webapi.DeleteBucket(logic.SelectApiServer(), name, GetAuthToken(c))
+	ip, err := logic.SelectApiServer()
+	if err != nil {
+		response.FailErr(err, c)
+		return
+	}
+	err = webapi.DeleteBucket(ip, name, GetAuthToken(c))
 	if err != nil {
 		response.FailErr(err, c)
 		return
diff --git a/src/adminserver/internal/controller/http/object.go b/src/adminserver/internal/controller/http/object.go
index 4bdb5d1..27b5744 100644
--- a/src/adminserver/internal/controller/http/object.go
+++ b/src/adminserver/internal/controller/http/object.go
@@ -4,7 +4,9 @@ import (
 	"adminserver/internal/entity"
 	"adminserver/internal/usecase/logic"
 	"adminserver/internal/usecase/pool"
+	"common/logs"
 	"common/response"
+	"common/util"
 	"github.com/gin-gonic/gin"
 	"io"
 	"mime/multipart"
@@ -52,13 +54,22 @@ func (oc *ObjectsController) Download(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
-	reader, err := logic.NewObjects().Download(body.Name, body.Bucket, body.Version, GetAuthToken(c))
+	reader, size, err := logic.NewObjects().Download(body.Name, body.Bucket, body.Version, GetAuthToken(c))
 	if err != nil {
 		response.FailErr(err, c)
 		return
 	}
+	defer reader.Close()
+	// the client is able to find out if the response is incomplete
+	if size >= 0 {
+		c.Header("Content-Length", util.ToString(size))
+	}
 	if _, err = io.Copy(c.Writer, reader); err != nil {
-		response.FailErr(err, c)
+		logs.Std().Error(err)
+		if !c.Writer.Written() {
+			c.Writer.Header().Del("Content-Length")
+			response.FailErr(err, c)
+		}
 		return
 	}
 	response.Ok(c)
diff --git a/src/adminserver/internal/usecase/logic/api_server_logic.go b/src/adminserver/internal/usecase/logic/api_server_logic.go
index 509c17c..6a5c025 100644
--- a/src/adminserver/internal/usecase/logic/api_server_logic.go
+++ b/src/adminserver/internal/usecase/logic/api_server_logic.go
@@ -3,15 +3,20 @@ package logic
 import (
 	"adminserver/internal/usecase/pool"
 	"adminserver/internal/usecase/webapi"
+	"common/response"
 	"math/rand"
+	"net/http"
 	"time"
 )
 
-func SelectApiServer() string {
+func SelectApiServer() (string, error) {
 	servers := pool.Discovery.GetServices(pool.Config.Discovery.ApiServName)
+	if len(servers) == 0 {
+		return "", response.NewError(http.StatusServiceUnavailable, "no available api server")
+	}
 	rand.Seed(time.Now().Unix())
 	idx := rand.Intn(len(servers))
-	return servers[idx]
+	return servers[idx], nil
 }
 
 func GetAPIConfig(ip, token string) ([]byte, error) {
diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index c4d47a3..443b0d5 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -98,7 +98,11 @@ func (m Metadata) MetadataPaging(cond *MetadataCond) ([]*msg.Metadata, int, erro
 }
 
 func (m Metadata) VersionPaging(cond MetadataCond, token string) ([]byte, int, error) {
-	return webapi.ListVersion(SelectApiServer(), cond.Name, cond.Bucket, cond.Page, cond.PageSize, token)
+	ip, err := SelectApiServer()
+	if err != nil {
+		return nil, 0, err
+	}
+	return webapi.ListVersion(ip, cond.Name, cond.Bucket, cond.Page, cond.PageSize, token)
 }
 
 func (m Metadata) BucketPaging(cond *BucketCond) ([]*msg.Bucket, int, error) {
diff --git a/src/adminserver/internal/usecase/logic/object_logic.go b/src/adminserver/internal/usecase/logic/object_logic.go
index 36cac14..f3403ff 100644
--- a/src/adminserver/internal/usecase/logic/object_logic.go
+++ b/src/adminserver/internal/usecase/logic/object_logic.go
@@ -32,11 +32,20 @@ func (Objects) Upload(file *multipart.FileHeader, bucket, token string) error {
 	if err != nil {
 		return err
 	}
-	return webapi.PutObjects(SelectApiServer(), file.Filename, hash, bucket, fileBody, file.Size, token)
+	defer fileBody.Close()
+	ip, err := SelectApiServer()
+	if err != nil {
+		return err
+	}
+	return webapi.PutObjects(ip, file.Filename, hash, bucket, fileBody, file.Size, token)
 }
 
-func (Objects) Download(name, bucket string, version int, token string) (io.ReadCloser, error) {
-	return webapi.GetObjects(SelectApiServer(), name, bucket, version, token)
+func (Objects) Download(name, bucket string, version int, token string) (io.ReadCloser, int64, error) {
+	ip, err := SelectApiServer()
+	if err != nil {
+		return nil, 0, err
+	}
+	return webapi.GetObjects(ip, name, bucket, version, token)
 }
 
 func (Objects) JoinCluster(serverId string) error {
diff --git a/src/adminserver/internal/usecase/webapi/api_server.go b/src/adminserver/internal/usecase/webapi/api_server.go
index a6ebffa..50c51ac 100644
--- a/src/adminserver/internal/usecase/webapi/api_server.go
+++ b/src/adminserver/internal/usecase/webapi/api_server.go
@@ -57,18 +57,18 @@ func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, t
 func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, int64, error) {
 	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, url.PathEscape(name), version), nil)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	req.Header.Set("Bucket", bucket)
 	req.Header.Set("Authorization", token)
 	resp, err := pool.Http.Do(req)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	if resp.StatusCode != http.StatusOK {
-		return nil, response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+		return nil, 0, response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
-	return resp.Body, nil
+	return resp.Body, resp.ContentLength, nil
 }
 
 func CheckToken(ip, token string) error {
-- 
2.43.0


From 5f798784bef3a6d323168218aefbe0745ff8dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:38 +0000
Subject: [PATCH 97/98] fix: a metadata server closes the connections to the
 leader it opens to join and leave

---
 src/metaserver/internal/controller/grpc/raft_cmd_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metaserver/internal/controller/grpc/raft_cmd_server.go b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
index 7dbfc3e..81a5875 100644
--- a/src/metaserver/internal/controller/grpc/raft_cmd_server.go
+++ b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
@@ -130,6 +130,7 @@ func (rcs *RaftCmdServerImpl) LeaveCluster(ctx context.Context, _ *pb.EmptyReq)
 	if err != nil {
 		return nil, err
 	}
+	defer cc.Close()
 	return pb.NewRaftCmdClient(cc).RemoveFollower(ctx, &pb.RemoveFollowerReq{
 		FollowerId: rcs.rf.ID,
 	})
@@ -172,6 +173,7 @@ func (rcs *RaftCmdServerImpl) JoinLeader(ctx context.Context, req *pb.JoinLeader
 	if err != nil {
 		return nil, err
 	}
+	defer cc.Close()
 	// send rpc request by client
 	client := pb.NewRaftCmdClient(cc)
 	if leaderID := rcs.rf.LeaderID(); leaderID != "" && leaderID != req.MasterId {
-- 
2.43.0


From 8f4552870bd2b4d948814b908a248585d8b20bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:06 +0000
Subject: [PATCH 98/98] fix: a metadata server killed while it saves its
 configuration loses it

---
 src/metaserver/config/config.go | 41 ++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/metaserver/config/config.go b/src/metaserver/config/config.go
index 54e37db..dd974b8 100644
--- a/src/metaserver/config/config.go
+++ b/src/metaserver/config/config.go
@@ -1,11 +1,13 @@
 package config
 
 import (
+	"bytes"
 	"common/cst"
 	"common/datasize"
 	"common/etcd"
 	"common/logs"
 	"common/registry"
+	"errors"
 	"fmt"
 	"gopkg.in/yaml.v3"
 	"os"
@@ -56,21 +58,44 @@ func (c *Config) initialize(filePath string) {
 func (c *Config) Persist() error {
 	c.persistLock.Lock()
 	defer c.persistLock.Unlock()
-	fi, err := os.OpenFile(c.filePath, cst.OS.WriteFlag, cst.OS.ModeUser)
+	var data bytes.Buffer
+	enc := yaml.NewEncoder(&data)
+	enc.SetIndent(2)
+	if err := enc.Encode(c); err != nil {
+		return fmt.Errorf("marshal config to yaml: %w", err)
+	}
+	if err := enc.Close(); err != nil {
+		return fmt.Errorf("marshal config to yaml: %w", err)
+	}
+	// replace the file at once, a crash must not leave a part of it
+	temp := c.filePath + ".tmp"
+	err := writeFileSync(temp, data.Bytes())
+	if err == nil {
+		err = os.Rename(temp, c.filePath)
+	}
 	if err != nil {
-		return fmt.Errorf("write data to config '%s': %w", c.filePath, err)
+		_ = os.Remove(temp)
+		// the directory is not writable or the file itself is a mount
+		err = writeFileSync(c.filePath, data.Bytes())
 	}
-	defer fi.Close()
-	enc := yaml.NewEncoder(fi)
-	defer enc.Close()
-	enc.SetIndent(2)
-	err = enc.Encode(c)
 	if err != nil {
-		return fmt.Errorf("marshal config to yaml: %w", err)
+		return fmt.Errorf("write data to config '%s': %w", c.filePath, err)
 	}
 	return nil
 }
 
+func writeFileSync(path string, data []byte) error {
+	fi, err := os.OpenFile(path, cst.OS.WriteFlag, cst.OS.ModeUser)
+	if err != nil {
+		return err
+	}
+	_, err = fi.Write(data)
+	if err == nil {
+		err = fi.Sync()
+	}
+	return errors.Join(err, fi.Close())
+}
+
 type CacheConfig struct {
 	TTL           time.Duration     `yaml:"ttl" env:"TTL" env-default:"20m"`
 	CleanInterval time.Duration     `yaml:"clean-interval" env:"CLEAN_INTERVAL" env-default:"10m"`
-- 
2.43.0

