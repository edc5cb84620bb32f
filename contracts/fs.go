package xmssmt

// Models of the file system, memory maps and lockfiles.  Every operation may
// fail (with and without having taken effect) while faults is set.  What may be
// found at the path of the key file after a crash is tracked: an inode whose
// content was not flushed may then contain anything.

import (
	"encoding/binary"
	"io"
	"os"
	"syscall"
	"time"

	"github.com/edsrzf/mmap-go"
	"github.com/nightlyone/lockfile"
)

type gvcInode struct {
	data   []byte
	synced bool // the content is flushed
}

type gvcFile struct {
	f      *os.File
	ino    *gvcInode // nil: directory
	dir    string
	pos    int64
	closed bool
	append bool
	ro     bool
}

type gvcFS struct {
	names []string
	inos  []*gvcInode
	files []*gvcFile

	faults           bool
	failAt, failMode int // only this operation fails
	failed           bool
	closef           bool // closing a file failed

	keyPath string
	reach   []*gvcInode // what the key path may refer to after a crash; nil: nothing
	torn    bool        // it may refer to something that was not flushed
	exposed []string    // contents that may be found there
	absent  bool        // the file may be missing

	fileCap  int // capacity of large files
	page     int
	unmapped [][]byte
	mapped   int
	leaked   int
	ops      int

	locks    int // lockfiles held
	lockErr  int // what acquiring a lock yields
	lockedBy string
}

var gvcDisk *gvcFS

func gvcNewFS() *gvcFS {
	fs := &gvcFS{keyPath: "/d/key", fileCap: 0, page: 4096}
	fs.reach = []*gvcInode{nil}
	gvcDisk = fs
	return fs
}

func (fs *gvcFS) find(name string) *gvcInode {
	for i := range fs.names {
		if fs.names[i] == name {
			return fs.inos[i]
		}
	}
	return nil
}

func (fs *gvcFS) link(name string, ino *gvcInode) {
	fs.unlink(name)
	fs.names = append(fs.names, name)
	fs.inos = append(fs.inos, ino)
	if name == fs.keyPath {
		fs.reach = append(fs.reach, ino)
	}
}

func (fs *gvcFS) unlink(name string) {
	for i := range fs.names {
		if fs.names[i] == name {
			var names []string
			var inos []*gvcInode
			for j := range fs.names {
				if j != i {
					names = append(names, fs.names[j])
					inos = append(inos, fs.inos[j])
				}
			}
			fs.names, fs.inos = names, inos
			return
		}
	}
}

// crash: what could be found at the key path if the machine stopped now?
func (fs *gvcFS) crash() {
	for _, i := range fs.reach {
		if i == nil {
			fs.absent = true
		} else if !i.synced {
			fs.torn = true
		} else {
			s := string(i.data)
			known := false
			for _, t := range fs.exposed {
				if len(t) == len(s) && t == s {
					known = true
				}
			}
			if !known {
				fs.exposed = append(fs.exposed, s)
			}
		}
	}
}

// watch: from here on, what may be found is recorded.
func (fs *gvcFS) watch() {
	fs.torn, fs.absent, fs.exposed = false, false, nil
	fs.failed = false
	fs.crash()
}

// fail: 0 no, 1 before taking effect, 2 after
func (fs *gvcFS) fail(what string, n int) int {
	fs.ops++
	if !fs.faults {
		return 0
	}
	if fs.failAt > 0 {
		if fs.ops != fs.failAt {
			return 0
		}
		fs.failed = true
		if fs.failMode < n {
			return fs.failMode
		}
		return 1
	}
	r := gvcFork(what+" fails", n)
	if r > 0 {
		fs.failed = true
	}
	return r
}

// gvcIOError: any error but that the file does not exist.
func gvcIOError() error {
	return &os.PathError{Op: "io", Path: "", Err: syscall.Errno(gvcRange("errno", 3, 133))}
}

func (fs *gvcFS) file(f *os.File) *gvcFile {
	for _, x := range fs.files {
		if x.f == f {
			return x
		}
	}
	return nil
}

func (fs *gvcFS) open(g *gvcFile) *os.File {
	g.f = new(os.File)
	fs.files = append(fs.files, g)
	return g.f
}

// openFiles: the number of files that were opened and not closed.
func (fs *gvcFS) openFiles() int {
	n := 0
	for _, g := range fs.files {
		if !g.closed {
			n++
		}
	}
	return n
}

func gvcENOENT() error { return &os.PathError{Op: "open", Path: "", Err: os.ErrNotExist} }

//gvc:model os.OpenFile
func gvcOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	fs := gvcDisk
	gvcRequire(fs.locks > 0, "the files of a key are accessed only with its lock held")
	r := fs.fail("open", 2)
	if r == 1 {
		return nil, gvcIOError()
	}
	if name == "/d" || name == "/" || name == "/d/" {
		return fs.open(&gvcFile{dir: "/d", ro: true}), nil
	}
	ino := fs.find(name)
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, gvcENOENT()
		}
		ino = &gvcInode{synced: false}
		if fs.fileCap > 0 && name == fs.keyPath+".cache" {
			ino.data = make([]byte, 0, fs.fileCap)
		}
		fs.link(name, ino)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, &os.PathError{Op: "open", Path: "", Err: os.ErrExist}
		}
		if flag&os.O_TRUNC != 0 {
			if fs.fileCap > 0 && name == fs.keyPath+".cache" {
				ino.data = make([]byte, 0, fs.fileCap)
			} else {
				ino.data = nil
			}
			ino.synced = false
		}
	}
	fs.crash()
	return fs.open(&gvcFile{ino: ino, append: flag&os.O_APPEND != 0, ro: flag&(os.O_WRONLY|os.O_RDWR) == 0}), nil
}

//gvc:model os.Open
func gvcOpen(name string) (*os.File, error) { return gvcOpenFile(name, os.O_RDONLY, 0) }

//gvc:model os.Create
func gvcCreate(name string) (*os.File, error) {
	return gvcOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//gvc:model os.Rename
func gvcRename(from, to string) error {
	fs := gvcDisk
	gvcRequire(fs.locks > 0, "the files of a key are accessed only with its lock held")
	r := fs.fail("rename", 3)
	if r == 1 {
		return gvcIOError()
	}
	ino := fs.find(from)
	if ino == nil {
		return gvcENOENT()
	}
	fs.unlink(from)
	fs.link(to, ino)
	fs.crash()
	if r == 2 {
		return gvcIOError()
	}
	return nil
}

//gvc:model os.Remove
func gvcRemove(name string) error {
	fs := gvcDisk
	r := fs.fail("remove", 3)
	if r == 1 {
		return gvcIOError()
	}
	if fs.find(name) == nil {
		return gvcENOENT()
	}
	fs.unlink(name)
	if name == fs.keyPath {
		fs.reach = append(fs.reach, nil)
	}
	fs.crash()
	if r == 2 {
		return gvcIOError()
	}
	return nil
}

type gvcFileInfo struct{ size int64 }

func (i *gvcFileInfo) Name() string       { return "" }
func (i *gvcFileInfo) Size() int64        { return i.size }
func (i *gvcFileInfo) Mode() os.FileMode  { return 0600 }
func (i *gvcFileInfo) ModTime() time.Time { return time.Time{} }
func (i *gvcFileInfo) IsDir() bool        { return false }
func (i *gvcFileInfo) Sys() interface{}   { return nil }

//gvc:model os.Stat
func gvcStat(name string) (os.FileInfo, error) {
	fs := gvcDisk
	if fs.fail("stat", 2) == 1 {
		return nil, gvcIOError()
	}
	ino := fs.find(name)
	if ino == nil {
		return nil, gvcENOENT()
	}
	return &gvcFileInfo{int64(len(ino.data))}, nil
}

//gvc:model os.Lstat
func gvcLstat(name string) (os.FileInfo, error) { return gvcStat(name) }

//gvc:model os.IsNotExist
func gvcIsNotExist(err error) bool {
	return gvcErrnoIs(err, os.ErrNotExist)
}

func gvcErrnoIs(err, target error) bool {
	if e, ok := err.(*os.PathError); ok {
		err = e.Err
	}
	if e, ok := err.(syscall.Errno); ok {
		switch target {
		case os.ErrPermission:
			return e == syscall.EACCES || e == syscall.EPERM
		case os.ErrExist:
			return e == syscall.EEXIST || e == syscall.ENOTEMPTY
		case os.ErrNotExist:
			return e == syscall.ENOENT
		}
		t, ok := target.(syscall.Errno)
		return ok && t == e
	}
	return err == target
}

//gvc:model os.IsPermission
func gvcIsPermission(err error) bool { return gvcErrnoIs(err, os.ErrPermission) }

//gvc:model os.IsTimeout
func gvcIsTimeout(err error) bool {
	return gvcErrnoIs(err, syscall.EAGAIN) || gvcErrnoIs(err, syscall.ETIMEDOUT)
}

//gvc:model os.IsExist
func gvcIsExist(err error) bool { return gvcErrnoIs(err, os.ErrExist) }

//gvc:model errors.Is
func gvcErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if gvcErrnoIs(err, target) {
			return true
		}
		if e, ok := err.(*os.PathError); ok {
			err = e.Err
			continue
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

//gvc:model os.Getpagesize
func gvcGetpagesize() int { return gvcDisk.page }

//gvc:model path/filepath.Abs
func gvcAbs(path string) (string, error) {
	if len(path) > 0 && path[0] == '/' {
		return path, nil
	}
	if gvcDisk.fail("Abs", 2) == 1 {
		return "", gvcIOError()
	}
	return "/d/" + path, nil
}

//gvc:model path/filepath.Dir
func gvcDir(path string) string {
	i := len(path) - 1
	for i > 0 && path[i] != '/' {
		i--
	}
	if i <= 0 {
		return "/"
	}
	return path[:i]
}

func gvcBadFile(g *gvcFile) bool { return g == nil || g.closed }

//gvc:model (*os.File).Write
func gvcFileWrite(f *os.File, b []byte) (int, error) {
	fs := gvcDisk
	g := fs.file(f)
	if gvcBadFile(g) || g.ro || g.ino == nil {
		return 0, os.ErrClosed
	}
	r := fs.fail("write", 3)
	if r == 1 {
		return 0, gvcIOError()
	}
	n := len(b)
	if r == 2 {
		n = n / 2
	}
	ino := g.ino
	if g.append {
		g.pos = int64(len(ino.data))
	}
	if n > 0 {
		fs.grow(ino, int(g.pos)+n)
		copy(ino.data[g.pos:], b[:n])
		ino.synced = false
		g.pos += int64(n)
	}
	fs.crash()
	if r == 2 {
		return n, gvcIOError()
	}
	return n, nil
}

func (fs *gvcFS) grow(ino *gvcInode, n int) {
	if n <= len(ino.data) {
		return
	}
	if n <= cap(ino.data) {
		ino.data = ino.data[:n]
		return
	}
	gvcRequire(fs.mapped == 0 || fs.fileCap == 0, "model: the file is larger than expected")
	d := make([]byte, n)
	copy(d, ino.data)
	ino.data = d
}

//gvc:model (*os.File).WriteString
func gvcFileWriteString(f *os.File, s string) (int, error) { return gvcFileWrite(f, []byte(s)) }

//gvc:model (*os.File).Read
func gvcFileRead(f *os.File, b []byte) (int, error) {
	fs := gvcDisk
	g := fs.file(f)
	if gvcBadFile(g) || g.ino == nil {
		return 0, os.ErrClosed
	}
	if fs.fail("read", 2) == 1 {
		return 0, gvcIOError()
	}
	if len(b) == 0 {
		return 0, nil
	}
	if g.pos >= int64(len(g.ino.data)) {
		return 0, io.EOF
	}
	n := copy(b, g.ino.data[g.pos:])
	g.pos += int64(n)
	return n, nil
}

//gvc:model (*os.File).WriteAt
func gvcFileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	g := gvcDisk.file(f)
	if gvcBadFile(g) || g.append || off < 0 {
		return 0, os.ErrClosed
	}
	pos := g.pos
	g.pos = off
	n, err := gvcFileWrite(f, b)
	g.pos = pos
	return n, err
}

//gvc:model (*os.File).ReadAt
func gvcFileReadAt(f *os.File, b []byte, off int64) (int, error) {
	g := gvcDisk.file(f)
	if gvcBadFile(g) || off < 0 {
		return 0, os.ErrClosed
	}
	pos := g.pos
	g.pos = off
	n, err := gvcFileRead(f, b)
	g.pos = pos
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

//gvc:model (*os.File).Seek
func gvcFileSeek(f *os.File, off int64, whence int) (int64, error) {
	fs := gvcDisk
	g := fs.file(f)
	if gvcBadFile(g) || g.ino == nil {
		return 0, os.ErrClosed
	}
	if fs.fail("seek", 2) == 1 {
		return 0, gvcIOError()
	}
	switch whence {
	case 1:
		off += g.pos
	case 2:
		off += int64(len(g.ino.data))
	}
	if off < 0 {
		return 0, &gvcErr{"invalid argument"}
	}
	g.pos = off
	return off, nil
}

//gvc:model (*os.File).Truncate
func gvcFileTruncate(f *os.File, size int64) error {
	fs := gvcDisk
	g := fs.file(f)
	if gvcBadFile(g) || g.ro || g.ino == nil {
		return os.ErrClosed
	}
	r := fs.fail("truncate", 3)
	if r == 1 {
		return gvcIOError()
	}
	if int(size) <= len(g.ino.data) {
		gvcRequire(int(size) == len(g.ino.data) || fs.mapped == 0, "a file is not shortened while parts of it are mapped")
		copy(g.ino.data[size:], make([]byte, len(g.ino.data)-int(size)))
		g.ino.data = g.ino.data[:size]
	} else {
		fs.grow(g.ino, int(size))
	}
	g.ino.synced = false
	fs.crash()
	if r == 2 {
		return gvcIOError()
	}
	return nil
}

//gvc:model (*os.File).Sync
func gvcFileSync(f *os.File) error {
	fs := gvcDisk
	g := fs.file(f)
	if gvcBadFile(g) {
		return os.ErrClosed
	}
	if fs.fail("sync", 2) == 1 {
		return gvcIOError()
	}
	if g.ino == nil {
		if g.dir == "/d" {
			fs.reach = []*gvcInode{fs.find(fs.keyPath)}
		}
	} else {
		g.ino.synced = true
	}
	fs.crash()
	return nil
}

//gvc:model (*os.File).Close
func gvcFileClose(f *os.File) error {
	fs := gvcDisk
	g := fs.file(f)
	if gvcBadFile(g) {
		return os.ErrClosed
	}
	g.closed = true
	if fs.fail("close", 2) == 1 {
		return gvcIOError()
	}
	return nil
}

//gvc:model (*os.File).Name
func gvcFileName(f *os.File) string { return "" }

//gvc:model (*os.File).Stat
func gvcFileStat(f *os.File) (os.FileInfo, error) {
	fs := gvcDisk
	g := fs.file(f)
	if gvcBadFile(g) || g.ino == nil {
		return nil, os.ErrClosed
	}
	if fs.fail("stat", 2) == 1 {
		return nil, gvcIOError()
	}
	return &gvcFileInfo{int64(len(g.ino.data))}, nil
}

//gvc:model encoding/binary.Write
func gvcBinWrite(w io.Writer, order binary.ByteOrder, data interface{}) error {
	_, err := w.Write([]byte(gvcEncode(order.String() == "LittleEndian", data)))
	return err
}

//gvc:model encoding/binary.Read
func gvcBinRead(r io.Reader, order binary.ByteOrder, data interface{}) error {
	b := make([]byte, gvcBinSize(data))
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	gvcDecode(order.String() == "LittleEndian", string(b), data)
	return nil
}

//gvc:model encoding/binary.Size
func gvcBinarySize(v interface{}) int { return gvcBinSize(v) }

//gvc:model github.com/edsrzf/mmap-go.MapRegion
func gvcMapRegion(f *os.File, length int, prot, flags int, offset int64) (mmap.MMap, error) {
	fs := gvcDisk
	g := fs.file(f)
	if gvcBadFile(g) || g.ino == nil {
		return nil, os.ErrClosed
	}
	if fs.fail("mmap", 2) == 1 {
		return nil, gvcIOError()
	}
	gvcRequire(prot == mmap.RDWR && flags == 0, "subtrees are mapped shared and writable")
	if offset%int64(fs.page) != 0 {
		return nil, &gvcErr{"offset is not a multiple of the page size"}
	}
	end := int(offset) + length
	gvcRequire(offset >= 0 && length > 0 && end <= len(g.ino.data), "what is mapped lies in the file")
	fs.mapped++
	return mmap.MMap(g.ino.data[offset:end:end]), nil
}

//gvc:model (*github.com/edsrzf/mmap-go.MMap).Unmap
func gvcUnmap(m *mmap.MMap) error {
	fs := gvcDisk
	fs.unmapped = append(fs.unmapped, []byte(*m))
	fs.mapped--
	*m = nil
	if fs.fail("munmap", 2) == 1 {
		return gvcIOError()
	}
	return nil
}

//gvc:model github.com/nightlyone/lockfile.New
func gvcLockNew(path string) (lockfile.Lockfile, error) {
	if gvcDisk.fail("lockfile.New", 2) == 1 {
		return lockfile.Lockfile(""), gvcIOError()
	}
	return lockfile.Lockfile(path), nil
}

//gvc:model (github.com/nightlyone/lockfile.Lockfile).TryLock
func gvcTryLock(l lockfile.Lockfile) error {
	fs := gvcDisk
	gvcRequire(string(l) == fs.keyPath+".lock", "the lock is that of the key")
	switch fs.lockErr {
	case 1:
		return lockfile.TemporaryError("Locked by other process")
	case 2:
		return gvcIOError()
	case 3:
		return &gvcErr{"Lockfile contains invalid pid for system"}
	}
	fs.locks++
	return nil
}

//gvc:model (github.com/nightlyone/lockfile.Lockfile).Unlock
func gvcUnlock(l lockfile.Lockfile) error {
	fs := gvcDisk
	gvcRequire(string(l) == fs.keyPath+".lock", "the lock is that of the key")
	if fs.fail("unlock", 2) == 1 {
		return gvcIOError()
	}
	gvcRequire(fs.openFiles() == 0 && fs.mapped <= fs.leaked, "the lock is released last")
	fs.locks--
	return nil
}
