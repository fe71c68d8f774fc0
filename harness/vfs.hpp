// A POSIX file system in memory under the real posixFile.cpp: the system calls are modelled here,
// with one fault (an error, a short transfer, or the end of the process) at any chosen call.
#pragma once
#include "common.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <dirent.h>
#include <dlfcn.h>
#include <map>
namespace stub { void install(); }
namespace vfs {
static const char ROOT[] = "/vfs"; // the only directory that is modelled
struct inode { bool dir; string data; int links; };
struct entry { string path; int ino; };
struct handle { int ino; size_t pos; bool used; };
struct dirh { std::vector<string> names; size_t pos; dirent d; };
static std::vector<inode> inodes; static std::vector<entry> names; static std::vector<handle> fds; static std::vector<dirh*> dirs;
static std::vector<string> touched; // every path given to a call
static bool on = false, frozen = false, armed = false, nolink = false; static long countdown = -1; static int mode = 0; static long calls = 0; static bool fired = false;
enum { NONE, FAIL, CRASH, SHORT, INTR, SHORTFAIL };
static void reset() { inodes.clear(); names.clear(); fds.clear(); dirs.clear(); touched.clear(); on = true; frozen = armed = fired = nolink = false; countdown = -1; mode = NONE; calls = 0; inodes.push_back({ true, "", 1 }); names.push_back({ ROOT, 0 }); }
static int find(const string& p) { for (size_t i = 0; i < names.size(); i++) if (names[i].path.size() == p.size() && same(names[i].path, p)) return (int)i; return -1; }
static string parent(const string& p) { size_t k = p.rfind('/'); return k == 0 || k == string::npos ? string("/") : p.substr(0, k); }
static bool isDir(const string& p) { if (p == "/") return true; int i = find(p); return i >= 0 && inodes[names[i].ino].dir; }
// what the chosen fault does to this call
static int hit() { if (!armed || frozen) return NONE; calls++; if (countdown > 0 && --countdown == 0) { countdown = -1; fired = true; if (mode == CRASH) { frozen = true; } return mode; } return NONE; }
static bool fails(int err) { int h = hit(); if (h == FAIL || h == SHORTFAIL) { errno = err; return true; } return false; }
static int mk(const string& p, bool dir, const string& data) { inodes.push_back({ dir, data, 1 }); names.push_back({ p, (int)inodes.size() - 1 }); return (int)inodes.size() - 1; }
static void mkdirs(const string& p) { if (p == "/" || find(p) >= 0) return; mkdirs(parent(p)); mk(p, true, ""); }
static bool mine(const char* p) { if (!on) return false; touched.push_back(p); return true; }
static int open_(const string& p, int fl) {
	if (frozen) { fds.push_back({ -1, 0, true }); return 1000 + (int)fds.size() - 1; } if (fails(fl & O_CREAT ? ENOSPC : EACCES)) return -1; if (frozen) return open_(p, fl); int i = find(p);
	if (fl & O_CREAT) { if (i >= 0 && (fl & O_EXCL)) { errno = EEXIST; return -1; } if (i < 0) { if (!isDir(parent(p))) { errno = ENOENT; return -1; } mk(p, false, ""); i = (int)names.size() - 1; } } else if (i < 0) { errno = ENOENT; return -1; }
	if (inodes[names[i].ino].dir && (fl & O_WRONLY)) { errno = EISDIR; return -1; } if (fl & O_TRUNC) inodes[names[i].ino].data = ""; fds.push_back({ names[i].ino, 0, true }); return 1000 + (int)fds.size() - 1;
}
static handle* h(int fd) { return fd >= 1000 && fd < 1000 + (int)fds.size() && fds[fd - 1000].used ? &fds[fd - 1000] : nullptr; }
static void dropName(int i) { inodes[names[i].ino].links--; names.erase(names.begin() + i); }
static int link_(const string& a, const string& b) { if (frozen) return 0; if (nolink) { errno = EPERM; return -1; } if (fails(ENOSPC)) return -1; if (frozen) return 0; int i = find(a); if (i < 0 || !isDir(parent(b))) { errno = ENOENT; return -1; } if (find(b) >= 0) { errno = EEXIST; return -1; } inodes[names[i].ino].links++; names.push_back({ b, names[i].ino }); return 0; }
static int unlink_(const string& a) { if (frozen) return 0; if (fails(EACCES)) return -1; if (frozen) return 0; int i = find(a); if (i < 0) { errno = ENOENT; return -1; } if (inodes[names[i].ino].dir) { errno = EISDIR; return -1; } dropName(i); return 0; }
static int rename_(const string& a, const string& b) {
	if (frozen) return 0; if (fails(EACCES)) return -1; if (frozen) return 0; int i = find(a); if (i < 0 || !isDir(parent(b))) { errno = ENOENT; return -1; } int j = find(b); if (i == j) return 0;
	bool d = inodes[names[i].ino].dir; if (j >= 0) { bool e = inodes[names[j].ino].dir; if (d != e) { errno = d ? ENOTDIR : EISDIR; return -1; } if (d) for (auto& n : names) if (n.path.compare(0, b.size() + 1, b + "/") == 0) { errno = ENOTEMPTY; return -1; } if (names[i].ino == names[j].ino) return 0; dropName(j); i = find(a); }
	if (d) for (auto& n : names) if (n.path.compare(0, a.size() + 1, a + "/") == 0) n.path = b + n.path.substr(a.size()); names[i].path = b; return 0;
}
static int mkdir_(const string& p) { if (frozen) return 0; if (fails(ENOSPC)) return -1; if (frozen) return 0; if (find(p) >= 0) { errno = EEXIST; return -1; } if (!isDir(parent(p))) { errno = ENOENT; return -1; } mk(p, true, ""); return 0; }
static int rmdir_(const string& p) { if (frozen) return 0; if (fails(EACCES)) return -1; if (frozen) return 0; int i = find(p); if (i < 0) { errno = ENOENT; return -1; } for (auto& n : names) if (n.path.size() > p.size() && n.path[p.size()] == '/' && same(n.path.substr(0, p.size()), p)) { errno = ENOTEMPTY; return -1; } dropName(i); return 0; }
// files seen by a reader of a directory, with their contents
static std::vector<std::pair<string, string>> files(const string& dir) { std::vector<std::pair<string, string>> r; for (auto& n : names) if (n.path.size() > dir.size() && n.path.compare(0, dir.size() + 1, dir + "/") == 0 && n.path.find('/', dir.size() + 1) == string::npos && !inodes[n.ino].dir) r.push_back({ n.path.substr(dir.size() + 1), inodes[n.ino].data }); return r; }
}
extern "C" {
int open(const char* p, int fl, ...) { if (vfs::on && strncmp(p, "/proc", 5) && strncmp(p, "/sys", 4)) { vfs::mine(p); return vfs::open_(p, fl); } if (vs_symbolic()) return -1; return (int)syscall(SYS_openat, AT_FDCWD, p, fl, 0644); }
int close(int fd) { if (auto* k = vfs::h(fd)) { if (!vfs::frozen) vfs::hit(); k->used = false; return 0; } if (vs_symbolic()) return -1; return (int)syscall(SYS_close, fd); }
ssize_t read(int fd, void* b, size_t n) {
	if (auto* k = vfs::h(fd)) { if (vfs::frozen || k->ino < 0) return 0; int f = vfs::hit(); if (vfs::frozen) return 0; if (f == vfs::FAIL) { errno = EACCES; return -1; } const string& d = vfs::inodes[k->ino].data; size_t m = k->pos < d.size() ? std::min(n, d.size() - k->pos) : 0; if ((f == vfs::SHORT || f == vfs::SHORTFAIL) && m > 1) m = 1; memcpy(b, d.data() + k->pos, m); k->pos += m; if (f == vfs::SHORTFAIL) { vfs::countdown = 1; vfs::mode = vfs::FAIL; } return (ssize_t)m; }
	if (vs_symbolic()) return -1; return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
	if (auto* k = vfs::h(fd)) { if (vfs::frozen || k->ino < 0) return (ssize_t)n; int f = vfs::hit(); size_t m = n; if (f == vfs::FAIL) { errno = ENOSPC; return -1; } if (f == vfs::INTR) { errno = EINTR; return -1; } if (f == vfs::CRASH || f == vfs::SHORT || f == vfs::SHORTFAIL) m = n / 2; string& d = vfs::inodes[k->ino].data; if (d.size() < k->pos + m) d.resize(k->pos + m); if (m) memcpy(&d[k->pos], b, m); k->pos += m; if (f == vfs::SHORTFAIL) { vfs::countdown = 1; vfs::mode = vfs::FAIL; } return (ssize_t)(f == vfs::CRASH ? n : m); }
	if (vs_symbolic()) return -1; return syscall(SYS_write, fd, b, n);
}
int fsync(int fd) { if (vfs::h(fd)) { if (vfs::frozen) return 0; return vfs::fails(ENOSPC) ? -1 : 0; } if (vs_symbolic()) return -1; return (int)syscall(SYS_fsync, fd); }
off_t lseek(int fd, off_t o, int w) noexcept { if (auto* k = vfs::h(fd)) { if (vfs::frozen || k->ino < 0) return 0; k->pos = w == SEEK_SET ? (size_t)o : w == SEEK_CUR ? k->pos + (size_t)o : vfs::inodes[k->ino].data.size() + (size_t)o; return (off_t)k->pos; } if (vs_symbolic()) return -1; return syscall(SYS_lseek, fd, o, w); }
int stat(const char* p, struct stat* s) noexcept {
	if (vfs::mine(p)) { memset(s, 0, sizeof *s); if (!strcmp(p, "/")) { s->st_mode = S_IFDIR | 0755; return 0; } int i = vfs::find(p); if (i < 0) { errno = ENOENT; return -1; } auto& n = vfs::inodes[vfs::names[i].ino]; s->st_mode = (n.dir ? S_IFDIR | 0755 : S_IFREG | 0644); s->st_size = (off_t)n.data.size(); return 0; }
	if (vs_symbolic()) return -1; return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
}
int access(const char* p, int m) noexcept { if (vfs::mine(p)) return vfs::find(p) >= 0 ? 0 : -1; if (vs_symbolic()) return -1; return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }
int link(const char* a, const char* b) noexcept { if (vfs::mine(a) && vfs::mine(b)) return vfs::link_(a, b); if (vs_symbolic()) return -1; return (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
int unlink(const char* p) noexcept { if (vfs::mine(p)) return vfs::unlink_(p); if (vs_symbolic()) return -1; return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int rename(const char* a, const char* b) noexcept { if (vfs::mine(a) && vfs::mine(b)) return vfs::rename_(a, b); if (vs_symbolic()) return -1; return (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int mkdir(const char* p, mode_t m) noexcept { if (vfs::mine(p)) return vfs::mkdir_(p); if (vs_symbolic()) return -1; return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int rmdir(const char* p) noexcept { if (vfs::mine(p)) return vfs::rmdir_(p); if (vs_symbolic()) return -1; return (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
DIR* opendir(const char* p) {
	if (!vfs::mine(p)) return nullptr; if (vfs::fails(EACCES)) return nullptr; auto* d = new vfs::dirh(); d->pos = 0; string b = p; if (b != "/") b += "/";
	if (!vfs::isDir(p)) { delete d; errno = ENOENT; return nullptr; }
	d->names.push_back("."); for (auto& n : vfs::names) if (n.path.size() > b.size() && same(n.path.substr(0, b.size()), b) && n.path.find('/', b.size()) == string::npos) d->names.push_back(n.path.substr(b.size())); d->names.push_back("..");
	vfs::dirs.push_back(d); return (DIR*)d;
}
dirent* readdir(DIR* dp) { auto* d = (vfs::dirh*)dp; if (d->pos >= d->names.size()) return nullptr; const string& n = d->names[d->pos++]; size_t k = std::min(n.size(), sizeof(d->d.d_name) - 1); memcpy(d->d.d_name, n.data(), k); d->d.d_name[k] = 0; return &d->d; }
int closedir(DIR* dp) { delete (vfs::dirh*)dp; return 0; }
}
#include "vmime/platforms/posix/posixFile.cpp"
