// A stand-in for the operating system's file calls: a virtual tree of directories. Nothing real is touched.
#pragma once
#include "common.h"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
enum { VFile, VDirectory, VOther, VGone };
struct VEntry { Str name; int kind; bool link = false; };   // link: a symbolic link to something of that kind
struct VDir { Str path; bool unreadable = false, types = false; std::vector<VEntry> entries; };
struct VHandle { VDir* dir; size_t pos; bool open; struct dirent ent; };
struct VOs { std::vector<VDir> dirs; std::vector<VHandle*> handles; unsigned opened = 0, closed = 0; bool statFails = false, accessFails = false; int cwdLen = -1; Str cwd; int linkLen = -1; Str link; int pid = 4711; };
static VOs& vos() { static VOs* v = new VOs; return *v; }
static const VEntry* ventry(const Str& p) { for (auto& d : vos().dirs) if (p.size() > d.path.size() + 1 && p.compare(0, d.path.size(), d.path) == 0 && p[d.path.size()] == '/') { Str n = p.substr(d.path.size() + 1); for (auto& e : d.entries) if (e.name == n) return &e; } return nullptr; }
static int vkind(const Str& p) { for (auto& d : vos().dirs) { if (d.path == p || d.path + "/" == p) return VDirectory; if (p.size() > d.path.size() + 1 && p.compare(0, d.path.size(), d.path) == 0 && p[d.path.size()] == '/') { Str n = p.substr(d.path.size() + 1); for (auto& e : d.entries) if (e.name == n) return e.kind; } } return VGone; }
extern "C" {
static int vstat(const char* path, struct stat* st) { int k = vos().statFails ? VGone : vkind(path); if (k == VGone) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_mode = k == VFile ? S_IFREG | 0644 : k == VDirectory ? S_IFDIR | 0755 : S_IFIFO | 0644; return 0; }
int stat(const char* path, struct stat* st) noexcept { return vstat(path, st); }
int lstat(const char* path, struct stat* st) noexcept { int r = vstat(path, st); const VEntry* e = vos().statFails ? nullptr : ventry(path); if (e && e->link) { if (r) { memset(st, 0, sizeof *st); r = 0; } st->st_mode = S_IFLNK | 0777; } return r; }
int access(const char* path, int) noexcept { if (!vos().accessFails && vkind(path) != VGone) return 0; errno = ENOENT; return -1; }
DIR* opendir(const char* path) { Str p(path); for (auto& d : vos().dirs) if (d.path == p || d.path + "/" == p) { if (d.unreadable) { errno = EACCES; return nullptr; } auto* h = new VHandle(); h->dir = &d; h->pos = 0; h->open = true; vos().handles.push_back(h); vos().opened++; return (DIR*)h; } errno = ENOENT; return nullptr; }
struct dirent* readdir(DIR* x) { auto* h = (VHandle*)x; if (!h || !h->open) { lps_fail("directory read through a handle that is not open"); return nullptr; } if (h->pos == h->dir->entries.size()) return nullptr; auto& e = h->dir->entries[h->pos++];
  memset(&h->ent, 0x55, sizeof h->ent); size_t n = e.name.size(); memcpy(h->ent.d_name, e.name.data(), n); h->ent.d_name[n] = 0; h->ent.d_type = !h->dir->types ? DT_UNKNOWN : e.link ? DT_LNK : e.kind == VFile ? DT_REG : e.kind == VDirectory ? DT_DIR : DT_FIFO; return &h->ent; }
int closedir(DIR* x) { auto* h = (VHandle*)x; if (!h || !h->open) { lps_fail("directory handle closed twice"); return -1; } h->open = false; vos().closed++; return 0; }
int dirfd(DIR* x) noexcept { auto& v = vos().handles; for (size_t i = 0; i < v.size(); i++) if (v[i] == (VHandle*)x && v[i]->open) return 1000 + (int)i; errno = EINVAL; return -1; }
int fstatat(int fd, const char* name, struct stat* st, int flags) noexcept { Str p(name); if (p.empty() || p[0] != '/') { if (fd >= 1000 && (size_t)fd - 1000 < vos().handles.size() && vos().handles[fd - 1000]->open) p = vos().handles[fd - 1000]->dir->path + "/" + p; else if (fd != AT_FDCWD) { errno = EBADF; return -1; } } return flags & AT_SYMLINK_NOFOLLOW ? lstat(p.c_str(), st) : vstat(p.c_str(), st); }
}
static Str procPath() { return "/proc/" + std::to_string(vos().pid) + "/exe"; }
extern "C" {
pid_t getpid(void) noexcept { return vos().pid; }
ssize_t readlink(const char* path, char* buf, size_t n) noexcept { if (Str(path) != procPath() && Str(path) != "/proc/self/exe") { errno = ENOENT; return -1; } if (vos().linkLen < 0) { errno = EACCES; return -1; } size_t k = vos().link.size() < n ? vos().link.size() : n; memcpy(buf, vos().link.data(), k); return (ssize_t)k; }
char* getcwd(char* buf, size_t n) noexcept { if (vos().cwdLen < 0) { errno = ENOENT; return nullptr; } if (vos().cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } memcpy(buf, vos().cwd.c_str(), vos().cwd.size() + 1); return buf; }
}
