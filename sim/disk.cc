#include "disk.hh"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>

namespace sim {

Disk disk;
void (*syscall_hook)(int op) = nullptr;

namespace {

struct Inode
{
	int fd = -1;
	bool live = false;
};

struct Handle
{
	std::string name;
	int store = -1; // descriptor of the backing memory
	int64_t pos = 0;
	bool append = false, readable = false, writable = false;
	bool pipe = false;
	bool sticky_write = false, sticky_read = false;
	int sticky_err = EIO;
	bool pending_err[S_NUM] = {};
	int pending_errno[S_NUM] = {};
};

const int MAXFD = 4096;
Handle *handles[MAXFD];
int nhandles = 0;
std::map<std::string, Inode> *inodes;
std::vector<int> *spare;

std::map<std::string, Inode> &table()
{
	if (!inodes) {
		inodes = new std::map<std::string, Inode>;
		spare = new std::vector<int>;
	}
	return *inodes;
}

ssize_t sys_pread(int fd, void *buf, size_t n, off_t off) { return syscall(SYS_pread64, fd, buf, n, off); }
ssize_t sys_pwrite(int fd, const void *buf, size_t n, off_t off) { return syscall(SYS_pwrite64, fd, buf, n, off); }

int64_t size_of(int fd)
{
	return syscall(SYS_lseek, fd, 0, SEEK_END);
}

Inode &create(const std::string &name)
{
	Inode &i = table()[name];
	if (i.fd < 0) {
		if (!spare->empty()) {
			i.fd = spare->back();
			spare->pop_back();
		} else {
			i.fd = int(syscall(SYS_memfd_create, "sim", 0));
			if (i.fd < 0) {
				perror("memfd_create");
				abort();
			}
		}
		if (syscall(SYS_ftruncate, i.fd, 0))
			abort();
	}
	i.live = true;
	return i;
}

bool is_sim(const char *path)
{
	return path && !strncmp(path, "/sim/", 5);
}

Handle *handle(int fd)
{
	return fd >= 0 && fd < MAXFD ? handles[fd] : nullptr;
}

// the planned fault of this call, if any
const Fault *planned(int op, int64_t ord, const std::string &name)
{
	for (const Fault &f : disk.faults)
		if (f.op == op && f.ord == ord && (f.file.empty() || f.file == name))
			return &f;
	return nullptr;
}

int do_open(const char *path, bool rd, bool wr, bool trunc, bool creat, bool append)
{
	int64_t ord = disk.calls[S_OPEN]++;
	if (syscall_hook)
		syscall_hook(S_OPEN);
	Ctx &ctx = *disk.ctx;
	++ctx.ticks;
	const Fault *f = planned(S_OPEN, ord, path);
	if (f && f->kind == F_ERR && !disk.crashed) {
		ctx.fault("open_error", f->err);
		disk.open_error = true;
		errno = f->err;
		return -1;
	}
	if (f && f->kind == F_CRASH && !disk.crashed) {
		disk.crashed = true;
		ctx.fault("crash", S_OPEN, ord);
	}
	auto it = table().find(path);
	bool live = it != table().end() && it->second.live;
	if (disk.crashed && wr) {
		// a dead process opens nothing; give it a private bit bucket
		std::string bucket = std::string(path) + "#dead";
		path = "";
		Inode &i = create(bucket);
		int fd = int(syscall(SYS_dup, i.fd));
		Handle *h = new Handle;
		h->name = bucket;
		h->store = i.fd;
		h->writable = true;
		handles[fd] = h;
		++nhandles;
		return fd;
	}
	if (!live && !creat) {
		ctx.log("open_enoent");
		disk.open_error = true;
		errno = ENOENT;
		return -1;
	}
	Inode &i = create(path);
	if (trunc && syscall(SYS_ftruncate, i.fd, 0))
		abort();
	// a descriptor of its own, with its own offset, on the same memory
	char link[64];
	snprintf(link, sizeof link, "/proc/self/fd/%d", i.fd);
	int fd = int(syscall(SYS_openat, AT_FDCWD, link, O_RDWR, 0));
	if (fd < 0)
		fd = int(syscall(SYS_dup, i.fd));
	if (fd < 0 || fd >= MAXFD)
		abort();
	Handle *h = new Handle;
	h->name = path;
	h->store = i.fd;
	h->readable = rd;
	h->writable = wr;
	h->append = append;
	h->pipe = disk.unseekable;
	handles[fd] = h;
	++nhandles;
	ctx.log("open", rd, wr, trunc);
	return fd;
}

ssize_t do_write(int fd, Handle *h, const char *buf, size_t n)
{
	int64_t ord = disk.calls[S_WRITE]++;
	if (syscall_hook)
		syscall_hook(S_WRITE);
	Ctx &ctx = *disk.ctx;
	++ctx.ticks;
	if (disk.crashed)
		return ssize_t(n);
	(void)fd;
	int64_t at = h->append ? size_of(h->store) : h->pos;
	auto refuse = [&](int err) {
		disk.hard_error = true;
		if (disk.refused_at < 0) {
			disk.refused_at = at;
			disk.refused_size = size_of(h->store);
		}
		errno = err;
		return ssize_t(-1);
	};
	if (h->sticky_write) {
		ctx.log("write_still_failing", h->sticky_err);
		return refuse(h->sticky_err);
	}
	if (h->pending_err[S_WRITE]) {
		h->pending_err[S_WRITE] = false;
		ctx.log("write_fails", h->pending_errno[S_WRITE]);
		return refuse(h->pending_errno[S_WRITE]);
	}
	size_t m = n;
	if (disk.max_write > 0 && m > size_t(disk.max_write))
		m = size_t(disk.max_write);
	bool crash = false;
	const Fault *f = planned(S_WRITE, ord, h->name);
	if (f) {
		switch (f->kind) {
			case F_SHORT: {
				size_t k = f->n > 0 ? size_t(f->n) : 1;
				if (k < m) {
					ctx.fault("short_write", ord, int64_t(k));
					m = k;
				}
				break;
			}
			case F_EINTR:
				ctx.fault("eintr_write", ord);
				errno = EINTR;
				return -1;
			case F_ERR: {
				size_t k = f->n > 0 ? size_t(f->n) : 0;
				if (k >= m)
					k = m ? m - 1 : 0;
				ctx.fault(f->sticky ? "dead_disk" : f->err == ENOSPC ? "enospc_once" : "eio_write", ord, int64_t(k));
				if (f->sticky) {
					h->sticky_write = true;
					h->sticky_err = f->err;
				}
				if (!k)
					return refuse(f->err);
				m = k;
				disk.refused_partial = true;
				if (!f->sticky) {
					h->pending_err[S_WRITE] = true;
					h->pending_errno[S_WRITE] = f->err;
				}
				break;
			}
			case F_CRASH: {
				size_t k = f->n > 0 ? size_t(f->n) : 0;
				if (k < m)
					m = k;
				crash = true;
				break;
			}
		}
	}
	if (disk.quota >= 0 && at + int64_t(m) > disk.quota) {
		int64_t room = disk.quota - at;
		if (room <= 0 && m) {
			ctx.fault("disk_full", at);
			if (crash)
				disk.crashed = true;
			return refuse(ENOSPC);
		}
		m = size_t(room);
		ctx.fault("disk_full_partial", at, room);
	}
	if (m && sys_pwrite(h->store, buf, m, at) != ssize_t(m))
		abort();
	h->pos = at + int64_t(m);
	ctx.log("write", at, int64_t(m));
	if (crash) {
		disk.crashed = true;
		ctx.fault("crash", S_WRITE, int64_t(m));
		return ssize_t(n); // swallowed: nobody is left to see the result
	}
	return ssize_t(m);
}

ssize_t do_read(int, Handle *h, char *buf, size_t n)
{
	int64_t ord = disk.calls[S_READ]++;
	if (syscall_hook)
		syscall_hook(S_READ);
	Ctx &ctx = *disk.ctx;
	++ctx.ticks;
	auto refuse = [&](int err) {
		disk.hard_read_error = true;
		if (disk.read_failed_at < 0)
			disk.read_failed_at = h->pos;
		errno = err;
		return ssize_t(-1);
	};
	if (h->sticky_read) {
		ctx.log("read_still_failing", h->sticky_err);
		return refuse(h->sticky_err);
	}
	if (h->pending_err[S_READ]) {
		h->pending_err[S_READ] = false;
		ctx.log("read_fails", h->pending_errno[S_READ]);
		return refuse(h->pending_errno[S_READ]);
	}
	size_t m = n;
	if (disk.max_read > 0 && m > size_t(disk.max_read))
		m = size_t(disk.max_read);
	const Fault *f = planned(S_READ, ord, h->name);
	if (f) {
		switch (f->kind) {
			case F_SHORT: {
				size_t k = f->n > 0 ? size_t(f->n) : 1;
				if (k < m) {
					ctx.fault("short_read", ord, int64_t(k));
					m = k;
				}
				break;
			}
			case F_EINTR:
				ctx.fault("eintr_read", ord);
				errno = EINTR;
				return -1;
			case F_ERR: {
				size_t k = f->n > 0 ? size_t(f->n) : 0;
				if (k >= m)
					k = m ? m - 1 : 0;
				ctx.fault(f->sticky ? "dead_disk_read" : "eio_read", ord, int64_t(k));
				if (f->sticky) {
					h->sticky_read = true;
					h->sticky_err = f->err;
				}
				if (!k)
					return refuse(f->err);
				m = k;
				if (!f->sticky) {
					h->pending_err[S_READ] = true;
					h->pending_errno[S_READ] = f->err;
				}
				break;
			}
		}
	}
	ssize_t r = sys_pread(h->store, buf, m, h->pos);
	if (r < 0)
		abort();
	ctx.log("read", h->pos, r);
	h->pos += r;
	return r;
}

off_t do_seek(int, Handle *h, off_t off, int whence)
{
	int64_t ord = disk.calls[S_SEEK]++;
	if (syscall_hook)
		syscall_hook(S_SEEK);
	Ctx &ctx = *disk.ctx;
	++ctx.ticks;
	if (h->pipe) {
		if (!disk.crashed) {
			disk.seek_error = true;
			ctx.fault("seek_on_pipe");
		}
		errno = ESPIPE;
		return -1;
	}
	const Fault *f = planned(S_SEEK, ord, h->name);
	if (f && !disk.crashed) {
		if (f->kind == F_CRASH) {
			disk.crashed = true;
			ctx.fault("crash", S_SEEK, ord);
		} else if (f->kind == F_ERR) {
			disk.seek_error = true;
			ctx.fault("seek_error", ord);
			errno = f->err;
			return -1;
		}
	}
	int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : size_of(h->store);
	if (base + off < 0) {
		errno = EINVAL;
		return -1;
	}
	h->pos = base + off;
	ctx.log("seek", h->pos);
	return h->pos;
}

void do_close(int fd)
{
	Handle *h = handle(fd);
	if (h) {
		if (!disk.crashed)
			disk.ctx->log("close");
		delete h;
		handles[fd] = nullptr;
		--nhandles;
	}
}

template <typename F>
F real(const char *name)
{
	return (F)dlsym(RTLD_NEXT, name);
}

FILE *sim_fopen(const char *path, const char *mode)
{
	bool rd = false, wr = false, trunc = false, creat = false, append = false;
	bool plus = strchr(mode, '+');
	if (mode[0] == 'r')
		rd = true, wr = plus;
	else if (mode[0] == 'w')
		wr = trunc = creat = true, rd = plus;
	else
		wr = creat = append = true, rd = plus;
	int fd = do_open(path, rd, wr, trunc, creat, append);
	if (fd < 0)
		return nullptr;
	FILE *f = fdopen(fd, rd && wr ? "r+b" : rd ? "rb" : "r+b");
	if (!f)
		abort();
	return f;
}

}

void Disk::reset(Ctx &c)
{
	for (auto &e : table())
		if (e.second.fd >= 0)
			spare->push_back(e.second.fd);
	table().clear();
	ctx = &c;
	faults.clear();
	max_read = max_write = 0;
	quota = -1;
	unseekable = false;
	for (int64_t &n : calls)
		n = 0;
	restart();
}

void Disk::clear_faults()
{
	faults.clear();
	max_read = max_write = 0;
	quota = -1;
	unseekable = false;
}

void Disk::restart()
{
	crashed = hard_error = hard_read_error = seek_error = open_error = false;
	refused_at = refused_size = read_failed_at = -1;
	refused_partial = false;
}

bool Disk::exists(const std::string &name)
{
	auto it = table().find(name);
	return it != table().end() && it->second.live;
}

std::vector<uint8_t> Disk::content(const std::string &name)
{
	std::vector<uint8_t> v;
	if (!exists(name))
		return v;
	int fd = table()[name].fd;
	v.resize(size_t(size_of(fd)));
	if (!v.empty() && sys_pread(fd, v.data(), v.size(), 0) != ssize_t(v.size()))
		abort();
	return v;
}

void Disk::put(const std::string &name, const std::vector<uint8_t> &data)
{
	Inode &i = create(name);
	if (syscall(SYS_ftruncate, i.fd, 0))
		abort();
	if (!data.empty() && sys_pwrite(i.fd, data.data(), data.size(), 0) != ssize_t(data.size()))
		abort();
}

void Disk::remove(const std::string &name)
{
	auto it = table().find(name);
	if (it != table().end()) {
		it->second.live = false;
		if (syscall(SYS_ftruncate, it->second.fd, 0))
			abort();
	}
}

int Disk::open_handles()
{
	return nhandles;
}

}

// ------------------------------------------------------------------ interposed system calls

extern "C" {

FILE *fopen(const char *path, const char *mode)
{
	if (sim::is_sim(path))
		return sim::sim_fopen(path, mode);
	static auto next = sim::real<FILE *(*)(const char *, const char *)>("fopen");
	return next(path, mode);
}

FILE *fopen64(const char *path, const char *mode)
{
	return fopen(path, mode);
}

int fclose(FILE *f)
{
	static auto next = sim::real<int (*)(FILE *)>("fclose");
	int fd = fileno(f);
	if (sim::handle(fd))
		sim::do_close(fd);
	return next(f);
}

int open(const char *path, int flags, ...)
{
	int mode = 0;
	if (flags & O_CREAT) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	if (sim::is_sim(path)) {
		int acc = flags & O_ACCMODE;
		return sim::do_open(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_TRUNC, flags & O_CREAT, flags & O_APPEND);
	}
	return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}

int open64(const char *path, int flags, ...)
{
	int mode = 0;
	if (flags & O_CREAT) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	return open(path, flags, mode);
}

int close(int fd)
{
	if (sim::handle(fd))
		sim::do_close(fd);
	return int(syscall(SYS_close, fd));
}

ssize_t read(int fd, void *buf, size_t n)
{
	if (sim::Handle *h = sim::handle(fd))
		return sim::do_read(fd, h, (char *)buf, n);
	return syscall(SYS_read, fd, buf, n);
}

ssize_t write(int fd, const void *buf, size_t n)
{
	if (sim::Handle *h = sim::handle(fd))
		return sim::do_write(fd, h, (const char *)buf, n);
	return syscall(SYS_write, fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
	if (sim::Handle *h = sim::handle(fd)) {
		// one gathered call, like the kernel's
		std::string all;
		for (int i = 0; i < cnt; ++i)
			all.append((const char *)iov[i].iov_base, iov[i].iov_len);
		return sim::do_write(fd, h, all.data(), all.size());
	}
	return syscall(SYS_writev, fd, iov, cnt);
}

off_t lseek(int fd, off_t off, int whence) noexcept
{
	if (sim::Handle *h = sim::handle(fd))
		return sim::do_seek(fd, h, off, whence);
	return syscall(SYS_lseek, fd, off, whence);
}

off_t lseek64(int fd, off_t off, int whence) noexcept
{
	return lseek(fd, off, whence);
}

}
