/* Memory mapped files.
 * default: real files, every call of the operating system failing.
 * -DCRASH: in-memory file with a page cache, all histories and crash points. */
#define _GNU_SOURCE
#include "mc.h"
#include "sc_mmap.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#define PG 4096u

static bool fault_on, fault_hit, injected;
static int fault_errno; /* of the first failing call in this API call */
static const char *fault_what;

static void failed(const char *what, int e)
{
	if (!fault_hit) {
		fault_hit = true;
		fault_errno = e;
		fault_what = what;
	}
}
static void api(void)
{
	fault_hit = false;
	fault_errno = 0;
	fault_what = "";
	errno = ENOTTY; /* nobody's error */
}
static bool fails(const char *what, int e)
{
	if (!fault_on || !mc_choose_dev(2))
		return false;
	mc_note("%s fails", what);
	failed(what, e);
	injected = true;
	errno = e;
	return true;
}

/* ranges handed to msync, mlock and munlock in this call, as page numbers */
static const char *range_what;
static uintptr_t range_lo, range_hi;
static bool range_any;
static unsigned char *map_addr;
static size_t map_len;

static int range(const char *what, const void *p, size_t len, bool aligned)
{
	uintptr_t lo = (uintptr_t) p / PG, hi = ((uintptr_t) p + len + PG - 1) / PG;
	uintptr_t mlo = (uintptr_t) map_addr / PG, mhi = ((uintptr_t) map_addr + map_len + PG - 1) / PG;

	if (aligned && (uintptr_t) p % PG) {
		failed(what, EINVAL);
		errno = EINVAL;
		return -1;
	}
	if (!map_addr || lo < mlo || hi > mhi) {
		mc_fail("range-outside", "%s outside of the mapping", what);
		return -1;
	}
	if (range_any && range_what == what && lo <= range_hi && hi >= range_lo) {
		range_lo = lo < range_lo ? lo : range_lo;
		range_hi = hi > range_hi ? hi : range_hi;
	} else {
		range_lo = lo;
		range_hi = hi;
	}
	range_any = true;
	range_what = what;
	return 0;
}

long mc_sysconf(int name)
{
	if (name == _SC_PAGESIZE && fails("sysconf", EINVAL))
		return -1;
	return sysconf(name);
}
int mc_getpagesize(void)
{
	return (int) PG;
}

#ifndef CRASH
/* ---- real files ----------------------------------------------------------- */
#define NFD 64
static bool fd_open[NFD * 16];
static int nopen, nmaps;

static int opened(int fd, const char *what)
{
	if (fd < 0) {
		failed(what, errno);
		return fd;
	}
	if (fd < (int) sizeof(fd_open)) {
		fd_open[fd] = true;
		nopen++;
	}
	return fd;
}
int mc_openat(int dir, const char *name, int flags, ...)
{
	va_list va;
	int mode;

	va_start(va, flags);
	mode = flags & O_CREAT ? va_arg(va, int) : 0;
	va_end(va);
	if (fails("open", EMFILE))
		return -1;
	return opened(openat(dir, name, flags, mode), "open");
}
int mc_open(const char *name, int flags, ...)
{
	va_list va;
	int mode;

	va_start(va, flags);
	mode = flags & O_CREAT ? va_arg(va, int) : 0;
	va_end(va);
	return mc_openat(AT_FDCWD, name, flags, mode);
}
int mc_close(int fd)
{
	if (fd < 0 || fd >= (int) sizeof(fd_open) || !fd_open[fd]) {
		mc_fail("close", "close(%d), which is not open", fd);
		return -1;
	}
	fd_open[fd] = false;
	nopen--;
	close(fd);
	if (fault_hit)
		errno = EIO; /* closing may change it */
	return fault_hit ? -1 : 0;
}
static bool own(int fd, const char *what)
{
	if (fd >= 0 && fd < (int) sizeof(fd_open) && fd_open[fd])
		return true;
	mc_fail("badfd", "%s(%d), which is not open", what, fd);
	return false;
}
int mc_stat(const char *name, struct stat *st)
{
	int rc;

	if (fails("stat", EOVERFLOW))
		return -1;
	rc = stat(name, st);
	if (rc)
		failed("stat", errno);
	return rc;
}
int mc_fstat(int fd, struct stat *st)
{
	int rc;

	own(fd, "fstat");
	if (fails("stat", EOVERFLOW))
		return -1;
	rc = fstat(fd, st);
	if (rc)
		failed("stat", errno);
	return rc;
}
int mc_ftruncate(int fd, off_t len)
{
	int rc;

	own(fd, "ftruncate");
	if (fails("ftruncate", EIO))
		return -1;
	rc = ftruncate(fd, len);
	if (rc)
		failed("ftruncate", errno);
	return rc;
}
static int nintr;
static bool big;
int mc_posix_fallocate(int fd, off_t off, off_t len)
{
	int rc, k;

	own(fd, "posix_fallocate");
	k = fault_on ? mc_choose_dev(nintr < 3 ? 3 : 2) : 0;
	if (k == 2) {
		nintr++;
		mc_note("posix_fallocate is interrupted");
		return EINTR; /* errno is not set */
	}
	if (k == 1) {
		mc_note("posix_fallocate fails");
		failed("posix_fallocate", ENOSPC);
		injected = true;
		return ENOSPC;
	}
	if (big) { /* sizes only, no blocks */
		struct stat st;
		rc = fstat(fd, &st) || off < 0 || len <= 0 ? EINVAL :
		     off + len > st.st_size		   ? (ftruncate(fd, off + len) ? errno : 0) :
							     0;
	} else {
		rc = posix_fallocate(fd, off, len);
	}
	if (rc)
		failed("posix_fallocate", rc);
	return rc;
}
void *mc_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	void *p;

	own(fd, "mmap");
	if (fails("mmap", ENOMEM))
		return MAP_FAILED;
	p = mmap(addr, len, prot, flags, fd, off);
	if (p == MAP_FAILED) {
		failed("mmap", errno);
		return p;
	}
	nmaps++;
	map_addr = p;
	map_len = len;
	return p;
}
int mc_munmap(void *p, size_t len)
{
	if (!nmaps || p != map_addr || (len + PG - 1) / PG != (map_len + PG - 1) / PG) {
		mc_fail("munmap", "munmap of something that is not the mapping");
		return -1;
	}
	if (fails("munmap", ENOMEM))
		return -1;
	nmaps--;
	map_addr = NULL;
	return munmap(p, len);
}
int mc_msync(void *p, size_t len, int flags)
{
	if (range("msync", p, len, true))
		return -1;
	MC_CHECK((flags & MS_SYNC) && !(flags & MS_ASYNC), "async", "msync() does not wait");
	return fails("msync", EIO) ? -1 : 0;
}
int mc_mlock(const void *p, size_t len)
{
	if (range("mlock", p, len, false))
		return -1;
	return fails("mlock", EAGAIN) ? -1 : 0;
}
int mc_munlock(const void *p, size_t len)
{
	if (range("munlock", p, len, false))
		return -1;
	return fails("munlock", ENOMEM) ? -1 : 0;
}

static const long sizes[] = {-1, 0, 1, 4095, 4096, 4097, 8192, 12288};
static const int fflags[] = {O_RDONLY, O_RDWR, O_RDWR | O_CREAT, O_RDWR | O_CREAT | O_TRUNC,
			     O_RDWR | O_CREAT | O_EXCL, O_WRONLY | O_CREAT};
static const char *ffname[] = {"RDONLY", "RDWR", "RDWR|CREAT", "RDWR|CREAT|TRUNC", "RDWR|CREAT|EXCL", "WRONLY|CREAT"};
static const int prots[] = {PROT_READ, PROT_READ | PROT_WRITE, PROT_WRITE, PROT_NONE};
static const char *pname[] = {"READ", "READ|WRITE", "WRITE", "NONE"};
static const size_t offs[] = {0, 4096, 8192, 100};
static const size_t lens[] = {0, 1, 4096, 4097, 8192, 5};
static int ci, cf, cp, cm, co, cl;

static unsigned char pat(size_t i)
{
	return (unsigned char) (1 + i * 7 % 251 + i / 4096);
}
static unsigned char image[65536], got[65536];

static size_t file_now(unsigned char *buf, size_t cap)
{
	int fd = open("f", O_RDONLY);
	ssize_t n;

	if (fd < 0)
		return SIZE_MAX;
	n = read(fd, buf, cap);
	close(fd);
	return (size_t) n;
}

static void report(int rc, struct sc_mmap *m, const char *what)
{
	if (!fault_hit) {
		MC_CHECK(rc == 0, "rc", "%s returns %d, nothing failed", what, rc);
		return;
	}
	MC_CHECK(rc == -1, "rc", "%s returns %d although %s failed", what, rc, fault_what);
	MC_CHECK(!strcmp(sc_mmap_err(m), strerror(fault_errno)), "err", "%s: error text '%s', not '%s'", what,
		 sc_mmap_err(m), strerror(fault_errno));
}

static void run(void)
{
	struct sc_mmap m;
	long size = sizes[ci];
	size_t off = offs[co], len = lens[cl], old, now, L;
	bool write_prot = prots[cp] & PROT_WRITE, shared = cm == 0;
	int rc, want; /* 1 success, 0 failure, -1 open */

	/* the file */
	if (size < 0) {
		unlink("f");
	} else {
		int fd = open("f", O_RDWR | O_CREAT | O_TRUNC, 0600);
		for (long i = 0; i < size; i++)
			image[i] = pat((size_t) i);
		if (fd < 0 || write(fd, image, (size_t) size) != size)
			mc_fail("harness", "no scratch file");
		close(fd);
	}
	if (map_addr) { /* left over from a failed munmap */
		munmap(map_addr, map_len);
		map_addr = NULL;
	}
	nmaps = 0;
	nintr = 0;
	fault_on = true;
	injected = false;
	memset(&m, 0xa7, sizeof(m));

	/* what the manual promises */
	old = size < 0 ? 0 : (size_t) size;
	want = 1;
	if (size < 0 && !(fflags[cf] & O_CREAT))
		want = 0;
	if (size >= 0 && (fflags[cf] & O_EXCL))
		want = 0;
	if (want && (fflags[cf] & O_TRUNC))
		old = 0;
	L = len;
	if (want && !len) {
		if (old <= off)
			want = 0;
		L = old - off;
	}
	if (off % PG || (fflags[cf] & O_ACCMODE) == O_WRONLY)
		want = 0;
	if (write_prot && (fflags[cf] & O_ACCMODE) == O_RDONLY)
		want = want && !shared && off + L <= old ? -1 : 0;

	api();
	rc = sc_mmap_init(&m, "f", fflags[cf], prots[cp], shared ? MAP_SHARED : MAP_PRIVATE, off, len);
	report(rc, &m, "init");
	if (!strcmp(fault_what, "") && rc == 0)
		MC_CHECK(want != 0, "init-accepts", "init succeeds");
	if (rc && want == 1)
		MC_CHECK(injected, "init-fails", "init fails by itself: %s", sc_mmap_err(&m));
	if (rc) {
		MC_CHECK(nopen == 0, "fd-leak", "failed init leaves %d descriptors open", nopen);
		MC_CHECK(nmaps == 0, "map-leak", "failed init leaves a mapping");
		MC_CHECK(m.fd == -1 && m.ptr == NULL && m.len == 0, "failed-state", "failed init leaves fd %d ptr %p len %zu", m.fd,
			 (void *) m.ptr, m.len);
		now = file_now(got, sizeof(got));
		if (!(fflags[cf] & O_TRUNC) && size >= 0) {
			MC_CHECK(now >= old && now != SIZE_MAX, "shrunk", "failed init shrinks the file");
			MC_CHECK(!memcmp(got, image, old), "content", "failed init changes the file");
			if (!write_prot)
				MC_CHECK(now == old, "grown", "init without PROT_WRITE changes the size to %zu", now);
		}
	} else {
		size_t avail; /* bytes of the mapping that are in the file */

		MC_CHECK(sc_mmap_err(&m)[0] == 0, "err-init", "error text '%s' without error", sc_mmap_err(&m));
		MC_CHECK(nmaps == 1 && m.ptr == map_addr && m.len == L, "mapped", "mapping of %zu bytes, expected %zu", m.len, L);
		now = file_now(got, sizeof(got));
		if (write_prot)
			MC_CHECK(now == (off + L > old ? off + L : old), "expanded", "file of %zu bytes has %zu bytes, offset %zu length %zu",
				 old, now, off, L);
		else
			MC_CHECK(now == old, "grown", "init without PROT_WRITE changes the size from %zu to %zu", old, now);
		if (now > old) {
			memset(image + old, 0, now - old);
		}
		MC_CHECK(!memcmp(got, image, now), "content", "init changes the content of the file");
		avail = now <= off ? 0 : now - off < L ? now - off : L;
		if ((prots[cp] & PROT_READ) && avail)
			MC_CHECK(!memcmp(m.ptr, image + off, avail), "mapped-content", "the mapping does not show the file");
		if (write_prot && avail) {
			size_t at[3] = {0, avail / 2, avail - 1};
			for (int i = 0; i < 3; i++) {
				m.ptr[at[i]] ^= 0x55;
				if (shared)
					image[off + at[i]] ^= 0x55;
				if (i < 2 && at[i + 1] == at[i])
					break;
			}
		}
		/* one more call on it */
		{
			size_t ro[6] = {0, 0, L - 1, L / 2, L > 4000 ? 4000 : 0, L > PG ? PG : 0};
			size_t rl[6] = {L, 1, 1, L - L / 2, L > 4000 ? (L - 4000 < 200 ? L - 4000 : 200) : 1, L > PG ? 1 : L};
			int k = mc_choose(19);
			if (k) {
				int r = (k - 1) / 3, o = (k - 1) % 3;
				static const char *on[] = {"msync", "mlock", "munlock"};
				uintptr_t lo, hi;

				mc_note("%s(%zu, %zu)", on[o], ro[r], rl[r]);
				api();
				range_any = false;
				rc = o == 0 ? sc_mmap_msync(&m, ro[r], rl[r]) :
				     o == 1 ? sc_mmap_mlock(&m, ro[r], rl[r]) :
					      sc_mmap_munlock(&m, ro[r], rl[r]);
				report(rc, &m, on[o]);
				lo = ((uintptr_t) m.ptr + ro[r]) / PG;
				hi = ((uintptr_t) m.ptr + ro[r] + rl[r] + PG - 1) / PG;
				if (rc == 0)
					MC_CHECK(range_any && !strcmp(range_what, on[o]) && range_lo <= lo && range_hi >= hi,
						 "range", "%s of offset %zu length %zu does not cover all pages", on[o], ro[r], rl[r]);
				if (rc == 0 && o)
					MC_CHECK(range_lo == lo && range_hi == hi, "range-more",
						 "%s of offset %zu length %zu affects other pages", on[o], ro[r], rl[r]);
			}
		}
		api();
		rc = sc_mmap_term(&m);
		report(rc, &m, "term");
		MC_CHECK(nopen == 0, "fd-leak", "term leaves %d descriptors open", nopen);
		MC_CHECK(nmaps == (rc ? 1 : 0), "map-leak", "term leaves the mapping");
		MC_CHECK(m.fd == -1 && m.ptr == NULL && m.len == 0, "term-state", "term leaves fd %d ptr %p len %zu", m.fd,
			 (void *) m.ptr, m.len);
		now = file_now(got, sizeof(got));
		MC_CHECK(!memcmp(got, image, now), "written", "the file does not have what was written");
		mc_distinct_add(&(int[7]){ci, cf, cp, cm, co, cl, (int) now}, sizeof(int[7]));
	}
	api();
	fault_on = false;
	rc = sc_mmap_term(&m);
	MC_CHECK(rc == 0 && nopen == 0, "term-again", "term of an ended mapping returns %d", rc);
	mc_tick();
}

/* ---- sparse files and ranges around 2^31 and 2^32 bytes --------------------- */
#define G2 ((size_t) 1 << 31)
#define G4 ((size_t) 1 << 32)
static const size_t bsizes[] = {100, G2 - 1, G2, G2 + 4096 + 5, G4 - 1, G4, G4 + 1, G4 + 5000, 5 * (G4 / 4) + 8192};
static const size_t boffs[] = {0, G2 - 4096, G2, G4 - 4096, G4, G4 + 4096};
static const size_t blens[] = {0, 1, 4097, G2 - 1, G2, G4 - 1, G4, G4 + 1, G4 + 8192};
static int bi, bo, bl, bp;

/* 9 bytes are marked in a file: around the borders, and its ends */
static size_t marks(size_t *at, size_t size)
{
	const size_t all[] = {0, 1, G2 - 1, G2, G2 + 4096, G4 - 1, G4, G4 + 4096, size - 1};
	size_t n = 0;
	for (int i = 0; i < 9; i++)
		if (all[i] < size)
			at[n++] = all[i];
	return n;
}
static unsigned char mark(size_t at)
{
	return (unsigned char) (1 + (at ^ at >> 11 ^ at >> 27) % 251);
}

static void big_run(void)
{
	struct sc_mmap m;
	struct stat st;
	size_t size = bsizes[bi], off = boffs[bo], len = blens[bl], L, at[9], n, now, end;
	bool wr = bp == 1;
	int rc, fd;
	unsigned char c;

	fd = open("f", O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || ftruncate(fd, (off_t) size))
		mc_fail("harness", "no scratch file");
	n = marks(at, size);
	for (size_t i = 0; i < n; i++) {
		c = mark(at[i]);
		if (pwrite(fd, &c, 1, (off_t) at[i]) != 1)
			mc_fail("harness", "no scratch file");
	}
	if (map_addr) {
		munmap(map_addr, map_len);
		map_addr = NULL;
	}
	nmaps = 0;
	fault_on = false;
	memset(&m, 0xa7, sizeof(m));
	api();
	L = len ? len : size - off;
	rc = sc_mmap_init(&m, "f", wr ? O_RDWR : O_RDONLY, wr ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED, off, len);
	report(rc, &m, "init");
	if (!len && size <= off) {
		MC_CHECK(rc == -1, "init-accepts", "init of the rest of a file that ends before the offset succeeds");
		fstat(fd, &st);
		MC_CHECK((size_t) st.st_size == size, "grown", "failed init makes %zu bytes of %zu", (size_t) st.st_size, size);
	} else {
		MC_CHECK(rc == 0, "init-fails", "init fails by itself: %s", sc_mmap_err(&m));
		if (rc)
			goto out;
		MC_CHECK(nmaps == 1 && m.ptr == map_addr && m.len == L, "mapped", "mapping of %zu bytes, expected %zu", m.len, L);
		fstat(fd, &st);
		now = (size_t) st.st_size;
		end = wr && off + L > size ? off + L : size;
		MC_CHECK(now == end, "expanded", "file of %zu bytes has %zu bytes, offset %zu length %zu", size, now, off, L);
		for (size_t i = 0; i < n; i++)
			if (at[i] >= off && at[i] < off + L)
				MC_CHECK(m.ptr[at[i] - off] == mark(at[i]), "mapped-content",
					 "the mapping does not show byte %zu of the file", at[i]);
		{
			const size_t ro[] = {0, L - 1, L / 2, L > G2 ? G2 : 0, L > G4 ? G4 : 0, L > G4 ? 1 : 0};
			const size_t rl[] = {L, 1, L - L / 2, L > G2 ? L - G2 : L, L > G4 ? L - G4 : L, L > G4 ? G4 : 1};
			static const char *on[] = {"msync", "mlock", "munlock"};
			for (int r = 0; r < 6; r++)
				for (int o = 0; o < 3; o++) {
					uintptr_t lo = ((uintptr_t) m.ptr + ro[r]) / PG;
					uintptr_t hi = ((uintptr_t) m.ptr + ro[r] + rl[r] + PG - 1) / PG;
					api();
					range_any = false;
					rc = o == 0 ? sc_mmap_msync(&m, ro[r], rl[r]) :
					     o == 1 ? sc_mmap_mlock(&m, ro[r], rl[r]) :
						      sc_mmap_munlock(&m, ro[r], rl[r]);
					report(rc, &m, on[o]);
					MC_CHECK(range_any && !strcmp(range_what, on[o]) && range_lo <= lo && range_hi >= hi, "range",
						 "%s of offset %zu length %zu does not cover all pages", on[o], ro[r], rl[r]);
					if (o)
						MC_CHECK(range_lo == lo && range_hi == hi, "range-more",
							 "%s of offset %zu length %zu affects other pages", on[o], ro[r], rl[r]);
				}
		}
		if (wr) {
			m.ptr[0] = 254;
			m.ptr[L - 1] = 255;
		}
		api();
		rc = sc_mmap_term(&m);
		report(rc, &m, "term");
		MC_CHECK(nopen == 0 && nmaps == 0, "fd-leak", "term leaves the file or the mapping");
		fstat(fd, &st);
		MC_CHECK((size_t) st.st_size == end, "shrunk", "term changes the size");
		if (wr) {
			MC_CHECK(pread(fd, &c, 1, (off_t) (off + L - 1)) == 1 && c == 255, "written",
				 "the file does not have what was written at %zu", off + L - 1);
			if (L > 1)
				MC_CHECK(pread(fd, &c, 1, (off_t) off) == 1 && c == 254, "written",
					 "the file does not have what was written at %zu", off);
		}
		for (size_t i = 0; i < n; i++)
			if (!wr || (at[i] != off && at[i] != off + L - 1))
				MC_CHECK(pread(fd, &c, 1, (off_t) at[i]) == 1 && c == mark(at[i]), "content", "byte %zu of the file has changed",
					 at[i]);
		mc_distinct_add(&(size_t[5]){1, size, off, len, (size_t) wr}, 5 * sizeof(size_t));
	}
out:
	MC_CHECK(nopen == 0 && nmaps == 0, "fd-leak", "descriptors or mappings stay open");
	close(fd);
	truncate("f", 0);
	mc_tick();
}

static void explore(void)
{
	big = true;
	for (bi = 0; bi < 9; bi++)
		for (bo = 0; bo < 6; bo++)
			for (bl = 0; bl < 9; bl++)
				for (bp = 0; bp < 2; bp++)
					if (mc_mine("big: size %zu prot %s offset %zu len %zu", bsizes[bi], pname[bp], boffs[bo], blens[bl]))
						mc_dfs(big_run, 0, UINT64_MAX);
	big = false;
	for (ci = 0; ci < 8; ci++)
		for (cf = 0; cf < 6; cf++)
			for (cp = 0; cp < 4; cp++)
				for (cm = 0; cm < 2; cm++)
					for (co = 0; co < 4; co++)
						for (cl = 0; cl < 6; cl++) {
							if (!mc_mine("size %ld flags %s prot %s %s offset %zu len %zu", sizes[ci],
								     ffname[cf], pname[cp], cm ? "PRIVATE" : "SHARED", offs[co], lens[cl]))
								continue;
							mc_dfs(run, 2 + mc_thorough, UINT64_MAX);
						}
}
#else
/* ---- page cache and crashes ------------------------------------------------ */
#define NPG 4
#define LPG 1200 /* pages of the long mappings */
static int npg = NPG;
static unsigned char disk[LPG * PG], cache[LPG * PG + PG] __attribute__((aligned(4096)));
static long disk_size, inode_size; /* size on disk, size in memory */
static int fds;
static bool mapped;
static size_t moff;

int mc_open(const char *name, int flags, ...)
{
	fds++;
	return 100 + fds;
}
int mc_close(int fd)
{
	fds--;
	return 0;
}
int mc_stat(const char *name, struct stat *st)
{
	memset(st, 0, sizeof(*st));
	st->st_size = inode_size;
	st->st_mode = S_IFREG;
	st->st_blksize = PG;
	return 0;
}
int mc_fstat(int fd, struct stat *st)
{
	return mc_stat(NULL, st);
}
int mc_ftruncate(int fd, off_t len)
{
	inode_size = len;
	return 0;
}
int mc_posix_fallocate(int fd, off_t off, off_t len)
{
	if (off + len > (off_t) npg * PG)
		return ENOSPC;
	if (off + len > inode_size)
		inode_size = off + len;
	return 0;
}
void *mc_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	mapped = true;
	moff = (size_t) off;
	map_addr = cache + off;
	map_len = len;
	return map_addr;
}
int mc_munmap(void *p, size_t len)
{
	mapped = false;
	map_addr = NULL;
	return 0;
}
int mc_msync(void *p, size_t len, int flags)
{
	size_t lo, hi;
	int k;

	if (range("msync", p, len, true))
		return -1;
	if (flags & MS_ASYNC || !(flags & MS_SYNC))
		return 0;
	lo = (size_t) ((unsigned char *) p - cache);
	hi = (lo + len + PG - 1) / PG * PG;
	if (hi > (size_t) npg * PG)
		hi = (size_t) npg * PG;
	/* fails after some of the pages */
	if (npg > NPG) {
		k = mc_choose_dev(4);
		if (k)
			k = k == 1 ? 1 : k == 2 ? 1 + (int) ((hi - lo) / PG / 2) : (int) ((hi - lo) / PG);
	} else {
		k = mc_choose_dev(2 + (int) ((hi - lo) / PG));
	}
	if (k) {
		hi = lo + (size_t) (k - 1) * PG;
		failed("msync", EIO);
		mc_note("msync fails after %d pages", k - 1);
	}
	memcpy(disk + lo, cache + lo, hi - lo);
	if (!k)
		disk_size = inode_size;
	errno = k ? EIO : 0;
	return k ? -1 : 0;
}
int mc_mlock(const void *p, size_t len)
{
	return 0;
}
int mc_munlock(const void *p, size_t len)
{
	return 0;
}
int mc_openat(int dir, const char *name, int flags, ...)
{
	return mc_open(name, flags);
}

static int depth, cfg_off, cfg_len, first;
static const size_t woff[] = {0, 100, 4000, 4095, 4096, 4200, 8191, 8192, 8300, 12287};
static const size_t soff[][2] = {{0, 1},      {0, 4096},   {0, 4097},	{0, 0},	     {100, 4096},  {4000, 96}, {4000, 97},
				 {4000, 200}, {4095, 1},   {4095, 2},	{4096, 4096}, {4096, 4097}, {4200, 3992}, {4200, 3993},
				 {4200, 4096}, {8191, 2},  {8192, 1},	{8192, 4096}, {8300, 1},   {4095, 4098}};
#define NW ((int) (sizeof(woff) / sizeof(*woff)))
#define NS ((int) (sizeof(soff) / sizeof(*soff)))

/* per write position: value at the last sync that covered it, and whether later values exist */
static int val[NW], synced[NW];
static size_t used;

static void crash_check(void)
{
	/* any subset of the pages may have reached the disk as well */
	int dirty = 0;
	unsigned char after[NW + 1];

	for (int q = 0; q < NPG; q++)
		if (memcmp(disk + (size_t) q * PG, cache + (size_t) q * PG, PG))
			dirty |= 1 << q;
	for (int sub = 0; sub < 1 << NPG; sub++) {
		if (sub & ~dirty)
			continue;
		mc_transitions++;
		after[NW] = (unsigned char) sub;
		for (int w = 0; w < NW; w++) {
			size_t at = (size_t) cfg_off + woff[w];

			after[w] = sub >> at / PG & 1 ? cache[at] : disk[at];
			if ((long) at >= disk_size)
				after[w] = 0;
			if (woff[w] >= used || !synced[w])
				continue;
			MC_CHECK(after[w] >= synced[w] && after[w] <= val[w], "lost",
				 "byte %zu was %d at the last sync and is %d after a crash", woff[w], synced[w], after[w]);
		}
		mc_distinct_add(after, sizeof(after));
	}
	mc_validated++;
}

static void run(void)
{
	struct sc_mmap m;
	int rc;

	memset(disk, 0, NPG * PG);
	memset(cache, 0, (NPG + 1) * PG);
	memset(val, 0, sizeof(val));
	memset(synced, 0, sizeof(synced));
	disk_size = inode_size = 0;
	fds = 0;
	fault_on = false;
	memset(&m, 0x5a, sizeof(m));
	rc = sc_mmap_init(&m, "f", O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, (size_t) cfg_off, (size_t) cfg_len);
	MC_CHECK(rc == 0 && m.ptr == cache + cfg_off && m.len == (size_t) cfg_len, "init", "init returns %d", rc);
	used = m.len;
	for (int i = 0; i < depth; i++) {
		int k = i ? mc_choose(NW + NS) : first;
		if (k < NW) {
			if (woff[k] >= used)
				mc_prune();
			m.ptr[woff[k]] = (unsigned char) ++val[k];
			mc_note("write %zu", woff[k]);
		} else {
			size_t o = soff[k - NW][0], l = soff[k - NW][1];
			if (o + l > (used + PG - 1) / PG * PG)
				mc_prune();
			if (!l)
				l = used;
			api();
			range_any = false;
			mc_note("msync(%zu, %zu)", o, l);
			rc = sc_mmap_msync(&m, o, l);
			MC_CHECK(rc == (fault_hit ? -1 : 0), "rc", "msync returns %d", rc);
			if (rc == 0)
				for (int w = 0; w < NW; w++)
					if (woff[w] >= o && woff[w] < o + l)
						synced[w] = val[w];
		}
		crash_check();
	}
	mc_tick();
}

/* long mappings: a crash right after the history, with nothing written back by itself */
static const size_t llen[] = {65536, 65537, 17 * PG, 300000, 1 << 20, (1 << 20) + 1, 1100 * PG, 0};
static int lmap;
static void run_large(void)
{
	static int lval[LPG], lsync[LPG];
	struct sc_mmap m;
	int rc, nw = 0;
	size_t n = (size_t) npg, o, l;

	memset(disk, 0, n * PG);
	memset(cache, 0, n * PG);
	memset(lval, 0, sizeof(lval));
	memset(lsync, 0, sizeof(lsync));
	disk_size = inode_size = 0;
	fds = 0;
	fault_on = false;
	memset(&m, 0x5a, sizeof(m));
	rc = sc_mmap_init(&m, "f", O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, 0, n * PG - 100);
	MC_CHECK(rc == 0 && m.ptr == cache && m.len == n * PG - 100, "init", "init returns %d", rc);
	for (int i = 0; i < 2; i++) {
		for (size_t p = 0; p < n; p++) {
			m.ptr[p * PG + p % 3900] = (unsigned char) (1 + i);
			lval[p] = 1 + i;
		}
		nw++;
		o = (const size_t[]){0, 1, 4095, 4096, 4097, 70000}[mc_choose(6)];
		l = llen[mc_choose(8)];
		if (!l && o < m.len)
			l = m.len - o;
		if (o + l > m.len)
			mc_prune();
		api();
		range_any = false;
		mc_note("every page written, msync(%zu, %zu)", o, l);
		rc = sc_mmap_msync(&m, o, l);
		MC_CHECK(rc == (fault_hit ? -1 : 0), "rc", "msync returns %d", rc);
		for (size_t p = 0; p < n; p++) {
			size_t at = p * PG + p % 3900;

			if (rc == 0 && at >= o && at < o + l)
				lsync[p] = lval[p];
			MC_CHECK(disk[at] >= lsync[p] && disk[at] <= lval[p], "lost",
				 "byte %zu was %d at the last sync and is %d after a crash", at, lsync[p], disk[at]);
		}
		mc_transitions++;
		mc_validated++;
	}
	mc_distinct_add(&(size_t[3]){n, o, l}, 3 * sizeof(size_t));
	mc_tick();
}

static void explore(void)
{
	static const int lp[] = {17, 32, 300, LPG};

	for (lmap = 0; lmap < 4; lmap++)
		if (mc_mine("mapping of %d pages", lp[lmap])) {
			npg = lp[lmap];
			mc_dfs(run_large, 1, UINT64_MAX);
		}
	npg = NPG;
	static const int cfg[][2] = {{0, 12288}, {0, 8192}, {4096, 12288}, {0, 8193}, {4096, 5000}};

	for (int c = 0; c < 5; c++)
		for (int a = 0; a < NW; a++) {
			cfg_off = cfg[c][0];
			cfg_len = cfg[c][1];
			if (woff[a] >= (size_t) cfg_len)
				continue;
			if (!mc_mine("offset %d len %d first write %d", cfg_off, cfg_len, a))
				continue;
			/* a sync before the first write changes nothing */
			first = a;
			depth = 4 + mc_thorough;
			mc_dfs(run, 1, UINT64_MAX);
		}
}
#endif

#define ALIAS(n) __asm__(".globl mc_" #n "64\n.set mc_" #n "64, mc_" #n)
ALIAS(open);
ALIAS(openat);
ALIAS(stat);
ALIAS(fstat);
ALIAS(ftruncate);
ALIAS(posix_fallocate);
ALIAS(mmap);

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	explore();
	return mc_done();
}
