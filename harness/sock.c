/* Sockets over a model of the kernel's sockets and of the resolver.
 * default: listen, connect, accept, term, pipes with every failing call;
 * -DXFER: sending and receiving; -DADDR: addresses as text and systemd. */
#define _GNU_SOURCE
#include "mc.h"
#include "sc_sock.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

#define NFDS 12
#define OTHER_FLAGS (O_RDWR | O_APPEND)

/* ---- the kernel ------------------------------------------------------------- */
enum { T_NONE, T_SOCK, T_PIPE };
static struct kfd {
	int open, type, family, socktype;
	int flags;
	int reuse, v6only, nodelay, reuse_at_bind, v6only_at_bind;
	int bound;	 /* 1 + index of the address, 0: no, -1: a path */
	char path[110];
	int listening;
	int peer;	 /* 1 + index of the address connected to */
	int progress;	 /* the same, still connecting */
	struct timeval rcv, snd;
	int pipe_end;
} F[NFDS];
static int fd_base, nopen, close_calls;

/* failures of this call: their error texts */
static char fail_text[32][128];
static int nfail, nsock;
static bool faults; /* calls may fail */
static int socket_fails, bind_fails; /* that many next ones do */
static int hard;    /* failures of other calls than socket(), connect() */

static void failed(const char *what, const char *text)
{
	mc_note("%s: %s\n", what, text);
	if (nfail < 32)
		snprintf(fail_text[nfail++], 128, "%.127s", text);
}
static bool fails(const char *what, int e1, int e2)
{
	int c;

	if (!faults || !mc_dev_left())
		return false;
	c = mc_choose_dev(e2 ? 3 : 2);
	if (!c)
		return false;
	errno = c == 1 ? e1 : e2;
	failed(what, strerror(errno));
	return true;
}
static int new_fd(void)
{
	for (int i = 0; i < NFDS; i++)
		if (!F[i].open) {
			memset(&F[i], 0, sizeof(F[i]));
			F[i].open = 1;
			F[i].flags = OTHER_FLAGS;
			nopen++;
			return fd_base + i;
		}
	mc_fail("leak", "more than %d descriptors are open", NFDS);
	abort();
}
static struct kfd *get(int fd, const char *what)
{
	if (fd < fd_base || fd >= fd_base + NFDS || !F[fd - fd_base].open) {
		mc_fail("bad-fd", "%s: descriptor %d is not open", what, fd);
		errno = EBADF;
		return NULL;
	}
	return &F[fd - fd_base];
}
int mc_close(int fd)
{
	struct kfd *f = get(fd, "close");

	if (!f)
		return -1;
	close_calls++;
	f->open = 0; /* also if it fails */
	nopen--;
	return fails("close", EIO, 0) ? -1 : 0;
}
int mc_socket(int domain, int type, int proto)
{
	int fd;

	(void) proto;
	if (socket_fails > 0) {
		socket_fails--;
		nsock++;
		errno = EAFNOSUPPORT;
		failed("socket", strerror(errno));
		return -1;
	}
	if (fails("socket", EMFILE, EAFNOSUPPORT)) {
		nsock++;
		return -1;
	}
	fd = new_fd();
	F[fd - fd_base].type = T_SOCK;
	F[fd - fd_base].family = domain;
	F[fd - fd_base].socktype = type & 15;
	if (type & SOCK_NONBLOCK)
		F[fd - fd_base].flags |= O_NONBLOCK;
	return fd;
}
static int vfcntl(int fd, int cmd, int arg)
{
	struct kfd *f = get(fd, "fcntl");

	if (!f)
		return -1;
	if (cmd == F_SETFD || cmd == F_GETFD)
		return 0;
	if (cmd != F_GETFL && cmd != F_SETFL) {
		mc_fail("fcntl", "fcntl command %d", cmd);
		return -1;
	}
	if (fails("fcntl", EINVAL, 0)) {
		hard++;
		return -1;
	}
	if (cmd == F_GETFL)
		return f->flags;
	MC_CHECK((arg & ~O_NONBLOCK) == OTHER_FLAGS, "flags", "file flags changed to %x", arg);
	f->flags = arg;
	return 0;
}
int mc_fcntl(int fd, int cmd, ...)
{
	va_list va;
	int arg;

	va_start(va, cmd);
	arg = va_arg(va, int);
	va_end(va);
	return vfcntl(fd, cmd, arg);
}
int mc_fcntl64(int fd, int cmd, ...)
{
	va_list va;
	int arg;

	va_start(va, cmd);
	arg = va_arg(va, int);
	va_end(va);
	return vfcntl(fd, cmd, arg);
}
int mc_ioctl(int fd, unsigned long req, ...)
{
	struct kfd *f = get(fd, "ioctl");
	va_list va;
	int *arg;

	va_start(va, req);
	arg = va_arg(va, int *);
	va_end(va);
	if (!f || fails("ioctl", EINVAL, 0)) {
		hard++;
		return -1;
	}
	if (req != FIONBIO) {
		mc_fail("ioctl", "ioctl %lx", req);
		return -1;
	}
	f->flags = OTHER_FLAGS | (*arg ? O_NONBLOCK : 0);
	return 0;
}
int mc_setsockopt(int fd, int level, int name, const void *val, socklen_t len)
{
	struct kfd *f = get(fd, "setsockopt");

	if (!f)
		return -1;
	if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {
		struct timeval tv;
		if (len < sizeof(tv)) {
			errno = EINVAL;
			return -1;
		}
		memcpy(&tv, val, sizeof(tv));
		if (tv.tv_usec < 0 || tv.tv_usec > 999999) {
			errno = EDOM;
			return -1;
		}
		if (fails("setsockopt", ENOMEM, 0))
			return -1;
		*(name == SO_RCVTIMEO ? &f->rcv : &f->snd) = tv;
		return 0;
	}
	if (fails("setsockopt", ENOPROTOOPT, 0)) {
		hard++;
		return -1;
	}
	MC_CHECK(len == sizeof(int), "option", "option of %u bytes", len);
	if (level == SOL_SOCKET && name == SO_REUSEADDR)
		f->reuse = *(const int *) val;
	else if (level == IPPROTO_IPV6 && name == IPV6_V6ONLY && f->family == AF_INET6)
		f->v6only = *(const int *) val;
	else if (level == IPPROTO_TCP && name == TCP_NODELAY && f->family != AF_UNIX)
		f->nodelay = *(const int *) val;
	else if (f->family == AF_UNIX || level == IPPROTO_IPV6) {
		errno = EOPNOTSUPP;
		failed("setsockopt", strerror(errno));
		hard++;
		return -1;
	}
	return 0;
}
static int so_error;
int mc_getsockopt(int fd, int level, int name, void *val, socklen_t *len)
{
	struct kfd *f = get(fd, "getsockopt");

	if (!f)
		return -1;
	if (level != SOL_SOCKET || name != SO_ERROR || *len < sizeof(int)) {
		mc_fail("getsockopt", "option %d %d", level, name);
		return -1;
	}
	if (fails("getsockopt", ENOBUFS, 0))
		return -1;
	*(int *) val = so_error;
	*len = sizeof(int);
	so_error = 0;
	return 0;
}

/* ---- the resolver and the network ---------------------------------------------- */
#define NADDR 304
#define NLIST 3 /* lists of up to this length are enumerated completely */
struct res {
	int n, fam[NADDR];
};
static struct res dst, src;
static struct node {
	struct addrinfo ai;
	struct sockaddr_storage sa;
} *nodes;
static int ninfo; /* lists not freed */
static const char *want_host, *want_port, *want_src, *want_sport;
static int outcome[NADDR], attempts[NADDR + 8], nattempts;

static void set_addr(struct sockaddr_storage *sa, socklen_t *len, int fam, int set, int i)
{
	memset(sa, 0, sizeof(*sa));
	if (fam == AF_INET) {
		struct sockaddr_in *a = (void *) sa;
		a->sin_family = AF_INET;
		a->sin_port = htons((uint16_t) (1000 * set + i));
		a->sin_addr.s_addr = htonl(0x0a000001);
		*len = sizeof(*a);
	} else {
		struct sockaddr_in6 *a = (void *) sa;
		a->sin6_family = AF_INET6;
		a->sin6_port = htons((uint16_t) (1000 * set + i));
		a->sin6_addr = in6addr_loopback;
		*len = sizeof(*a);
	}
}
/* -> index in the list, -1: no such address */
static int addr_index(const struct sockaddr *sa, socklen_t len, int set, const struct res *r)
{
	struct sockaddr_storage want;
	socklen_t wlen;

	for (int i = 0; i < r->n; i++) {
		set_addr(&want, &wlen, r->fam[i], set, i);
		if (len == wlen && !memcmp(&want, sa, wlen))
			return i;
	}
	return -1;
}
static bool same(const char *a, const char *b)
{
	return a == b || (a && b && !strcmp(a, b));
}
int mc_getaddrinfo(const char *host, const char *port, const struct addrinfo *h, struct addrinfo **out)
{
	struct node *v;
	struct res *r;
	int n = 0, set, c;

	if (same(host, want_host) && same(port, want_port))
		r = &dst, set = 1;
	else if ((want_src || want_sport) && same(host, want_src) && same(port, want_sport))
		r = &src, set = 2;
	else {
		mc_fail("name", "unexpected name '%s' '%s' resolved", host ? host : "(null)", port ? port : "(null)");
		return EAI_NONAME;
	}
	if (faults && mc_dev_left() && (c = mc_choose_dev(3))) {
		int rc = c == 1 ? EAI_NONAME : EAI_SYSTEM;
		if (c == 2)
			errno = EMFILE;
		hard++;
		failed("getaddrinfo", gai_strerror(rc));
		if (c == 2)
			failed("getaddrinfo", strerror(EMFILE));
		return rc;
	}
	v = calloc((size_t) (2 * r->n + 1), sizeof(*v));
	for (int i = 0; i < r->n; i++)
		for (int t = 0; t < (h && h->ai_socktype ? 1 : 2); t++) {
			if (h && h->ai_family != AF_UNSPEC && h->ai_family != r->fam[i])
				continue;
			v[n].ai.ai_family = r->fam[i];
			v[n].ai.ai_socktype = h && h->ai_socktype ? h->ai_socktype : t ? SOCK_DGRAM : SOCK_STREAM;
			v[n].ai.ai_protocol = v[n].ai.ai_socktype == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP;
			set_addr(&v[n].sa, &v[n].ai.ai_addrlen, r->fam[i], set, i);
			v[n].ai.ai_addr = (void *) &v[n].sa;
			if (n)
				v[n - 1].ai.ai_next = &v[n].ai;
			n++;
		}
	if (!n) {
		free(v);
		hard++;
		failed("getaddrinfo", gai_strerror(EAI_ADDRFAMILY));
		return EAI_ADDRFAMILY;
	}
	ninfo++;
	*out = &v->ai;
	return 0;
}
void mc_freeaddrinfo(struct addrinfo *a)
{
	if (!a) {
		mc_fail("free", "freeaddrinfo(NULL)");
		return;
	}
	MC_CHECK(ninfo > 0, "free", "address list freed twice");
	ninfo--;
	free(a); /* a later use or a second free is found by ASan */
}

/* ---- file names ----------------------------------------------------------------- */
static char files[3][128]; /* existing ones */
static int unlinked[3];
static int nfiles;

int mc_unlink(const char *p)
{
	for (int i = 0; i < nfiles; i++)
		if (!strcmp(files[i], p) && !unlinked[i]) {
			if (fails("unlink", EPERM, 0))
				return -1;
			unlinked[i] = 1;
			return 0;
		}
	errno = ENOENT;
	return -1;
}
int mc_bind(int fd, const struct sockaddr *sa, socklen_t len)
{
	struct kfd *f = get(fd, "bind");
	int i;

	if (!f)
		return -1;
	MC_CHECK(!f->bound, "bind", "bound twice");
	if (sa->sa_family == AF_UNIX) {
		const struct sockaddr_un *un = (const void *) sa;
		char p[110] = "";
		MC_CHECK(f->family == AF_UNIX && len <= sizeof(*un), "bind", "Unix address for family %d, %u bytes", f->family, len);
		memcpy(p, un->sun_path, len - offsetof(struct sockaddr_un, sun_path));
		for (i = 0; i < nfiles; i++)
			if (!unlinked[i] && !strcmp(files[i], p)) {
				errno = EADDRINUSE;
				failed("bind", strerror(errno));
				hard++;
				return -1;
			}
		if (fails("bind", EACCES, 0)) {
			hard++;
			return -1;
		}
		strcpy(f->path, p);
		f->bound = -1;
		return 0;
	}
	if (f->family != sa->sa_family) {
		errno = EINVAL;
		failed("bind", strerror(errno));
		return -1;
	}
	if (bind_fails > 0) {
		bind_fails--;
		errno = EADDRNOTAVAIL;
		failed("bind", strerror(errno));
		return -1;
	}
	if ((i = addr_index(sa, len, 1, &dst)) >= 0 && want_src == NULL && want_sport == NULL)
		f->bound = 1 + i;
	else if ((i = addr_index(sa, len, 2, &src)) >= 0)
		f->bound = 1 + i;
	else {
		mc_fail("bind", "bound to an address that was not resolved");
		return -1;
	}
	if (fails("bind", EADDRINUSE, 0)) {
		hard++;
		f->bound = 0;
		return -1;
	}
	f->reuse_at_bind = f->reuse;
	f->v6only_at_bind = f->v6only;
	return 0;
}
int mc_listen(int fd, int backlog)
{
	struct kfd *f = get(fd, "listen");

	if (!f)
		return -1;
	MC_CHECK(backlog > 0, "backlog", "backlog %d", backlog);
	MC_CHECK(f->bound, "listen", "listens without an address");
	if (fails("listen", EADDRINUSE, 0)) {
		hard++;
		return -1;
	}
	f->listening = 1;
	return 0;
}
static const char *unix_path;
static struct sockaddr_un dgram_conn; /* of a connected datagram socket */
static socklen_t dgram_conn_len;
int mc_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	static const int errs[] = {0, ECONNREFUSED, EINPROGRESS, ETIMEDOUT};
	struct kfd *f = get(fd, "connect");
	int i;

	if (!f)
		return -1;
	MC_CHECK(!f->peer && !f->progress, "connect", "connected twice");
#ifdef ADDR
	if (sa->sa_family == AF_UNIX && f->socktype == SOCK_DGRAM) {
		if (fails("connect", ECONNREFUSED, EAGAIN))
			return -1;
		memcpy(&dgram_conn, sa, len < sizeof(dgram_conn) ? len : sizeof(dgram_conn));
		dgram_conn_len = len;
		f->peer = 1;
		return 0;
	}
#endif
	if (sa->sa_family == AF_UNIX) {
		const struct sockaddr_un *un = (const void *) sa;
		MC_CHECK(f->family == AF_UNIX && len <= sizeof(*un) && memchr(un->sun_path, 0, len - 2) &&
				 !strcmp(un->sun_path, unix_path),
			 "connect", "connects to '%.100s' instead of '%s'", un->sun_path, unix_path);
		if (fails("connect", ECONNREFUSED, EAGAIN))
			return -1;
		f->peer = 1;
		return 0;
	}
	i = addr_index(sa, len, 1, &dst);
	if (i < 0) {
		mc_fail("connect", "connects to an address that was not resolved");
		return -1;
	}
	MC_CHECK(f->family == dst.fam[i], "connect", "address of family %d for a socket of family %d", dst.fam[i], f->family);
	if (nattempts < NADDR + 8)
		attempts[nattempts++] = i;
	if (!errs[outcome[i]]) {
		f->peer = 1 + i;
		return 0;
	}
	errno = errs[outcome[i]];
	if (errno == EINPROGRESS)
		f->progress = 1 + i;
	failed("connect", strerror(errno));
	return -1;
}
static int accept_err;
int mc_accept(int fd, struct sockaddr *sa, socklen_t *len)
{
	struct kfd *f = get(fd, "accept");
	int n;

	(void) sa, (void) len;
	if (!f)
		return -1;
	if (accept_err) {
		errno = accept_err;
		failed("accept", strerror(errno));
		return -1;
	}
	n = new_fd();
	F[n - fd_base].type = T_SOCK;
	F[n - fd_base].family = f->family;
	F[n - fd_base].socktype = SOCK_STREAM;
	F[n - fd_base].peer = 1;
	return n;
}
int mc_accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags)
{
	int n = mc_accept(fd, sa, len);
	if (n >= 0 && (flags & SOCK_NONBLOCK))
		F[n - fd_base].flags |= O_NONBLOCK;
	return n;
}
int mc_pipe2(int fds[2], int flags)
{
	if (fails("pipe", EMFILE, 0))
		return -1;
	for (int i = 0; i < 2; i++) {
		fds[i] = new_fd();
		F[fds[i] - fd_base].type = T_PIPE;
		F[fds[i] - fd_base].pipe_end = i;
		if (flags & O_NONBLOCK)
			F[fds[i] - fd_base].flags |= O_NONBLOCK;
	}
	return 0;
}
int mc_pipe(int fds[2])
{
	return mc_pipe2(fds, 0);
}

/* ---- transfer ------------------------------------------------------------------------- */
static uint8_t chan[64];
static size_t chan_in, chan_out;
static int max_eintr, eintr, flags_seen, calls, last_answer, want_fd;
static bool peer_closed;
enum { A_FULL, A_ONE, A_BUT1, A_EINTR, A_EAGAIN, A_ERR, A_EOF };

#ifdef XFER
static ssize_t transfer_long(uint8_t *buf, size_t n, bool out);
#endif
static bool long_mode;

static ssize_t transfer(int fd, void *buf, size_t n, int flags, bool out)
{
	int c;

	calls++;
#ifdef XFER
	if (long_mode && fd == want_fd)
		return transfer_long(buf, n, out);
#endif
	MC_CHECK(fd == want_fd, "fd", "descriptor %d is used instead of %d", fd, want_fd);
	flags_seen = flags;
	if (n > sizeof(chan)) {
		mc_fail("length", "%zu bytes asked for", n);
		errno = EINVAL;
		return -1;
	}
	if (!n) {
		/* moves nothing, leaves errno alone */
		if (calls > 100)
			mc_fail("empty", "a call for no byte is repeated for ever");
		return 0;
	}
	c = mc_choose(out ? A_ERR + 1 : A_EOF + 1);
	if (c == A_EINTR && ++eintr > max_eintr)
		mc_prune();
	last_answer = c;
	mc_note("%s %zu: answer %d\n", out ? "send" : "receive", n, c);
	switch (c) {
	case A_EINTR:
		errno = EINTR;
		return -1;
	case A_EAGAIN:
		errno = EAGAIN;
		return -1;
	case A_ERR:
		errno = ECONNRESET;
		failed("transfer", strerror(errno));
		return -1;
	case A_EOF:
		if (chan_out != chan_in)
			mc_prune();
		return 0;
	case A_ONE:
		if (n < 2)
			mc_prune();
		n = 1;
		break;
	case A_BUT1:
		if (n < 3)
			mc_prune();
		n--;
	}
	if (out) {
		memcpy(chan + chan_in, buf, n);
		chan_in += n;
	} else {
		if (n > chan_in - chan_out) {
			if (c != A_FULL || chan_in == chan_out)
				mc_prune();
			n = chan_in - chan_out;
		}
		memcpy(buf, chan + chan_out, n);
		if (!(flags & MSG_PEEK))
			chan_out += n;
	}
	return (ssize_t) n;
}
static ssize_t datagram(int fd, const void *msg, size_t n, const void *name, size_t len, int flags);
ssize_t mc_send(int fd, const void *b, size_t n, int flags)
{
	struct kfd *f = dgram_conn_len ? get(fd, "send") : NULL;

	if (f && f->socktype == SOCK_DGRAM)
		return datagram(fd, b, n, &dgram_conn, dgram_conn_len, flags);
	return transfer(fd, (void *) b, n, flags, true);
}
ssize_t mc_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l)
{
	if (a)
		return datagram(fd, b, n, a, l, flags);
	return transfer(fd, (void *) b, n, flags, true);
}
ssize_t mc_recv(int fd, void *b, size_t n, int flags)
{
	return transfer(fd, b, n, flags, false);
}
ssize_t mc_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *l)
{
	return transfer(fd, b, n, flags, false);
}
ssize_t mc_write(int fd, const void *b, size_t n)
{
	return transfer(fd, (void *) b, n, 0, true);
}
ssize_t mc_read(int fd, void *b, size_t n)
{
	return transfer(fd, b, n, 0, false);
}
ssize_t mc_recvmsg(int fd, struct msghdr *m, int flags)
{
	MC_CHECK(m->msg_iovlen == 1 && !m->msg_name, "recvmsg", "%zu parts", m->msg_iovlen);
	return transfer(fd, m->msg_iov->iov_base, m->msg_iov->iov_len, flags, false);
}
ssize_t mc_readv(int fd, const struct iovec *v, int n)
{
	MC_CHECK(n == 1, "readv", "%d parts", n);
	return transfer(fd, v->iov_base, v->iov_len, 0, false);
}
ssize_t mc_writev(int fd, const struct iovec *v, int n)
{
	MC_CHECK(n == 1, "writev", "%d parts", n);
	return transfer(fd, v->iov_base, v->iov_len, 0, true);
}

/* ---- addresses ---------------------------------------------------------------------------- */
static struct sockaddr_storage names[2];
static socklen_t name_len[2];
static int name_fail;

static int get_name(int fd, struct sockaddr *sa, socklen_t *len, int which)
{
	struct kfd *f = get(fd, "getsockname");
	if (!f)
		return -1;
	if (name_fail & (1 << which)) {
		errno = which ? ENOTCONN : ENOBUFS;
		failed("name", strerror(errno));
		return -1;
	}
	memcpy(sa, &names[which], *len < name_len[which] ? *len : name_len[which]);
	*len = name_len[which];
	return 0;
}
int mc_getsockname(int fd, struct sockaddr *sa, socklen_t *len)
{
	return get_name(fd, sa, len, 0);
}
int mc_getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
	return get_name(fd, sa, len, 1);
}
static const char *env_value;
char *mc_getenv(const char *name)
{
	MC_CHECK(!strcmp(name, "NOTIFY_SOCKET"), "getenv", "variable %s is read", name);
	return (char *) env_value;
}
char *mc_secure_getenv(const char *name)
{
	return mc_getenv(name);
}
static int datagrams;
static char dgram[70001], dgram_to[110];
static size_t dgram_tolen;

static ssize_t datagram(int fd, const void *msg, size_t n, const void *name, size_t len, int flags)
{
	struct kfd *f = get(fd, "sendmsg");

	if (!f)
		return -1;
	MC_CHECK(f->family == AF_UNIX && f->socktype == SOCK_DGRAM, "dgram", "socket of family %d type %d", f->family, f->socktype);
	MC_CHECK(flags & MSG_NOSIGNAL, "signal", "may raise SIGPIPE");
	MC_CHECK(len > 2 && len <= sizeof(struct sockaddr_un) && ((const struct sockaddr_un *) name)->sun_family == AF_UNIX, "address",
		 "address of %zu bytes", len);
	if (fails("sendmsg", ECONNREFUSED, EAGAIN))
		return -1;
	datagrams++;
	dgram_tolen = len - 2;
	memcpy(dgram_to, ((const struct sockaddr_un *) name)->sun_path, dgram_tolen);
	if (n >= sizeof(dgram)) {
		errno = EMSGSIZE;
		return -1;
	}
	memcpy(dgram, msg, n);
	dgram[n] = 0;
	return (ssize_t) n;
}
ssize_t mc_sendmsg(int fd, const struct msghdr *m, int flags)
{
	MC_CHECK(m->msg_iovlen == 1 && m->msg_controllen == 0, "dgram", "%zu parts", m->msg_iovlen);
	if (!m->msg_name)
		return mc_send(fd, m->msg_iov->iov_base, m->msg_iov->iov_len, flags);
	return datagram(fd, m->msg_iov->iov_base, m->msg_iov->iov_len, m->msg_name, m->msg_namelen, flags);
}

/* ---- common --------------------------------------------------------------------------------- */
static void world(void)
{
	memset(F, 0, sizeof(F));
	nopen = close_calls = nfail = nsock = hard = 0;
	ninfo = 0;
	nattempts = 0;
	nfiles = 0;
	memset(unlinked, 0, sizeof(unlinked));
	want_src = want_sport = NULL;
	want_host = "host";
	want_port = "1234";
	so_error = accept_err = 0;
	eintr = calls = 0;
	chan_in = chan_out = 0;
	datagrams = 0;
	dgram_conn_len = 0;
	faults = false;
	socket_fails = bind_fails = 0;
	name_fail = 0;
}
static void one_open(struct sc_sock *s, const char *what)
{
	MC_CHECK(nopen == 1, "open", "%s succeeds and %d descriptors are open", what, nopen);
	MC_CHECK(s->fdt.fd >= fd_base && s->fdt.fd < fd_base + NFDS && F[s->fdt.fd - fd_base].open, "open",
		 "%s succeeds with descriptor %d, which is not open", what, s->fdt.fd);
}
static void all_closed(struct sc_sock *s, const char *what)
{
	MC_CHECK(nopen == 0, "leak", "%s fails and %d descriptors stay open", what, nopen);
	MC_CHECK(s->fdt.fd == -1, "fd", "%s fails and leaves descriptor %d", what, s->fdt.fd);
}
static void error_text(const char *t, const char *what)
{
	for (int i = 0; i < nfail; i++)
		if (!strcmp(t, fail_text[i]))
			return;
	mc_fail("error", "%s fails with error text '%s'", what, t);
}
static struct kfd *kf(struct sc_sock *s)
{
	return &F[s->fdt.fd - fd_base];
}
/* a word on the stack where the library's frames will be */
__attribute__((noinline, no_sanitize("address"))) static void dirty_stack(void)
{
	volatile char b[6000];
	for (size_t i = 0; i < sizeof(b); i++)
		b[i] = 'Z';
}
static void end(struct sc_sock *s, const char *what)
{
	int rc, before, was = s->fdt.fd;

	faults = true;
	nfail = 0;
	before = close_calls;
	rc = sc_sock_term(s);
	faults = false;
	MC_CHECK(s->fdt.fd == -1 && nopen == 0, "term", "%d descriptors open, descriptor %d after term (%s)", nopen, s->fdt.fd, what);
	MC_CHECK(close_calls - before == (was != -1), "term", "%d close calls", close_calls - before);
	if (nfail) {
		MC_CHECK(rc == -1, "term", "term returns %d when close fails", rc);
		error_text(sc_sock_error(s), "term");
	} else
		MC_CHECK(rc == 0, "term", "term returns %d", rc);
	before = close_calls;
	MC_CHECK(sc_sock_term(s) == 0 && close_calls == before, "term", "second term");
}
static const int fams[] = {AF_INET, AF_INET6};
static void choose_list(struct res *r, int max)
{
	r->n = 1 + mc_choose(max);
	for (int i = 0; i < r->n; i++)
		r->fam[i] = fams[mc_choose(2)];
}
static void note_list(const char *what, const struct res *r)
{
	mc_note("%s:", what);
	for (int i = 0; i < r->n; i++)
		mc_note(" %s", r->fam[i] == AF_INET ? "IPv4" : "IPv6");
	mc_note("\n");
}
static void start(void)
{
	nfail = hard = 0;
	faults = true;
	dirty_stack();
	errno = mc_choose(2) ? EAGAIN : 0; /* of an earlier call */
}
static uint64_t sig;
static void mix(uint64_t v)
{
	sig = sig * 31 + v + 1;
}

#if !defined(XFER) && !defined(ADDR)
/* ---- the life of a socket ---------------------------------------------------------------------- */
static void check_accept(struct sc_sock *s)
{
	static const int errs[] = {0, EAGAIN, EMFILE, ECONNABORTED, EINTR};
	struct sc_sock in;
	bool nb = !s->blocking;
	int rc, lfd = s->fdt.fd;

	if (mc_choose(2)) {
		sc_sock_init(&in, 7, mc_choose(2), s->family);
		mc_note("accept\n");
	} else {
		memset(&in, 0x5a, sizeof(in));
		mc_note("accept into a new object\n");
	}
	accept_err = errs[mc_choose(5)];
	start();
	rc = sc_sock_accept(s, &in);
	faults = false;
	mix((uint64_t) accept_err);
	mix((uint64_t) (nfail + 10));
	MC_CHECK(s->fdt.fd == lfd && kf(s)->open && kf(s)->listening, "accept", "the listening socket changed");
	if (nfail == 0) {
		MC_CHECK(rc == 0, "accept", "accept returns %d", rc);
		MC_CHECK(nopen == 2 && in.fdt.fd != lfd && in.fdt.fd >= fd_base && kf(&in)->open, "accept", "descriptor %d, %d open", in.fdt.fd,
			 nopen);
		MC_CHECK(in.family == s->family && in.fdt.op == SC_SOCK_NONE, "accept", "family %d, op %d", in.family, in.fdt.op);
		MC_CHECK(!!(kf(&in)->flags & O_NONBLOCK) == nb, "nonblock", "accepted socket is %sblocking", nb ? "" : "non");
		MC_CHECK(s->family == AF_UNIX || kf(&in)->nodelay, "nodelay", "no TCP_NODELAY");
		MC_CHECK(sc_sock_term(&in) == 0, "accept", "term of the accepted socket");
	} else {
		MC_CHECK(rc == -1, "accept", "accept returns %d after a failure", rc);
		if (accept_err == EAGAIN && nb)
			MC_CHECK(errno == EAGAIN, "errno", "errno %d", errno);
		else
			error_text(sc_sock_error(s), "accept");
		if (accept_err != EAGAIN && nb)
			MC_CHECK(errno != EAGAIN, "errno", "a failure looks like EAGAIN");
		if (!accept_err)
			MC_CHECK(in.fdt.fd == -1, "fd", "accept fails and leaves descriptor %d", in.fdt.fd);
	}
	MC_CHECK(nopen == 1, "leak", "%d descriptors open after accept", nopen);
}
static char longpath[140];
static void run_listen(void)
{
	struct sc_sock s;
	int fam, rc, skipped;
	bool blocking;

	world();
	sig = 1;
	fd_base = mc_choose(2) ? 0 : 30;
	fam = fams[mc_choose(2)];
	blocking = mc_choose(2);
	choose_list(&dst, NLIST);
	note_list("listen", &dst);
	mc_note("family %d, %sblocking\n", fam, blocking ? "" : "non");
	sc_sock_init(&s, 5, blocking, fam);
	start();
	rc = sc_sock_listen(&s, "host", "1234");
	faults = false;
	mix((uint64_t) (rc + 2) * 16 + (uint64_t) nfail);
	MC_CHECK(ninfo == 0, "addrinfo", "%d address lists not freed", ninfo);
	skipped = nsock;
	if (rc == 0) {
		struct kfd *k;
		one_open(&s, "listen");
		k = kf(&s);
		MC_CHECK(k->listening && k->socktype == SOCK_STREAM && k->family == fam, "listen", "not listening on family %d", fam);
		MC_CHECK(k->bound && dst.fam[k->bound - 1] == fam, "listen", "bound to another address");
		MC_CHECK(!!(k->flags & O_NONBLOCK) == !blocking, "nonblock", "listening socket is %sblocking", blocking ? "non" : "");
		MC_CHECK(k->reuse_at_bind, "reuse", "bound without SO_REUSEADDR");
		MC_CHECK(fam == AF_INET || k->v6only_at_bind, "v6only", "bound without IPV6_V6ONLY");
		MC_CHECK(s.fdt.type == 5 && s.fdt.op == SC_SOCK_NONE && s.family == fam && s.blocking == blocking, "listen", "socket changed");
		check_accept(&s);
	} else {
		int usable = 0;
		MC_CHECK(rc == -1, "listen", "listen returns %d", rc);
		for (int i = 0; i < dst.n; i++)
			usable += dst.fam[i] == fam;
		MC_CHECK(hard || skipped >= usable, "listen", "fails although an address could be used");
		all_closed(&s, "listen");
		error_text(sc_sock_error(&s), "listen");
	}
	end(&s, "listen");
	mix(nfail);
	mc_distinct_add(&sig, 8);
	mc_tick();
}
static void run_unix(void)
{
	struct sc_sock s;
	int rc, lens[] = {1, 20, 106, 107, 108, 120}, len;
	bool blocking, conn;
	char before[140];

	world();
	sig = 2;
	fd_base = mc_choose(2) ? 0 : 30;
	blocking = mc_choose(2);
	conn = mc_choose(2);
	len = lens[mc_choose(6)];
	memset(longpath, 'p', sizeof(longpath));
	longpath[0] = '/';
	longpath[len] = 0;
	/* an old socket of that name, and files of similar names */
	if (mc_choose(2))
		strcpy(files[nfiles++], longpath);
	if (len > 1) {
		int n = len > 107 ? 107 : len - 1;
		memcpy(files[nfiles], longpath, (size_t) n);
		files[nfiles++][n] = 0;
	}
	strcpy(before, longpath);
	mc_note("Unix %s, path of %d characters, %sblocking\n", conn ? "connect" : "listen", len, blocking ? "" : "non");
	unix_path = longpath;
	sc_sock_init(&s, 5, blocking, SC_SOCK_UNIX);
	start();
	rc = conn ? sc_sock_connect(&s, longpath, NULL, NULL, NULL) : sc_sock_listen(&s, longpath, NULL);
	faults = false;
	mix((uint64_t) (rc + 2) * 16 + (uint64_t) nfail);
	mix((uint64_t) len + conn * 256);
	for (int i = 0; i < nfiles; i++)
		if (unlinked[i])
			MC_CHECK(!conn && len < 108 && !strcmp(files[i], before), "unlink", "deletes the file %s of %zu characters", files[i],
				 strlen(files[i]));
	if (rc == 0) {
		struct kfd *k;
		MC_CHECK(len < 108, "path", "succeeds with a path of %d characters", len);
		one_open(&s, "Unix socket");
		k = kf(&s);
		MC_CHECK(k->family == AF_UNIX && k->socktype == SOCK_STREAM, "unix", "family %d type %d", k->family, k->socktype);
		MC_CHECK(!!(k->flags & O_NONBLOCK) == !blocking, "nonblock", "Unix socket is %sblocking", blocking ? "non" : "");
		if (conn)
			MC_CHECK(k->peer, "unix", "not connected");
		else
			MC_CHECK(k->listening && k->bound == -1 && !strcmp(k->path, before), "unix", "listens on '%s' instead of '%s'", k->path,
				 before);
		if (!conn)
			check_accept(&s);
	} else {
		MC_CHECK(rc == -1, "unix", "returns %d", rc);
		MC_CHECK(nfail || len >= 108, "unix", "fails without reason: %s", sc_sock_error(&s));
		all_closed(&s, "Unix socket");
		if (len < 108)
			error_text(sc_sock_error(&s), "Unix socket");
		else
			MC_CHECK(*sc_sock_error(&s), "error", "no error text");
		if (len >= 108)
			MC_CHECK(blocking || errno != EAGAIN, "errno", "a failure looks like a connection in progress");
	}
	end(&s, "unix");
	mc_distinct_add(&sig, 8);
	mc_tick();
}
static int c_fam, c_src;
static bool c_blocking;
static void run_connect(void)
{
	struct sc_sock s;
	int fam, rc, want[8], n = 0, k, srcmode;
	bool blocking, ok = false, stop = false, inprog = false;

	world();
	sig = 3;
	fd_base = mc_choose(2) ? 0 : 30;
	fam = fams[c_fam];
	blocking = c_blocking;
	srcmode = c_src;
	choose_list(&dst, NLIST);
	for (int i = 0; i < dst.n; i++)
		outcome[i] = mc_choose(4);
	if (srcmode == 1)
		want_src = "source";
	else if (srcmode == 2)
		want_sport = "99";
	else if (srcmode == 3)
		want_src = "source", want_sport = "99";
	if (srcmode)
		choose_list(&src, 2);
	note_list("connect", &dst);
	for (int i = 0; i < dst.n; i++)
		mc_note(" outcome %d", outcome[i]);
	mc_note("\nfamily %d, %sblocking\n", fam, blocking ? "" : "non");
	if (srcmode)
		note_list("source", &src);
	sc_sock_init(&s, 5, blocking, fam);
	start();
	rc = sc_sock_connect(&s, "host", "1234", want_src, want_sport);
	faults = false;
	mix((uint64_t) (rc + 2) * 16 + (uint64_t) nfail);
	mix((uint64_t) nattempts * 16 + (uint64_t) nopen);
	MC_CHECK(ninfo == 0, "addrinfo", "%d address lists not freed", ninfo);
	/* the order: own family first; an address without a socket is skipped */
	for (int pass = 0; pass < 2; pass++)
		for (int i = 0; i < dst.n; i++)
			if ((dst.fam[i] == fam) == !pass)
				want[n++] = i;
	k = 0;
	for (int i = 0; i < n && k < nattempts; i++)
		if (attempts[k] == want[i])
			k++;
	MC_CHECK(k == nattempts, "order", "addresses tried in another order than own family first, each once");
	for (int i = 0; i < nattempts; i++) {
		MC_CHECK(!stop, "again", "another address is tried after a connection");
		ok = outcome[attempts[i]] == 0;
		inprog = outcome[attempts[i]] == 2 && !blocking;
		stop = ok || inprog;
	}
	if (rc == 0) {
		struct kfd *f;
		one_open(&s, "connect");
		MC_CHECK(ok, "connect", "succeeds without a connection");
		f = kf(&s);
		MC_CHECK(f->peer == 1 + attempts[nattempts - 1], "connect", "the descriptor is not the connected one");
	} else {
		MC_CHECK(rc == -1 && !ok, "connect", "returns %d with%s connection", rc, ok ? " a" : "out");
		if (inprog) {
			one_open(&s, "connect in progress");
			MC_CHECK(errno == EAGAIN, "errno", "errno %d for a connection in progress", errno);
			MC_CHECK(kf(&s)->progress == 1 + attempts[nattempts - 1], "connect", "the descriptor is not the connecting one");
		} else {
			bool src_fits = true;
			all_closed(&s, "connect");
			MC_CHECK(blocking || errno != EAGAIN, "errno", "a failure looks like a connection in progress");
			error_text(sc_sock_error(&s), "connect");
			if (srcmode) {
				src_fits = true;
				for (int i = 0; i < dst.n; i++) {
					bool any = false;
					for (int j = 0; j < src.n; j++)
						any |= src.fam[j] == dst.fam[i];
					src_fits &= any;
				}
			}
			/* no call failed but connect() and socket(): every address was tried */
			if (!hard && src_fits) {
				MC_CHECK(nattempts + nsock >= n, "gives-up", "only %d of %d addresses tried", nattempts + nsock, n);
			}
		}
	}
	if (rc == 0 || inprog) {
		struct kfd *f = kf(&s);
		MC_CHECK(!!(f->flags & O_NONBLOCK) == !blocking, "nonblock", "connected socket is %sblocking", blocking ? "non" : "");
		MC_CHECK(f->nodelay, "nodelay", "no TCP_NODELAY");
		MC_CHECK(s.family == f->family && f->socktype == SOCK_STREAM, "family", "family %d, socket of family %d type %d", s.family, f->family,
			 f->socktype);
		MC_CHECK(srcmode ? f->bound && src.fam[f->bound - 1] == f->family : !f->bound, "source", "bound to source %d", f->bound);
		MC_CHECK(!srcmode || f->reuse_at_bind, "reuse", "bound without SO_REUSEADDR");
		if (inprog) {
			static const int errs[] = {0, ECONNREFUSED, ETIMEDOUT};
			int e = errs[mc_choose(3)];
			so_error = e;
			nfail = 0;
			faults = true;
			rc = sc_sock_finish_connect(&s);
			faults = false;
			mc_note("finish: %d\n", e);
			if (nfail || e) {
				if (!nfail)
					failed("connection", strerror(e));
				MC_CHECK(rc == -1, "finish", "finish_connect returns %d for a failed connection", rc);
				error_text(sc_sock_error(&s), "finish_connect");
			} else
				MC_CHECK(rc == 0, "finish", "finish_connect returns %d", rc);
		}
	}
	end(&s, "connect");
	mc_distinct_add(&sig, 8);
	mc_tick();
}
/* names of many addresses of which the first ones cannot be used */
static void run_many(void)
{
	static const int counts[] = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 31, 32, 33, 48, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128,
				     129, 200, 201, 254, 255, 256, 257, 258, 300, 304};
	struct sc_sock s;
	int fam, other, rc, n, kind, layout, usable, order[NADDR], k = 0;
	bool blocking;

	world();
	sig = 5;
	fd_base = mc_choose(2) ? 0 : 30;
	fam = fams[mc_choose(2)];
	other = fam == AF_INET ? AF_INET6 : AF_INET;
	blocking = mc_choose(2);
	n = counts[mc_choose(sizeof(counts) / sizeof(*counts))];
	kind = mc_choose(5); /* connect: refused, no socket; source: other families, refused; listen: no socket */
	layout = mc_choose(kind < 2 ? 5 : 1);
	usable = mc_choose(3); /* the last one, the one before, none */
	mc_note("%d addresses, family %d, %sblocking, kind %d, layout %d, usable %d\n", n, fam, blocking ? "" : "non", kind, layout, usable);
	dst.n = kind == 2 || kind == 3 ? 1 : n;
	for (int i = 0; i < dst.n; i++) {
		dst.fam[i] = layout == 0	? fam :
			     layout == 1	? other :
			     layout == 2 	? (i & 1 ? fam : other) :
			     layout == 3	? (i == n - 1 ? fam : other) :
						  (i == n - 1 ? other : fam);
		outcome[i] = 0;
	}
	for (int pass = 0; pass < 2; pass++)
		for (int i = 0; i < dst.n; i++)
			if ((dst.fam[i] == fam) == !pass)
				order[k++] = i;
	k = usable == 2 ? n : n - 1 - usable;
	if (kind == 0)
		for (int i = 0; i < k; i++)
			outcome[order[i]] = 1;
	else if (kind == 1 || kind == 4)
		socket_fails = k;
	else {
		want_src = "source";
		src.n = n;
		for (int i = 0; i < n; i++)
			src.fam[i] = kind == 2 && i != k ? other : fam;
		bind_fails = kind == 3 ? k : 0;
	}
	sc_sock_init(&s, 5, blocking, fam);
	nfail = hard = 0;
	dirty_stack();
	errno = EAGAIN;
	rc = kind == 4 ? sc_sock_listen(&s, "host", "1234") : sc_sock_connect(&s, "host", "1234", want_src, NULL);
	mix((uint64_t) n);
	mix((uint64_t) (kind * 64 + layout * 8 + usable));
	MC_CHECK(ninfo == 0, "addrinfo", "%d address lists not freed", ninfo);
	if (usable == 2) {
		MC_CHECK(rc == -1, "many", "returns %d without a usable address", rc);
		all_closed(&s, "many addresses");
		MC_CHECK(blocking || errno != EAGAIN, "errno", "a failure looks like a connection in progress");
		error_text(sc_sock_error(&s), "many addresses");
		MC_CHECK(kind != 0 || nattempts == n, "gives-up", "only %d of %d addresses tried", nattempts, n);
		MC_CHECK((kind != 1 && kind != 4) || nsock == n, "gives-up", "only %d of %d addresses tried", nsock, n);
	} else {
		struct kfd *f;
		MC_CHECK(rc == 0, "many", "fails although address %d of %d could be used: %s", k + 1, n, sc_sock_error(&s));
		one_open(&s, "many addresses");
		f = kf(&s);
		if (kind == 4)
			MC_CHECK(f->listening && f->bound == 1 + k, "listen", "bound to address %d instead of %d", f->bound, 1 + k);
		else if (kind < 2)
			MC_CHECK(f->peer == 1 + order[k] && s.family == dst.fam[order[k]], "connect", "connected to address %d instead of %d", f->peer,
				 1 + order[k]);
		else
			MC_CHECK(f->peer == 1 && f->bound == 1 + k, "source", "bound to source %d instead of %d", f->bound, 1 + k);
		MC_CHECK(!!(f->flags & O_NONBLOCK) == !blocking, "nonblock", "socket is %sblocking", blocking ? "non" : "");
		for (int i = 0; kind == 0 && i < nattempts; i++)
			MC_CHECK(attempts[i] == order[i], "order", "addresses tried in another order than own family first, each once");
	}
	end(&s, "many addresses");
	mc_distinct_add(&sig, 8);
	mc_tick();
}
static void run_misc(void)
{
	struct sc_sock_pipe p;
	int rc, before;

	world();
	sig = 4;
	fd_base = mc_choose(2) ? 0 : 30;
	dirty_stack();
	memset(&p, 0x5a, sizeof(p));
	faults = true;
	mc_note("pipe\n");
	rc = sc_sock_pipe_init(&p, 9);
	faults = false;
	if (nfail) {
		MC_CHECK(rc == -1 && nopen == 0, "pipe", "init returns %d, %d open", rc, nopen);
		MC_CHECK(strstr(sc_sock_pipe_err(&p), fail_text[0]), "error", "error text '%s'", sc_sock_pipe_err(&p));
	} else {
		MC_CHECK(rc == 0 && nopen == 2, "pipe", "init returns %d, %d open", rc, nopen);
		MC_CHECK(p.fdt.fd == p.fds[0] && p.fdt.type == 9 && p.fdt.op == SC_SOCK_NONE, "pipe", "descriptor %d of %d %d, type %d", p.fdt.fd,
			 p.fds[0], p.fds[1], p.fdt.type);
		MC_CHECK(F[p.fds[0] - fd_base].pipe_end == 0 && F[p.fds[1] - fd_base].pipe_end == 1, "pipe", "ends exchanged");
		MC_CHECK(!(F[p.fds[0] - fd_base].flags & O_NONBLOCK) && !(F[p.fds[1] - fd_base].flags & O_NONBLOCK), "pipe", "not blocking");
	}
	nfail = 0;
	faults = true;
	rc = sc_sock_pipe_term(&p);
	faults = false;
	mix(nfail);
	MC_CHECK(nopen == 0, "leak", "%d ends open after term", nopen);
	MC_CHECK(rc == (nfail ? -1 : 0), "pipe", "term returns %d with %d failures", rc, nfail);
	if (nfail)
		MC_CHECK(strstr(sc_sock_pipe_err(&p), fail_text[0]) || strstr(sc_sock_pipe_err(&p), fail_text[nfail - 1]), "error",
			 "error text '%s'", sc_sock_pipe_err(&p));
	before = close_calls;
	MC_CHECK(sc_sock_pipe_term(&p) == 0 && close_calls == before, "pipe", "second term");
	mc_distinct_add(&sig, 8);
	mc_tick();
}
static void run_options(void)
{
	static const int vals[] = {0, 1, 2, 999, 1000, 1001, 1999, 10000, 12345, 999999, INT32_MAX};
	struct sc_sock s;
	struct timeval *t, *o;
	int op, ms, rc;

	world();
	sig = 5;
	fd_base = mc_choose(2) ? 0 : 30;
	sc_sock_init(&s, 1, true, SC_SOCK_INET);
	s.fdt.fd = mc_socket(AF_INET, SOCK_STREAM, 0);
	start();
	op = mc_choose(4);
	if (op < 2) {
		ms = vals[mc_choose(11)];
		mc_note("%s timeout %d ms\n", op ? "send" : "receive", ms);
		rc = op ? sc_sock_set_sndtimeo(&s, ms) : sc_sock_set_rcvtimeo(&s, ms);
		t = op ? &kf(&s)->snd : &kf(&s)->rcv;
		o = op ? &kf(&s)->rcv : &kf(&s)->snd;
		if (nfail) {
			MC_CHECK(rc < 0, "timeout", "returns %d after a failure", rc);
			error_text(sc_sock_error(&s), "timeout");
		} else {
			MC_CHECK(rc == 0, "timeout", "returns %d", rc);
			MC_CHECK((int64_t) t->tv_sec * 1000000 + t->tv_usec == (int64_t) ms * 1000, "timeout", "%lld.%06ld s set for %d ms",
				 (long long) t->tv_sec, (long) t->tv_usec, ms);
		}
		MC_CHECK(!o->tv_sec && !o->tv_usec, "timeout", "the other timeout changed");
	} else {
		int was = mc_choose(2) ? O_NONBLOCK : 0;
		kf(&s)->flags |= was;
		mc_note("set %sblocking\n", op == 2 ? "" : "non");
		rc = sc_sock_set_blocking(&s, op == 2);
		if (nfail)
			MC_CHECK(rc == -1 && kf(&s)->flags == (OTHER_FLAGS | was), "blocking", "returns %d after a failure", rc);
		else
			MC_CHECK(rc == 0 && kf(&s)->flags == (OTHER_FLAGS | (op == 2 ? 0 : O_NONBLOCK)), "blocking", "returns %d, flags %x", rc,
				 kf(&s)->flags);
		ms = op;
	}
	faults = false;
	mix((uint64_t) op * 100000 + (uint64_t) ms);
	end(&s, "options");
	mc_distinct_add(&sig, 8);
	mc_tick();
}

int main(int argc, char **argv)
{
	int d = mc_thorough ? 3 : 2;

	mc_init(argc, argv);
	if (mc_mine("listen"))
		mc_dfs(run_listen, d, UINT64_MAX);
	if (mc_mine("unix"))
		mc_dfs(run_unix, d, UINT64_MAX);
	for (int i = 0; i < 16; i++) {
		c_fam = i & 1;
		c_blocking = i >> 1 & 1;
		c_src = i >> 2;
		if (mc_mine("connect, family %d, %sblocking, source %d", fams[c_fam], c_blocking ? "" : "non", c_src))
			mc_dfs(run_connect, d, UINT64_MAX);
	}
	if (mc_mine("many addresses"))
		mc_dfs(run_many, 0, UINT64_MAX);
	if (mc_mine("pipe"))
		mc_dfs(run_misc, d, UINT64_MAX);
	if (mc_mine("options"))
		mc_dfs(run_options, d, UINT64_MAX);
	return mc_done();
}
#endif

#ifdef XFER
static const uint8_t msg[] = "abcdefghijkl";
static bool is_pipe;
static int nops, maxlen, fset;

static void run(void)
{
	struct sc_sock s;
	struct sc_sock_pipe p;
	size_t sent = 0, got = 0;
	uint8_t in[16], copy[sizeof(msg)];

	world();
	sig = is_pipe;
	fd_base = 30;
	sc_sock_init(&s, 1, false, SC_SOCK_INET);
	s.fdt.fd = fd_base + 3;
	memset(&p, 0, sizeof(p));
	p.fds[0] = p.fdt.fd = fd_base + 4;
	p.fds[1] = fd_base + 5;
	for (int i = 0; i < nops; i++) {
		bool out = mc_choose(2);
		static const int lens[] = {1, 2, 4, 0, -1, -33, INT32_MIN};
		int len = lens[mc_choose(is_pipe ? 4 : mc_thorough || i == 0 ? 7 : 4)], flags = 0, rc, before = calls;

		if (out && sent + (size_t) (len > 0 ? len : 0) > 12)
			mc_prune();
		if (!is_pipe)
			flags = fset == 0 ? (i & 1 ? MSG_NOSIGNAL | MSG_DONTWAIT : 0) :
				fset == 1 ? (out ? MSG_MORE : MSG_PEEK) :
				fset == 2 ? (out ? MSG_DONTROUTE | MSG_NOSIGNAL : MSG_WAITALL) :
					    (out ? MSG_MORE | MSG_DONTWAIT : i & 1 ? 0 : MSG_PEEK | MSG_DONTWAIT);
		nfail = 0;
		eintr = 0;
		max_eintr = i ? 2 : 3;
		last_answer = -1;
		errno = i & 1 ? EINTR : EAGAIN;
		want_fd = is_pipe ? p.fds[out] : s.fdt.fd;
		mc_note("%s %d\n", out ? "send" : "receive", len);
		memset(in, 0xee, sizeof(in));
		memcpy(copy, msg, sizeof(msg));
		*s.err = 0;
		if (is_pipe)
			rc = out ? sc_sock_pipe_write(&p, copy + sent, (unsigned) len) : sc_sock_pipe_read(&p, in, (unsigned) len);
		else
			rc = out ? sc_sock_send(&s, (char *) copy + sent, len, flags) : sc_sock_recv(&s, (char *) in, len, flags);
		mix((uint64_t) (out * 8 + last_answer + 1));
		mix((uint64_t) rc);
		if (len <= 0) {
			/* a pipe may ask the kernel for nothing */
			MC_CHECK(rc == len && (calls == before || (is_pipe && calls == before + 1)), "empty", "length %d: %d returned, %d calls", len, rc, calls - before);
			continue;
		}
		MC_CHECK(calls > before, "no-call", "nothing was tried");
		MC_CHECK(flags_seen == flags, "flags", "flags %x passed as %x", flags, flags_seen);
		switch (last_answer) {
		case A_EINTR:
			mc_fail("interrupt", "gives up when interrupted");
			break;
		case A_EAGAIN:
			MC_CHECK(rc < 0 && errno == EAGAIN, "again", "%d returned, errno %d when it would block", rc, errno);
			break;
		case A_ERR:
			MC_CHECK(rc < 0, "fails", "%d returned when the connection is broken", rc);
			MC_CHECK(errno != EAGAIN, "errno", "a broken connection looks like EAGAIN");
			if (!is_pipe)
				error_text(sc_sock_error(&s), "transfer");
			break;
		case A_EOF:
			if (is_pipe)
				MC_CHECK(rc == 0, "eof", "%d returned at the end of the pipe", rc);
			else
				MC_CHECK(rc < 0 && errno != EAGAIN, "eof", "%d returned, errno %d when the peer has closed", rc, errno);
			break;
		default:
			MC_CHECK(rc > 0 && rc <= len, "count", "%d bytes of %d", rc, len);
			if (out) {
				sent += (size_t) rc;
			} else {
				MC_CHECK(!memcmp(in, msg + got, (size_t) rc), "data", "other bytes received");
				if (!(flags & MSG_PEEK))
					got += (size_t) rc;
			}
		}
		MC_CHECK(chan_in == sent && !memcmp(chan, msg, sent), "stream", "%zu bytes in the stream, %zu reported as sent", chan_in, sent);
		MC_CHECK(chan_out == got, "stream", "%zu bytes taken, %zu reported as received", chan_out, got);
		for (size_t k = (size_t) (out || rc < 0 ? 0 : rc); k < sizeof(in); k++)
			MC_CHECK(in[k] == 0xee, "overrun", "byte %zu written", k);
		MC_CHECK(!memcmp(copy, msg, sizeof(msg)), "data", "the sender's data changed");
	}
	MC_CHECK(s.fdt.fd == fd_base + 3 && p.fds[0] == fd_base + 4 && p.fds[1] == fd_base + 5 && close_calls == 0, "fd", "descriptors changed");
	mc_distinct_add(&sig, 8);
	mc_tick();
}

/* ---- long transfers: up to what an int or an unsigned can tell -------------------- */
#define LPERIOD (257UL * 4096)
#define KMAX 0x7ffff000UL /* Linux moves no more in one call */
static uint8_t *lsend, *lrecv;
static size_t llen, moved; /* asked for, and in the stream so far */
static bool ltrunc;

static uint8_t pattern(size_t at)
{
	at %= LPERIOD;
	return (uint8_t) (at * 7 + at / 251 + at / 65536 * 13);
}
/* the offsets looked at: the ends, and some byte of every page (of a long transfer: of some pages) */
static size_t next_mark(size_t at, size_t from, size_t to)
{
	size_t step = to - from > (4UL << 20) ? 257 * 4096 - 4096 : 4093;

	if (at < from + 64 || at >= to - 64)
		return at + 1;
	return at + step < to - 64 ? at + step : to - 64;
}
static ssize_t transfer_long(uint8_t *buf, size_t n, bool out)
{
	int c = mc_choose(out ? A_ERR + 1 : A_EOF + 1);

	if (c == A_EINTR && ++eintr > max_eintr)
		mc_prune();
	last_answer = c;
	mc_note("%s %zu: answer %d\n", out ? "send" : "receive", n, c);
	MC_CHECK(n <= llen - moved, "length", "%zu bytes asked for, %zu are left", n, llen - moved);
	errno = c == A_EINTR ? EINTR : c == A_EAGAIN ? EAGAIN : ECONNRESET;
	if (c == A_EINTR || c == A_EAGAIN || c == A_ERR) {
		if (c == A_ERR)
			failed("transfer", strerror(errno));
		return -1;
	}
	if (c == A_EOF)
		return 0;
	if (n > KMAX)
		n = KMAX;
	if (c == A_ONE)
		n = 1;
	if (c == A_BUT1)
		n = n > 1 ? n - 1 : 1;
	for (size_t i = moved; i < moved + n; i = next_mark(i, moved, moved + n))
		if (!out)
			buf[i - moved] = pattern(i);
		else if (buf[i - moved] != pattern(i))
			mc_fail("data", "byte %zu sent is another one", i);
	moved += n;
	return (ssize_t) n;
}
static void lmaps(void)
{
	FILE *f = tmpfile();
	size_t all = (4UL << 30) + LPERIOD;

	for (size_t i = 0; f && i < LPERIOD; i++)
		fputc(pattern(i), f);
	lsend = mmap(NULL, all, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	lrecv = mmap(NULL, all, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (!f || fflush(f) || lsend == MAP_FAILED || lrecv == MAP_FAILED)
		mc_fail("harness", "no memory for long transfers");
	for (size_t at = 0; at + LPERIOD <= all; at += LPERIOD)
		if (mmap(lsend + at, LPERIOD, PROT_READ, MAP_SHARED | MAP_FIXED, fileno(f), 0) == MAP_FAILED)
			mc_fail("harness", "no memory for long transfers");
	fclose(f);
}
static bool lout;
static void run_long(void)
{
	struct sc_sock s;
	struct sc_sock_pipe p;
	int rc, e;
	size_t got;

	world();
	fd_base = 30;
	sc_sock_init(&s, 1, false, SC_SOCK_INET);
	s.fdt.fd = fd_base + 3;
	memset(&p, 0, sizeof(p));
	p.fds[0] = p.fdt.fd = fd_base + 4;
	p.fds[1] = fd_base + 5;
	nfail = eintr = 0;
	max_eintr = 2;
	last_answer = -1;
	moved = 0;
	long_mode = true;
	want_fd = is_pipe ? p.fds[lout] : s.fdt.fd;
	errno = 0;
	if (is_pipe)
		rc = lout ? sc_sock_pipe_write(&p, lsend, (unsigned) llen) : sc_sock_pipe_read(&p, lrecv, (unsigned) llen);
	else
		rc = lout ? sc_sock_send(&s, (char *) lsend, (int) llen, 0) : sc_sock_recv(&s, (char *) lrecv, (int) llen, 0);
	e = errno;
	long_mode = false;
	got = rc > 0 ? (size_t) rc : 0;
	MC_CHECK(got == moved, "count", "%d returned after %zu of %zu bytes", rc, moved, llen);
	MC_CHECK(last_answer >= 0 && last_answer != A_EINTR, "interrupt", "gives up when interrupted");
	if (!moved) {
		bool eof = last_answer == A_EOF;
		MC_CHECK(eof && is_pipe ? rc == 0 : rc < 0, "fails", "%d returned when nothing was moved", rc);
		MC_CHECK((eof && is_pipe) || (e == EAGAIN) == (last_answer == A_EAGAIN), "errno", "errno %d", e);
	}
	if (!lout) {
		for (size_t i = 0; i < got; i = next_mark(i, 0, got))
			/* the same marks as the kernel's, if it was one call */
			if (calls == 1 + eintr && lrecv[i] != pattern(i))
				mc_fail("data", "byte %zu received is another one", i);
		MC_CHECK(!lrecv[got] && !lrecv[got + 64], "overrun", "more than %zu bytes are written", got);
		madvise(lrecv, (4UL << 30) + LPERIOD, MADV_DONTNEED);
	}
	uint64_t key[4] = {llen, moved, (uint64_t) rc, (uint64_t) last_answer};
	mc_distinct_add(key, sizeof(key));
	mc_tick();
}
int main(int argc, char **argv)
{
	static const size_t llens[] = {100, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 1UL << 20, (1UL << 20) + 1,
				       1UL << 24, (1UL << 30) + 1, 0x7ffff000, 0x7ffff001, 0x7fffffff, 0x80000000, 0xffffffff};

	mc_init(argc, argv);
	for (int i = 0; i < 20; i++)
		for (int k = 0; k < 4; k++) {
			llen = llens[i];
			is_pipe = k & 1;
			lout = k & 2;
			if (llen > 0x7fffffff && !is_pipe)
				continue;
			if (!mc_mine("long, %zu bytes, pipe %d, sending %d", llen, is_pipe, lout))
				continue;
			if (!lsend)
				lmaps();
			mc_dfs(run_long, 0, 100000);
		}
	for (int k = 0; k < 2; k++)
		for (nops = 1; nops <= 3 + mc_thorough; nops++) {
			is_pipe = k;
			if (mc_mine("%s, %d calls", k ? "pipe" : "socket", nops))
				mc_dfs(run, 0, UINT64_MAX);
			for (fset = 1; !k && fset < 4; fset++)
				if (mc_mine("socket, %d calls, flags %d", nops, fset))
					mc_dfs(run, 0, UINT64_MAX);
			fset = 0;
		}
	return mc_done();
}
#endif

#ifdef ADDR
static const char *const v4[] = {"0.0.0.0", "127.0.0.1", "255.255.255.255", "10.0.200.3"};
static const char *const v6[] = {"::", "::1", "ff02::1", "2001:db8:1:2:3:4:5:6", "::ffff:192.168.1.200",
				 "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"};
static const int ports[] = {0, 1, 80, 255, 256, 4660, 32768, 65535};
static char expect[2][160];
static bool exact[2];

static void choose_name(int w)
{
	struct sockaddr_storage *st = &names[w];
	int kind = mc_choose(6);

	memset(st, 0x77, sizeof(*st)); /* what is beyond the length is not copied */
	exact[w] = true;
	if (kind == 0) {
		struct sockaddr_in *a = (void *) st;
		int i = mc_choose(4), p = mc_choose(8);
		memset(a, 0, sizeof(*a));
		a->sin_family = AF_INET;
		inet_pton(AF_INET, v4[i], &a->sin_addr);
		a->sin_port = htons((uint16_t) ports[p]);
		name_len[w] = sizeof(*a);
		snprintf(expect[w], sizeof(expect[w]), "%s:%d", v4[i], ports[p]);
	} else if (kind == 1) {
		struct sockaddr_in6 *a = (void *) st;
		int i = mc_choose(6), p = mc_choose(8);
		memset(a, 0, sizeof(*a));
		a->sin6_family = AF_INET6;
		inet_pton(AF_INET6, v6[i], &a->sin6_addr);
		a->sin6_port = htons((uint16_t) ports[p]);
		name_len[w] = sizeof(*a);
		snprintf(expect[w], sizeof(expect[w]), "%s:%d", v6[i], ports[p]);
	} else if (kind == 2) { /* a Unix socket without a name */
		st->ss_family = AF_UNIX;
		name_len[w] = sizeof(sa_family_t);
		*expect[w] = 0;
	} else if (kind == 3 || kind == 4) { /* a path; with 108 characters it is not terminated */
		static const int lens[] = {1, 4, 60, 106, 107, 108};
		struct sockaddr_un *a = (void *) st;
		int n = lens[mc_choose(kind == 3 ? 5 : 6)], k = kind == 3; /* with its end, as bound, or without */
		a->sun_family = AF_UNIX;
		for (int i = 0; i < n; i++)
			expect[w][i] = a->sun_path[i] = (char) ('a' + i % 26);
		expect[w][n] = 0;
		if (k)
			a->sun_path[n] = 0;
		name_len[w] = (socklen_t) (2 + n + k);
	} else { /* abstract */
		struct sockaddr_un *a = (void *) st;
		a->sun_family = AF_UNIX;
		memcpy(a->sun_path, "\0abc", 4);
		name_len[w] = 6;
		strcpy(expect[w], "@abc");
		exact[w] = false;
	}
}
static void check_text(const char *t, int w, size_t len, const char *what)
{
	char e[160];

	snprintf(e, len < 160 ? len : 160, "%s", expect[w]);
	if (!exact[w] && !*t)
		return;
	MC_CHECK(!strcmp(t, e), "text", "%s '%.150s' instead of '%s'", what, t, e);
}
static void run_str(void)
{
	static const int sizes[] = {1, 2, 9, 13, 16, 64, 128, 200};
	struct sc_sock s;
	char buf[300];
	size_t len;
	int op;
	const char *r;

	world();
	sig = 6;
	fd_base = 30;
	sc_sock_init(&s, 1, true, SC_SOCK_INET);
	s.fdt.fd = mc_socket(AF_INET, SOCK_STREAM, 0);
	op = mc_choose(3);
	name_fail = mc_choose(4);
	*expect[0] = *expect[1] = 0;
	exact[0] = exact[1] = true;
	if (!(name_fail & 1) && op != 1)
		choose_name(0);
	if (!(name_fail & 2) && op != 0)
		choose_name(1);
	if ((op == 0 && name_fail > 1) || (op == 1 && (name_fail & 1)))
		mc_prune();
	len = (size_t) sizes[mc_choose(8)];
	mc_note("%s, local '%s', remote '%s', buffer of %zu\n", op == 2 ? "print" : op ? "remote" : "local", expect[0], expect[1], len);
	memset(buf, 0x55, sizeof(buf));
	dirty_stack();
	if (op < 2) {
		r = op ? sc_sock_remote_str(&s, buf, len) : sc_sock_local_str(&s, buf, len);
		if (name_fail) {
			MC_CHECK(r == NULL && *buf == 0, "fail", "fails and returns '%s'", r ? r : buf);
			error_text(sc_sock_error(&s), "address");
		} else {
			MC_CHECK(r == buf, "text", "does not return the buffer");
			MC_CHECK(memchr(buf, 0, len), "end", "not terminated");
			check_text(buf, op, len, op ? "remote" : "local");
		}
	} else {
		sc_sock_print(&s, buf, len);
		MC_CHECK(memchr(buf, 0, len), "end", "not terminated");
		if (exact[0] && exact[1]) {
			char e[320];
			snprintf(e, len, "Local(%s), Remote(%s) ", expect[0], expect[1]);
			MC_CHECK(!strcmp(buf, e), "text", "'%s' printed instead of '%s'", buf, e);
		}
	}
	for (size_t i = len; i < sizeof(buf); i++)
		MC_CHECK(buf[i] == 0x55, "overrun", "byte %zu of a buffer of %zu written", i, len);
	mix(mc_hash(buf, sizeof(buf), 1));
	mc_distinct_add(&sig, 8);
	mc_tick();
}
static void run_systemd(void)
{
	static const char *const fixed[] = {NULL, "", "/", "@", "x", "run/x", "/x", "@x", "/run/systemd/notify", "@/org/x",
					    "@@", "@a@b@", "/a@b", "/@", "@/", "@ x", "/ x ", "@\1\xff", "//"};
#define NFIXED 19
	static const int lens[] = {105, 106, 107, 108, 109, 120};
	static char big[70001];
	static const char *const msgs[] = {"READY=1\n", "x", "STATUS=doing work\nMAINPID=1\n", "", big, big + 70000 - 5000,
					   big + 70000 - 64, big + 70000 - 256};
	char e[140];
	const char *m;
	int k, rc;
	size_t n;

	world();
	sig = 7;
	fd_base = mc_choose(2) ? 0 : 30;
	k = mc_choose(NFIXED + 12);
	if (k < NFIXED)
		env_value = fixed[k];
	else {
		n = (size_t) lens[(k - NFIXED) % 6];
		memset(e, 'n', n);
		*e = k < NFIXED + 6 ? '/' : '@';
		e[n] = 0;
		env_value = e;
	}
	if (!big[0])
		memset(big, 'B', sizeof(big) - 1);
	m = msgs[mc_choose(8)];
	mc_note("NOTIFY_SOCKET=%s\n", env_value ? env_value : "(unset)");
	dirty_stack();
	errno = 0;
	faults = true;
	rc = sc_sock_notify_systemd(m);
	faults = false;
	mix((uint64_t) k * 64 + (uint64_t) (rc + 2) * 8 + (uint64_t) nfail);
	MC_CHECK(nopen == 0, "leak", "%d descriptors open", nopen);
	n = env_value ? strlen(env_value) : 0;
	if (n < 2 || (*env_value != '/' && *env_value != '@') || n > 108) {
		MC_CHECK(rc == -1 && !datagrams, "invalid", "%d returned, %d messages sent to '%s'", rc, datagrams, env_value ? env_value : "(unset)");
		MC_CHECK(nfail || errno == EINVAL, "errno", "errno %d", errno);
	} else if (n == 108 && rc == -1 && !datagrams) {
		/* such a name may be refused */
	} else if (nfail && !datagrams) {
		bool any = false;
		MC_CHECK(rc == -1, "fails", "%d returned", rc);
		for (int i = 0; i < nfail; i++)
			any |= !strcmp(strerror(errno), fail_text[i]);
		MC_CHECK(any, "errno", "errno %d", errno);
	} else {
		char to[140];
		MC_CHECK(rc == 0 || (rc == -1 && nfail), "send", "%d returned", rc);
		MC_CHECK(datagrams == 1 && !strcmp(dgram, m), "message", "%d messages, '%s'", datagrams, dgram);
		memcpy(to, env_value, n + 1);
		if (*to == '@')
			*to = 0;
		/* a path may be sent with its end */
		MC_CHECK(!memcmp(dgram_to, to, n) && (dgram_tolen == n || (*to && dgram_tolen > n && dgram_to[n] == 0)), "address",
			 "%zu bytes of address for %s", dgram_tolen, env_value);
	}
	mc_distinct_add(&sig, 8);
	mc_tick();
}
int main(int argc, char **argv)
{
	mc_init(argc, argv);
	if (mc_mine("text"))
		mc_dfs(run_str, 0, UINT64_MAX);
	if (mc_mine("systemd"))
		mc_dfs(run_systemd, 2, UINT64_MAX);
	return mc_done();
}
#endif
