/* The socket API on the sockets of this machine: loopback TCP, Unix sockets
 * and pipes, all histories of a few calls against a byte stream oracle.
 * It is the counterpart of the modelled kernels of sock.c.
 * -DXFER: transfers; -DADDR: names and notifications; otherwise set-up. */
#define _GNU_SOURCE
#include "mc.h"
#include "sc_sock.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

static const int fams[] = {AF_UNIX, AF_INET, AF_INET6};
static const char *const fam_name[] = {"Unix", "IPv4", "IPv6"};
static const char *const host[] = {"sock", "127.0.0.1", "::1"};
static bool usable[3];

/* descriptors in use: none may be left over */
static int open_fds(void)
{
	int n = 0;
	for (int i = 0; i < 64; i++)
		n += fcntl(i, F_GETFD) != -1;
	return n;
}
static int base_fds;

/* does this machine have that family at all (asked without the library) */
static void probe(void)
{
	for (int f = 0; f < 3; f++) {
		struct sockaddr_in a4 = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
		struct sockaddr_in6 a6 = {.sin6_family = AF_INET6, .sin6_addr = IN6ADDR_LOOPBACK_INIT};
		struct sockaddr_storage ss;
		socklen_t l = sizeof(ss);
		int s = socket(fams[f], SOCK_STREAM, 0), c = socket(fams[f], SOCK_STREAM, 0);

		usable[f] = f == 0 ||
			    (s >= 0 && c >= 0 &&
			     !(f == 1 ? bind(s, (void *) &a4, sizeof(a4)) : bind(s, (void *) &a6, sizeof(a6))) &&
			     !listen(s, 4) && !getsockname(s, (void *) &ss, &l) && !connect(c, (void *) &ss, l));
		if (s >= 0)
			close(s);
		if (c >= 0)
			close(c);
		mc_count(fam_name[f], usable[f]);
	}
}
static int port_of(int fd)
{
	struct sockaddr_storage ss;
	socklen_t l = sizeof(ss);

	if (getsockname(fd, (void *) &ss, &l))
		return -1;
	return ss.ss_family == AF_INET ? ntohs(((struct sockaddr_in *) &ss)->sin_port) :
					 ntohs(((struct sockaddr_in6 *) &ss)->sin6_port);
}
static bool ready(int fd, int ev, int ms)
{
	struct pollfd p = {.fd = fd, .events = (short) ev};
	int rc;

	do
		rc = poll(&p, 1, ms); /* the watchdog interrupts it */
	while (rc < 0 && errno == EINTR);
	return rc == 1;
}
static void no_linger(struct sc_sock *s)
{
	struct linger l = {1, 0};
	if (s->fdt.fd != -1)
		setsockopt(s->fdt.fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
}
/* listener, client and accepted socket of family number f */
static bool trio(int f, bool nb, struct sc_sock *l, struct sc_sock *a, struct sc_sock *b)
{
	char port[16] = "0";
	int rc;

	sc_sock_init(l, 0, !nb, fams[f]);
	sc_sock_init(a, 1, !nb, fams[f]);
	sc_sock_init(b, 2, !nb, fams[f]);
	if (f == 0)
		unlink("sock");
	rc = sc_sock_listen(l, host[f], port);
	MC_CHECK(rc == 0, "listen", "%s: listen: %s", fam_name[f], sc_sock_error(l));
	if (rc)
		return false;
	if (f)
		snprintf(port, sizeof(port), "%d", port_of(l->fdt.fd));
	rc = sc_sock_connect(a, host[f], port, NULL, NULL);
	if (nb && rc && errno == EAGAIN && f) {
		MC_CHECK(ready(a->fdt.fd, POLLOUT, 10000), "connect", "a connection never completes");
		rc = sc_sock_finish_connect(a);
	}
	MC_CHECK(rc == 0, "connect", "%s: connect: %s", fam_name[f], sc_sock_error(a));
	if (!ready(l->fdt.fd, POLLIN, 10000))
		mc_fail("harness", "no incoming connection");
	rc = sc_sock_accept(l, b);
	MC_CHECK(rc == 0, "accept", "%s: accept: %s", fam_name[f], sc_sock_error(l));
	return rc == 0;
}

#ifdef XFER
#define BIG (4 << 20)
static uint8_t pat[BIG + (1 << 16)], in[BIG];
enum { S1, S7, SBIG, R1, R8, RBIG, CLOSE, NOPS };
static const int lens[] = {1, 7, BIG, 1, 8, BIG};
static const char *const oname[] = {"send 1", "send 7", "send all", "receive 1", "receive 8", "receive all", "close"};
static int fam, depth, first, second;
#define PERIOD 65521

static bool matches(size_t at, size_t n)
{
	return !memcmp(in, pat + at % PERIOD, n);
}
/* two ends, both ways */
static void run_stream(void)
{
	struct sc_sock l, s[2];
	size_t sent[2] = {0, 0}, got[2] = {0, 0}; /* by side */
	bool open[2] = {true, true}, lost = false;
	int hist[16], n = 0;
	uint64_t sig[16];

	for (int i = 0; i < depth; i++)
		hist[i] = i == 0 ? first : i == 1 ? second : mc_choose(2 * NOPS);
	mc_tick();
	if (!trio(fam, true, &l, &s[0], &s[1]))
		return;
	for (int i = 0; i < depth; i++) {
		int w = hist[i] / NOPS, op = hist[i] % NOPS, rc, e, len = op < CLOSE ? lens[op] : 0;
		struct sc_sock *me = &s[w];
		size_t out;

		mc_note("side %d: %s\n", w, oname[op]);
		if (!open[w])
			continue;
		if (op == CLOSE) {
			/* what the peer sent and we did not read is refused: it may see an error */
			lost |= sent[!w] != got[w];
			MC_CHECK(sc_sock_term(me) == 0, "term", "sc_sock_term(): %s", sc_sock_error(me));
			open[w] = false;
			sig[n++] = 999;
			continue;
		}
		errno = 0;
		me->err[0] = 0;
		if (op <= SBIG) {
			rc = sc_sock_send(me, (char *) pat + sent[w] % PERIOD, len, 0);
			e = errno;
			MC_CHECK(rc != 0 && rc >= -1 && rc <= len, "send-rc", "sending %d bytes returns %d", len, rc);
			if (rc > 0) {
				if (!open[!w]) {
					lost = true;
					MC_CHECK(fam, "send-closed", "sending to a closed peer returns %d", rc);
				}
				sent[w] += (size_t) rc;
			} else if (open[!w] && !lost) {
				MC_CHECK(e == EAGAIN && sent[w] - got[!w] > 1000, "send",
					 "sending %d bytes with %zu on the way: errno %d (%s)", len,
					 sent[w] - got[!w], e, me->err);
			} else {
				MC_CHECK(e == EAGAIN ? sent[w] - got[!w] > 1000 : me->err[0] && e, "send-err",
					 "failing send: errno %d, text '%s'", e, me->err);
			}
		} else {
			out = sent[!w] - got[w];
			if ((out || !open[!w]) && !ready(me->fdt.fd, POLLIN, 10000))
				mc_fail("lost", "%zu bytes sent never arrive", out);
			errno = 0;
			rc = sc_sock_recv(me, (char *) in, len, 0);
			e = errno;
			MC_CHECK(rc != 0 && rc >= -1 && rc <= len && (rc < 0 || (size_t) rc <= out), "recv-rc",
				 "receiving %d bytes with %zu on the way returns %d", len, out, rc);
			if (rc > 0) {
				MC_CHECK(matches(got[w], (size_t) rc), "bytes", "%d other bytes than sent arrive", rc);
				got[w] += (size_t) rc;
			} else if (out && !lost) {
				mc_fail("recv", "receiving with %zu bytes on the way: errno %d (%s)", out, e, me->err);
			} else if (open[!w] && !lost) {
				MC_CHECK(e == EAGAIN, "recv-again", "receiving nothing: errno %d", e);
			} else if (!open[!w]) {
				MC_CHECK(e != EAGAIN && e != 0, "recv-eof", "receiving from a closed peer: errno %d", e);
			}
		}
		sig[n++] = (uint64_t) (rc > 8 ? 9 : rc) * 64 + (uint64_t) (rc < 0 ? e & 63 : 0);
	}
	/* the rest arrives */
	for (int w = 0; w < 2 && !lost; w++) {
		while (open[w] && got[w] < sent[!w]) {
			int rc;

			if (!ready(s[w].fdt.fd, POLLIN, 10000))
				mc_fail("lost", "%zu bytes sent never arrive", sent[!w] - got[w]);
			rc = sc_sock_recv(&s[w], (char *) in, BIG, 0);
			if (rc <= 0 || (size_t) rc > sent[!w] - got[w] || !matches(got[w], (size_t) rc)) {
				mc_fail("bytes", "the end of the stream: %d after %zu of %zu bytes (%s)", rc, got[w],
					sent[!w], s[w].err);
				break;
			}
			got[w] += (size_t) rc;
		}
	}
	for (int w = 0; w < 2; w++)
		if (open[w]) {
			no_linger(&s[w]);
			MC_CHECK(sc_sock_term(&s[w]) == 0, "term", "sc_sock_term() fails");
		}
	MC_CHECK(sc_sock_term(&l) == 0, "term", "sc_sock_term() fails");
	MC_CHECK(open_fds() == base_fds, "leak", "%d descriptors instead of %d", open_fds(), base_fds);
	mc_evals++;
	mc_validated++;
	mc_distinct_add(sig, sizeof(*sig) * (size_t) n);
	if (mc_evals % 20000 == 1)
		mc_sample("%s: %s, ...", fam_name[fam], oname[hist[0] % NOPS]);
}

/* a pipe, as made (blocking) or with nonblocking ends */
static bool nb;
static void run_pipe(void)
{
	static const unsigned plens[] = {0, 1, 7, 4096, 65536, 70000, 0, 1, 8, 4097, 65536, 70000};
	struct sc_sock_pipe p;
	size_t sent = 0, got = 0;
	int hist[16];
	uint64_t sig[16];

	for (int i = 0; i < depth; i++)
		hist[i] = i == 0 ? first : i == 1 ? second : mc_choose(12);
	mc_tick();
	MC_CHECK(sc_sock_pipe_init(&p, 5) == 0, "pipe", "sc_sock_pipe_init(): %s", sc_sock_pipe_err(&p));
	MC_CHECK(p.fdt.type == 5 && p.fdt.fd == p.fds[0], "pipe", "type or descriptor of a pipe");
	for (int k = 0; k < 2; k++) {
		MC_CHECK(!(fcntl(p.fds[k], F_GETFL) & O_NONBLOCK), "pipe-blocking", "a pipe is nonblocking");
		if (nb)
			fcntl(p.fds[k], F_SETFL, O_NONBLOCK);
	}
	for (int i = 0; i < depth; i++) {
		unsigned len = plens[hist[i]];
		size_t out = sent - got;
		int rc, e, avail = 0;

		if (ioctl(p.fds[0], FIONREAD, &avail) || (size_t) avail != out)
			mc_fail("pipe-bytes", "%d bytes are in the pipe instead of %zu", avail, out);
		errno = 0;
		p.err[0] = 0;
		if (hist[i] < 6) {
			/* the capacity counts pages: only calls that cannot block */
			if (!nb && (out || len > 65536))
				continue;
			rc = sc_sock_pipe_write(&p, pat + sent % PERIOD, len);
			e = errno;
			MC_CHECK(rc >= -1 && rc <= (int) len, "pipe-write", "writing %u bytes returns %d", len, rc);
			if (rc < 0) {
				MC_CHECK(nb && out && e == EAGAIN, "pipe-write", "writing %u bytes after %zu: errno %d", len, out, e);
			} else {
				MC_CHECK(rc == (int) len || (nb && len > 4096), "pipe-write",
					 "writing %u bytes with %zu in the pipe returns %d", len, out, rc);
				sent += (size_t) rc;
			}
		} else {
			if (!nb && !out && len)
				continue;
			rc = sc_sock_pipe_read(&p, in, len);
			e = errno;
			if (rc < 0) {
				MC_CHECK(nb && !out && len && e == EAGAIN, "pipe-read", "reading %u of %zu bytes: errno %d", len, out, e);
			} else {
				MC_CHECK((size_t) rc == (out < len ? out : len), "pipe-read",
					 "reading %u of %zu bytes returns %d", len, out, rc);
				MC_CHECK(matches(got, (size_t) rc), "bytes", "other bytes than written are read");
				got += (size_t) rc;
			}
		}
		sig[i] = (uint64_t) rc;
	}
	MC_CHECK(sc_sock_pipe_term(&p) == 0, "pipe", "sc_sock_pipe_term(): %s", sc_sock_pipe_err(&p));
	MC_CHECK(open_fds() == base_fds, "leak", "%d descriptors instead of %d", open_fds(), base_fds);
	mc_evals++;
	mc_validated++;
	mc_distinct_add(sig, sizeof(*sig) * (size_t) depth);
}
int main(int argc, char **argv)
{
	mc_init(argc, argv);
	signal(SIGPIPE, SIG_IGN);
	probe();
	for (size_t i = 0; i < sizeof(pat); i++)
		pat[i] = (uint8_t) ((i % PERIOD) * 31 + (i % PERIOD) / 251);
	base_fds = open_fds();
	for (fam = 0; fam < 3; fam++)
		for (first = 0; first < 2 * NOPS; first++)
			for (second = 0; second < 2 * NOPS; second++) {
				depth = 4 + (mc_thorough && !fam); /* closed TCP connections linger */
				if (usable[fam] && mc_mine("%s, calls %d %d", fam_name[fam], first, second))
					mc_dfs(run_stream, 0, 100000000);
			}
	for (int k = 0; k < 2; k++) {
		nb = k;
		depth = 4 + mc_thorough;
		for (int i = 0; i < 144; i++) {
			first = i / 12;
			second = i % 12;
			if (mc_mine("pipe, nonblocking %d, calls %d %d", nb, first, second))
				mc_dfs(run_pipe, 0, 100000000);
		}
	}
	return mc_done();
}

#elif defined(ADDR)
/* the texts of real sockets, and real notifications */
static void name_of(int fam, int fd, bool remote, char *buf, size_t n)
{
	struct sockaddr_storage ss;
	socklen_t l = sizeof(ss);
	char ip[64];

	memset(&ss, 0, sizeof(ss));
	if (remote ? getpeername(fd, (void *) &ss, &l) : getsockname(fd, (void *) &ss, &l)) {
		mc_fail("harness", "no name");
		return;
	}
	if (fam == AF_UNIX) {
		snprintf(buf, n, "%s", l > 2 ? ((struct sockaddr_un *) &ss)->sun_path : "");
	} else if (fam == AF_INET) {
		struct sockaddr_in *a = (void *) &ss;
		inet_ntop(AF_INET, &a->sin_addr, ip, sizeof(ip));
		snprintf(buf, n, "%s:%d", ip, ntohs(a->sin_port));
	} else {
		struct sockaddr_in6 *a = (void *) &ss;
		inet_ntop(AF_INET6, &a->sin6_addr, ip, sizeof(ip));
		snprintf(buf, n, "%s:%d", ip, ntohs(a->sin6_port));
	}
}
static void names(int f, size_t size)
{
	struct sc_sock s[3];
	char want[2][200], buf[512], all[512];

	if (!trio(f, false, &s[0], &s[1], &s[2]))
		return;
	for (int i = 0; i < 3; i++) {
		const char *r;

		for (int k = 0; k < 2; k++) {
			if (i == 0 && k)
				continue;
			name_of(fams[f], s[i].fdt.fd, k, want[k], sizeof(want[k]));
			memset(buf, 'x', sizeof(buf));
			r = k ? sc_sock_remote_str(&s[i], buf, size) : sc_sock_local_str(&s[i], buf, size);
			MC_CHECK(r == buf, "name", "the text of a name is NULL: %s", sc_sock_error(&s[i]));
			MC_CHECK(memchr(buf, 0, size) && strlen(buf) == (strlen(want[k]) < size ? strlen(want[k]) : size - 1) &&
					 !strncmp(buf, want[k], size - 1),
				 "name", "a socket named %s prints %.100s", want[k], buf);
			MC_CHECK(buf[size] == 'x', "name-write", "more than %zu bytes are written", size);
			mc_evals++;
			mc_validated++;
			mc_distinct_add((size_t[4]){(size_t) f, (size_t) i, (size_t) k, size}, 4 * sizeof(size_t));
		}
		if (i) {
			sc_sock_print(&s[i], buf, sizeof(buf));
			snprintf(all, sizeof(all), "Local(%s), Remote(%s) ", want[0], want[1]);
			MC_CHECK(!strcmp(buf, all), "print", "sc_sock_print(): '%s' instead of '%s'", buf, all);
		} else {
			/* a listener has no remote name */
			errno = 0;
			s[0].err[0] = 0;
			r = sc_sock_remote_str(&s[0], buf, size);
			MC_CHECK(!r && s[0].err[0], "name-none", "the remote name of a listener: %.50s", r ? r : "");
		}
	}
	for (int i = 2; i >= 0; i--) {
		no_linger(&s[i]);
		MC_CHECK(sc_sock_term(&s[i]) == 0, "term", "sc_sock_term() fails");
	}
	MC_CHECK(open_fds() == base_fds, "leak", "%d descriptors instead of %d", open_fds(), base_fds);
}
static void notify(bool abstract, int len, const char *msg)
{
	char path[200], in[4000];
	struct sockaddr_un un = {.sun_family = AF_UNIX};
	int s = socket(AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0), n, rc;
	size_t l;

	if (abstract)
		snprintf(path, sizeof(path), "@mc-%d-", (int) getpid());
	else if (!getcwd(path, 60))
		mc_fail("harness", "no directory");
	else
		strcat(path, "/");
	l = strlen(path);
	if (l >= (size_t) len)
		len = (int) l + 1;
	memset(path + l, 'n', (size_t) len - l);
	path[len] = 0;
	memcpy(un.sun_path, path, (size_t) len);
	if (abstract)
		un.sun_path[0] = 0;
	if (bind(s, (void *) &un, (socklen_t) (2 + len)))
		mc_fail("harness", "bind");
	setenv("NOTIFY_SOCKET", path, 1);
	rc = sc_sock_notify_systemd(msg);
	MC_CHECK(rc == 0, "notify", "notifying %s: errno %d", path, errno);
	n = (int) recv(s, in, sizeof(in), 0);
	MC_CHECK(n == (int) strlen(msg) && !memcmp(in, msg, (size_t) n), "notify", "%s gets %d bytes", path, n);
	MC_CHECK(recv(s, in, sizeof(in), 0) < 0, "notify-twice", "a notification arrives twice");
	close(s);
	if (!abstract)
		unlink(path);
	/* nobody there any more */
	errno = 0;
	rc = sc_sock_notify_systemd(msg);
	MC_CHECK(rc == -1 && errno, "notify-none", "notifying nobody returns %d", rc);
	MC_CHECK(open_fds() == base_fds, "leak", "%d descriptors instead of %d", open_fds(), base_fds);
	mc_evals++;
	mc_validated++;
	mc_distinct_add(path + l, (size_t) len - l);
}
int main(int argc, char **argv)
{
	static char big[3001];
	static const char *const msgs[] = {"READY=1\n", "x", "STATUS=doing work\nMAINPID=12\n", "", big};

	mc_init(argc, argv);
	signal(SIGPIPE, SIG_IGN);
	probe();
	base_fds = open_fds();
	for (int f = 0; f < 3; f++)
		for (size_t size = 1; size < 130; size++)
			if (usable[f] && mc_mine("%s names, buffer of %zu", fam_name[f], size))
				names(f, size);
	for (int len = 2; len < 108; len++)
		for (int k = 0; k < 10; k++)
			if (mc_mine("notification to %d characters, %d", len, k)) {
				mc_tick();
				memset(big, 'B', sizeof(big) - 1);
				notify(k / 5, len, msgs[k % 5]);
			}
	return mc_done();
}

#else
/* ---- set-up -------------------------------------------------------------------- */
static int opt(int fd, int level, int name)
{
	int v = 0;
	socklen_t l = sizeof(v);

	if (getsockopt(fd, level, name, &v, &l))
		mc_fail("harness", "getsockopt");
	return v;
}
static void check_fd(struct sc_sock *s, int f, bool nb, bool reuse, const char *what)
{
	int v = 0;
	socklen_t l = sizeof(v);

	MC_CHECK(s->fdt.fd >= 0 && !getsockopt(s->fdt.fd, SOL_SOCKET, SO_DOMAIN, &v, &l) && v == fams[f], "fd",
		 "%s: the descriptor is no %s socket", what, fam_name[f]);
	MC_CHECK(!!(fcntl(s->fdt.fd, F_GETFL) & O_NONBLOCK) == nb, "blocking", "%s: blocking mode not as asked", what);
	if (f) {
		MC_CHECK(opt(s->fdt.fd, IPPROTO_TCP, TCP_NODELAY), "nodelay", "%s: no TCP_NODELAY", what);
		MC_CHECK(!reuse || opt(s->fdt.fd, SOL_SOCKET, SO_REUSEADDR), "reuse", "%s: no SO_REUSEADDR", what);
	}
}
static void finish(struct sc_sock *s, const char *what)
{
	int n = open_fds(), had = s->fdt.fd >= 0;

	no_linger(s);
	MC_CHECK(sc_sock_term(s) == 0, "term", "%s: %s", what, sc_sock_error(s));
	MC_CHECK(open_fds() == n - had && sc_sock_term(s) == 0 && open_fds() == n - had, "term", "%s: descriptors closed", what);
}
static void nothing(struct sc_sock *s, int rc, int fds, const char *what)
{
	MC_CHECK(rc == -1, "fails", "%s returns %d", what, rc);
	MC_CHECK(sc_sock_error(s)[0], "text", "%s: no error text", what);
	MC_CHECK(open_fds() == fds, "leak", "%s leaves descriptors open", what);
	MC_CHECK(sc_sock_term(s) == 0 && open_fds() == fds, "term", "%s: sc_sock_term()", what);
}
static void setup(int f, bool nb, int kind)
{
	struct sc_sock l, a, b, c;
	char port[16], src[32];
	int rc, fds;
	struct stat st;

	if (!trio(f, nb, &l, &a, &b))
		return;
	snprintf(port, sizeof(port), "%d", f ? port_of(l.fdt.fd) : 0);
	check_fd(&l, f, nb, true, "listen");
	check_fd(&a, f, nb, true, "connect");
	check_fd(&b, f, nb, false, "accept");
	if (f == 2)
		MC_CHECK(opt(l.fdt.fd, IPPROTO_IPV6, IPV6_V6ONLY), "v6only", "an IPv6 listener also takes IPv4");
	MC_CHECK(open_fds() == base_fds + 3, "leak", "%d descriptors for three sockets", open_fds() - base_fds);
	fds = open_fds();
	sc_sock_init(&c, 3, !nb, fams[f]);
	switch (kind) {
	case 0: /* no connection waits */
		if (!nb)
			break;
		errno = 0;
		rc = sc_sock_accept(&l, &c);
		MC_CHECK(rc == -1 && errno == EAGAIN && open_fds() == fds, "accept-none", "accept without a connection: %d", rc);
		break;
	case 1: /* the address is in use (or, for a path, taken over) */
		rc = sc_sock_listen(&c, host[f], port);
		if (f) {
			nothing(&c, rc, fds, "listening on a used port");
		} else {
			MC_CHECK(rc == 0 && open_fds() == fds + 1, "listen-path", "listening on an old path returns %d", rc);
			finish(&c, "listener");
		}
		break;
	case 2: /* nobody listens any more */
		finish(&l, "listener");
		if (!f)
			unlink("sock");
		rc = sc_sock_connect(&c, host[f], port, NULL, NULL);
		if (rc && nb && f && errno == EAGAIN) {
			MC_CHECK(ready(c.fdt.fd, POLLOUT, 10000), "connect", "a refused connection never ends");
			rc = sc_sock_finish_connect(&c);
			MC_CHECK(rc == -1 && c.err[0], "refused", "a refused connection succeeds");
			finish(&c, "client");
		} else {
			nothing(&c, rc, fds - 1, "connecting to nobody");
		}
		break;
	case 3: /* the same address again, with connections still open or just closed */
	case 4:
		finish(&l, "listener");
		if (kind == 4) {
			sc_sock_term(&b);
			sc_sock_term(&a);
		}
		fds = open_fds();
		rc = sc_sock_listen(&c, host[f], port);
		MC_CHECK(rc == 0 && open_fds() == fds + 1, "again", "listening again: %s", sc_sock_error(&c));
		finish(&c, "second listener");
		break;
	case 5: /* from a given address and port */
		if (!f)
			break;
		finish(&l, "listener");
		if (sc_sock_listen(&l, f == 1 ? "127.0.0.3" : "::1", "0")) {
			mc_count("no second address", 1);
			break;
		}
		snprintf(port, sizeof(port), "%d", port_of(l.fdt.fd));
		snprintf(src, sizeof(src), "%s", f == 1 ? "127.0.0.2" : "::1");
		rc = sc_sock_connect(&c, f == 1 ? "127.0.0.3" : "::1", port, src, "0");
		if (rc && nb && errno == EAGAIN) {
			ready(c.fdt.fd, POLLOUT, 10000);
			rc = sc_sock_finish_connect(&c);
		}
		MC_CHECK(rc == 0, "source", "connecting from %s: %s", src, sc_sock_error(&c));
		char text[100];
		MC_CHECK(sc_sock_local_str(&c, text, sizeof(text)) && !strncmp(text, src, strlen(src)) &&
				 text[strlen(src)] == ':' && atoi(text + strlen(src) + 1) == port_of(c.fdt.fd),
			 "source", "connecting from %s: %s", src, text);
		finish(&c, "client");
		break;
	case 6: /* names that are no address of the machine, and bad ports */
		if (!f)
			break;
		rc = sc_sock_listen(&c, f == 1 ? "192.0.2.77" : "2001:db8::77", "0");
		nothing(&c, rc, fds, "listening on an address of another machine");
		sc_sock_init(&c, 3, !nb, fams[f]);
		rc = sc_sock_listen(&c, host[f], "no port");
		nothing(&c, rc, fds, "listening on a bad port");
		sc_sock_init(&c, 3, !nb, fams[f]);
		rc = sc_sock_connect(&c, host[f], port, f == 1 ? "192.0.2.77" : "2001:db8::77", "0");
		nothing(&c, rc, fds, "connecting from an address of another machine");
		break;
	case 7: /* a path that cannot be: too long, a directory, in no directory */
		if (f)
			break;
		char path[140];
		memset(path, 'p', sizeof(path));
		path[139] = 0;
		rc = sc_sock_listen(&c, path, NULL);
		nothing(&c, rc, fds, "listening on a long path");
		path[107] = 0;
		rc = sc_sock_listen(&c, path, NULL);
		MC_CHECK(rc == 0 && !stat(path, &st) && S_ISSOCK(st.st_mode), "path", "a path of 107 characters: %d", rc);
		finish(&c, "listener");
		unlink(path);
		rc = sc_sock_listen(&c, "nodir/sock", NULL);
		nothing(&c, rc, fds, "listening in no directory");
		mkdir("dir", 0700);
		rc = sc_sock_listen(&c, "dir", NULL);
		nothing(&c, rc, fds, "listening on a directory");
		MC_CHECK(!stat("dir", &st) && S_ISDIR(st.st_mode), "path", "a directory is deleted");
		rc = sc_sock_connect(&c, "dir", NULL, NULL, NULL);
		nothing(&c, rc, fds, "connecting to a directory");
		break;
	default: /* modes and timeouts afterwards */
		for (int k = 0; k < 4; k++) {
			static const int ms[] = {1500, 0, 10, 60000};
			struct timeval tv[2];
			socklen_t len = sizeof(tv[0]);

			MC_CHECK(sc_sock_set_blocking(&a, k & 1) == 0, "mode", "sc_sock_set_blocking()");
			MC_CHECK(!!(fcntl(a.fdt.fd, F_GETFL) & O_NONBLOCK) != (k & 1), "mode", "blocking mode not changed");
			MC_CHECK(!sc_sock_set_rcvtimeo(&a, ms[k]) && !sc_sock_set_sndtimeo(&a, ms[3 - k]), "timeo", "timeouts");
			getsockopt(a.fdt.fd, SOL_SOCKET, SO_RCVTIMEO, &tv[0], &len);
			getsockopt(a.fdt.fd, SOL_SOCKET, SO_SNDTIMEO, &tv[1], &len);
			for (int d = 0; d < 2; d++) {
				long want = ms[d ? 3 - k : k], is = tv[d].tv_sec * 1000 + tv[d].tv_usec / 1000;
				/* the kernel counts ticks of up to 10 ms */
				MC_CHECK(is >= want && is <= want + 10, "timeo", "timeout of %ld ms instead of %ld", is, want);
			}
		}
	}
	finish(&b, "accepted");
	finish(&a, "client");
	finish(&l, "listener");
	MC_CHECK(open_fds() == base_fds, "leak", "%d descriptors instead of %d", open_fds(), base_fds);
	mc_evals++;
	mc_validated++;
	int key[3] = {f, nb, kind};
	mc_distinct_add(key, sizeof(key));
}
int main(int argc, char **argv)
{
	mc_init(argc, argv);
	signal(SIGPIPE, SIG_IGN);
	probe();
	base_fds = open_fds();
	for (int f = 0; f < 3; f++)
		for (int nb = 0; nb < 2; nb++)
			for (int kind = 0; kind < 9; kind++)
				if (usable[f] && mc_mine("%s, nonblocking %d, %d", fam_name[f], nb, kind))
					setup(f, nb, kind);
	return mc_done();
}
#endif
