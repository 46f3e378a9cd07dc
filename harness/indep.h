/* C39: scripts of calls on objects of their own */
#ifndef INDEP_H
#define INDEP_H
#include "csched.h"

struct tr { /* transcript of one thread */
	int v;      /* variant of the data */
	int id;     /* for names */
	uint64_t hash;
	int calls;
};
struct script {
	const char *name;
	void (*fn)(struct tr *t);
};
extern const struct script scripts[];
extern const int nscripts;
/* records what a call returned; a scheduling point */
void rec(struct tr *t, const void *p, size_t n);
void recs(struct tr *t, const char *s);
void reci(struct tr *t, long v);
#endif
