/*
 * Runs scenarios on libcyaml and writes down everything a client can observe.
 *
 * Input: whitespace separated tokens (see tools/scenario.py); byte strings are
 * hexadecimal with a leading 'x', '-' stands for NULL.
 * Output: one JSON object per scenario (and per thread) on stdout.
 */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <inttypes.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <yaml.h>
#include <cyaml/cyaml.h>
#include "macros.h"

#define MAXSLOT 16
#define MAXOPS 512

#define E(n) [CYAML_ERR_ ## n] = #n
static const char *err_names[] = {
	[CYAML_OK] = "OK",
	E(OOM),
	E(ALIAS),
	E(FILE_OPEN),
	E(INVALID_KEY),
	E(INVALID_VALUE),
	E(INVALID_ALIAS),
	E(INTERNAL_ERROR),
	E(UNEXPECTED_EVENT),
	E(STRING_LENGTH_MIN),
	E(STRING_LENGTH_MAX),
	E(INVALID_DATA_SIZE),
	E(TOP_LEVEL_NON_PTR),
	E(BAD_TYPE_IN_SCHEMA),
	E(BAD_MIN_MAX_SCHEMA),
	E(BAD_PARAM_SEQ_COUNT),
	E(BAD_PARAM_NULL_DATA),
	E(BAD_BITVAL_IN_SCHEMA),
	E(SEQUENCE_ENTRIES_MIN),
	E(SEQUENCE_ENTRIES_MAX),
	E(SEQUENCE_FIXED_COUNT),
	E(SEQUENCE_IN_SEQUENCE),
	E(MAPPING_FIELD_MISSING),
	E(BAD_CONFIG_NULL_MEMFN),
	E(BAD_PARAM_NULL_CONFIG),
	E(BAD_PARAM_NULL_SCHEMA),
	E(DATA_TARGET_NON_NULL),
	E(LIBYAML_EMITTER_INIT),
	E(LIBYAML_PARSER_INIT),
	E(LIBYAML_EVENT_INIT),
	E(LIBYAML_EMITTER),
	E(LIBYAML_PARSER),
};
#undef E
static const char *err_name(cyaml_err_t e)
{
	const char *n = (unsigned)e < sizeof err_names / sizeof *err_names ? err_names[e] : NULL;
	return n ? n : "?";
}
/* The scenarios' encodings of types and flags, in the header's terms */
static const cyaml_type_e type_tab[] = {
	CYAML_INT, CYAML_UINT, CYAML_BOOL, CYAML_ENUM, CYAML_FLAGS, CYAML_FLOAT,
	CYAML_STRING, CYAML_MAPPING, CYAML_BITFIELD, CYAML_SEQUENCE,
	CYAML_SEQUENCE_FIXED, CYAML_IGNORE,
};
static const unsigned flag_tab[] = {
	CYAML_FLAG_OPTIONAL, CYAML_FLAG_POINTER, CYAML_FLAG_POINTER_NULL,
	CYAML_FLAG_POINTER_NULL_STR, CYAML_FLAG_STRICT, CYAML_FLAG_BLOCK,
	CYAML_FLAG_FLOW, CYAML_FLAG_CASE_SENSITIVE, CYAML_FLAG_CASE_INSENSITIVE,
	CYAML_FLAG_SCALAR_PLAIN, CYAML_FLAG_SCALAR_FOLDED,
	CYAML_FLAG_SCALAR_LITERAL, CYAML_FLAG_SCALAR_QUOTE_SINGLE,
	CYAML_FLAG_SCALAR_QUOTE_DOUBLE,
};
static const unsigned cfg_tab[] = {
	CYAML_CFG_IGNORE_UNKNOWN_KEYS, CYAML_CFG_STYLE_BLOCK, CYAML_CFG_STYLE_FLOW,
	CYAML_CFG_DOCUMENT_DELIM, CYAML_CFG_CASE_INSENSITIVE, CYAML_CFG_NO_ALIAS,
	CYAML_CFG_IGNORED_KEY_WARNING,
};
static const cyaml_log_t level_tab[] = {
	CYAML_LOG_DEBUG, CYAML_LOG_INFO, CYAML_LOG_NOTICE, CYAML_LOG_WARNING, CYAML_LOG_ERROR,
};
static unsigned bits_of(unsigned v, const unsigned *tab, unsigned n)
{
	unsigned out = 0;
	for (unsigned i = 0; i < n; i++) if (v & 1u << i) out |= tab[i];
	return out;
}

/* ------------------------------------------------------------------ */
/* Net allocations made behind the client allocator's back. */
static __thread int quiet = 1;
static __thread long net;
static __thread long held;      /* by the library's own allocation function */
static __thread bool holding;
#ifndef NOHOOKS
int __sanitizer_install_malloc_and_free_hooks(
		void (*)(const volatile void *, size_t),
		void (*)(const volatile void *));
static void on_malloc(const volatile void *p, size_t n)
{
	(void)p; (void)n;
	if (quiet == 0) net++;
	if (holding) held++;
}
static void on_free(const volatile void *p)
{
	if (quiet == 0 && p != NULL) net--;
	if (holding && p != NULL) held--;
}
#endif

/* ------------------------------------------------------------------ */
/* Growing text buffer */
struct buf { char *s; size_t n, cap; };
static void need(struct buf *b, size_t extra)
{
	if (b->n + extra + 1 > b->cap) {
		quiet++;
		b->cap = (b->n + extra + 1) * 2;
		b->s = realloc(b->s, b->cap);
		if (b->s == NULL) abort();
		quiet--;
	}
}
static void put(struct buf *b, const char *fmt, ...)
{
	va_list ap;
	char tmp[512];
	quiet++;
	va_start(ap, fmt);
	int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
	va_end(ap);
	if (n < 0 || (size_t)n >= sizeof tmp) abort();
	need(b, n);
	memcpy(b->s + b->n, tmp, n);
	b->n += n;
	b->s[b->n] = 0;
	quiet--;
}
static void puthex(struct buf *b, const uint8_t *p, size_t n)
{
	static const char d[] = "0123456789abcdef";
	need(b, 2 * n + 2);
	b->s[b->n++] = '"';
	for (size_t i = 0; i < n; i++) {
		b->s[b->n++] = d[p[i] >> 4];
		b->s[b->n++] = d[p[i] & 15];
	}
	b->s[b->n++] = '"';
	b->s[b->n] = 0;
}

/* ------------------------------------------------------------------ */
/* The client's allocator: a ledger of blocks */
struct blk { uint8_t *p; size_t n; unsigned id; };
struct heap {
	unsigned magic;
	struct blk *v; size_t n, cap;
	unsigned next;
	struct heap *outer;     /* blocks of other owners, for dumps only */
	long calls, fail_at; int fail_all; bool fired;
	bool own;               /* memory comes from cyaml_mem() */
	char err[160];
};
static void heap_err(struct heap *h, const char *what)
{
	if (h->err[0] == 0) snprintf(h->err, sizeof h->err, "%s", what);
}
static struct blk *find(struct heap *h, const void *p)
{
	for (size_t i = h->n; i-- > 0; )
		if (h->v[i].p == p) return &h->v[i];
	return NULL;
}
/* Memory under the ledger */
static void *under(struct heap *h, void *ptr, size_t size)
{
	if (!h->own) {
		if (size) return malloc(size);
		free(ptr);
		return NULL;
	}
	void *ret;
#ifndef NOHOOKS
	held = 0;
	holding = true;
#endif
	ret = cyaml_mem(NULL, ptr, size);
#ifndef NOHOOKS
	holding = false;
	if (held != (size == 0 ? -1 : ptr == NULL ? 1 : 0)) heap_err(h, "cyaml_mem leaks");
#endif
	if (size == 0 && ret != NULL) heap_err(h, "cyaml_mem returns what it has freed");
	return ret;
}
static void *client_mem(void *ctx, void *ptr, size_t size)
{
	struct heap *h = ctx;
	void *ret = NULL;
	quiet++;
	if (h == NULL || h->magic != 0x48454150) {
		fprintf(stderr, "HARNESS: allocator called with the wrong context\n");
		abort();
	}
	struct blk *b = ptr ? find(h, ptr) : NULL;
	if (ptr != NULL && b == NULL) {
		heap_err(h, size ? "realloc of a pointer that is not live" :
				"free of a pointer that is not live");
		goto out;
	}
	if (size == 0) {
		if (b != NULL) {
			memset(b->p, 0xDD, b->n);
			under(h, b->p, 0);
			*b = h->v[--h->n];
		}
		goto out;
	}
	h->calls++;
	if (h->fail_at && (h->calls == h->fail_at ||
			(h->fail_all && h->calls > h->fail_at))) {
		h->fired = true;
		goto out;
	}
	if (size > ((size_t)1 << 28)) {
		heap_err(h, "absurd allocation");
		goto out;
	}
	uint8_t *np;
	if (b != NULL && h->own) {
		/* as it is, or moved */
		size_t n = b->n < size ? b->n : size;
		uint8_t *was = malloc(n);
		memcpy(was, b->p, n);
		np = under(h, b->p, size);
		if (np == NULL) abort();
		if (memcmp(np, was, n) != 0) heap_err(h, "cyaml_mem does not keep the data");
		free(was);
		if (size > n) memset(np + n, 0xAA, size - n);
	} else {
		np = under(h, NULL, size);
		if (np == NULL) abort();
		memset(np, 0xAA, size);
	}
	if (b != NULL) {
		if (!h->own) {
			memcpy(np, b->p, b->n < size ? b->n : size);
			memset(b->p, 0xDD, b->n);
			free(b->p);
		}
		b->p = np;
		b->n = size;
		b->id = h->next++;
	} else {
		if (h->n == h->cap) {
			h->cap = h->cap * 2 + 64;
			h->v = realloc(h->v, h->cap * sizeof *h->v);
		}
		h->v[h->n++] = (struct blk){ np, size, h->next++ };
	}
	ret = np;
out:
	quiet--;
	return ret;
}
/* Address index, sorted, for recognising pointers */
struct addr { uintptr_t a; unsigned id; };
static int addr_cmp(const void *x, const void *y)
{
	uintptr_t a = ((const struct addr *)x)->a, b = ((const struct addr *)y)->a;
	return (a > b) - (a < b);
}
static struct addr *index_heap(struct heap *h, size_t *n)
{
	size_t total = 0, k = 0;
	for (struct heap *g = h; g; g = g->outer) total += g->n;
	struct addr *ix = malloc((total + 1) * sizeof *ix);
	for (struct heap *g = h; g; g = g->outer)
		for (size_t i = 0; i < g->n; i++)
			ix[k++] = (struct addr){ (uintptr_t)g->v[i].p, g->v[i].id };
	qsort(ix, k, sizeof *ix, addr_cmp);
	*n = k;
	return ix;
}
static unsigned lookup(const struct addr *ix, size_t n, uintptr_t a)
{
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;
		if (ix[mid].a == a) return ix[mid].id;
		if (ix[mid].a < a) lo = mid + 1; else hi = mid;
	}
	return 0;
}
/* Bytes with pointers to live blocks as ff.. and, optionally, their targets */
static void dump_bytes(struct buf *o, struct buf *targets, const uint8_t *p,
		size_t n, const struct addr *ix, size_t nix)
{
	uint8_t *c = malloc(n + 1);
	bool first = true;
	if (n) memcpy(c, p, n);
	uintptr_t lo = nix ? ix[0].a : 1, hi = nix ? ix[nix - 1].a : 0;
	for (size_t i = 0; i + 8 <= n; ) {
		uintptr_t a;
		memcpy(&a, p + i, 8);
		unsigned id = (a >= lo && a <= hi) ? lookup(ix, nix, a) : 0;
		if (id) {
			memset(c + i, 0xff, 8);
			if (targets) put(targets, "%s[%zu,%u]", first ? "" : ",", i, id);
			first = false;
			i += 8;
		} else {
			i++;
		}
	}
	puthex(o, c, n);
	free(c);
}
static int blk_cmp(const void *x, const void *y)
{
	unsigned a = (*(struct blk *const *)x)->id, b = (*(struct blk *const *)y)->id;
	return (a > b) - (a < b);
}
static void dump_heap(struct heap *h, struct buf *o)
{
	size_t nix, total = 0, k = 0;
	struct addr *ix = index_heap(h, &nix);
	for (struct heap *g = h; g; g = g->outer) total += g->n;
	struct blk **s = malloc((total + 1) * sizeof *s);
	for (struct heap *g = h; g; g = g->outer)
		for (size_t i = 0; i < g->n; i++) s[k++] = &g->v[i];
	qsort(s, k, sizeof *s, blk_cmp);
	put(o, "[");
	for (size_t i = 0; i < k; i++) {
		struct buf t = {0};
		put(o, "%s{\"id\":%u,\"b\":", i ? "," : "", s[i]->id);
		dump_bytes(o, &t, s[i]->p, s[i]->n, ix, nix);
		put(o, ",\"p\":[");
		if (t.n) { need(o, t.n); memcpy(o->s + o->n, t.s, t.n); o->n += t.n; }
		put(o, "]}");
		free(t.s);
	}
	put(o, "]");
	free(s);
	free(ix);
}
static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
	const uint8_t *b = p;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
	return h;
}
#define FNV0 14695981039346656037ull
static uint64_t heap_sum(const struct heap *h)
{
	uint64_t s = h->n;
	for (size_t i = 0; i < h->n; i++)
		s += fnv(FNV0 + h->v[i].id, h->v[i].p, h->v[i].n);
	return s;
}

/* ------------------------------------------------------------------ */
/* Reading scenarios */
static FILE *in;
static char *tok;
static size_t tokcap;
static char *next(void)
{
	int c;
	size_t n = 0;
	do { c = getc_unlocked(in); } while (c == ' ' || c == '\n');
	if (c == EOF) return NULL;
	do {
		if (n + 2 > tokcap) tok = realloc(tok, tokcap = (tokcap + 64) * 2);
		tok[n++] = c;
		c = getc_unlocked(in);
	} while (c != ' ' && c != '\n' && c != EOF);
	tok[n] = 0;
	return tok;
}
static long num(void) { char *t = next(); if (!t) abort(); return strtol(t, NULL, 10); }
static uint64_t hexnum(void) { char *t = next(); if (!t) abort(); return strtoull(t, NULL, 16); }

/* Schema memory: exact blocks with checksums, or read-only pages */
struct sblk { uint8_t *p; size_t n; };
struct scn {
	char id[64];
	bool ro; uint8_t *arena; size_t arena_n, arena_cap;
	struct sblk *sb; size_t nsb, capsb;
	unsigned cfg; int level; bool haslog; int ctxs;
	int ntypes; cyaml_schema_value_t **ty; int *cbid;
	cyaml_schema_value_t **api;     /* the same schemas, as the calls are given them */
	int nfields_total;
	int nst; uint8_t **st;
	int ndocs; uint8_t **doc; size_t *doclen;
	int nops; struct op *op;
	int threads, split;
	uint64_t sum;
};
static void *salloc(struct scn *s, size_t n)
{
	void *p;
	if (s->ro) {
		size_t at = (s->arena_n + 15) & ~(size_t)15;
		if (at + n > s->arena_cap) { fprintf(stderr, "HARNESS: arena\n"); abort(); }
		p = s->arena + at;
		s->arena_n = at + n;
		return p;
	}
	p = malloc(n);
	if (s->nsb == s->capsb) s->sb = realloc(s->sb, (s->capsb = s->capsb * 2 + 64) * sizeof *s->sb);
	s->sb[s->nsb++] = (struct sblk){ p, n };
	memset(p, 0, n);
	return p;
}
static uint64_t schema_sum(const struct scn *s)
{
	uint64_t h = FNV0;
	if (s->ro) return 0;
	for (size_t i = 0; i < s->nsb; i++) h = fnv(h, s->sb[i].p, s->sb[i].n);
	for (int i = 0; i < s->ndocs; i++) h = fnv(h, s->doc[i], s->doclen[i]);
	return h;
}
static uint8_t *unhex(const char *t, size_t *n, uint8_t *(*al)(struct scn *, size_t), struct scn *s, size_t extra)
{
	size_t len = (strlen(t) - 1) / 2;
	uint8_t *p = al(s, len + extra);
	for (size_t i = 0; i < len; i++) {
		int hi = t[1 + 2 * i], lo = t[2 + 2 * i];
		hi = hi <= '9' ? hi - '0' : hi - 'a' + 10;
		lo = lo <= '9' ? lo - '0' : lo - 'a' + 10;
		p[i] = hi << 4 | lo;
	}
	if (extra) p[len] = 0;
	if (n) *n = len;
	return p;
}
static uint8_t *al_schema(struct scn *s, size_t n) { return salloc(s, n); }
static uint8_t *al_heap(struct scn *s, size_t n) { (void)s; return malloc(n); }
static char *sstr(struct scn *s)
{
	char *t = next();
	if (t[0] == '-') return NULL;
	return (char *)unhex(t, NULL, al_schema, s, 1);
}

struct op {
	char k[12];
	long a[8];
	int nb; struct { uint8_t *b; size_t n; int np; long *p; } *bl;
};

/* ------------------------------------------------------------------ */
/* Per-thread client state */
struct ctx {
	struct scn *s;
	struct heap heap;
	cyaml_config_t *cfg, cfg0;
	unsigned magic;
	/* records of the current call */
	struct buf cb, log, warn, errs; long ncb, rej; bool badcb;
	long nlog; bool badlog;
	char tag_log, tag_cb;
	void *slot[MAXSLOT]; unsigned slotn[MAXSLOT]; int slotty[MAXSLOT]; bool has[MAXSLOT];
	char *text; size_t textlen; bool hastext;
	struct buf out;
	struct buf lastheap; int nheaps; struct buf heaps;
};

static __thread struct ctx *cur;
/* The allocator, as the library is given it */
static void *lib_mem(void *c, void *ptr, size_t size)
{
	struct ctx *x = cur;
	if (x == NULL || c != (x->s->ctxs & 4 ? NULL : &x->heap)) {
		fprintf(stderr, "HARNESS: allocator called with the wrong context\n");
		abort();
	}
	return client_mem(&x->heap, ptr, size);
}
static void client_log(cyaml_log_t level, void *c, const char *fmt, va_list args)
{
	struct ctx *x = cur;
	quiet++;
	if (x == NULL || c != (x->s->ctxs & 1 ? NULL : &x->tag_log)) {
		fprintf(stderr, "HARNESS: log called with the wrong context\n");
		abort();
	}
	char line[4096];
	va_list again;
	va_copy(again, args);
	int n = vsnprintf(line, sizeof line, fmt, args);
	if (x->s->ctxs & 16 && x->s->threads == 0 && (unsigned)level < 5) {
		/* and by the library's own log function */
		static const char *const names[] = { "DEBUG", "INFO", "NOTICE", "WARNING", "ERROR" };
		char *text = NULL;
		size_t len = 0;
		FILE *was = stderr;
		stderr = open_memstream(&text, &len);
		if (!stderr) abort();
		cyaml_log(level, NULL, fmt, again);
		fclose(stderr);
		stderr = was;
		size_t at = len >= (size_t)n ? len - n : 0;
		if (n < (int)sizeof line && (at == 0 || strcmp(text + at, line) != 0)) x->badlog = true;
		text[at] = 0;
		if (strstr(text, names[level]) == NULL) x->badlog = true;
		free(text);
	}
	va_end(again);
	x->nlog++;
	if ((int)level < x->s->level || !x->s->haslog || level > CYAML_LOG_ERROR) x->badlog = true;
	if (n > 0 && level == CYAML_LOG_ERROR && strncmp(line, "  in ", 5) == 0) {
		size_t len = (size_t)n < sizeof line ? (size_t)n : sizeof line - 1;
		while (len && line[len - 1] == '\n') len--;
		if (x->log.n) put(&x->log, ",");
		puthex(&x->log, (uint8_t *)line, len);
	}
	/* (not the heading and the lines of a backtrace: those say where, not what) */
	if (n > 0 && level == CYAML_LOG_ERROR && strncmp(line, "  in ", 5) != 0 && strstr(line, "acktrace") == NULL) {
		if (x->errs.n) put(&x->errs, ",");
		puthex(&x->errs, (uint8_t *)line, (size_t)n < sizeof line ? (size_t)n : sizeof line - 1);
	}
	if (n > 0 && level == CYAML_LOG_WARNING) {
		if (x->warn.n) put(&x->warn, ",");
		puthex(&x->warn, (uint8_t *)line, (size_t)n < sizeof line ? (size_t)n : sizeof line - 1);
	}
	quiet--;
}

/* Which type is this schema value (possibly a copy within a field)? */
static struct { const cyaml_schema_value_t *p; int ty; } *where;
static size_t nwhere, capwhere;
static void note_where(const cyaml_schema_value_t *p, int ty)
{
	if (nwhere == capwhere) where = realloc(where, (capwhere = capwhere * 2 + 64) * sizeof *where);
	where[nwhere].p = p;
	where[nwhere++].ty = ty;
}
static int type_of(const cyaml_schema_value_t *p)
{
	for (size_t i = 0; i < nwhere; i++) if (where[i].p == p) return where[i].ty;
	return 0;
}
static bool verdict(struct ctx *x) { return !(x->rej && x->ncb == x->rej); }
static struct ctx *cb_start(void *c, const cyaml_schema_value_t *schema)
{
	struct ctx *x = cur;
	quiet++;
	if (x == NULL || c != (x->s->ctxs & 2 ? NULL : &x->tag_cb)) {
		fprintf(stderr, "HARNESS: validation callback called with the wrong context\n");
		abort();
	}
	x->ncb++;
	put(&x->cb, "%s{\"ty\":%d,\"v\":", x->cb.n ? "," : "", type_of(schema));
	return x;
}
static bool cb_end(struct ctx *x, size_t k)
{
	put(&x->cb, ",\"k\":%zu}", k);
	bool ok = verdict(x);
	quiet--;
	return ok;
}
static bool cb_int(void *c, const cyaml_schema_value_t *s, int64_t v)
{
	struct ctx *x = cb_start(c, s);
	puthex(&x->cb, (uint8_t *)&v, 8);
	return cb_end(x, 0);
}
static bool cb_uint(void *c, const cyaml_schema_value_t *s, uint64_t v)
{
	struct ctx *x = cb_start(c, s);
	puthex(&x->cb, (uint8_t *)&v, 8);
	return cb_end(x, 0);
}
static bool cb_float(void *c, const cyaml_schema_value_t *s, double v)
{
	struct ctx *x = cb_start(c, s);
	puthex(&x->cb, (uint8_t *)&v, 8);
	return cb_end(x, 0);
}
static bool cb_string(void *c, const cyaml_schema_value_t *s, const char *v)
{
	struct ctx *x = cb_start(c, s);
	puthex(&x->cb, (const uint8_t *)v, strlen(v));
	return cb_end(x, 0);
}
static void cb_data(struct ctx *x, const void *p, size_t n)
{
	size_t nix;
	struct addr *ix = index_heap(&x->heap, &nix);
	dump_bytes(&x->cb, NULL, p, n, ix, nix);
	free(ix);
}
static bool cb_mapping(void *c, const cyaml_schema_value_t *s, const cyaml_data_t *v)
{
	struct ctx *x = cb_start(c, s);
	cb_data(x, v, s->data_size);
	return cb_end(x, 0);
}
static bool cb_sequence(void *c, const cyaml_schema_value_t *s, const cyaml_data_t *v, size_t n)
{
	struct ctx *x = cb_start(c, s);
	cb_data(x, v, n ? n * (s->data_size) : 0);
	return cb_end(x, n);
}

/* ------------------------------------------------------------------ */
static void *macro_alloc(void *scn, size_t n) { return salloc(scn, n); }
static void read_types(struct scn *s)
{
	s->ntypes = num();
	s->ty = calloc(s->ntypes + 1, sizeof *s->ty);
	s->cbid = calloc(s->ntypes + 1, sizeof *s->cbid);
	struct tmp { int nf; cyaml_schema_field_t *f; int *fty; int ent; int mb; } *t =
			calloc(s->ntypes + 1, sizeof *t);
	for (int i = 1; i <= s->ntypes; i++) {
		cyaml_schema_value_t *v = s->ty[i] = salloc(s, sizeof *v);
		v->type = type_tab[num()];
		v->flags = bits_of(num(), flag_tab, sizeof flag_tab / sizeof *flag_tab);
		v->data_size = num();
		int cb = num();
		uint64_t min = hexnum(), max = hexnum(), miss = hexnum();
		uint32_t smin = hexnum(), smax = hexnum();
		uint64_t fmiss = hexnum();
		char *sm = sstr(s);
		t[i].mb = num();
		long mc = num();
		int nstr = num();
		cyaml_strval_t *strs = nstr ? salloc(s, nstr * sizeof *strs) : NULL;
		for (int j = 0; j < nstr; j++) { strs[j].str = sstr(s); strs[j].val = hexnum(); }
		int nbit = num();
		cyaml_bitdef_t *bits = nbit ? salloc(s, nbit * sizeof *bits) : NULL;
		for (int j = 0; j < nbit; j++) { bits[j].name = sstr(s); bits[j].offset = num(); bits[j].bits = num(); }
		int nf = t[i].nf = num();
		if (v->type == CYAML_MAPPING) {
			cyaml_schema_field_t *f = t[i].f = salloc(s, (nf + 1) * sizeof *f);
			t[i].fty = calloc(nf + 1, sizeof(int));
			for (int j = 0; j < nf; j++) {
				f[j].key = sstr(s);
				t[i].fty[j] = num();
				f[j].data_offset = num();
				f[j].count_offset = num();
				f[j].count_size = num();
			}
			f[nf].key = NULL;
		}
		t[i].ent = num();
		s->cbid[i] = cb;
		switch (v->type) {
		case CYAML_INT:
			v->integer.min = min; v->integer.max = max; v->integer.missing = miss;
			v->integer.validation_cb = cb ? cb_int : NULL; break;
		case CYAML_UINT:
			v->unsigned_integer.min = min; v->unsigned_integer.max = max; v->unsigned_integer.missing = miss;
			v->unsigned_integer.validation_cb = cb ? cb_uint : NULL; break;
		case CYAML_BOOL: v->boolean.missing = miss != 0; break;
		case CYAML_FLOAT:
			memcpy(&v->floating_point.missing, &fmiss, 8);
			v->floating_point.validation_cb = cb ? cb_float : NULL; break;
		case CYAML_STRING:
			v->string.min = smin; v->string.max = smax; v->string.missing = sm;
			v->string.validation_cb = cb ? cb_string : NULL; break;
		case CYAML_MAPPING:
			v->mapping.fields = t[i].f;
			v->mapping.validation_cb = cb ? cb_mapping : NULL; break;
		case CYAML_BITFIELD:
			v->bitfield.bitdefs = bits; v->bitfield.count = nbit; v->bitfield.missing = miss;
			v->bitfield.validation_cb = cb ? cb_uint : NULL; break;
		case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
			v->sequence.min = smin; v->sequence.max = smax; v->sequence.missing_count = mc;
			v->sequence.validation_cb = cb ? cb_sequence : NULL; break;
		case CYAML_ENUM: case CYAML_FLAGS:
			v->enumeration.strings = strs; v->enumeration.count = nstr; v->enumeration.missing = miss;
			v->enumeration.validation_cb = cb ? cb_int : NULL; break;
		default: break;
		}
	}
	s->nst = num();
	s->st = calloc(s->nst + 1, sizeof *s->st);
	struct { int np; long *p; } *patch = calloc(s->nst + 1, sizeof *patch);
	for (int i = 0; i < s->nst; i++) {
		size_t n;
		char *tk = next();
		s->st[i] = unhex(tk, &n, al_schema, s, 0);
		patch[i].np = num();
		patch[i].p = calloc(2 * patch[i].np + 1, sizeof(long));
		for (int j = 0; j < 2 * patch[i].np; j++) patch[i].p[j] = num();
	}
	for (int i = 0; i < s->nst; i++) {
		for (int j = 0; j < patch[i].np; j++)
			memcpy(s->st[i] + patch[i].p[2 * j], &s->st[patch[i].p[2 * j + 1] - 3], 8);
		free(patch[i].p);
	}
	free(patch);
	for (int i = 1; i <= s->ntypes; i++) {
		cyaml_schema_value_t *v = s->ty[i];
		if (v->type == CYAML_SEQUENCE || v->type == CYAML_SEQUENCE_FIXED) {
			v->sequence.entry = s->ty[t[i].ent];
			if (t[i].mb) v->sequence.missing = s->st[t[i].mb - 3];
		} else if (v->type == CYAML_MAPPING) {
			if (t[i].mb) v->mapping.missing = s->st[t[i].mb - 3];
		}
	}
	nwhere = 0;
	s->api = calloc(s->ntypes + 1, sizeof *s->api);
	for (int i = 1; i <= s->ntypes; i++) {
		note_where(s->ty[i], i);
		s->api[i] = s->ty[i];
	}
	struct macro_env env = {
		.st = s->st, .scn = s, .alloc = macro_alloc, .note = note_where,
		.cb_int = cb_int, .cb_uint = cb_uint, .cb_float = cb_float, .cb_string = cb_string,
		.cb_mapping = cb_mapping, .cb_sequence = cb_sequence,
	};
	if (macro_schemas) {
		/* the scenario's schemas in the header's macros, if it has them */
		env.ty = calloc(s->ntypes + 1, sizeof *env.ty);
		if (macro_schemas(s->id, &env)) {
			for (int i = 1; i <= s->ntypes; i++) s->api[i] = env.ty[i];
		}
		free(env.ty);
	}
	for (int i = 1; i <= s->ntypes; i++) {
		for (int j = 0; j < t[i].nf; j++) {
			t[i].f[j].value = *s->ty[t[i].fty[j]];
			note_where(&t[i].f[j].value, t[i].fty[j]);
		}
		free(t[i].fty);
	}
	free(t);
}

static void read_scn(struct scn *s)
{
	memset(s, 0, sizeof *s);
	snprintf(s->id, sizeof s->id, "%s", next());
	s->cfg = num();
	s->level = level_tab[num()];
	s->haslog = num();
	s->ctxs = num();
	s->ro = num();
	if (s->ro) {
		s->arena_cap = 1 << 20;
		s->arena = mmap(NULL, s->arena_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (s->arena == MAP_FAILED) abort();
	}
	s->threads = num();
	s->split = num();
	read_types(s);
	s->ndocs = num();
	s->doc = calloc(s->ndocs + 1, sizeof *s->doc);
	s->doclen = calloc(s->ndocs + 1, sizeof *s->doclen);
	for (int i = 0; i < s->ndocs; i++) { char *t = next(); s->doc[i] = unhex(t, &s->doclen[i], al_heap, s, 0); }
	s->nops = num();
	s->op = calloc(s->nops + 1, sizeof *s->op);
	for (int i = 0; i < s->nops; i++) {
		struct op *o = &s->op[i];
		snprintf(o->k, sizeof o->k, "%s", next());
		int na = num();
		for (int j = 0; j < na; j++) o->a[j] = num();
		o->nb = num();
		if (o->nb) o->bl = calloc(o->nb, sizeof *o->bl);
		for (int j = 0; j < o->nb; j++) {
			char *t = next();
			o->bl[j].b = unhex(t, &o->bl[j].n, al_heap, s, 0);
			o->bl[j].np = num();
			o->bl[j].p = calloc(2 * o->bl[j].np + 1, sizeof(long));
			for (int k = 0; k < 2 * o->bl[j].np; k++) o->bl[j].p[k] = num();
		}
	}
	if (s->ro) mprotect(s->arena, s->arena_cap, PROT_READ);
	s->sum = schema_sum(s);
}
static void free_scn(struct scn *s)
{
	if (s->ro) munmap(s->arena, s->arena_cap);
	for (size_t i = 0; i < s->nsb; i++) free(s->sb[i].p);
	free(s->sb);
	free(s->ty); free(s->api); free(s->cbid); free(s->st);
	for (int i = 0; i < s->ndocs; i++) free(s->doc[i]);
	free(s->doc); free(s->doclen);
	for (int i = 0; i < s->nops; i++) {
		for (int j = 0; j < s->op[i].nb; j++) { free(s->op[i].bl[j].b); free(s->op[i].bl[j].p); }
		free(s->op[i].bl);
	}
	free(s->op);
}

/* ------------------------------------------------------------------ */
/* libyaml's events for a document */
static void dump_events(struct buf *o, const uint8_t *text, size_t len)
{
	yaml_parser_t parser;
	yaml_event_t e;
	bool first = true, done = false;
	uint8_t *copy = malloc(len + 1);
	memcpy(copy, text, len);
	if (!yaml_parser_initialize(&parser)) abort();
	yaml_parser_set_input_string(&parser, copy, len);
	put(o, "[");
	while (!done) {
		put(o, first ? "" : ",");
		first = false;
		if (!yaml_parser_parse(&parser, &e)) {
			put(o, "[\"ERR\"]");
			break;
		}
		const char *k = "?", *st = "";
		const char *v = "", *a = "", *tag = NULL;
		int im = 1;
		switch (e.type) {
		case YAML_STREAM_START_EVENT: k = "SS"; break;
		case YAML_STREAM_END_EVENT: k = "SE"; done = true; break;
		case YAML_DOCUMENT_START_EVENT: k = "DS"; im = e.data.document_start.implicit; break;
		case YAML_DOCUMENT_END_EVENT: k = "DE"; im = e.data.document_end.implicit; break;
		case YAML_ALIAS_EVENT: k = "AL"; a = (char *)e.data.alias.anchor; break;
		case YAML_SCALAR_EVENT: k = "SC";
			v = (char *)e.data.scalar.value; a = (char *)e.data.scalar.anchor; tag = (char *)e.data.scalar.tag;
			st = (const char *[]){ "any", "plain", "single", "double", "literal", "folded" }[e.data.scalar.style];
			break;
		case YAML_SEQUENCE_START_EVENT: k = "QS";
			a = (char *)e.data.sequence_start.anchor; tag = (char *)e.data.sequence_start.tag;
			st = (const char *[]){ "any", "block", "flow" }[e.data.sequence_start.style];
			break;
		case YAML_SEQUENCE_END_EVENT: k = "QE"; break;
		case YAML_MAPPING_START_EVENT: k = "MS";
			a = (char *)e.data.mapping_start.anchor; tag = (char *)e.data.mapping_start.tag;
			st = (const char *[]){ "any", "block", "flow" }[e.data.mapping_start.style];
			break;
		case YAML_MAPPING_END_EVENT: k = "ME"; break;
		default: k = "NO"; done = true; break;
		}
		put(o, "[\"%s\",", k);
		puthex(o, (const uint8_t *)v, strlen(v));
		put(o, ",");
		puthex(o, (const uint8_t *)(a ? a : ""), a ? strlen(a) : 0);
		put(o, ",%zu,%zu,\"%s\",%d,%d]", e.start_mark.line + 1, e.start_mark.column + 1, st, im, tag != NULL);
		yaml_event_delete(&e);
	}
	put(o, "]");
	yaml_parser_delete(&parser);
	free(copy);
}

/* ------------------------------------------------------------------ */
/* Failures within libyaml: the library's calls of it come here (ld's --wrap), */
/* and one of them, the lib_at'th since it was set, fails as if out of memory. */
static __thread long lib_at, lib_n;
static __thread bool lib_all;
static __thread const char *lib_what;
static bool lib_fails(const char *what)
{
	if (lib_at == 0 || quiet != 0) return false;
	lib_n++;
	if (lib_n != lib_at && !(lib_all && lib_n > lib_at)) return false;
	if (lib_what == NULL) lib_what = what;
	return true;
}
#define WRAP(name, what, params, args, fail) \
	int __real_##name params; \
	int __wrap_##name params; \
	int __wrap_##name params { if (lib_fails(what)) { fail; return 0; } return __real_##name args; }
#define NOEVENT memset(event, 0, sizeof *event)
WRAP(yaml_parser_initialize, "LIBYAML_PARSER_INIT", (yaml_parser_t *parser), (parser),
		memset(parser, 0, sizeof *parser); parser->error = YAML_MEMORY_ERROR)
WRAP(yaml_parser_parse, "LIBYAML_PARSER", (yaml_parser_t *parser, yaml_event_t *event), (parser, event),
		NOEVENT; parser->error = YAML_MEMORY_ERROR)
WRAP(yaml_emitter_initialize, "LIBYAML_EMITTER_INIT", (yaml_emitter_t *emitter), (emitter),
		memset(emitter, 0, sizeof *emitter); emitter->error = YAML_MEMORY_ERROR)
WRAP(yaml_emitter_emit, "LIBYAML_EMITTER", (yaml_emitter_t *emitter, yaml_event_t *event), (emitter, event),
		yaml_event_delete(event); emitter->error = YAML_MEMORY_ERROR)
WRAP(yaml_emitter_flush, "LIBYAML_EMITTER", (yaml_emitter_t *emitter), (emitter), emitter->error = YAML_MEMORY_ERROR)
WRAP(yaml_stream_start_event_initialize, "LIBYAML_EVENT_INIT", (yaml_event_t *event, yaml_encoding_t a), (event, a), NOEVENT)
WRAP(yaml_stream_end_event_initialize, "LIBYAML_EVENT_INIT", (yaml_event_t *event), (event), NOEVENT)
WRAP(yaml_document_start_event_initialize, "LIBYAML_EVENT_INIT", (yaml_event_t *event, yaml_version_directive_t *a,
		yaml_tag_directive_t *b, yaml_tag_directive_t *c, int d), (event, a, b, c, d), NOEVENT)
WRAP(yaml_document_end_event_initialize, "LIBYAML_EVENT_INIT", (yaml_event_t *event, int a), (event, a), NOEVENT)
WRAP(yaml_scalar_event_initialize, "LIBYAML_EVENT_INIT", (yaml_event_t *event, const yaml_char_t *a, const yaml_char_t *b, const yaml_char_t *c,
		int d, int e, int f, yaml_scalar_style_t g), (event, a, b, c, d, e, f, g), NOEVENT)
WRAP(yaml_sequence_start_event_initialize, "LIBYAML_EVENT_INIT", (yaml_event_t *event, const yaml_char_t *a, const yaml_char_t *b,
		int c, yaml_sequence_style_t d), (event, a, b, c, d), NOEVENT)
WRAP(yaml_sequence_end_event_initialize, "LIBYAML_EVENT_INIT", (yaml_event_t *event), (event), NOEVENT)
WRAP(yaml_mapping_start_event_initialize, "LIBYAML_EVENT_INIT", (yaml_event_t *event, const yaml_char_t *a, const yaml_char_t *b,
		int c, yaml_mapping_style_t d), (event, a, b, c, d), NOEVENT)
WRAP(yaml_mapping_end_event_initialize, "LIBYAML_EVENT_INIT", (yaml_event_t *event), (event), NOEVENT)

/* ------------------------------------------------------------------ */
/* The calls */
static char dir[256];
static void path_of(struct ctx *x, char *p, size_t n, const char *what)
{
	snprintf(p, n, "%s/%s-%p", dir, what, (void *)x);
}
static void begin(struct ctx *x, long rej)
{
	x->cb.n = x->log.n = x->warn.n = x->errs.n = 0;
	x->ncb = x->nlog = 0;
	x->badlog = false;
	x->rej = rej;
	x->heap.err[0] = 0;
	x->heap.calls = 0;
	x->heap.fired = false;
	net = 0;
	quiet = 0;
	cur = x;
}
static long end(void)
{
	quiet = 1;
	return net;
}
static bool is_seq(struct scn *s, int ty) { return s->ty[ty]->type == CYAML_SEQUENCE; }

/* what every observation has */
static void common(struct ctx *x, cyaml_err_t e, long leak)
{
	struct buf *o = &x->out;
	put(o, "\"e\":\"%s\",\"leak\":%ld,\"mem\":\"%s\"", err_name(e), leak, x->heap.err);
	put(o, ",\"nlog\":%ld,\"badlog\":%d,\"cb\":[", x->nlog, x->badlog);
	if (x->cb.n) { need(o, x->cb.n); memcpy(o->s + o->n, x->cb.s, x->cb.n); o->n += x->cb.n; }
	put(o, "],\"bt\":[");
	if (x->log.n) { need(o, x->log.n); memcpy(o->s + o->n, x->log.s, x->log.n); o->n += x->log.n; }
	put(o, "],\"errs\":[");
	if (x->errs.n) { need(o, x->errs.n); memcpy(o->s + o->n, x->errs.s, x->errs.n); o->n += x->errs.n; }
	put(o, "],\"warn\":[");
	if (x->warn.n) { need(o, x->warn.n); memcpy(o->s + o->n, x->warn.s, x->warn.n); o->n += x->warn.n; }
	put(o, "],\"ro\":%d", schema_sum(x->s) == x->s->sum && memcmp(x->cfg, &x->cfg0, sizeof x->cfg0) == 0);
	struct buf h = {0};
	dump_heap(&x->heap, &h);
	if (x->nheaps == 0 || h.n != x->lastheap.n || memcmp(h.s, x->lastheap.s, h.n) != 0) {
		if (x->nheaps) put(&x->heaps, ",");
		need(&x->heaps, h.n);
		memcpy(x->heaps.s + x->heaps.n, h.s, h.n);
		x->heaps.n += h.n;
		x->nheaps++;
		free(x->lastheap.s);
		x->lastheap = h;
	} else {
		free(h.s);
	}
	put(o, ",\"h\":%d", x->nheaps);
}
/* 0 for NULL, the block's id, or -1 */
static int id_of(struct ctx *x, const void *p)
{
	if (p == NULL) return 0;
	for (struct heap *g = &x->heap; g; g = g->outer) {
		struct blk *b = find(g, p);
		if (b) return b->id;
	}
	return -1;
}
static char sentinel;
#define COUNT_SENTINEL 0xA5A5A5A5u

static cyaml_err_t raw_load(struct ctx *x, int ty, const uint8_t *text, size_t len, int file, void **data, unsigned *count)
{
	struct scn *s = x->s;
	unsigned *cp = is_seq(s, ty) ? count : NULL;
	if (file) {
		char p[320];
		path_of(x, p, sizeof p, "in");
		return cyaml_load_file(p, x->cfg, s->api[ty], (cyaml_data_t **)data, cp);
	}
	return cyaml_load_data(text, len, x->cfg, s->api[ty], (cyaml_data_t **)data, cp);
}
static void write_input(struct ctx *x, const uint8_t *text, size_t len)
{
	char p[320];
	path_of(x, p, sizeof p, "in");
	FILE *f = fopen(p, "w");
	if (!f || fwrite(text, 1, len, f) != len || fclose(f)) abort();
}
static void do_load(struct ctx *x, int ty, int slot, const uint8_t *text, size_t len, long rej, int file)
{
	void *data = &sentinel;
	unsigned count = COUNT_SENTINEL;
	if (file) write_input(x, text, len);
	uint8_t *exact = malloc(len);
	if (len) memcpy(exact, text, len);
	begin(x, rej);
	cyaml_err_t e = raw_load(x, ty, exact, len, file, &data, &count);
	long leak = end();
	bool intact = len == 0 || memcmp(exact, text, len) == 0;
	free(exact);
	bool same = data == &sentinel && count == COUNT_SENTINEL;
	put(&x->out, "\"o\":\"%s\",\"r\":%d,\"c\":%u,\"in\":%d,", same ? "same" : data == &sentinel ? "count" : "set",
			same ? -2 : id_of(x, data), count == COUNT_SENTINEL ? 0 : count, intact);
	if (e == CYAML_OK && data != &sentinel) {
		x->slot[slot] = data;
		x->slotn[slot] = count == COUNT_SENTINEL ? 0 : count;
		x->slotty[slot] = ty;
		x->has[slot] = true;
	}
	common(x, e, leak);
}
static void do_free(struct ctx *x, int slot)
{
	begin(x, 0);
	cyaml_err_t e = cyaml_free(x->cfg, x->s->api[x->slotty[slot]], x->slot[slot], x->slotn[slot]);
	long leak = end();
	x->has[slot] = false;
	common(x, e, leak);
}
static unsigned copy_count(struct ctx *x, int ty, unsigned n)
{
	const cyaml_schema_value_t *v = x->s->ty[ty];
	return v->type == CYAML_SEQUENCE_FIXED ? v->sequence.max : v->type == CYAML_SEQUENCE ? n : 0;
}
static void do_copy(struct ctx *x, int from, int to)
{
	void *data = NULL;
	int ty = x->slotty[from];
	begin(x, 0);
	cyaml_err_t e = cyaml_copy(x->cfg, x->s->api[ty], x->slot[from], copy_count(x, ty, x->slotn[from]), (cyaml_data_t **)&data);
	long leak = end();
	put(&x->out, "\"o\":\"%s\",\"r\":%d,\"c\":%u,", data ? "set" : "same", id_of(x, data), x->slotn[from]);
	if (e == CYAML_OK) {
		x->slot[to] = data;
		x->slotn[to] = x->slotn[from];
		x->slotty[to] = ty;
		x->has[to] = true;
	}
	common(x, e, leak);
}
static char *slurp(const char *p, size_t *n)
{
	FILE *f = fopen(p, "r");
	char *b = malloc(1);
	size_t cap = 1;
	*n = 0;
	if (!f) return b;
	for (;;) {
		if (*n + 65536 > cap) b = realloc(b, cap = (*n + 65536) * 2);
		size_t k = fread(b + *n, 1, 65536, f);
		if (k == 0) break;
		*n += k;
	}
	fclose(f);
	return b;
}
static cyaml_err_t save_mem(struct ctx *x, int slot, char **text, size_t *len)
{
	int ty = x->slotty[slot];
	return cyaml_save_data(text, len, x->cfg, x->s->api[ty], x->slot[slot], x->slotn[slot]);
}
static cyaml_err_t save_file(struct ctx *x, int slot, const char *p)
{
	int ty = x->slotty[slot];
	return cyaml_save_file(p, x->cfg, x->s->api[ty], x->slot[slot], x->slotn[slot]);
}
/* kind 0: memory; 1: file; 2: full device; 3: file limited to lim bytes; 4: no such directory */
static void do_save(struct ctx *x, int slot, int kind, long lim)
{
	char p[320];
	char *text = &sentinel;
	size_t len = 0xA5A5A5;
	struct buf *o = &x->out;
	begin(x, 0);
	cyaml_err_t e = save_mem(x, slot, &text, &len);
	long leak = end();
	bool same = text == &sentinel && len == 0xA5A5A5;
	bool mine = false;
	if (kind == 0) {
		put(o, "\"o\":\"%s\",", same ? "same" : text == &sentinel ? "count" : "set");
		if (e == CYAML_OK && !same) {
			struct blk *b = find(&x->heap, text);
			mine = b != NULL && b->n >= len;
			put(o, "\"own\":%d,\"txt\":", mine);
			puthex(o, (uint8_t *)text, mine ? len : 0);
			put(o, ",\"prev\":%d,\"em\":", x->hastext ? (len == x->textlen && mine && memcmp(text, x->text, len) == 0) : 2);
			dump_events(o, (uint8_t *)text, mine ? len : 0);
			put(o, ",");
			free(x->text);
			x->text = malloc(len + 1);
			if (mine) memcpy(x->text, text, len);
			x->textlen = mine ? len : 0;
			x->hastext = true;
		}
		/* the result is the client's: release it */
		if (mine) client_mem(&x->heap, text, 0);
		common(x, e, leak);
		return;
	}
	struct blk *b = same ? NULL : find(&x->heap, text);
	size_t mlen = b && b->n >= len ? len : 0;
	char *mem = malloc(mlen + 1);
	if (mlen) memcpy(mem, text, mlen);
	if (b) client_mem(&x->heap, text, 0);
	struct rlimit old, rl;
	switch (kind) {
	case 2: snprintf(p, sizeof p, "/dev/full"); break;
	case 4: snprintf(p, sizeof p, "%s/none/such", dir); break;
	default:
		path_of(x, p, sizeof p, "out");
		unlink(p);
		if (kind == 3 || lim == 1) {
			/* there is such a file, and it is longer */
			FILE *f = fopen(p, "w");
			if (!f) abort();
			for (size_t i = 0; i < mlen + 40; i++) putc("stale: [\n"[i % 9], f);
			if (fclose(f)) abort();
		}
		break;
	}
	long at = lim < 0 ? (long)mlen + lim + 1 : lim;   /* negative: counted back from the end */
	if (at < 0) at = 0;
	if (kind == 3) {
		getrlimit(RLIMIT_FSIZE, &old);
		rl = old;
		rl.rlim_cur = at;
		setrlimit(RLIMIT_FSIZE, &rl);
	}
	begin(x, 0);
	cyaml_err_t fe = save_file(x, slot, p);
	leak = end();
	if (kind == 3) setrlimit(RLIMIT_FSIZE, &old);
	size_t flen = 0;
	char *file = kind == 1 || kind == 3 ? slurp(p, &flen) : malloc(1);
	if (kind == 1 || kind == 3) unlink(p);
	put(o, "\"me\":\"%s\",\"mlen\":%zu,\"flen\":%zu,\"at\":%ld,\"fsame\":%d,", err_name(e), mlen, flen, at,
			flen == mlen && memcmp(file, mem, mlen) == 0);
	free(mem);
	free(file);
	common(x, fe, leak);
}
static void do_build(struct ctx *x, struct op *op)
{
	int ty = op->a[0], slot = op->a[1];
	void **p = calloc(op->nb + 1, sizeof *p);
	begin(x, 0);
	for (int i = 0; i < op->nb; i++) {
		p[i] = client_mem(&x->heap, NULL, op->bl[i].n ? op->bl[i].n : 1);
		memcpy(p[i], op->bl[i].b, op->bl[i].n);
	}
	for (int i = 0; i < op->nb; i++)
		for (int j = 0; j < op->bl[i].np; j++)
			memcpy((uint8_t *)p[i] + op->bl[i].p[2 * j], &p[op->bl[i].p[2 * j + 1] - 1], 8);
	end();
	x->slot[slot] = op->nb ? p[0] : NULL;
	x->slotn[slot] = op->a[2];
	x->slotty[slot] = ty;
	x->has[slot] = true;
	put(&x->out, "\"r\":%d,", id_of(x, x->slot[slot]));
	common(x, CYAML_OK, 0);
	free(p);
}
/* Refuse allocation 1, 2, ... until the call no longer meets the refusal */
/* mode 0: allocation k is refused; 1: and all after it; 2, 3: likewise libyaml's calls */
static void do_oom(struct ctx *x, struct op *op)
{
	bool lib = op->a[2] >= 2;
	char p[320];
	char what = op->k[3];
	struct scn *s = x->s;
	struct buf *o = &x->out;
	int ty = what == 'L' ? op->a[0] : x->slotty[op->a[0]];
	long step = op->a[4] < 1 ? 1 : op->a[4];
	put(o, "\"n\":[");
	bool first = true;
	for (long k = 1; k <= op->a[3]; k += step) {
		void *data = what == 'C' ? NULL : (void *)&sentinel;
		void *was = data;
		unsigned count = COUNT_SENTINEL;
		size_t len = 0xA5A5A5;
		uint64_t before = heap_sum(&x->heap);
		size_t live = x->heap.n;
		uint8_t *exact = NULL;
		if (what == 'L') {
			exact = malloc(s->doclen[op->a[1]]);
			if (s->doclen[op->a[1]]) memcpy(exact, s->doc[op->a[1]], s->doclen[op->a[1]]);
			if (op->a[5]) write_input(x, exact, s->doclen[op->a[1]]);
		}
		begin(x, 0);
		lib_what = NULL;
		lib_n = 0;
		lib_all = op->a[2] & 1;
		if (lib) lib_at = k;
		else x->heap.fail_at = k;
		x->heap.fail_all = op->a[2];
		cyaml_err_t e;
		if (what == 'L') e = raw_load(x, ty, exact, s->doclen[op->a[1]], op->a[5], &data, &count);
		else if (what == 'C') e = cyaml_copy(x->cfg, s->api[ty], x->slot[op->a[0]], copy_count(x, ty, x->slotn[op->a[0]]), (cyaml_data_t **)&data);
		else if (op->a[1]) { path_of(x, p, sizeof p, "out"); e = save_file(x, op->a[0], p); }
		else e = save_mem(x, op->a[0], (char **)&data, &len);
		x->heap.fail_at = lib_at = 0;
		long leak = end();
		free(exact);
		bool fired = lib ? lib_what != NULL : x->heap.fired;
		bool same = data == was && count == COUNT_SENTINEL && len == 0xA5A5A5;
		bool heapsame = x->heap.n == live && heap_sum(&x->heap) == before;
		const char *mem = x->heap.err;
		put(o, "%s{\"k\":%ld,\"f\":%d,\"e\":\"%s\",\"want\":\"%s\",\"same\":%d,\"heap\":%d,\"leak\":%ld,\"mem\":\"%s\"}",
				first ? "" : ",", k, fired, err_name(e), lib && fired ? lib_what : "OOM", same, heapsame, leak, mem);
		first = false;
		if (!fired || !heapsame || mem[0]) {
			/* tidy up whatever was returned */
			if (e == CYAML_OK && data != was) {
				if (what == 'S') { client_mem(&x->heap, data, 0); }
				else cyaml_free(x->cfg, s->api[ty], data, what == 'L' ? (count == COUNT_SENTINEL ? 0 : count) : x->slotn[op->a[0]]);
			}
			break;
		}
		if (e == CYAML_OK && data != was) {
			/* a refused allocation and yet success: will be reported */
			if (what == 'S') client_mem(&x->heap, data, 0);
			else cyaml_free(x->cfg, s->api[ty], data, what == 'L' ? (count == COUNT_SENTINEL ? 0 : count) : x->slotn[op->a[0]]);
		}
	}
	put(o, "],");
	begin(x, 0);
	end();
	common(x, CYAML_OK, 0);
}
/* Bad parameters.  api 0 load_data 1 load_file 2 copy 3 save_data 4 save_file 5 free.
 * bits: 1 no config, 2 no allocator, 4 no schema, 8 count parameter wrong way
 * round, 16 no data, 32 target not NULL (copy), 64 no such file */
static void do_param(struct ctx *x, struct op *op)
{
	int api = op->a[0], bits = op->a[1], ty = op->a[2], slot = op->a[3];
	struct scn *s = x->s;
	cyaml_config_t cfg = *x->cfg;
	if (bits & 2) cfg.mem_fn = NULL;
	const cyaml_config_t *cp = bits & 1 ? NULL : &cfg;
	const cyaml_schema_value_t *sp = bits & 4 ? NULL : s->api[ty];
	bool seq = is_seq(s, ty);
	void *data = api == 2 && !(bits & 32) ? NULL : (void *)&sentinel, *was = data;
	unsigned count = COUNT_SENTINEL;
	size_t len = 0xA5A5A5;
	void *src = slot >= 0 && x->has[slot] ? x->slot[slot] : NULL;
	unsigned n = slot >= 0 && x->has[slot] ? x->slotn[slot] : 0;
	char p[320];
	static const uint8_t doc[] = "{a: 1, b: [x, y]}";
	uint8_t *exact = malloc(sizeof doc - 1);
	memcpy(exact, doc, sizeof doc - 1);
	if (bits & 64) snprintf(p, sizeof p, "%s/none/such", dir);
	else if (api == 1) { write_input(x, exact, sizeof doc - 1); path_of(x, p, sizeof p, "in"); }
	else { path_of(x, p, sizeof p, "out"); unlink(p); }
	uint64_t before = heap_sum(&x->heap);
	begin(x, 0);
	cyaml_err_t e = CYAML_OK;
	unsigned *cnt = (seq != ((bits & 8) != 0)) ? &count : NULL;
	unsigned sn;
	switch (api) {
	case 0: e = cyaml_load_data(exact, sizeof doc - 1, cp, sp, bits & 16 ? NULL : (cyaml_data_t **)&data, cnt); break;
	case 1: e = cyaml_load_file(p, cp, sp, bits & 16 ? NULL : (cyaml_data_t **)&data, cnt); break;
	case 2:
		sn = copy_count(x, ty, n);
		if (bits & 8) sn = sn ? 0 : 3;
		e = cyaml_copy(cp, sp, src, sn, bits & 16 ? NULL : (cyaml_data_t **)&data); break;
	case 3:
		sn = seq ? n : 0;
		if (bits & 8) sn = sn ? 0 : 3;
		e = cyaml_save_data((char **)&data, &len, cp, sp, bits & 16 ? NULL : src, sn); break;
	case 4:
		sn = seq ? n : 0;
		if (bits & 8) sn = sn ? 0 : 3;
		e = cyaml_save_file(p, cp, sp, bits & 16 ? NULL : src, sn); break;
	case 5: e = cyaml_free(cp, sp, bits & 16 ? NULL : src, n); break;
	}
	long leak = end();
	free(exact);
	if (api == 4) unlink(p);
	put(&x->out, "\"o\":\"%s\",\"heapsame\":%d,\"calls\":%ld,\"ncb\":%ld,", data == was && count == COUNT_SENTINEL && len == 0xA5A5A5 ? "same" : "set",
			heap_sum(&x->heap) == before, x->heap.calls, x->ncb);
	common(x, e, leak);
}
/* Unreadable paths: 0 missing, 1 a directory */
static void do_badpath(struct ctx *x, struct op *op)
{
	int ty = op->a[0];
	char p[320];
	void *data = &sentinel;
	unsigned count = COUNT_SENTINEL;
	if (op->a[1] == 0) snprintf(p, sizeof p, "%s/none/such", dir);
	else snprintf(p, sizeof p, "%s", dir);
	begin(x, 0);
	cyaml_err_t e = cyaml_load_file(p, x->cfg, x->s->api[ty], (cyaml_data_t **)&data, is_seq(x->s, ty) ? &count : NULL);
	long leak = end();
	put(&x->out, "\"o\":\"%s\",", data == &sentinel && count == COUNT_SENTINEL ? "same" : "set");
	common(x, e, leak);
}

static void run_ops(struct ctx *x, int from, int to)
{
	struct scn *s = x->s;
	for (int i = from; i < to; i++) {
		struct op *op = &s->op[i];
		put(&x->out, "%s{", i ? "," : "");
		bool skip = false;
		if (!strcmp(op->k, "LOAD")) do_load(x, op->a[0], op->a[1], s->doc[op->a[2]], s->doclen[op->a[2]], op->a[3], op->a[4]);
		else if (!strcmp(op->k, "FREE")) { if (x->has[op->a[0]]) do_free(x, op->a[0]); else skip = true; }
		else if (!strcmp(op->k, "COPY")) { if (x->has[op->a[0]]) do_copy(x, op->a[0], op->a[1]); else skip = true; }
		else if (!strcmp(op->k, "SAVE")) { if (x->has[op->a[0]]) do_save(x, op->a[0], op->a[1], op->a[2]); else skip = true; }
		else if (!strcmp(op->k, "RELOAD")) {
			if (x->hastext) do_load(x, op->a[0], op->a[1], (uint8_t *)x->text, x->textlen, op->a[2], op->a[3]);
			else skip = true;
		}
		else if (!strcmp(op->k, "BUILD")) do_build(x, op);
		else if (!strcmp(op->k, "OOML")) do_oom(x, op);
		else if (!strcmp(op->k, "OOMC") || !strcmp(op->k, "OOMS")) { if (x->has[op->a[0]]) do_oom(x, op); else skip = true; }
		else if (!strcmp(op->k, "PARAM")) do_param(x, op);
		else if (!strcmp(op->k, "BADPATH")) do_badpath(x, op);
		else { fprintf(stderr, "HARNESS: op %s\n", op->k); abort(); }
		if (skip) put(&x->out, "\"skip\":1");
		put(&x->out, "}");
	}
}

static void ctx_init(struct ctx *x, struct scn *s)
{
	memset(x, 0, sizeof *x);
	x->s = s;
	x->magic = 0x43545821;
	x->heap.magic = 0x48454150;
	x->heap.next = 1;
	x->heap.own = s->ctxs & 8;
	x->cfg = malloc(sizeof *x->cfg);
	memset(x->cfg, 0, sizeof *x->cfg);
	*x->cfg = (cyaml_config_t){
		.log_fn = s->haslog ? client_log : NULL,
		.log_ctx = s->ctxs & 1 ? NULL : &x->tag_log,
		.log_level = s->level,
		.mem_fn = lib_mem,
		.mem_ctx = s->ctxs & 4 ? NULL : &x->heap,
		.flags = bits_of(s->cfg, cfg_tab, sizeof cfg_tab / sizeof *cfg_tab),
		.validation_ctx = s->ctxs & 2 ? NULL : &x->tag_cb,
	};
	memcpy(&x->cfg0, x->cfg, sizeof x->cfg0);
}
static void ctx_free(struct ctx *x, bool text)
{
	for (size_t i = 0; i < x->heap.n; i++) under(&x->heap, x->heap.v[i].p, 0);
	free(x->heap.v);
	free(x->cb.s); free(x->log.s); free(x->warn.s); free(x->errs.s); free(x->out.s);
	free(x->lastheap.s); free(x->heaps.s);
	free(x->cfg);
	if (text) free(x->text);
}
static void emit(struct ctx *x, const char *docs, int th)
{
	fputs("{\"id\":\"", stdout); fputs(x->s->id, stdout);
	printf("\",\"th\":%d,\"docs\":[", th);
	fputs(docs, stdout);
	fputs("],\"heaps\":[", stdout);
	if (x->heaps.n) fwrite(x->heaps.s, 1, x->heaps.n, stdout);
	fputs("],\"ops\":[", stdout);
	if (x->out.n) fwrite(x->out.s, 1, x->out.n, stdout);
	fputs("]}\n", stdout);
	fflush(stdout);
}
struct targ { struct ctx x; pthread_t t; pthread_barrier_t *bar; };
static void *thread_main(void *a)
{
	struct targ *t = a;
	quiet = 1;
	pthread_barrier_wait(t->bar);
	run_ops(&t->x, t->x.s->split, t->x.s->nops);
	return NULL;
}

int main(int argc, char **argv)
{
	struct scn s;
	if (argc < 3) return 2;
	in = fopen(argv[1], "r");
	if (!in) return 2;
	snprintf(dir, sizeof dir, "%s", argv[2]);
	int limit = argc > 3 ? atoi(argv[3]) : 20;
	signal(SIGXFSZ, SIG_IGN);
#ifndef NOHOOKS
	__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
	char *t;
	while ((t = next()) != NULL) {
		if (strcmp(t, "SCN") != 0) { fprintf(stderr, "HARNESS: expected SCN, got %s\n", t); return 2; }
		read_scn(&s);
		fprintf(stderr, "BEGIN %s\n", s.id);
		alarm(limit);
		struct buf docs = {0};
		for (int i = 0; i < s.ndocs; i++) {
			if (i) put(&docs, ",");
			dump_events(&docs, s.doc[i], s.doclen[i]);
		}
		if (docs.s == NULL) put(&docs, " ");
		struct ctx x;
		ctx_init(&x, &s);
		run_ops(&x, 0, s.threads ? s.split : s.nops);
		if (s.threads == 0) {
			emit(&x, docs.s, 0);
		} else {
			struct targ *ta = calloc(s.threads, sizeof *ta);
			pthread_barrier_t bar;
			pthread_barrier_init(&bar, NULL, s.threads);
			for (int i = 0; i < s.threads; i++) {
				struct ctx *y = &ta[i].x;
				ctx_init(y, &s);
				y->heap.outer = &x.heap;
				y->heap.next = x.heap.next;
				memcpy(y->slot, x.slot, sizeof x.slot);
				memcpy(y->slotn, x.slotn, sizeof x.slotn);
				memcpy(y->slotty, x.slotty, sizeof x.slotty);
				memcpy(y->has, x.has, sizeof x.has);
				if (x.hastext) { y->text = malloc(x.textlen + 1); memcpy(y->text, x.text, x.textlen); y->textlen = x.textlen; y->hastext = true; }
				need(&y->out, x.out.n); memcpy(y->out.s, x.out.s ? x.out.s : "", x.out.n); y->out.n = x.out.n;
				need(&y->heaps, x.heaps.n); memcpy(y->heaps.s, x.heaps.s ? x.heaps.s : "", x.heaps.n); y->heaps.n = x.heaps.n;
				y->nheaps = x.nheaps;
				if (x.nheaps) { need(&y->lastheap, x.lastheap.n); memcpy(y->lastheap.s, x.lastheap.s, x.lastheap.n); y->lastheap.n = x.lastheap.n; }
				ta[i].bar = &bar;
			}
			for (int i = 0; i < s.threads; i++) pthread_create(&ta[i].t, NULL, thread_main, &ta[i]);
			for (int i = 0; i < s.threads; i++) pthread_join(ta[i].t, NULL);
			for (int i = 0; i < s.threads; i++) {
				emit(&ta[i].x, docs.s, i + 1);
				ctx_free(&ta[i].x, true);
			}
			pthread_barrier_destroy(&bar);
			free(ta);
		}
		alarm(0);
		fprintf(stderr, "END %s\n", s.id);
		ctx_free(&x, true);
		free(docs.s);
		free_scn(&s);
	}
	return 0;
}
