/* C library functions for the IR executor, as the C standard specifies them (byte by byte). */
#include <stddef.h>

void *memcpy(void *d, const void *s, size_t n);
void *memmove(void *d, const void *s, size_t n);
void *memset(void *d, int c, size_t n);

size_t strlen(const char *s) { size_t n = 0; while(s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while(n < m && s[n]) ++n; return n; }

int
strcmp(const char *a, const char *b)
{
	while(*a && *a == *b) { ++a; ++b; }
	return (int)(unsigned char)*a - (int)(unsigned char)*b;
}

int
strncmp(const char *a, const char *b, size_t n)
{
	for(size_t i = 0; i < n; ++i)
	{
		if(a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
	}
	return 0;
}

int
memcmp(const void *p, const void *q, size_t n)
{
	const unsigned char *a = p, *b = q;
	for(size_t i = 0; i < n; ++i)
	{
		if(a[i] != b[i]) return (int)a[i] - (int)b[i];
	}
	return 0;
}

int bcmp(const void *p, const void *q, size_t n) { return memcmp(p, q, n); }

void *
memchr(const void *p, int c, size_t n)
{
	const unsigned char *a = p;
	for(size_t i = 0; i < n; ++i)
	{
		if(a[i] == (unsigned char)c) return (void *)(a + i);
	}
	return NULL;
}

void *
memrchr(const void *p, int c, size_t n)
{
	const unsigned char *a = p;
	while(n--)
	{
		if(a[n] == (unsigned char)c) return (void *)(a + n);
	}
	return NULL;
}

void *rawmemchr(const void *p, int c) { const unsigned char *a = p; while(*a != (unsigned char)c) ++a; return (void *)a; }

char *
strchr(const char *s, int c)
{
	for(;; ++s)
	{
		if(*s == (char)c) return (char *)s;
		if(!*s) return NULL;
	}
}

char *
strrchr(const char *s, int c)
{
	const char *r = NULL;
	for(;; ++s)
	{
		if(*s == (char)c) r = s;
		if(!*s) return (char *)r;
	}
}

char *strcpy(char *d, const char *s) { char *r = d; while((*d++ = *s++)) { } return r; }
char *stpcpy(char *d, const char *s) { while((*d = *s)) { ++d; ++s; } return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }

char *
strncpy(char *d, const char *s, size_t n)
{
	size_t i = 0;
	for(; i < n && s[i]; ++i) d[i] = s[i];
	for(; i < n; ++i) d[i] = 0;
	return d;
}

static int err_no;
int *__errno_location(void) { return &err_no; }
int abs(int v) { return v < 0 ? -v : v; }

void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void bzero(void *d, size_t n) { memset(d, 0, n); }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }

char *
strncat(char *d, const char *s, size_t n)
{
	char *e = d + strlen(d);
	size_t i = 0;
	for(; i < n && s[i]; ++i) e[i] = s[i];
	e[i] = 0;
	return d;
}

size_t
strcspn(const char *s, const char *set)
{
	size_t n = 0;
	for(; s[n]; ++n)
		for(const char *c = set; *c; ++c)
			if(*c == s[n])
				return n;
	return n;
}

void *
bsearch(const void *key, const void *base, size_t n, size_t size, int (*compare)(const void *, const void *))
{
	size_t lo = 0, hi = n;
	while(lo < hi)
	{
		size_t mid = lo + (hi - lo) / 2;
		const char *p = (const char *)base + mid * size;
		int r = compare(key, p);
		if(!r)
			return (void *)p;
		if(r < 0)
			hi = mid;
		else
			lo = mid + 1;
	}
	return NULL;
}

char *strchrnul(const char *s, int c) { while(*s && *s != (char)c) ++s; return (char *)s; }
void explicit_bzero(void *d, size_t n) { memset(d, 0, n); }

void *
memccpy(void *d, const void *s, int c, size_t n)
{
	for(size_t i = 0; i < n; ++i)
	{
		((char *)d)[i] = ((const char *)s)[i];
		if(((const unsigned char *)s)[i] == (unsigned char)c)
			return (char *)d + i + 1;
	}
	return NULL;
}

void *
memmem(const void *h, size_t n, const void *p, size_t m)
{
	for(size_t i = 0; m <= n && i <= n - m; ++i)
	{
		size_t k = 0;
		while(k < m && ((const char *)h)[i + k] == ((const char *)p)[k])
			++k;
		if(k == m)
			return (char *)h + i;
	}
	return NULL;
}

size_t
strspn(const char *s, const char *set)
{
	size_t n = 0;
	for(; s[n]; ++n)
		if(!*strchrnul(set, s[n]))
			break;
	return n;
}

void
qsort(void *base, size_t n, size_t size, int (*compare)(const void *, const void *))
{
	char *b = base;
	for(size_t i = 1; i < n; ++i)
		for(size_t j = i; j && compare(b + (j - 1) * size, b + j * size) > 0; --j)
			for(size_t k = 0; k < size; ++k)
			{
				char t = b[(j - 1) * size + k];
				b[(j - 1) * size + k] = b[j * size + k];
				b[j * size + k] = t;
			}
}
