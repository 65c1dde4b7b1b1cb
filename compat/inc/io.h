#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <cerrno>
#define _O_RDWR O_RDWR
#define _O_CREAT O_CREAT
#define _SH_DENYNO 0
#define _S_IREAD 0400
#define _S_IWRITE 0200
static inline int _sopen_s(int* h, const char* n, int f, int, int m) { *h = ::open(n, f, m); return (*h < 0) ? errno : 0; }
static inline int _chsize(int h, long n) { return ::ftruncate(h, n); }
static inline int _close(int h) { return ::close(h); }
