/* Faults for a program under test, by LD_PRELOAD.

   HF_IN, HF_OUT   paths of the watched files; descriptors 0 and 1 are watched if unset
   HF_R, HF_W      "n:errno:count" the n-th read or write (from 1) fails, and the count-1 after it
   HF_RS, HF_WS    the largest number of bytes given or taken by one call
   HF_LOG          file that gets one byte for each fault */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

struct side {
    long n, at, err, count, most;
    const char *path;
    int fd;
};

static struct side in, out;
static const char *logname;
static ssize_t (*real_read)(int, void *, size_t);
static ssize_t (*real_write)(int, const void *, size_t);
static int ready;

static void setup_side(struct side *s, const char *spec, const char *most, const char *path, int fd)
{
    if (spec)
        sscanf(spec, "%ld:%ld:%ld", &s->at, &s->err, &s->count);
    s->most = most ? atol(most) : 0;
    s->path = path;
    s->fd = fd;
}

static void setup(void)
{
    if (ready)
        return;
    ready = 1;
    real_read = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    real_write = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    logname = getenv("HF_LOG");
    setup_side(&in, getenv("HF_R"), getenv("HF_RS"), getenv("HF_IN"), 0);
    setup_side(&out, getenv("HF_W"), getenv("HF_WS"), getenv("HF_OUT"), 1);
}

static int watched(struct side *s, int fd)
{
    char name[64], link[4096];
    ssize_t l;
    if (!s->path)
        return fd == s->fd;
    snprintf(name, sizeof name, "/proc/self/fd/%d", fd);
    l = readlink(name, link, sizeof link - 1);
    if (l < 0)
        return 0;
    link[l] = 0;
    return strcmp(link, s->path) == 0;
}

/* nonzero if this call fails */
static int fault(struct side *s)
{
    int fd;
    s->n++;
    if (!s->at || s->n < s->at || s->n >= s->at + s->count)
        return 0;
    if (logname && (fd = open(logname, O_WRONLY | O_CREAT | O_APPEND, 0600)) >= 0) {
        if (real_write(fd, "x", 1) < 0) {
        }
        close(fd);
    }
    errno = (int)s->err;
    return 1;
}

static size_t at_most(struct side *s, size_t n)
{
    return s->most && n > (size_t)s->most ? (size_t)s->most : n;
}

ssize_t read(int fd, void *b, size_t n)
{
    setup();
    if (watched(&in, fd)) {
        if (fault(&in))
            return -1;
        n = at_most(&in, n);
    }
    return real_read(fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n)
{
    setup();
    if (watched(&out, fd)) {
        if (fault(&out))
            return -1;
        n = at_most(&out, n);
    }
    return real_write(fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int k)
{
    int i;
    for (i = 0; i < k; i++)
        if (v[i].iov_len)
            return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t readv(int fd, const struct iovec *v, int k)
{
    int i;
    for (i = 0; i < k; i++)
        if (v[i].iov_len)
            return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
