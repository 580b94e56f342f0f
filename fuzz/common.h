// shared by the fuzz targets: the input as a file, and the only exceptions that count as a clean rejection
#ifndef VFX_FUZZ_COMMON_H
#define VFX_FUZZ_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

struct ScratchFile
{
    int fd;
    std::string path;
    ScratchFile()
    {
        fd = memfd_create("vfx", 0);
        if (fd >= 0)
        {
            path = "/proc/self/fd/" + std::to_string(fd);
            return;
        }
        const char * t = getenv("TMPDIR");
        path = std::string(t ? t : "/tmp") + "/vfxfuzz." + std::to_string(getpid());
        fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0)
        {
            fprintf(stderr, "no scratch file\n");
            _exit(99);
        }
        unlink(path.c_str());
        path = "/proc/self/fd/" + std::to_string(fd);
    }
    const std::string & set(const void * data, size_t size)
    {
        size_t done = 0;
        if (ftruncate(fd, 0)) _exit(99);
        while (done < size)
        {
            ssize_t n = pwrite(fd, (const char *) data + done, size - done, done);
            if (n <= 0) _exit(99);
            done += n;
        }
        return path;
    }
};

// the expensive part of a target runs for one out of n inputs, chosen by their contents (so that a replay does the same)
static inline bool one_of(unsigned n, const uint8_t * data, size_t size)
{
    uint32_t h = 2166136261u;
    for (size_t i = 0; i < size; i++) h = (h ^ data[i]) * 16777619u;
    return ((h ^ (h >> 15)) % n) == 0;
}

// an oracle that does not hold: same effect as a crash
#define EXPECT(cond, what) do { if (!(cond)) { fprintf(stderr, "ORACLE: %s (line %d)\n", what, __LINE__); abort(); } } while (0)

// a clean answer is a value or a std::exception (bad_alloc is not: an input must not exhaust the memory)
#define CLEAN(statement) do { try { statement; } catch (const std::bad_alloc &) { fprintf(stderr, "ORACLE: bad_alloc\n"); abort(); } catch (const std::exception &) { } } while (0)

#endif
