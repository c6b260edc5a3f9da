#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "id3v2lib.h"
#include "id3v2lib.compat.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED %s:%d %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
static void put_file(const char* name, const void* data, size_t n)
{
    FILE* f = fopen(name, "wb");
    CHECK(f != NULL);
    CHECK(fwrite(data, 1, n, f) == n);
    fclose(f);
}
static size_t get_file(const char* name, unsigned char* data, size_t max)
{
    FILE* f = fopen(name, "rb");
    CHECK(f != NULL);
    size_t n = fread(data, 1, max, f);
    fclose(f);
    return n;
}
/* a tag header for a tag of `size` bytes */
static int put_header(unsigned char* b, int major, int flags, int size)
{
    memcpy(b, "ID3", 3);
    b[3] = major; b[4] = 0; b[5] = flags;
    b[6] = (size >> 21) & 127; b[7] = (size >> 14) & 127; b[8] = (size >> 7) & 127; b[9] = size & 127;
    return 10;
}
/* one frame, plain v2.3 size */
static int put_frame(unsigned char* b, const char* id, const void* payload, int n)
{
    memcpy(b, id, 4);
    b[4] = n >> 24; b[5] = n >> 16; b[6] = n >> 8; b[7] = n; b[8] = 0; b[9] = 0;
    memcpy(b + 10, payload, n);
    return 10 + n;
}
