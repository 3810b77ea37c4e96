/* a model of a file system that holds one file */
#ifndef DISK
#define DISK 76
#endif
/* the model: operations on the one open file. vf_io_fail_at chooses an operation that fails */
static uint8_t disk[DISK];
static long disk_size;
static int disk_exists;
static long position;
static int open_files;
static int writable;
static int at_end;
static int has_error;
static int io_count;
static int vf_io_fail_at = -1;
static int io_failed;
static FILE vf_file;
static int io_fails(void) {
  io_count += 1;
  if (io_count - 1 == vf_io_fail_at) {
    io_failed = 1;
    return (1);
  }
  return (0);
}
static FILE* vf_fopen(const void* path, const char* mode) {
  vf_assert(!open_files, "one file is open at a time");
  if (io_fails() || (mode[0] == 'r' && !disk_exists)) {
    errno = ENOENT;
    return (0);
  }
  writable = mode[0] == 'w';
  if (writable) disk_size = 0;
  disk_exists = 1;
  position = 0;
  at_end = has_error = 0;
  open_files += 1;
  return (&vf_file);
}
static int vf_fclose(FILE* f) {
  vf_assert(f == &vf_file && open_files == 1, "an open file is closed");
  open_files -= 1;
  return (0);
}
static size_t vf_fwrite(const void* data, size_t size, size_t count, FILE* f) {
  const uint8_t* d = data;
  long n = size * count;
  vf_assert(f == &vf_file && open_files == 1 && writable, "an open file is written to");
  if (!n) return (0);
  if (io_fails()) {
    has_error = 1;
    return (0);
  }
  vf_assert(position >= 0 && n + position <= DISK, "MODEL disk size");
  for (long i = 0; i < DISK; i++)
    if (i >= disk_size && i < position) disk[i] = 0;
  for (long i = 0; i < n; i++) disk[position + i] = d[i];
  position += n;
  if (position > disk_size) disk_size = position;
  return (count);
}
static size_t vf_fread(void* data, size_t size, size_t count, FILE* f) {
  uint8_t* d = data;
  long n = size * count;
  long requested = n;
  long rest = position < disk_size ? disk_size - position : 0;
  vf_assert(f == &vf_file && open_files == 1 && !writable, "an open file is read from");
  if (!n) return (0);
  if (io_fails()) {
    has_error = 1;
    return (0);
  }
  if (n > rest) {
    at_end = 1;
    n = rest;
  }
  for (long i = 0; i < requested; i++)
    if (i < n) d[i] = disk[position + i];
  position += n;
  return (size ? n / size : 0);
}
static int vf_fseek(FILE* f, long offset, int whence) {
  long target = offset + (whence == SEEK_CUR ? position : whence == SEEK_END ? disk_size : 0);
  vf_assert(f == &vf_file && open_files == 1, "seek in an open file");
  if (target < 0) return (-1);
  position = target;
  at_end = 0;
  return (0);
}
#define fopen vf_fopen
#define fclose vf_fclose
#define fwrite vf_fwrite
#define fread vf_fread
#define fseek vf_fseek
#define ftell(f) position
#define rewind(f) ((void)(vf_fseek(f, 0, SEEK_SET)))
#define feof(f) at_end
#define ferror(f) has_error
#define fflush(f) 0
