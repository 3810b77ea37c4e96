/* reading and writing sound files, with a model of a file system that holds one file */
#include "vf.h"
#include "vf_disk.h"
#include "vf_repo.h"
#undef feof
#undef ferror
#undef ftell
static uint32_t u32_at(int i) { return (disk[i] | disk[i + 1] << 8 | disk[i + 2] << 16 | (uint32_t)disk[i + 3] << 24); }
static uint32_t u16_at(int i) { return (disk[i] | disk[i + 1] << 8); }
static int text_at(int i, const char* a) { return (disk[i] == a[0] && disk[i + 1] == a[1] && disk[i + 2] == a[2] && disk[i + 3] == a[3]); }
static void put32(int i, uint32_t a) {
  for (int j = 0; j < 4; j++) disk[i + j] = a >> (8 * j);
}
static void put_text(int i, const char* a) {
  for (int j = 0; j < 4; j++) disk[i + j] = a[j];
}
static float float_at(int i) {
  uint32_t b = u32_at(i);
  float f;
  memcpy(&f, &b, 4);
  return (f);
}
static void put_float(int i, float f) {
  uint32_t b;
  memcpy(&b, &f, 4);
  put32(i, b);
}
/* samples that float can not represent exactly are among them */
static double any_sample(void) {
  int32_t v = vf_int(0, 7);
  double values[8] = {0, 1, -1, 0.5, 0.1, -0.123456789012, 3.3e-5, 2.5};
  double r = 0;
  for (int i = 0; i < 8; i++)
    if (v == i) r = values[i];
  return (r);
}
#ifndef N
#define N 2
#endif
#ifndef CHANNELS
#define CHANNELS 1
#endif
#define WIDTH (CHANNELS < 2 ? 2 : CHANNELS)
static sp_sample_t data[WIDTH][2 * N + 1];
static void portion(int channels, int from, sp_sample_t** out) {
  for (int i = 0; i < channels; i++) out[i] = data[i] + from;
}
/*@ {"property":"C20","entry":"h_write","unwind":100,"flags":["--max-field-sensitivity-array-size","128"],"quick":["-DN=2 -DCHANNELS=1","-DN=2 -DCHANNELS=2","-DN=1 -DCHANNELS=5 -DDISK=90"],"thorough":["-DN=3 -DCHANNELS=1","-DN=3 -DCHANNELS=2 -DDISK=100 unwind=110"],
 "stubs":"the file functions of libc operate on one file in memory",
 "about":"files with CHANNELS channels of any sample rate up to 2^24, written with two calls of 0..N samples and then read back in two calls: every byte, samples and status"} @*/
static uint32_t rate;
static void writing(int n1, int n2, int m) {
  sp_file_t file;
  sp_sample_t* p[WIDTH];
  sp_sample_t back[WIDTH][2 * N + 1];
  status_t s;
  int n = n1 + n2;
  s = sp_file_open_write("f", CHANNELS, rate, &file);
  vf_assert(!s.id, "opening succeeds");
  portion(CHANNELS, 0, p);
  s = sp_file_write(&file, p, n1);
  vf_assert(!s.id, "writing succeeds");
  portion(CHANNELS, n1, p);
  s = sp_file_write(&file, p, n2);
  vf_assert(!s.id, "writing more succeeds");
  sp_file_close_write(&file);
  vf_assert(!open_files && !vf_live, "files and memory are released");
  vf_assert(disk_size == 44 + n * CHANNELS * 4, "size of the file");
  vf_assert(text_at(0, "RIFF") && text_at(8, "WAVE") && text_at(12, "fmt ") && text_at(36, "data"), "chunk names");
  vf_assert(u32_at(4) == disk_size - 8 && u32_at(16) == 16 && u32_at(40) == n * CHANNELS * 4, "chunk sizes");
  vf_assert(u16_at(20) == 3 && u16_at(34) == 32, "format is 32 bit float");
  vf_assert(u16_at(22) == CHANNELS && u32_at(24) == rate, "channel count and rate");
  vf_assert(u32_at(28) == rate * CHANNELS * 4 && u16_at(32) == CHANNELS * 4, "bytes per second and sample");
  for (int i = 0; i < n; i++)
    for (int j = 0; j < CHANNELS; j++) vf_assert(float_at(44 + 4 * (i * CHANNELS + j)) == (float)data[j][i], "interleaved samples");
  /* back */
  for (int i = 0; i < 2 * N + 1; i++)
    for (int j = 0; j < WIDTH; j++) back[j][i] = 99;
  s = sp_file_open_read("f", &file);
  vf_assert(!s.id && file.channel_count == CHANNELS, "opening for reading succeeds");
  for (int i = 0; i < CHANNELS; i++) p[i] = back[i];
  s = sp_file_read(file, m, p);
  vf_assert(n ? !s.id : s.id == sp_s_id_file_eof, "status of the first read");
  if (n > m) {
    for (int i = 0; i < CHANNELS; i++) p[i] = back[i] + m;
    s = sp_file_read(file, 2 * N + 1 - m, p);
    vf_assert(!s.id, "status of reading what remains");
  }
  s = sp_file_read(file, 1, p);
  vf_assert(s.id == sp_s_id_file_eof && !strcmp(s.group, sp_s_group_sp), "end of file is reported");
  sp_file_close_read(file);
  for (int i = 0; i < 2 * N + 1; i++)
    for (int j = 0; j < WIDTH; j++) vf_assert(back[j][i] == (j < CHANNELS && i < n ? (float)data[j][i] : 99), "samples that are read");
  vf_assert(!open_files && !vf_live, "files and memory are released after reading");
  vf_witness("end");
}
void h_write(void) {
  int n1 = vf_int(0, N);
  int n2 = vf_int(0, N);
  int m = vf_int(1, N + 1);
  rate = vf_uint(0, 1 << 24);
  for (int i = 0; i < 2 * N; i++)
    for (int j = 0; j < CHANNELS; j++) data[j][i] = any_sample();
  for (int i = 0; i <= N; i++)
    for (int j = 0; j <= N; j++)
      for (int k = 1; k <= N + 1; k++)
        if (n1 == i && n2 == j && m == k) {
          writing(i, j, k);
          return;
        }
}
/*@ {"property":"C20","entry":"h_header","unwind":100,"flags":["--max-field-sensitivity-array-size","128"],"quick":[""],
 "stubs":"the file functions of libc operate on one file in memory",
 "about":"the header of empty files with 1 to 9, 16, 31, 63, 64, 100, 127, 128 and 255 channels and any rate up to 2^20"} @*/
static void header(uint32_t channels) {
  sp_file_t file;
  status_t s;
  s = sp_file_open_write("f", channels, rate, &file);
  vf_assert(!s.id && file.channel_count == channels, "opening succeeds");
  sp_file_close_write(&file);
  vf_assert(disk_size == 44 && !open_files && !vf_live, "size of the file");
  vf_assert(text_at(0, "RIFF") && text_at(8, "WAVE") && text_at(12, "fmt ") && text_at(36, "data"), "chunk names");
  vf_assert(u32_at(4) == 36 && u32_at(16) == 16 && u32_at(40) == 0, "chunk sizes");
  vf_assert(u16_at(20) == 3 && u16_at(34) == 32, "format is 32 bit float");
  vf_assert(u16_at(22) == channels && u32_at(24) == rate, "channel count and rate");
  vf_assert(u32_at(28) == rate * channels * 4 && u16_at(32) == channels * 4, "bytes per second and sample");
  s = sp_file_open_read("f", &file);
  vf_assert(!s.id && file.channel_count == channels, "opening for reading succeeds");
  sp_file_close_read(file);
  vf_assert(!open_files && !vf_live, "files and memory are released after reading");
  vf_witness("end");
}
void h_header(void) {
  static const uint8_t counts[17] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 63, 64, 100, 127, 128, 255};
  int c = vf_int(0, 16);
  rate = vf_uint(0, 1 << 20);
  for (int i = 0; i < 17; i++)
    if (c == i) {
      header(counts[i]);
      return;
    }
}
/*@ {"property":"C20","entry":"h_open","unwind":100,"flags":["--max-field-sensitivity-array-size","128"],"quick":["-DDISK=60"],"thorough":["-DDISK=70"],
 "stubs":"the file functions of libc operate on one file in memory",
 "about":"opening a file of up to DISK bytes of any content with less than 256 channels, or a missing file, for reading"} @*/
void h_open(void) {
  sp_file_t file;
  status_t s;
  int ok, format;
  disk_size = vf_int(0, DISK);
  disk_exists = vf_bool();
  for (int i = 0; i < DISK; i++) disk[i] = vf_u8();
  /* more than 255 channels are not supported */
  disk[23] = 0;
  s = sp_file_open_read("f", &file);
  ok = disk_exists && disk_size >= 44 && text_at(0, "RIFF") && text_at(8, "WAVE") && text_at(12, "fmt ");
  format = ok && u16_at(20) == 3 && u16_at(34) == 32;
  /* find the data */
  int at = 36;
  for (int i = 0; i < DISK / 8 - 4; i++)
    if (at >= 0 && !(at + 8 <= disk_size && text_at(at, "data"))) at = at + 8 <= disk_size && u32_at(at + 4) < DISK ? at + 8 + u32_at(at + 4) : -1;
  if (at + 8 > disk_size) at = -1;
  if (!ok) vf_assert(s.id && s.id != sp_s_id_file_not_implemented, "missing, truncated and other files are rejected");
  else if (!format) vf_assert(s.id == sp_s_id_file_not_implemented, "other formats are rejected");
  else if (!u16_at(22) || at < 0) vf_assert(s.id == sp_s_id_file_read, "files without channels or data are rejected");
  else {
    vf_assert(!s.id, "valid files are opened");
    vf_assert(file.channel_count == u16_at(22) && position == at + 8, "channel count and begin of the data");
    vf_assert(open_files == 1, "the file is open");
    sp_file_close_read(file);
    vf_witness("opened");
  }
  if (s.id) vf_assert(!strcmp(s.group, disk_exists ? sp_s_group_sp : sp_s_group_libc), "group of the status");
  vf_assert(!open_files && !vf_live, "files and memory are released");
  vf_witness("end");
}
/*@ {"property":"C20","entry":"h_read","unwind":100,"flags":["--max-field-sensitivity-array-size","128"],"quick":["-DN=2 -DCHANNELS=1","-DN=1 -DCHANNELS=2 -DDISK=84 -DEXTRA=2","-DN=1 -DCHANNELS=1 -DEXTRA=1"],"thorough":["-DN=2 -DCHANNELS=2 -DDISK=90","-DN=3 -DCHANNELS=1 -DDISK=84 -DEXTRA=3"],
 "stubs":"the file functions of libc operate on one file in memory",
 "about":"reading up to N + 1 samples of CHANNELS channels in portions of 1..N + 2 from files with an unknown chunk of EXTRA - 1 words before the data and an incomplete sample of any size at the end"} @*/
#ifndef EXTRA
#define EXTRA 0
#endif
static void reading(int n, int m, int extra, int partial) {
  sp_file_t file;
  sp_sample_t back[2][N + 4];
  sp_sample_t* p[2];
  status_t s;
  int at = 36;
  int rest = n;
  disk_exists = 1;
  put_text(0, "RIFF");
  put_text(8, "WAVE");
  put_text(12, "fmt ");
  put32(16, 16);
  put32(20, 3 | CHANNELS << 16);
  put32(24, 96000);
  put32(32, CHANNELS * 4 | 32 << 16);
  if (extra) {
    put_text(at, "fact");
    put32(at + 4, extra * 4 - 4);
    at += 8 + extra * 4 - 4;
  }
  put_text(at, "data");
  put32(at + 4, n * CHANNELS * 4);
  at += 8;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < CHANNELS; j++) put_float(at + 4 * (i * CHANNELS + j), data[j][i]);
  disk_size = at + n * CHANNELS * 4 + partial;
  vf_assert(disk_size <= DISK, "MODEL disk size");
  s = sp_file_open_read("f", &file);
  vf_assert(!s.id && file.channel_count == CHANNELS, "opening succeeds");
  int done = 0;
  for (int k = 0; k < 3; k++) {
    int e = rest < m ? rest : m;
    for (int i = 0; i < N + 4; i++) back[0][i] = back[1][i] = 99;
    for (int i = 0; i < CHANNELS; i++) p[i] = back[i];
    s = sp_file_read(file, m, p);
    if (e) vf_assert(!s.id, "reading succeeds");
    else if (!(partial / 4 && rest == 0)) vf_assert(s.id == sp_s_id_file_eof, "end of file");
    for (int i = 0; i < N + 4; i++)
      for (int j = 0; j < WIDTH; j++) vf_assert(back[j][i] == (j < CHANNELS && i < e ? (float)data[j][done + i] : 99), "samples that are read");
    done += e;
    rest -= e;
    if (partial && !rest) break;
  }
  sp_file_close_read(file);
  vf_assert(!open_files && !vf_live, "files and memory are released");
  vf_witness("end");
}
void h_read(void) {
  int n = vf_int(0, N + 1);
  int m = vf_int(1, N + 2);
  int partial = vf_int(0, CHANNELS * 4 - 1);
  for (int i = 0; i <= N; i++)
    for (int j = 0; j < CHANNELS; j++) data[j][i] = (float)any_sample();
  for (int i = 0; i <= N + 1; i++)
    for (int j = 1; j <= N + 2; j++)
      for (int l = 0; l < CHANNELS * 4; l += CHANNELS * 2 - 1)
        if (n == i && m == j && partial == l) {
          reading(i, j, EXTRA, l);
          return;
        }
}
/*@ {"property":["C20","C22"],"entry":"h_failing","unwind":100,"flags":["--max-field-sensitivity-array-size","128"],"quick":[""],
 "stubs":"the file functions of libc operate on one file in memory, any operation can fail",
 "about":"any one of the operations on the file or allocations fails while writing and reading a file with one channel"} @*/
static void failing(int fail_io, int fail_memory, int reads) {
  sp_file_t file;
  sp_sample_t* p[2];
  sp_sample_t back[3];
  status_t s;
  int failed = 0;
  vf_io_fail_at = fail_io;
  vf_fail_at = fail_memory;
  p[0] = data[0];
  p[1] = data[1];
  s = sp_file_open_write("f", 1, rate, &file);
  vf_assert(!s.id == !io_failed, "failure to open for writing is returned");
  if (s.id) {
    vf_assert(!open_files && !vf_live, "files are released if opening for writing fails");
    vf_assert(io_count == 1 ? !strcmp(s.group, sp_s_group_libc) : s.id == sp_s_id_file_write, "reason of the failure to open");
  } else {
    s = sp_file_write(&file, p, 2);
    vf_assert(!s.id == !(io_failed || vf_failed), "failure to write is returned");
    vf_assert(!io_failed || s.id == sp_s_id_file_write, "reason of the failure to write");
    failed = s.id;
    sp_file_close_write(&file);
    vf_assert(!open_files && !vf_live, "files and memory are released after writing");
    if (!io_failed && !vf_failed) {
      s = sp_file_open_read("f", &file);
      vf_assert(!s.id == !io_failed, "failure to open for reading is returned");
      if (!s.id) {
        p[0] = back;
        s = sp_file_read(file, 2, p);
        vf_assert(!s.id == !(io_failed || vf_failed), "failure to read is returned");
        vf_assert(!io_failed || s.id == sp_s_id_file_read, "reason of the failure to read");
        if (!s.id) vf_assert(back[0] == (float)data[0][0] && back[1] == (float)data[0][1], "samples");
        sp_file_close_read(file);
      }
    }
  }
  vf_assert(!open_files && !vf_live, "files and memory are released");
  vf_witness("end");
}
void h_failing(void) {
  int a = vf_int(-1, 9);
  int b = vf_int(-1, 2);
  for (int i = 0; i < 2; i++) data[0][i] = any_sample();
  rate = 96000;
  for (int i = -1; i < 10; i++)
    for (int j = -1; j < 3; j++)
      if (a == i && b == j && (i < 0 || j < 0)) {
        failing(i, j, 0);
        return;
      }
}
