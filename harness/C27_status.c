/* names and descriptions of statuses */
#include "vf.h"
#include "vf_repo.h"
/*@ {"property":"C27","entry":"h_status","unwind":60,"quick":[""],
 "about":"every status number (all 2^32 integers) with the groups of the library, any other group of up to three characters and the empty group"} @*/
typedef struct {
  int id;
  const char* description;
  const char* name;
} known_t;
static int equal(const uint8_t* a, const char* b) { return (!strcmp((const char*)a, b)); }
void h_status(void) {
  known_t known[9] = {{sp_s_id_eof, "end of file", "end-of-file"}, {sp_s_id_input_type, "input argument is of wrong type", "input-type"},
    {sp_s_id_not_implemented, "not implemented", "not-implemented"}, {sp_s_id_memory, "memory allocation error", "memory"},
    {sp_s_id_file_write, "invalid file write", "invalid-file-write"}, {sp_s_id_file_read, "invalid file read", "invalid-file-read"},
    {sp_s_id_file_not_implemented, "unsupported format (only 32 bit float supported)", "not-implemented"},
    {sp_s_id_file_eof, "end of file", "end-of-file"}, {sp_s_id_invalid_argument, "invalid argument", "invalid-argument"}};
  status_t s;
  char other[4];
  int group = vf_int(0, 2);
  int found = 0;
  uint8_t* d;
  uint8_t* n;
  s.id = vf_i32();
  for (int i = 0; i < 9; i++)
    for (int j = 0; j < i; j++) vf_assert(known[i].id && known[i].id != known[j].id, "numbers are not zero and not shared");
  for (int i = 0; i < 3; i++) other[i] = vf_u8();
  other[3] = 0;
  vf_assume(strcmp(other, sp_s_group_sp) && strcmp(other, sp_s_group_sph));
  if (group == 0) {
    s.group = sp_s_group_sp;
    d = sp_status_description(s);
    n = sp_status_name(s);
    for (int i = 0; i < 9; i++)
      if (s.id == known[i].id) {
        vf_assert(equal(d, known[i].description), "description of the status");
        vf_assert(equal(n, known[i].name), "name of the status");
        found = 1;
        vf_witness("known");
      }
    if (!found) {
      vf_assert(equal(d, "") && equal(n, "unknown"), "unknown numbers");
      vf_witness("unknown");
    }
  } else if (group == 1) {
    s.group = sp_s_group_sph;
    d = sp_status_description(s);
    n = sp_status_name(s);
    vf_assert(s.id == sph_helper_status_id_memory ? equal(d, "not enough memory or other memory allocation error") : d != 0, "statuses of the helper library");
    vf_assert(equal(n, "unknown"), "name of other groups");
    vf_witness("helper");
  } else {
    s.group = (uint8_t*)other;
    vf_assert(equal(sp_status_description(s), "") && equal(sp_status_name(s), "unknown"), "other groups");
    vf_witness("other");
  }
}
