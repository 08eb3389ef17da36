/* Declarations of the parts of the upb runtime that google/s2a-core's generated
 * code uses (upb itself is not installed here).  Only for analysis: nothing is
 * linked or run. */
#ifndef S2A_VERIF_UPB_MSG_H_
#define S2A_VERIF_UPB_MSG_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "upb/port_def.inc"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct upb_arena upb_arena;
typedef void upb_msg;
typedef struct upb_msglayout { const void *p; } upb_msglayout;
typedef struct { const char *data; size_t size; } upb_strview;
UPB_INLINE upb_strview upb_strview_make(const char *data, size_t size) {
  upb_strview ret;
  ret.data = data;
  ret.size = size;
  return ret;
}
UPB_INLINE upb_strview upb_strview_makez(const char *data) {
  return upb_strview_make(data, strlen(data));
}
UPB_INLINE bool upb_strview_eql(upb_strview a, upb_strview b) {
  return a.size == b.size && memcmp(a.data, b.data, a.size) == 0;
}
upb_arena *upb_arena_new(void);
void upb_arena_free(upb_arena *a);
void *upb_arena_malloc(upb_arena *a, size_t size);
upb_msg *_upb_msg_new(const upb_msglayout *l, upb_arena *a);
UPB_INLINE bool _upb_hasbit(const upb_msg *msg, size_t idx) {
  return (*UPB_PTR_AT(msg, idx / 8, const char) & (1 << (idx % 8))) != 0;
}
UPB_INLINE void _upb_sethas(const upb_msg *msg, size_t idx) {
  (*UPB_PTR_AT(msg, idx / 8, char)) |= (char)(1 << (idx % 8));
}
UPB_INLINE uint32_t _upb_getoneofcase(const void *msg, size_t case_ofs) {
  return *UPB_PTR_AT(msg, case_ofs, uint32_t);
}
UPB_INLINE bool _upb_has_submsg_nohasbit(const upb_msg *msg, size_t ofs) {
  return *UPB_PTR_AT(msg, ofs, const upb_msg *) != NULL;
}
const void *_upb_array_accessor(const void *msg, size_t ofs, size_t *size);
void *_upb_array_mutable_accessor(void *msg, size_t ofs, size_t *size);
void *_upb_array_resize_accessor2(void *msg, size_t ofs, size_t size, int elem_size_lg2, upb_arena *arena);
bool _upb_array_append_accessor2(void *msg, size_t ofs, int elem_size_lg2, const void *value, upb_arena *arena);
size_t _upb_msg_map_size(const upb_msg *msg, size_t ofs);
bool _upb_msg_map_get(const upb_msg *msg, size_t ofs, const void *key, size_t key_size, void *val, size_t val_size);
void *_upb_msg_map_next(const upb_msg *msg, size_t ofs, size_t *iter);
bool _upb_msg_map_set(upb_msg *msg, size_t ofs, const void *key, size_t key_size, void *val, size_t val_size, upb_arena *arena);
bool _upb_msg_map_delete(upb_msg *msg, size_t ofs, const void *key, size_t key_size);
void _upb_msg_map_clear(upb_msg *msg, size_t ofs);
void _upb_msg_map_key(const void *msg, void *key, size_t size);
void _upb_msg_map_value(const void *msg, void *val, size_t size);
void _upb_msg_map_set_value(void *msg, const void *val, size_t size);
bool upb_decode(const char *buf, size_t size, upb_msg *msg, const upb_msglayout *l, upb_arena *arena);
bool _upb_decode(const char *buf, size_t size, upb_msg *msg, const upb_msglayout *l, upb_arena *arena, int options);
char *upb_encode(const void *msg, const upb_msglayout *l, upb_arena *arena, size_t *size);
#ifdef __cplusplus
}
#endif
#endif
