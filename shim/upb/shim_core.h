/* A small, independent re-implementation of the upb C runtime API that the
 * generated code in /repo/src/proto/upb-generated uses (upb itself is not
 * available offline).  It interprets the generated field tables, so wrong
 * tables or accessors show up as wrong bytes or as sanitizer errors. */
#ifndef VERIF_UPB_SHIM_CORE_H_
#define VERIF_UPB_SHIM_CORE_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef struct { const char* data; size_t size; } upb_strview;
static inline upb_strview upb_strview_make(const char* data, size_t size) {
  upb_strview r; r.data = data; r.size = size; return r;
}
static inline upb_strview upb_strview_makez(const char* data) {
  return upb_strview_make(data, strlen(data));
}
static inline bool upb_strview_eql(upb_strview a, upb_strview b) {
  return a.size == b.size && (a.size == 0 || memcmp(a.data, b.data, a.size) == 0);
}

typedef struct upb_arena upb_arena;
upb_arena* upb_arena_new(void);
void upb_arena_free(upb_arena* a);
void* upb_arena_malloc(upb_arena* a, size_t size);

typedef void upb_msg;
typedef struct {
  uint32_t number;
  uint16_t offset;
  int16_t presence;      /* >0: hasbit index; <0: ~offset of the oneof case. */
  uint16_t submsg_index;
  uint8_t descriptortype;
  uint8_t label;
} upb_msglayout_field;
enum { _UPB_LABEL_MAP = 4, _UPB_LABEL_PACKED = 7 };

typedef struct upb_msglayout {
  const struct upb_msglayout* const* submsgs;
  const upb_msglayout_field* fields;
  uint16_t size;
  uint16_t field_count;
  bool extendable;
  uint8_t table_mask;
} upb_msglayout;

upb_msg* _upb_msg_new(const upb_msglayout* l, upb_arena* a);
bool upb_decode(const char* buf, size_t size, void* msg, const upb_msglayout* l, upb_arena* a);
bool _upb_decode(const char* buf, size_t size, void* msg, const upb_msglayout* l, upb_arena* a, int options);
char* upb_encode(const void* msg, const upb_msglayout* l, upb_arena* a, size_t* size);
char* upb_encode_ex(const void* msg, const upb_msglayout* l, int options, upb_arena* a, size_t* size);

static inline bool _upb_hasbit(const upb_msg* msg, size_t idx) {
  return (((const unsigned char*)msg)[idx / 8] & (1u << (idx % 8))) != 0;
}
static inline void _upb_sethas(upb_msg* msg, size_t idx) {
  ((unsigned char*)msg)[idx / 8] |= (unsigned char)(1u << (idx % 8));
}
static inline void _upb_clearhas(upb_msg* msg, size_t idx) {
  ((unsigned char*)msg)[idx / 8] &= (unsigned char)~(1u << (idx % 8));
}
static inline uint32_t _upb_getoneofcase(const upb_msg* msg, size_t ofs) {
  uint32_t r; memcpy(&r, (const char*)msg + ofs, sizeof r); return r;
}
static inline bool _upb_has_submsg_nohasbit(const upb_msg* msg, size_t ofs) {
  void* p; memcpy(&p, (const char*)msg + ofs, sizeof p); return p != NULL;
}

/* Repeated fields: a pointer to this in the message. */
typedef struct { void* data; size_t len; size_t cap; int lg2; } upb_array;
const void* _upb_array_accessor(const void* msg, size_t ofs, size_t* size);
void* _upb_array_mutable_accessor(void* msg, size_t ofs, size_t* size);
void* _upb_array_resize_accessor2(void* msg, size_t ofs, size_t size, int lg2, upb_arena* a);
bool _upb_array_append_accessor2(void* msg, size_t ofs, int lg2, const void* value, upb_arena* a);

/* string -> string maps only (the only kind in this schema; size 0 = string). */
size_t _upb_msg_map_size(const upb_msg* msg, size_t ofs);
bool _upb_msg_map_get(const upb_msg* msg, size_t ofs, const void* key, size_t ks, void* val, size_t vs);
void* _upb_msg_map_next(const upb_msg* msg, size_t ofs, size_t* iter);
void _upb_msg_map_clear(upb_msg* msg, size_t ofs);
bool _upb_msg_map_set(upb_msg* msg, size_t ofs, const void* key, size_t ks, void* val, size_t vs, upb_arena* a);
bool _upb_msg_map_delete(upb_msg* msg, size_t ofs, const void* key, size_t ks);
void _upb_msg_map_key(const void* msg, void* key, size_t size);
void _upb_msg_map_value(const void* msg, void* val, size_t size);
void _upb_msg_map_set_value(void* msg, const void* val, size_t size);

#ifdef __cplusplus
} /* extern "C" */
#endif
#endif
