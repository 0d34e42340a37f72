#include <stdlib.h>
#include "upb/shim_core.h"

/* ---- arena: one malloc per allocation, so sanitizers see every object ---- */
struct chunk { struct chunk* next; };
struct upb_arena { struct chunk* head; };
upb_arena* upb_arena_new(void) { return (upb_arena*)calloc(1, sizeof(upb_arena)); }
void upb_arena_free(upb_arena* a) {
  struct chunk* c = a->head;
  while (c) { struct chunk* n = c->next; free(c); c = n; }
  free(a);
}
void* upb_arena_malloc(upb_arena* a, size_t size) {
  struct chunk* c = (struct chunk*)malloc(16 + size);
  if (!c) return NULL;
  c->next = a->head;
  a->head = c;
  return (char*)c + 16;
}
static void* arena_zalloc(upb_arena* a, size_t size) {
  void* p = upb_arena_malloc(a, size);
  if (p && size) memset(p, 0, size);
  return p;
}
upb_msg* _upb_msg_new(const upb_msglayout* l, upb_arena* a) { return arena_zalloc(a, l->size); }

/* ---- arrays ---- */
static upb_array* get_arr(const void* msg, size_t ofs) {
  upb_array* r; memcpy(&r, (const char*)msg + ofs, sizeof r); return r;
}
static void set_ptr(void* msg, size_t ofs, void* p) { memcpy((char*)msg + ofs, &p, sizeof p); }
const void* _upb_array_accessor(const void* msg, size_t ofs, size_t* size) {
  upb_array* arr = get_arr(msg, ofs);
  if (size) *size = arr ? arr->len : 0;
  return arr ? arr->data : NULL;
}
void* _upb_array_mutable_accessor(void* msg, size_t ofs, size_t* size) {
  return (void*)_upb_array_accessor(msg, ofs, size);
}
static bool arr_resize(void* msg, size_t ofs, size_t n, int lg2, upb_arena* a) {
  upb_array* arr = get_arr(msg, ofs);
  if (!arr) {
    arr = (upb_array*)arena_zalloc(a, sizeof *arr);
    if (!arr) return false;
    arr->lg2 = lg2;
    arr->cap = 4;
    arr->data = arena_zalloc(a, arr->cap << lg2);
    set_ptr(msg, ofs, arr);
  }
  if (n > arr->cap) {
    size_t cap = arr->cap;
    while (cap < n) cap *= 2;
    void* d = arena_zalloc(a, cap << arr->lg2);
    if (!d) return false;
    memcpy(d, arr->data, arr->len << arr->lg2);
    arr->data = d;
    arr->cap = cap;
  }
  arr->len = n;
  return true;
}
void* _upb_array_resize_accessor2(void* msg, size_t ofs, size_t size, int lg2, upb_arena* a) {
  if (!arr_resize(msg, ofs, size, lg2, a)) return NULL;
  return get_arr(msg, ofs)->data;
}
bool _upb_array_append_accessor2(void* msg, size_t ofs, int lg2, const void* value, upb_arena* a) {
  upb_array* arr = get_arr(msg, ofs);
  size_t i = arr ? arr->len : 0;
  if (!arr_resize(msg, ofs, i + 1, lg2, a)) return false;
  arr = get_arr(msg, ofs);
  memcpy((char*)arr->data + (i << lg2), value, (size_t)1 << lg2);
  return true;
}

/* ---- string/string maps ---- */
typedef struct { upb_strview key, val; } mapent;
typedef struct { mapent** e; size_t len, cap; } upb_map;
static upb_map* get_map(const void* msg, size_t ofs) {
  upb_map* r; memcpy(&r, (const char*)msg + ofs, sizeof r); return r;
}
size_t _upb_msg_map_size(const upb_msg* msg, size_t ofs) {
  upb_map* m = get_map(msg, ofs);
  return m ? m->len : 0;
}
static mapent* map_find(upb_map* m, upb_strview key, size_t* at) {
  for (size_t i = 0; m && i < m->len; i++)
    if (upb_strview_eql(m->e[i]->key, key)) { if (at) *at = i; return m->e[i]; }
  return NULL;
}
bool _upb_msg_map_get(const upb_msg* msg, size_t ofs, const void* key, size_t ks, void* val, size_t vs) {
  (void)ks; (void)vs;
  upb_strview k; memcpy(&k, key, sizeof k);
  mapent* e = map_find(get_map(msg, ofs), k, NULL);
  if (e && val) memcpy(val, &e->val, sizeof e->val);
  return e != NULL;
}
void* _upb_msg_map_next(const upb_msg* msg, size_t ofs, size_t* iter) {
  upb_map* m = get_map(msg, ofs);
  if (!m || *iter >= m->len) return NULL;
  return m->e[(*iter)++];
}
void _upb_msg_map_clear(upb_msg* msg, size_t ofs) {
  upb_map* m = get_map(msg, ofs);
  if (m) m->len = 0;
}
bool _upb_msg_map_set(upb_msg* msg, size_t ofs, const void* key, size_t ks, void* val, size_t vs, upb_arena* a) {
  (void)ks; (void)vs;
  upb_strview k, v; memcpy(&k, key, sizeof k); memcpy(&v, val, sizeof v);
  upb_map* m = get_map(msg, ofs);
  if (!m) {
    m = (upb_map*)arena_zalloc(a, sizeof *m);
    if (!m) return false;
    set_ptr(msg, ofs, m);
  }
  mapent* e = map_find(m, k, NULL);
  if (!e) {
    if (m->len == m->cap) {
      size_t cap = m->cap ? m->cap * 2 : 4;
      mapent** n = (mapent**)arena_zalloc(a, cap * sizeof *n);
      if (!n) return false;
      if (m->len) memcpy(n, m->e, m->len * sizeof *n);
      m->e = n; m->cap = cap;
    }
    e = (mapent*)arena_zalloc(a, sizeof *e);
    if (!e) return false;
    e->key = k;
    m->e[m->len++] = e;
  }
  e->val = v;
  return true;
}
bool _upb_msg_map_delete(upb_msg* msg, size_t ofs, const void* key, size_t ks) {
  (void)ks;
  upb_strview k; memcpy(&k, key, sizeof k);
  upb_map* m = get_map(msg, ofs);
  size_t at;
  if (!map_find(m, k, &at)) return false;
  m->e[at] = m->e[--m->len];
  return true;
}
void _upb_msg_map_key(const void* msg, void* key, size_t size) { (void)size; memcpy(key, &((const mapent*)msg)->key, sizeof(upb_strview)); }
void _upb_msg_map_value(const void* msg, void* val, size_t size) { (void)size; memcpy(val, &((const mapent*)msg)->val, sizeof(upb_strview)); }
void _upb_msg_map_set_value(void* msg, const void* val, size_t size) { (void)size; memcpy(&((mapent*)msg)->val, val, sizeof(upb_strview)); }

/* ---- wire format ---- */
typedef struct { const unsigned char* p; const unsigned char* end; upb_arena* a; int depth; } dec;
static bool rd_varint(dec* d, uint64_t* v) {
  uint64_t r = 0;
  for (int i = 0; i < 10; i++) {
    if (d->p >= d->end) return false;
    unsigned char b = *d->p++;
    r |= (uint64_t)(b & 0x7f) << (7 * i);
    if (!(b & 0x80)) { *v = r; return true; }
  }
  return false;
}
/* Tags take at most five bytes, lengths too and stay below 2^31. */
static bool rd_tag(dec* d, uint32_t* v) {
  uint64_t x;
  const unsigned char* p = d->p;
  if (!rd_varint(d, &x) || d->p - p > 5) return false;
  *v = (uint32_t)x;
  return (*v >> 3) != 0;
}
static bool rd_size(dec* d, uint64_t* v) {
  const unsigned char* p = d->p;
  return rd_varint(d, v) && d->p - p <= 5 && *v <= (uint64_t)(d->end - d->p);
}
static bool utf8_ok(const unsigned char* p, size_t n) {
  size_t i = 0;
  while (i < n) {
    unsigned char c = p[i];
    if (c < 0x80) { i++; continue; }
    size_t len; uint32_t cp;
    if (c >= 0xc2 && c <= 0xdf) { len = 2; cp = c & 0x1f; }
    else if (c >= 0xe0 && c <= 0xef) { len = 3; cp = c & 0x0f; }
    else if (c >= 0xf0 && c <= 0xf4) { len = 4; cp = c & 0x07; }
    else return false;
    if (n - i < len) return false;
    for (size_t k = 1; k < len; k++) {
      if ((p[i + k] & 0xc0) != 0x80) return false;
      cp = (cp << 6) | (p[i + k] & 0x3f);
    }
    if (len == 3 && (cp < 0x800 || (cp >= 0xd800 && cp <= 0xdfff))) return false;
    if (len == 4 && (cp < 0x10000 || cp > 0x10ffff)) return false;
    i += len;
  }
  return true;
}
static bool skip_unknown(dec* d, uint32_t num, int wt) {
  uint64_t v;
  switch (wt) {
    case 0: return rd_varint(d, &v);
    case 1: if (d->end - d->p < 8) return false; d->p += 8; return true;
    case 2: if (!rd_size(d, &v)) return false; d->p += v; return true;
    case 5: if (d->end - d->p < 4) return false; d->p += 4; return true;
    case 3:
      if (d->depth <= 0) return false;
      d->depth--;
      for (;;) {
        uint32_t t;
        if (!rd_tag(d, &t)) return false;
        if ((t & 7) == 4) { d->depth++; return (t >> 3) == num; }
        if (!skip_unknown(d, t >> 3, (int)(t & 7))) return false;
      }
    default: return false;
  }
}
static bool dec_msg(dec* d, const unsigned char* end, void* msg, const upb_msglayout* l);

static int type_lg2(int t) {
  switch (t) {
    case 8: return 0;
    case 5: case 13: case 14: return 2;
    case 3: case 4: return 3;
    case 9: case 12: return sizeof(void*) == 8 ? 4 : 3;
    case 11: return sizeof(void*) == 8 ? 3 : 2;
    default: return -1;
  }
}
static int type_wt(int t) {
  switch (t) {
    case 3: case 4: case 5: case 8: case 13: case 14: return 0;
    case 9: case 11: case 12: return 2;
    default: return -1;
  }
}
typedef union { uint64_t u64; uint32_t u32; bool b; upb_strview s; void* m; } scalar;

static void conv_varint(int t, uint64_t v, scalar* out) {
  if (t == 8) out->b = v != 0;
  else if (t == 3 || t == 4) out->u64 = v;
  else out->u32 = (uint32_t)v;
}
static bool dec_str(dec* d, int t, upb_strview* out) {
  uint64_t n;
  if (!rd_size(d, &n)) return false;
  if (t == 9 && !utf8_ok(d->p, (size_t)n)) return false;
  char* c = (char*)upb_arena_malloc(d->a, (size_t)n);
  if (!c) return false;
  if (n) memcpy(c, d->p, (size_t)n);
  d->p += n;
  *out = upb_strview_make(c, (size_t)n);
  return true;
}
static bool dec_submsg(dec* d, void* sub, const upb_msglayout* l) {
  uint64_t n;
  if (!rd_size(d, &n)) return false;
  if (d->depth <= 0) return false;
  d->depth--;
  bool ok = dec_msg(d, d->p + n, sub, l);
  d->depth++;
  return ok;
}
static void mark_present(void* msg, const upb_msglayout_field* f) {
  if (f->presence > 0) _upb_sethas(msg, (size_t)f->presence);
  else if (f->presence < 0) {
    uint32_t num = f->number;
    memcpy((char*)msg + ~f->presence, &num, 4);
  }
}
static bool dec_field(dec* d, void* msg, const upb_msglayout* l, const upb_msglayout_field* f, int wt) {
  int t = f->descriptortype;
  int lg2 = type_lg2(t);
  scalar v;
  memset(&v, 0, sizeof v);
  if (f->label == _UPB_LABEL_MAP) {
    const upb_msglayout* sub = l->submsgs[f->submsg_index];
    char* ent = (char*)_upb_msg_new(sub, d->a);
    if (!ent || !dec_submsg(d, ent, sub)) return false;
    upb_strview k, val;
    memcpy(&k, ent + sub->fields[0].offset, sizeof k);
    memcpy(&val, ent + sub->fields[1].offset, sizeof val);
    return _upb_msg_map_set(msg, f->offset, &k, 0, &val, 0, d->a);
  }
  if (f->label == 3 || f->label == _UPB_LABEL_PACKED) {
    if (type_wt(t) == 0 && wt == 2) { /* packed */
      uint64_t n;
      if (!rd_size(d, &n)) return false;
      const unsigned char* old = d->end;
      d->end = d->p + n;
      while (d->p < d->end) {
        uint64_t x;
        if (!rd_varint(d, &x)) return false;
        conv_varint(t, x, &v);
        if (!_upb_array_append_accessor2(msg, f->offset, lg2, &v, d->a)) return false;
      }
      d->end = old;
      return true;
    }
    if (t == 11) {
      const upb_msglayout* sub = l->submsgs[f->submsg_index];
      v.m = _upb_msg_new(sub, d->a);
      if (!v.m || !dec_submsg(d, v.m, sub)) return false;
    } else if (t == 9 || t == 12) {
      if (!dec_str(d, t, &v.s)) return false;
    } else {
      uint64_t x;
      if (!rd_varint(d, &x)) return false;
      conv_varint(t, x, &v);
    }
    return _upb_array_append_accessor2(msg, f->offset, lg2, &v, d->a);
  }
  char* mem = (char*)msg + f->offset;
  if (t == 11) {
    const upb_msglayout* sub = l->submsgs[f->submsg_index];
    void* p = NULL;
    bool have = f->presence >= 0 || _upb_getoneofcase(msg, (size_t)~f->presence) == f->number;
    if (have) memcpy(&p, mem, sizeof p);
    if (!p) {
      p = _upb_msg_new(sub, d->a);
      if (!p) return false;
      memcpy(mem, &p, sizeof p);
    }
    mark_present(msg, f);
    return dec_submsg(d, p, sub);
  }
  if (t == 9 || t == 12) {
    if (!dec_str(d, t, &v.s)) return false;
    memcpy(mem, &v.s, sizeof v.s);
  } else {
    uint64_t x;
    if (!rd_varint(d, &x)) return false;
    conv_varint(t, x, &v);
    memcpy(mem, &v, (size_t)1 << lg2);
  }
  mark_present(msg, f);
  return true;
}
static bool dec_msg(dec* d, const unsigned char* end, void* msg, const upb_msglayout* l) {
  const unsigned char* old = d->end;
  d->end = end;
  while (d->p < d->end) {
    uint32_t tag;
    if (!rd_tag(d, &tag)) return false;
    uint32_t num = tag >> 3;
    int wt = (int)(tag & 7);
    const upb_msglayout_field* f = NULL;
    for (int i = 0; i < l->field_count; i++)
      if (l->fields[i].number == num) f = &l->fields[i];
    bool known = f && (wt == type_wt(f->descriptortype) ||
                       (wt == 2 && type_wt(f->descriptortype) == 0 &&
                        (f->label == 3 || f->label == _UPB_LABEL_PACKED)));
    if (!(known ? dec_field(d, msg, l, f, wt) : skip_unknown(d, num, wt))) return false;
  }
  d->end = old;
  return true;
}
bool _upb_decode(const char* buf, size_t size, void* msg, const upb_msglayout* l, upb_arena* a, int options) {
  (void)options;
  dec d = {(const unsigned char*)buf, (const unsigned char*)buf + size, a, 100};
  if (size == 0) return true;
  return dec_msg(&d, d.end, msg, l);
}
bool upb_decode(const char* buf, size_t size, void* msg, const upb_msglayout* l, upb_arena* a) {
  return _upb_decode(buf, size, msg, l, a, 0);
}

typedef struct { unsigned char* p; size_t len, cap; } out;
static void wr(out* o, const void* p, size_t n) {
  if (o->len + n > o->cap) {
    size_t cap = o->cap ? o->cap : 64;
    while (cap < o->len + n) cap *= 2;
    o->p = (unsigned char*)realloc(o->p, cap);
    if (!o->p) abort();
    o->cap = cap;
  }
  if (n) memcpy(o->p + o->len, p, n);
  o->len += n;
}
static void wr_varint(out* o, uint64_t v) {
  unsigned char b[10]; int n = 0;
  do { b[n] = v & 0x7f; v >>= 7; if (v) b[n] |= 0x80; n++; } while (v);
  wr(o, b, (size_t)n);
}
static bool enc_msg(out* o, const void* msg, const upb_msglayout* l, int depth);
static uint64_t load_varint(const void* mem, int t) {
  if (t == 8) { unsigned char b; memcpy(&b, mem, 1); return b != 0; }
  if (t == 3 || t == 4) { uint64_t v; memcpy(&v, mem, 8); return v; }
  if (t == 13) { uint32_t v; memcpy(&v, mem, 4); return v; }
  int32_t v; memcpy(&v, mem, 4); return (uint64_t)(int64_t)v;
}
static bool enc_value(out* o, const void* mem, const upb_msglayout* l, const upb_msglayout_field* f, int depth) {
  int t = f->descriptortype;
  if (type_wt(t) < 0) return false;
  if (t == 11) {
    void* p; memcpy(&p, mem, sizeof p);
    if (!p) return true;
    out sub = {0, 0, 0};
    bool ok = enc_msg(&sub, p, l->submsgs[f->submsg_index], depth - 1);
    wr_varint(o, ((uint64_t)f->number << 3) | 2);
    wr_varint(o, sub.len);
    wr(o, sub.p, sub.len);
    free(sub.p);
    return ok;
  }
  wr_varint(o, ((uint64_t)f->number << 3) | (uint64_t)type_wt(t));
  if (t == 9 || t == 12) {
    upb_strview s; memcpy(&s, mem, sizeof s);
    wr_varint(o, s.size);
    wr(o, s.data, s.size);
  } else {
    wr_varint(o, load_varint(mem, t));
  }
  return true;
}
static bool enc_msg(out* o, const void* msg, const upb_msglayout* l, int depth) {
  if (depth <= 0) return false;
  for (int i = 0; i < l->field_count; i++) {
    const upb_msglayout_field* f = &l->fields[i];
    const char* mem = (const char*)msg + f->offset;
    int t = f->descriptortype;
    if (f->label == _UPB_LABEL_MAP) {
      upb_map* m = get_map(msg, f->offset);
      const upb_msglayout* sub = l->submsgs[f->submsg_index];
      for (size_t k = 0; m && k < m->len; k++) {
        out e = {0, 0, 0};
        wr_varint(&e, ((uint64_t)sub->fields[0].number << 3) | 2);
        wr_varint(&e, m->e[k]->key.size);
        wr(&e, m->e[k]->key.data, m->e[k]->key.size);
        wr_varint(&e, ((uint64_t)sub->fields[1].number << 3) | 2);
        wr_varint(&e, m->e[k]->val.size);
        wr(&e, m->e[k]->val.data, m->e[k]->val.size);
        wr_varint(o, ((uint64_t)f->number << 3) | 2);
        wr_varint(o, e.len);
        wr(o, e.p, e.len);
        free(e.p);
      }
      continue;
    }
    if (f->label == 3 || f->label == _UPB_LABEL_PACKED) {
      upb_array* arr = get_arr(msg, f->offset);
      int lg2 = type_lg2(t);
      if (!arr || arr->len == 0) continue;
      if (lg2 < 0) return false;
      if (f->label == _UPB_LABEL_PACKED) {
        out e = {0, 0, 0};
        for (size_t k = 0; k < arr->len; k++)
          wr_varint(&e, load_varint((char*)arr->data + (k << lg2), t));
        wr_varint(o, ((uint64_t)f->number << 3) | 2);
        wr_varint(o, e.len);
        wr(o, e.p, e.len);
        free(e.p);
      } else {
        for (size_t k = 0; k < arr->len; k++)
          if (!enc_value(o, (char*)arr->data + (k << lg2), l, f, depth)) return false;
      }
      continue;
    }
    if (f->presence > 0) {
      if (!_upb_hasbit(msg, (size_t)f->presence)) continue;
    } else if (f->presence < 0) {
      if (_upb_getoneofcase(msg, (size_t)~f->presence) != f->number) continue;
    } else { /* proto3 implicit presence */
      if (t == 9 || t == 12) {
        upb_strview s; memcpy(&s, mem, sizeof s);
        if (s.size == 0) continue;
      } else if (t == 11) {
        void* p; memcpy(&p, mem, sizeof p);
        if (!p) continue;
      } else if (load_varint(mem, t) == 0) {
        continue;
      }
    }
    if (!enc_value(o, mem, l, f, depth)) return false;
  }
  return true;
}
char* upb_encode_ex(const void* msg, const upb_msglayout* l, int options, upb_arena* a, size_t* size) {
  (void)options;
  out o = {0, 0, 0};
  bool ok = enc_msg(&o, msg, l, 64);
  char* r = NULL;
  if (ok) {
    r = (char*)upb_arena_malloc(a, o.len);
    if (r && o.len) memcpy(r, o.p, o.len);
    *size = o.len;
  } else {
    *size = 0;
  }
  free(o.p);
  return r;
}
char* upb_encode(const void* msg, const upb_msglayout* l, upb_arena* a, size_t* size) {
  return upb_encode_ex(msg, l, 0, a, size);
}
