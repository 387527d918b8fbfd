// JSON documents: an arbitrary model tree is handed to the code under test as the document the JSON parser delivers (symbolic run: json-c replaced
// by the functions below), or as real JSON text parsed by the real json-c (native run).
#pragma once
#include "common.h"
#include <json.h>
struct JDoc { const M* root = nullptr; Str text; bool ok = true; int err = 0; bool bareNumber = false; };
static std::vector<JDoc>& jdocs() { static std::vector<JDoc>* v = new std::vector<JDoc>(); return *v; }
static void jquote(Str& o, const Str& s) { o += '"'; for (unsigned char c : s) { if (c < 32 || c == '"' || c == '\\') { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } o += '"'; }
static void jtext(Str& o, const M& m) {
  switch (m.k) { case KEmpty: o += "null"; break; case KBool: o += m.b ? "true" : "false"; break; case KInt: o += std::to_string(m.i); break; case KStr: jquote(o, m.s); break;
    case KDbl: { char b[40]; snprintf(b, 40, "%.17g", m.d); if (!strpbrk(b, ".en")) strcat(b, ".0"); o += b; break; }
    case KList: o += "["; for (size_t i = 0; i < m.items.size(); i++) { if (i) o += ", "; jtext(o, m.items[i]); } o += "]"; break;
    case KDict: o += "{"; for (size_t i = m.items.size(); i-- > 0;) { jquote(o, m.keys[i]); o += ": "; jtext(o, m.items[i]); if (i) o += ","; } o += "}"; break; } }
// registers a document and returns its text; m must outlive its use
inline Str jsonDoc(const M& m) { JDoc d; d.root = &m; d.bareNumber = m.k == KInt || m.k == KDbl; if (lps_symbolic()) d.text = "document " + std::to_string(jdocs().size()); else jtext(d.text, m); jdocs().push_back(d); return d.text; }
static const char* const badTexts[] = {"", "{", "[1,", "{\"a\":", "nul", "@", "\"abc", "[1 2]", "{1:2}", "}"};
inline Str badJson() { unsigned i = lps_choose("bad", 10); JDoc d; d.ok = false; d.text = badTexts[i]; d.err = (i == 0 || i == 1 || i == 2 || i == 3 || i == 6) ? json_tokener_continue : json_tokener_error_parse_unexpected; jdocs().push_back(d); return d.text; }
#ifdef LPS_SYM
struct json_object { const M* m; int refs; char* str; std::vector<json_object*> kids; lh_table* tab; };
static json_object* jmake(const M& m) {
  if (m.k == KEmpty) return nullptr;
  json_object* o = new json_object; o->m = &m; o->refs = 1; o->tab = nullptr; o->str = nullptr; if (m.k == KStr) { o->str = (char*)malloc(m.s.size() + 1); memcpy(o->str, m.s.c_str(), m.s.size() + 1); } for (auto& c : m.items) o->kids.push_back(jmake(c));
  if (m.k == KDict) { auto* t = (lh_table*)calloc(1, sizeof(lh_table)); t->count = m.items.size(); o->tab = t;   // entries in the order in which they appear in the document: last key first
    for (size_t i = m.items.size(); i-- > 0;) { auto* e = (lh_entry*)calloc(1, sizeof(lh_entry)); char* k = (char*)malloc(m.keys[i].size() + 1); memcpy(k, m.keys[i].c_str(), m.keys[i].size() + 1); e->k = k; e->v = o->kids[i]; e->prev = t->tail; if (t->tail) t->tail->next = e; else t->head = e; t->tail = e; } }
  return o; }
extern "C" {
struct json_tokener* json_tokener_new_ex(int) { return (json_tokener*)calloc(1, sizeof(json_tokener)); }
struct json_tokener* json_tokener_new(void) { return json_tokener_new_ex(32); }
void json_tokener_free(struct json_tokener* t) { free(t); }
void json_tokener_reset(struct json_tokener* t) { t->err = json_tokener_success; t->char_offset = 0; }
void json_tokener_set_flags(struct json_tokener*, int) {}
enum json_tokener_error json_tokener_get_error(struct json_tokener* t) { return t->err; }
size_t json_tokener_get_parse_end(struct json_tokener* t) { return t->char_offset; }
const char* json_tokener_error_desc(enum json_tokener_error) { return "error"; }
struct json_object* json_tokener_parse_ex(struct json_tokener* t, const char* str, int len) {
  for (auto& d : jdocs()) {
    size_t n = d.text.size(); bool all = len < 0; if (all) len = strlen(str) + 1; bool hit = n <= (size_t)len || n == 0;
    if (hit) for (size_t i = 0; i < n; i++) if (str[i] != d.text[i]) { hit = false; break; }
    if (!hit || ((size_t)len > n && str[n] != 0)) { if (all) len = -1; continue; }
    bool terminated = (size_t)len > n; t->char_offset = n;
    if (!d.ok) { t->err = d.err == json_tokener_continue && terminated ? json_tokener_error_parse_eof : (enum json_tokener_error)d.err; return nullptr; }
    if (d.bareNumber && !terminated) { t->err = json_tokener_continue; return nullptr; }   // more digits might follow
    t->err = json_tokener_success; return jmake(*d.root); }
  t->err = json_tokener_error_parse_unexpected; return nullptr; }
struct json_object* json_tokener_parse(const char* s) { json_tokener t; memset(&t, 0, sizeof t); return json_tokener_parse_ex(&t, s, -1); }
struct json_object* json_tokener_parse_verbose(const char* s, enum json_tokener_error* e) { json_tokener t; memset(&t, 0, sizeof t); auto* o = json_tokener_parse_ex(&t, s, -1); *e = t.err; return o; }
enum json_type json_object_get_type(const struct json_object* o) { if (!o) return json_type_null; switch (o->m->k) { case KBool: return json_type_boolean; case KDbl: return json_type_double; case KInt: return json_type_int; case KStr: return json_type_string; case KList: return json_type_array; case KDict: return json_type_object; default: return json_type_null; } }
int json_object_is_type(const struct json_object* o, enum json_type t) { return json_object_get_type(o) == t; }
json_bool json_object_get_boolean(const struct json_object* o) { if (!o) return 0; switch (o->m->k) { case KBool: return o->m->b; case KInt: return o->m->i != 0; case KDbl: return o->m->d != 0; case KStr: return !o->m->s.empty(); default: return 0; } }
int64_t json_object_get_int64(const struct json_object* o) { if (!o) return 0; switch (o->m->k) { case KBool: return o->m->b; case KInt: return o->m->i; case KDbl: return (int64_t)o->m->d; default: return 0; } }
int32_t json_object_get_int(const struct json_object* o) { return (int32_t)json_object_get_int64(o); }
double json_object_get_double(const struct json_object* o) { if (!o) return 0; switch (o->m->k) { case KBool: return o->m->b; case KInt: return o->m->i; case KDbl: return o->m->d; default: return 0; } }
const char* json_object_get_string(struct json_object* o) { if (!o) return nullptr; return o->str ? o->str : "?"; }
int json_object_get_string_len(const struct json_object* o) { return o && o->m->k == KStr ? (int)o->m->s.size() : 0; }
size_t json_object_array_length(const struct json_object* o) { return o->kids.size(); }
struct json_object* json_object_array_get_idx(const struct json_object* o, size_t i) { return i < o->kids.size() ? o->kids[i] : nullptr; }
struct lh_table* json_object_get_object(const struct json_object* o) { return o ? o->tab : nullptr; }
int json_object_object_length(const struct json_object* o) { return (int)o->kids.size(); }
json_bool json_object_object_get_ex(const struct json_object* o, const char* key, struct json_object** v) { if (o && o->m->k == KDict) for (size_t i = 0; i < o->kids.size(); i++) if (o->m->keys[i] == key) { if (v) *v = o->kids[i]; return 1; } if (v) *v = nullptr; return 0; }
struct json_object* json_object_object_get(const struct json_object* o, const char* key) { struct json_object* v; json_object_object_get_ex(o, key, &v); return v; }
struct json_object* json_object_get(struct json_object* o) { if (o) o->refs++; return o; }
int json_object_put(struct json_object* o) { if (!o) return 0; lps_assert(o->refs > 0, "a JSON document is released too often"); if (--o->refs > 0) return 0; for (auto k : o->kids) json_object_put(k); if (o->tab) { for (auto e = o->tab->head; e;) { auto n = e->next; free((void*)e->k); free(e); e = n; } free(o->tab); } free(o->str); delete o; return 1; }
struct json_object_iterator json_object_iter_init_default(void) { struct json_object_iterator i; i.opaque_ = nullptr; return i; }
struct json_object_iterator json_object_iter_begin(struct json_object* o) { struct json_object_iterator i; i.opaque_ = o->tab->head; return i; }
struct json_object_iterator json_object_iter_end(const struct json_object*) { struct json_object_iterator i; i.opaque_ = nullptr; return i; }
void json_object_iter_next(struct json_object_iterator* i) { i->opaque_ = ((lh_entry*)i->opaque_)->next; }
const char* json_object_iter_peek_name(const struct json_object_iterator* i) { return (const char*)((lh_entry*)i->opaque_)->k; }
struct json_object* json_object_iter_peek_value(const struct json_object_iterator* i) { return (struct json_object*)((lh_entry*)i->opaque_)->v; }
json_bool json_object_iter_equal(const struct json_object_iterator* a, const struct json_object_iterator* b) { return a->opaque_ == b->opaque_; }
}
#endif
