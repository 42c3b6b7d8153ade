/* C view of the interface of the code under test (layouts checked against /repo's headers in shim.cpp). */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { uint64_t value; uint32_t format, var_name_index, type_name_index, size; uint64_t buffer_size; uint8_t has_buffer_size; } api_var;
typedef struct { uint64_t statement; api_var* vars; uint32_t n_vars; uint64_t* aux; uint32_t n_aux; } api_point;
typedef struct api_pred { uint32_t kind; uint64_t n_children, var_index, unsigned_value; int64_t signed_value; double float_value; struct api_pred* children; } api_pred;
typedef struct { uint32_t n_allowed_types; uint32_t* allowed_types; } api_freevar;

void* api_read_trace(const char* f, uint32_t timeout, uint64_t max);
uint64_t api_trace_size(const void* t);
api_point* api_get_points(const void* t);
uint32_t api_n_types(const void* t);
const char** api_get_types(const void* t);
uint32_t api_n_names(const void* t);
const char** api_get_names(const void* t);
void api_free_trace(void* t);
void api_free_points(api_point* p, uint64_t n);
void* api_create_db(void);
int api_add_trace(void* db, const char* f, uint32_t timeout, uint64_t max);
int api_add_points(void* db, api_point* p, uint64_t n, char** names, uint32_t n_names);
const void* api_get_trace(const void* db, uint32_t i);
uint32_t api_n_traces(const void* db);
char* api_serialize(const void* db);
void* api_deserialize(const char* s);
void api_free_db(void* db);
void api_free_pred(api_pred* p);
void api_query(const void* db, uint64_t index, const api_freevar* v, uint32_t nv, const api_pred* hard, const api_pred** soft, uint32_t nsoft,
               uint32_t seed, uint8_t keep_dup, uint64_t mask, uint64_t stmt, api_point** out, uint64_t* nout);
void api_free(void* p);
void shim_query(const void* db, uint64_t index, const api_freevar* v, uint32_t nv, const api_pred* hard, const api_pred** soft, uint32_t nsoft,
                uint32_t seed, uint64_t mask, uint64_t stmt, api_point** out, uint64_t* nout);   /* TraceDB::query */

typedef struct {
    void (*name)(void* c, const char* s, size_t n);
    void (*type)(void* c, uint32_t name, uint32_t fmt, uint32_t size);
    void (*point)(void* c, uint64_t stmt, uint64_t number);
    void (*size)(void* c, uint64_t addr, uint64_t size);
    void (*var)(void* c, uint64_t value, uint32_t name, uint32_t type, uint32_t fmt, uint32_t size, uint64_t bs, int has);
    void (*aux)(void* c, uint64_t v);
} shim_cb;
void shim_dump(const void* trace, const shim_cb* cb, void* ctx);
int shim_trace_eq(const void* a, const void* b);
uint64_t shim_trace_hash(const void* a);
int shim_db_eq(const void* a, const void* b);
uint64_t shim_db_hash(const void* a);
void* shim_db_copy(const void* a);
void* shim_trace_copy(const void* a);
int shim_cmp(const void* ta, const void* tb, int what, uint32_t i, uint32_t x, uint32_t j, uint32_t y);   /* bit 0: less, bit 1: equal */
int shim_write(const void* trace, long (*sink)(void* c, const char* p, long n), void* ctx);   /* 0: stream good */
#ifdef __cplusplus
}
#endif
