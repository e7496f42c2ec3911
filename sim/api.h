// The library's public functions, looked up in the loaded shared object.
#pragma once
#include "core.h"
#include "lib/mpi.h"
#include <stdarg.h>

struct kvtree_struct; struct kvtree_elem_struct;
typedef struct kvtree_struct kvtree;
typedef struct kvtree_elem_struct kvtree_elem;

#define API_LIST(X) \
 X(kvtree*, kvtree_new, (void)) \
 X(int, kvtree_delete, (kvtree**)) \
 X(int, kvtree_size, (const kvtree*)) \
 X(kvtree*, kvtree_get, (const kvtree*, const char*)) \
 X(kvtree*, kvtree_set, (kvtree*, const char*, kvtree*)) \
 X(kvtree*, kvtree_extract, (kvtree*, const char*)) \
 X(int, kvtree_unset, (kvtree*, const char*)) \
 X(int, kvtree_unset_all, (kvtree*)) \
 X(int, kvtree_merge, (kvtree*, const kvtree*)) \
 X(kvtree*, kvtree_setf, (kvtree*, kvtree*, const char*, ...)) \
 X(kvtree*, kvtree_getf, (const kvtree*, const char*, ...)) \
 X(int, kvtree_sort, (kvtree*, int)) \
 X(int, kvtree_sort_int, (kvtree*, int)) \
 X(int, kvtree_list_int, (const kvtree*, int*, int**)) \
 X(kvtree*, kvtree_set_kv, (kvtree*, const char*, const char*)) \
 X(kvtree*, kvtree_set_kv_int, (kvtree*, const char*, int)) \
 X(kvtree*, kvtree_get_kv, (const kvtree*, const char*, const char*)) \
 X(kvtree*, kvtree_get_kv_int, (const kvtree*, const char*, int)) \
 X(int, kvtree_unset_kv, (kvtree*, const char*, const char*)) \
 X(int, kvtree_unset_kv_int, (kvtree*, const char*, int)) \
 X(kvtree_elem*, kvtree_elem_first, (const kvtree*)) \
 X(kvtree_elem*, kvtree_elem_next, (const kvtree_elem*)) \
 X(char*, kvtree_elem_key, (const kvtree_elem*)) \
 X(int, kvtree_elem_key_int, (const kvtree_elem*)) \
 X(kvtree*, kvtree_elem_hash, (const kvtree_elem*)) \
 X(char*, kvtree_elem_get_first_val, (const kvtree*, const char*)) \
 X(kvtree_elem*, kvtree_elem_get, (const kvtree*, const char*)) \
 X(kvtree_elem*, kvtree_elem_extract, (kvtree*, const char*)) \
 X(kvtree_elem*, kvtree_elem_extract_int, (kvtree*, int)) \
 X(kvtree_elem*, kvtree_elem_extract_by_addr, (kvtree*, kvtree_elem*)) \
 X(char*, kvtree_get_val, (const kvtree*, const char*)) \
 X(size_t, kvtree_pack_size, (const kvtree*)) \
 X(size_t, kvtree_pack, (char*, const kvtree*)) \
 X(size_t, kvtree_unpack, (const char*, kvtree*)) \
 X(int, kvtree_write_persist, (void**, size_t*, const kvtree*)) \
 X(ssize_t, kvtree_write_fd, (const char*, int, const kvtree*)) \
 X(ssize_t, kvtree_read_fd, (const char*, int, kvtree*)) \
 X(int, kvtree_write_file, (const char*, const kvtree*)) \
 X(int, kvtree_read_file, (const char*, kvtree*)) \
 X(int, kvtree_read_with_lock, (const char*, kvtree*)) \
 X(int, kvtree_write_with_lock, (const char*, kvtree*)) \
 X(int, kvtree_lock_open_read, (const char*, int*, kvtree*)) \
 X(int, kvtree_write_close_unlock, (const char*, int*, const kvtree*)) \
 X(int, kvtree_write_to_gather, (const char*, kvtree*, int)) \
 X(int, kvtree_read_scatter_single, (const char*, kvtree*)) \
 X(int, kvtree_print, (const kvtree*, int)) \
 X(int, kvtree_print_mode, (const kvtree*, int, int)) \
 X(int, kvtree_log, (const kvtree*, int, int)) \
 X(int, kvtree_util_set_bytecount, (kvtree*, const char*, unsigned long)) \
 X(int, kvtree_util_set_crc32, (kvtree*, const char*, unsigned long)) \
 X(int, kvtree_util_set_int, (kvtree*, const char*, int)) \
 X(int, kvtree_util_set_unsigned_long, (kvtree*, const char*, unsigned long)) \
 X(int, kvtree_util_set_str, (kvtree*, const char*, const char*)) \
 X(int, kvtree_util_set_int64, (kvtree*, const char*, int64_t)) \
 X(int, kvtree_util_set_double, (kvtree*, const char*, double)) \
 X(int, kvtree_util_set_ptr, (kvtree*, const char*, void*)) \
 X(int, kvtree_util_get_bytecount, (const kvtree*, const char*, unsigned long*)) \
 X(int, kvtree_util_get_crc32, (const kvtree*, const char*, unsigned long*)) \
 X(int, kvtree_util_get_int, (const kvtree*, const char*, int*)) \
 X(int, kvtree_util_get_unsigned_long, (const kvtree*, const char*, unsigned long*)) \
 X(int, kvtree_util_get_str, (const kvtree*, const char*, char**)) \
 X(int, kvtree_util_get_int64, (const kvtree*, const char*, int64_t*)) \
 X(int, kvtree_util_get_double, (const kvtree*, const char*, double*)) \
 X(int, kvtree_util_get_ptr, (const kvtree*, const char*, void**)) \
 X(int, kvtree_send, (const kvtree*, int, MPI_Comm)) \
 X(int, kvtree_recv, (kvtree*, int, MPI_Comm)) \
 X(int, kvtree_sendrecv, (const kvtree*, int, kvtree*, int, MPI_Comm)) \
 X(int, kvtree_bcast, (kvtree*, int, MPI_Comm)) \
 X(int, kvtree_exchange_sendq, (kvtree*, int, const kvtree*)) \
 X(int, kvtree_exchange, (const kvtree*, kvtree*, MPI_Comm)) \
 X(int, kvtree_exchange_direction, (const kvtree*, kvtree*, MPI_Comm, int)) \
 X(int, kvtree_write_gather, (const char*, kvtree*, MPI_Comm)) \
 X(int, kvtree_read_scatter, (const char*, kvtree*, MPI_Comm)) \
 X(int, kvtree_print_main, (int, char**))

struct Api {
#define X(r, n, a) r (*n) a = nullptr;
  API_LIST(X)
#undef X
};
extern Api L;                      // the variant in use
void api_load(int v, void* h);
void api_use(int v);
// call a library function from a fiber
#define CALL(fn, ...) ([&]() { LibCall lc_(#fn); return L.fn(__VA_ARGS__); }())
// same, with a descriptive operation name kept for the trace
