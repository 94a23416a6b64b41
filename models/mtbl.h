/*
 * Stand-in for libmtbl (not installed here): prototypes of what dnstable uses.
 * Definitions are in mtbl_model.h.
 */
#ifndef MTBL_MODEL_H
#define MTBL_MODEL_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

typedef enum { mtbl_res_failure = 0, mtbl_res_success = 1 } mtbl_res;
struct mtbl_iter; struct mtbl_source; struct mtbl_reader; struct mtbl_merger;
struct mtbl_merger_options; struct mtbl_fileset; struct mtbl_fileset_options;

typedef void (*mtbl_merge_func)(void *clos, const uint8_t *key, size_t len_key,
	const uint8_t *val0, size_t len_val0, const uint8_t *val1, size_t len_val1,
	uint8_t **merged_val, size_t *len_merged_val);
typedef int (*mtbl_dupsort_func)(void *clos, const uint8_t *key, size_t len_key,
	const uint8_t *val0, size_t len_val0, const uint8_t *val1, size_t len_val1);
typedef bool (*mtbl_reader_filter_func)(struct mtbl_reader *, void *clos);

typedef mtbl_res (*mtbl_iter_seek_func)(void *, const uint8_t *key, size_t len_key);
typedef mtbl_res (*mtbl_iter_next_func)(void *, const uint8_t **key, size_t *len_key, const uint8_t **val, size_t *len_val);
typedef void (*mtbl_iter_free_func)(void *);
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func, mtbl_iter_next_func, mtbl_iter_free_func, void *clos);
void mtbl_iter_destroy(struct mtbl_iter **);
mtbl_res mtbl_iter_seek(struct mtbl_iter *, const uint8_t *key, size_t len_key);
mtbl_res mtbl_iter_next(struct mtbl_iter *, const uint8_t **key, size_t *len_key, const uint8_t **val, size_t *len_val);

typedef struct mtbl_iter *(*mtbl_source_iter_func)(void *);
typedef struct mtbl_iter *(*mtbl_source_get_func)(void *, const uint8_t *key, size_t len_key);
typedef struct mtbl_iter *(*mtbl_source_get_prefix_func)(void *, const uint8_t *key, size_t len_key);
typedef struct mtbl_iter *(*mtbl_source_get_range_func)(void *, const uint8_t *key0, size_t len_key0, const uint8_t *key1, size_t len_key1);
typedef void (*mtbl_source_free_func)(void *);
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func, mtbl_source_get_func, mtbl_source_get_prefix_func, mtbl_source_get_range_func, mtbl_source_free_func, void *clos);
void mtbl_source_destroy(struct mtbl_source **);
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *);
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *, const uint8_t *key, size_t len_key);
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *, const uint8_t *key, size_t len_key);
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *, const uint8_t *key0, size_t len_key0, const uint8_t *key1, size_t len_key1);

struct mtbl_reader *mtbl_reader_init(const char *fname, const void *options);
void mtbl_reader_destroy(struct mtbl_reader **);
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *);

struct mtbl_merger_options *mtbl_merger_options_init(void);
void mtbl_merger_options_destroy(struct mtbl_merger_options **);
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *, mtbl_merge_func, void *clos);
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *);
void mtbl_merger_destroy(struct mtbl_merger **);
void mtbl_merger_add_source(struct mtbl_merger *, const struct mtbl_source *);
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *);

struct mtbl_fileset_options *mtbl_fileset_options_init(void);
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **);
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *, mtbl_merge_func, void *clos);
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *, mtbl_dupsort_func, void *clos);
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *, mtbl_reader_filter_func, void *clos);
struct mtbl_fileset *mtbl_fileset_init(const char *fname, const struct mtbl_fileset_options *);
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *, const struct mtbl_fileset_options *);
void mtbl_fileset_destroy(struct mtbl_fileset **);
void mtbl_fileset_reload_now(struct mtbl_fileset *);
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *);

unsigned mtbl_varint_length(uint64_t value);
unsigned mtbl_varint_length_packed(const uint8_t *buf, size_t len_buf);
size_t mtbl_varint_encode32(uint8_t *ptr, uint32_t value);
size_t mtbl_varint_encode64(uint8_t *ptr, uint64_t value);
size_t mtbl_varint_decode32(const uint8_t *ptr, uint32_t *value);
size_t mtbl_varint_decode64(const uint8_t *ptr, uint64_t *value);
#endif
