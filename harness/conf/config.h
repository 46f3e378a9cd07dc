/* every module gets an allocator of its own, see owner.c */
#ifndef MC_CONFIG_H
#define MC_CONFIG_H
#include <stddef.h>
#define MODS(X) X(str) X(uri) X(array) X(queue) X(sock) X(map) X(buf) X(heap) X(timer)
#define DECL(m)                                                                \
	void *own_##m##_malloc(size_t n);                                      \
	void *own_##m##_calloc(size_t a, size_t b);                            \
	void *own_##m##_realloc(void *p, size_t n);                            \
	void own_##m##_free(void *p);
MODS(DECL)
#define sc_str_malloc own_str_malloc
#define sc_str_calloc own_str_calloc
#define sc_str_realloc own_str_realloc
#define sc_str_free own_str_free
#define sc_uri_malloc own_uri_malloc
#define sc_uri_calloc own_uri_calloc
#define sc_uri_realloc own_uri_realloc
#define sc_uri_free own_uri_free
#define sc_array_malloc own_array_malloc
#define sc_array_calloc own_array_calloc
#define sc_array_realloc own_array_realloc
#define sc_array_free own_array_free
#define sc_queue_malloc own_queue_malloc
#define sc_queue_calloc own_queue_calloc
#define sc_queue_realloc own_queue_realloc
#define sc_queue_free own_queue_free
#define sc_sock_malloc own_sock_malloc
#define sc_sock_calloc own_sock_calloc
#define sc_sock_realloc own_sock_realloc
#define sc_sock_free own_sock_free
#define sc_map_malloc own_map_malloc
#define sc_map_calloc own_map_calloc
#define sc_map_realloc own_map_realloc
#define sc_map_free own_map_free
#define sc_buf_malloc own_buf_malloc
#define sc_buf_calloc own_buf_calloc
#define sc_buf_realloc own_buf_realloc
#define sc_buf_free own_buf_free
#define sc_heap_malloc own_heap_malloc
#define sc_heap_calloc own_heap_calloc
#define sc_heap_realloc own_heap_realloc
#define sc_heap_free own_heap_free
#define sc_timer_malloc own_timer_malloc
#define sc_timer_calloc own_timer_calloc
#define sc_timer_realloc own_timer_realloc
#define sc_timer_free own_timer_free
#endif
