/* All library calls of the harness go through a table of functions, so that several builds of the library can be linked into one program. */
#ifndef API_H
#define API_H
#include <samplerate.h>
#define API_LIST(X) X (new) X (clone) X (callback_new) X (delete) X (process) X (callback_read) X (simple) X (get_name) X (get_description) X (get_version) \
	X (set_ratio) X (get_channels) X (reset) X (is_valid_ratio) X (error) X (strerror) X (short_to_float_array) X (float_to_short_array) X (int_to_float_array) X (float_to_int_array)
#define X(f) __typeof__ (src_##f) *f ;
typedef struct { API_LIST (X) } api_t ;
#undef X
#ifndef API_NO_MACROS
extern __thread const api_t *api ;
#define src_new (api->new)
#define src_clone (api->clone)
#define src_callback_new (api->callback_new)
#define src_delete (api->delete)
#define src_process (api->process)
#define src_callback_read (api->callback_read)
#define src_simple (api->simple)
#define src_get_name (api->get_name)
#define src_get_description (api->get_description)
#define src_get_version (api->get_version)
#define src_set_ratio (api->set_ratio)
#define src_get_channels (api->get_channels)
#define src_reset (api->reset)
#define src_is_valid_ratio (api->is_valid_ratio)
#define src_error (api->error)
#define src_strerror (api->strerror)
#define src_short_to_float_array (api->short_to_float_array)
#define src_float_to_short_array (api->float_to_short_array)
#define src_int_to_float_array (api->int_to_float_array)
#define src_float_to_int_array (api->float_to_int_array)
#endif
#endif
