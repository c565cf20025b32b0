/* A program as users write it: only the public header, everything in it called.  Compiled as C90, C11 and C++ (C19). */
#include <samplerate.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { const float *x ; long n, pos ; int ch ; } user_src ;
static long user_cb (void *u, float **d) { user_src *s = (user_src *) u ; long k = s->n - s->pos < 50 ? s->n - s->pos : 50 ; *d = (float *) s->x + s->pos * s->ch ; s->pos += k ; return k ; }
/* n frames through src_process, src_simple and the callback interface; returns the frames of each */
int user_run (int conv, int ch, const float *x, long n, double r, float *o1, float *o2, float *o3, long room, long *gen)
{	SRC_DATA d ; SRC_STATE *s, *c ; user_src u ; int e = 0 ;
	memset (&d, 0, sizeof (d)) ; d.data_in = x ; d.data_out = o1 ; d.input_frames = n ; d.output_frames = room ; d.src_ratio = r ; d.end_of_input = 1 ;
	if ((s = src_new (conv, ch, &e)) == NULL || e) return 1 ;
	if ((c = src_clone (s, &e)) == NULL || e) return 2 ;
	s = src_delete (s) ; if (s) return 3 ;
	if (src_get_channels (c) != ch || src_set_ratio (c, 2 * r) || src_reset (c) || src_error (c)) return 4 ;
	if (src_process (c, &d)) return 5 ;
	gen [0] = d.output_frames_gen ; src_delete (c) ;
	d.data_out = o2 ; if (src_simple (&d, conv, ch)) return 6 ;
	gen [1] = d.output_frames_gen ;
	u.x = x ; u.n = n ; u.pos = 0 ; u.ch = ch ;
	if ((s = src_callback_new (user_cb, conv, ch, &e, &u)) == NULL || e) return 7 ;
	gen [2] = src_callback_read (s, r, room, o3) ; src_delete (s) ;
	if (! src_is_valid_ratio (r) || src_is_valid_ratio (0.0) || strlen (src_get_version ()) == 0 || src_get_name (conv) == NULL || src_get_description (conv) == NULL || src_strerror (1) == NULL) return 8 ;
	{	float f [4], g [4] ; short h [4] ; int i [4] ; f [0] = 0.5f ; f [1] = -0.25f ; f [2] = 2.0f ; f [3] = -2.0f ;
		src_float_to_short_array (f, h, 4) ; src_float_to_int_array (f, i, 4) ;
		if (h [0] != 16384 || h [1] != -8192 || h [2] != 32767 || h [3] != -32768 || i [0] != 1073741824 || i [2] != 2147483647) return 9 ;
		src_short_to_float_array (h, g, 2) ; if (g [0] != f [0] || g [1] != f [1]) return 10 ;
		src_int_to_float_array (i, g, 2) ; if (g [0] != f [0] || g [1] != f [1]) return 11 ;
	}
	return 0 ;
}
/* the numbers programs were compiled with */
int user_numbers (int *n)
{	n [0] = SRC_SINC_BEST_QUALITY ; n [1] = SRC_SINC_MEDIUM_QUALITY ; n [2] = SRC_SINC_FASTEST ; n [3] = SRC_ZERO_ORDER_HOLD ; n [4] = SRC_LINEAR ;
	return (int) sizeof (SRC_DATA) ;
}
#ifdef __cplusplus
}
#endif
