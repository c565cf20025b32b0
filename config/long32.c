/* Where long has 32 bits (Windows): the calls that take or return frame counts, for a caller with 64. Compiled with prelude.h and LONG32. */
#include <samplerate.h>
typedef struct { const float *data_in ; float *data_out ; long64 input_frames, output_frames, input_frames_used, output_frames_gen ; int end_of_input ; double src_ratio ; } data64 ;
static void to32 (SRC_DATA *e, const data64 *d)
{	memset (e, 0, sizeof *e) ; e->data_in = d->data_in ; e->data_out = d->data_out ; e->input_frames = (int) d->input_frames ; e->output_frames = (int) d->output_frames ;
	e->input_frames_used = (int) d->input_frames_used ; e->output_frames_gen = (int) d->output_frames_gen ; e->end_of_input = d->end_of_input ; e->src_ratio = d->src_ratio ;
}
static void to64 (data64 *d, const SRC_DATA *e)
{	d->data_in = e->data_in ; d->data_out = e->data_out ; d->input_frames = e->input_frames ; d->output_frames = e->output_frames ;
	d->input_frames_used = e->input_frames_used ; d->output_frames_gen = e->output_frames_gen ; d->end_of_input = e->end_of_input ; d->src_ratio = e->src_ratio ;
}
int wrap_src_process (SRC_STATE *s, data64 *d)
{	SRC_DATA e ; int r ; if (d) to32 (&e, d) ; r = src_process (s, d ? &e : NULL) ; if (d) to64 (d, &e) ; return r ; }
int wrap_src_simple (data64 *d, int t, int ch)
{	SRC_DATA e ; int r ; if (d) to32 (&e, d) ; r = src_simple (d ? &e : NULL, t, ch) ; if (d) to64 (d, &e) ; return r ; }
long64 wrap_src_callback_read (SRC_STATE *s, double ratio, long64 frames, float *p) { return src_callback_read (s, ratio, (int) frames, p) ; }
