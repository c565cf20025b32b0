From a5293af4f55e9beb0ec334748ab2a6e3128cb174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 01/17] fix: linear converter reading before data_in for one
 frame input blocks

The loop handling output frames before the first input frame gave up early
when the block held a single frame, so the main loop ran with in_used == 0
and read data_in [-channels].
---
 src/src_linear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index 43a0fd4..bdbbde3 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -85,7 +85,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
-		if (priv->in_used + state->channels * (1.0 + input_index) >= priv->in_count)
+		if (priv->in_used + state->channels * input_index >= priv->in_count)
 			break ;
 
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
-- 
2.43.0


From b8326571b882397a2d80dc381a6906a05b03cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 02/17] fix: reject NaN conversion ratios

All comparisons with NaN are false, so is_bad_src_ratio () accepted it and
the converters computed garbage positions and frame counts from it.
---
 src/common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index c5b7d90..88ae8b3 100644
--- a/src/common.h
+++ b/src/common.h
@@ -244,7 +244,8 @@ fmod_one (double x)
 
 static inline int
 is_bad_src_ratio (double ratio)
-{	return (ratio < (1.0 / SRC_MAX_RATIO) || ratio > (1.0 * SRC_MAX_RATIO)) ;
+{	/* Written so that NaN counts as bad too. */
+	return ! (ratio >= (1.0 / SRC_MAX_RATIO) && ratio <= (1.0 * SRC_MAX_RATIO)) ;
 } /* is_bad_src_ratio */
 
 
-- 
2.43.0


From 2a16f90b0b5380afec9ea6328711e997bc41aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 03/17] fix: report SRC_ERR_BAD_CHANNEL_COUNT for channel
 counts below one

src_new (), src_callback_new () and src_simple () ran into an assert in the
converter (or undefined behaviour with NDEBUG) instead.
---
 src/samplerate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 6a51f27..2978d88 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -491,6 +491,13 @@ psrc_set_converter (int converter_type, int channels, int *error)
 {
 	SRC_ERROR temp_error;
 	SRC_STATE *state ;
+
+	if (channels < 1)
+	{	if (error)
+			*error = SRC_ERR_BAD_CHANNEL_COUNT ;
+		return NULL ;
+		} ;
+
 	switch (converter_type)
 	{
 #ifdef ENABLE_SINC_BEST_CONVERTER
-- 
2.43.0


From f1df67a78a430844fd91e778ba205a8c97f46c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 04/17] fix: src_simple () dereferencing a NULL SRC_DATA
 pointer

Return SRC_ERR_BAD_DATA as src_process () does.
---
 src/samplerate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2978d88..2043a5a 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -412,6 +412,9 @@ src_simple (SRC_DATA *src_data, int converter, int channels)
 {	SRC_STATE	*src_state ;
 	int 		error ;
 
+	if (src_data == NULL)
+		return SRC_ERR_BAD_DATA ;
+
 	if ((src_state = src_new (converter, channels, &error)) == NULL)
 		return error ;
 
-- 
2.43.0


From f15857ccde219663bc19ab23f04619b6bc0dde88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 05/17] fix: sinc converters failing on inputs of more than
 INT_MAX samples

prepare_data () truncated the remaining sample count to int before taking
the minimum, giving a negative or far too small length.
---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 716c4a4..d61bd72 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1189,7 +1189,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		len = MAX (filter->b_len - filter->b_current - half_filter_chan_len, 0) ;
 		} ;
 
-	len = MIN ((int) (filter->in_count - filter->in_used), len) ;
+	len = (int) MIN (filter->in_count - filter->in_used, (long) len) ;
 	len -= (len % channels) ;
 
 	if (len < 0 || filter->b_end + len > filter->b_len)
-- 
2.43.0


From 3e4fc2d0ff360c269fcef6f754b6eed151a66da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 06/17] fix: sinc converters losing the tail when flushed with
 a NULL data_in

src_process () accepts data_in == NULL with zero input_frames, and a callback
may end the input by returning zero and setting its data pointer to NULL, but
prepare_data () returned early in that case and so never noticed end_of_input.
---
 src/src_sinc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index d61bd72..bfe6edc 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1161,9 +1161,6 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (filter->b_real_end >= 0)
 		return SRC_ERR_NO_ERROR ;	/* Should be terminating. Just return. */
 
-	if (data->data_in == NULL)
-		return SRC_ERR_NO_ERROR ;
-
 	if (filter->b_current == 0)
 	{	/* Initial state. Set up zeros at the start of the buffer and
 		** then load new data after that.
@@ -1195,7 +1192,8 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (len < 0 || filter->b_end + len > filter->b_len)
 		return SRC_ERR_SINC_PREPARE_DATA_BAD_LEN ;
 
-	memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
+	if (len > 0) /* The data_in pointer may be NULL when there is no data. */
+		memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
 						len * sizeof (filter->buffer [0])) ;
 
 	filter->b_end += len ;
-- 
2.43.0


From 650ace4e4cf0dff7830e1532a273f351e37873ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 07/17] fix: multichannel sinc converters stalling at a ratio
 of 1/256

The extra buffer space for the <= check against samples_in_hand has to be a
whole frame. With one extra sample the first load was rounded down to exactly
half_filter_chan_len samples for more than one channel, so src_process ()
stopped without output and src_simple () lost the whole conversion.
---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index bfe6edc..dec65c4 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -243,7 +243,7 @@ sinc_filter_new (int converter_type, int channels)
 		priv->b_len = 3 * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
 		priv->b_len = MAX (priv->b_len, 4096) ;
 		priv->b_len *= channels ;
-		priv->b_len += 1 ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
+		priv->b_len += channels ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
 
 
 		priv->buffer = (float *) calloc (priv->b_len + channels, sizeof (float)) ;
-- 
2.43.0


From 82f6077eee1dfce6e98416784e635e84e89b9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 08/17] fix: sinc converters losing the tail at ratios near
 1/256

At end of input prepare_data () marked the end while up to two filter half
lengths of data were still unused, which leaves less room than the filter
needs for the trailing zeros, and the output frames that needed them were
never generated. Mark the end only when the data in hand no longer suffices,
which is what the comment says. Also do not move data from before the start of
the buffer when a drop of the ratio made the filter longer than the history.
---
 src/src_sinc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index dec65c4..9da4e38 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1200,12 +1200,12 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	filter->in_used += len ;
 
 	if (filter->in_used == filter->in_count &&
-			filter->b_end - filter->b_current < 2 * half_filter_chan_len && data->end_of_input)
+			filter->b_end - filter->b_current <= half_filter_chan_len && data->end_of_input)
 	{	/* Handle the case where all data in the current buffer has been
 		** consumed and this is the last buffer.
 		*/
 
-		if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
+		if (filter->b_len - filter->b_end < half_filter_chan_len + 5 && filter->b_current >= half_filter_chan_len)
 		{	/* If necessary, move data down to the start of the buffer. */
 			len = filter->b_end - filter->b_current ;
 			memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
-- 
2.43.0


From f27b9581c31a8f3be372dadd3a62077b366357a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 09/17] fix: sinc converters dropping history still needed
 after a drop of the ratio

When the internal buffer was compacted only the history for the current filter
length was kept. If the ratio then dropped (src_set_ratio () or a varying
src_ratio) the longer filter ran on a truncated left half: a constant input of
1.0 came out as low as 0.6. Keep the history, and at the end of input the
zeros, which the longest filter needs; the buffer has room for them.
---
 src/src_sinc.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 9da4e38..97c64c0 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1156,11 +1156,17 @@ sinc_multichan_vari_process (SRC_STATE *state, SRC_DATA *data)
 
 static SRC_ERROR
 prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter_chan_len)
-{	int len = 0 ;
+{	int len = 0, keep, max_half_chan_len ;
 
 	if (filter->b_real_end >= 0)
 		return SRC_ERR_NO_ERROR ;	/* Should be terminating. Just return. */
 
+	/* The ratio may drop at any time, so always keep the history (and at the end
+	** of input, the zeros) that the longest filter needs, see sinc_filter_new ().
+	*/
+	max_half_chan_len = channels * (filter->b_len / channels / 3) ;
+	keep = MIN (filter->b_current, max_half_chan_len) ;
+
 	if (filter->b_current == 0)
 	{	/* Initial state. Set up zeros at the start of the buffer and
 		** then load new data after that.
@@ -1176,10 +1182,10 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	else
 	{	/* Move data at end of buffer back to the start of the buffer. */
 		len = filter->b_end - filter->b_current ;
-		memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
-						(half_filter_chan_len + len) * sizeof (filter->buffer [0])) ;
+		memmove (filter->buffer, filter->buffer + filter->b_current - keep,
+						(keep + len) * sizeof (filter->buffer [0])) ;
 
-		filter->b_current = half_filter_chan_len ;
+		filter->b_current = keep ;
 		filter->b_end = filter->b_current + len ;
 
 		/* Now load data at current end of buffer. */
@@ -1205,18 +1211,19 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		** consumed and this is the last buffer.
 		*/
 
-		if (filter->b_len - filter->b_end < half_filter_chan_len + 5 && filter->b_current >= half_filter_chan_len)
+		if (filter->b_len - filter->b_end < max_half_chan_len + 5)
 		{	/* If necessary, move data down to the start of the buffer. */
+			keep = MIN (filter->b_current, max_half_chan_len) ;
 			len = filter->b_end - filter->b_current ;
-			memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
-							(half_filter_chan_len + len) * sizeof (filter->buffer [0])) ;
+			memmove (filter->buffer, filter->buffer + filter->b_current - keep,
+							(keep + len) * sizeof (filter->buffer [0])) ;
 
-			filter->b_current = half_filter_chan_len ;
+			filter->b_current = keep ;
 			filter->b_end = filter->b_current + len ;
 			} ;
 
 		filter->b_real_end = filter->b_end ;
-		len = half_filter_chan_len + 5 ;
+		len = max_half_chan_len + 5 ;
 
 		if (len < 0 || filter->b_end + len > filter->b_len)
 			len = filter->b_len - filter->b_end ;
-- 
2.43.0


From a75e4ad00ed04feb2434aadba551b43935ebcf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 10/17] fix: linear converter leaving the last input frame
 unconsumed

When the position lies within rounding of the end of the input block,
adding it to the (large) sample count rounds it up to the end: the loop
stopped with one input frame unconsumed although there was room for
output.  Callers which pass fixed blocks and rely on all input being
consumed when there is room for output lost a frame at each such block.
---
 src/src_linear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index bdbbde3..cb8a486 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -106,7 +106,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	input_index = rem ;
 
 	/* Main processing loop. */
-	while (priv->out_gen < priv->out_count && priv->in_used + state->channels * input_index < priv->in_count)
+	while (priv->out_gen < priv->out_count && state->channels * input_index < priv->in_count - priv->in_used)
 	{
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
 			src_ratio = state->last_ratio + priv->out_gen * (data->src_ratio - state->last_ratio) / priv->out_count ;
-- 
2.43.0


From 1480c1026dfaa0595123acce7867df333123b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 11/17] fix: data overlap reported for empty input or output
 arrays

Calls that flush with zero input frames or only offer input with zero
output frames were rejected with SRC_ERR_DATA_OVERLAP when the unused
pointer happened to point into the other array.
---
 src/samplerate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2043a5a..2cab6ac 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -110,7 +110,10 @@ src_process (SRC_STATE *state, SRC_DATA *data)
 	if (data->output_frames < 0)
 		data->output_frames = 0 ;
 
-	if (data->data_in < data->data_out)
+	/* Empty arrays do not overlap anything. */
+	if (data->input_frames == 0 || data->output_frames == 0)
+		;
+	else if (data->data_in < data->data_out)
 	{	if (data->data_in + data->input_frames * state->channels > data->data_out)
 		{	/*-printf ("\n\ndata_in: %p    data_out: %p\n",
 				(void*) (data->data_in + data->input_frames * psrc->channels), (void*) data->data_out) ;-*/
-- 
2.43.0


From c236c938afa82c31be31e25bdbba41d4a0c42b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 12/17] fix: sinc converters stalling for a call after a drop
 of the ratio

When the buffer was filled far enough that less than half a filter length
of room was left after b_end, but b_current still had usable data that did
not reach the (now longer) filter, prepare_data () neither loaded data nor
wrapped the buffer around, so the call consumed and generated nothing.
---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 97c64c0..db45c76 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1175,7 +1175,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 
 		filter->b_current = filter->b_end = half_filter_chan_len ;
 		}
-	else if (filter->b_end + half_filter_chan_len + channels < filter->b_len)
+	else if (filter->b_current + 2 * half_filter_chan_len + channels < filter->b_len)
 	{	/*  Load data at current end position. */
 		len = MAX (filter->b_len - filter->b_current - half_filter_chan_len, 0) ;
 		}
-- 
2.43.0


From 061da0c415bb1dd3f1209315dbb266ee0214dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 13/17] fix: zero order hold converter generating a frame
 beyond the end

When an output position fell exactly on the end of the input block (every
block at a ratio of one), the main loop generated one more frame if there was
room for it in the same call, but not if it came with the next call.  So
N frames at ratio 1 became N or N + 1 frames, depending on the output blocks.
Both loops also compared positions multiplied by the channel count, where
rounding can carry a position just before the end of the block to the end;
in the first loop that meant generating nothing from a one frame block, and
then reading data_in [-channels].
---
 src/src_zoh.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/src_zoh.c b/src/src_zoh.c
index 41ba79a..998dcb8 100644
--- a/src/src_zoh.c
+++ b/src/src_zoh.c
@@ -83,9 +83,6 @@ zoh_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
-		if (priv->in_used + state->channels * input_index >= priv->in_count)
-			break ;
-
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
 			src_ratio = state->last_ratio + priv->out_gen * (data->src_ratio - state->last_ratio) / priv->out_count ;
 
@@ -103,7 +100,7 @@ zoh_vari_process (SRC_STATE *state, SRC_DATA *data)
 	input_index = rem ;
 
 	/* Main processing loop. */
-	while (priv->out_gen < priv->out_count && priv->in_used + state->channels * input_index <= priv->in_count)
+	while (priv->out_gen < priv->out_count && priv->in_used < priv->in_count)
 	{
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
 			src_ratio = state->last_ratio + priv->out_gen * (data->src_ratio - state->last_ratio) / priv->out_count ;
-- 
2.43.0


From 800612eb119dae93fe339b68f9df503d48cb5f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 14/17] fix: linear converter stalling on positions within
 rounding of a block end

The position is less than one frame, but multiplied by the channel count it
could round up to a whole frame: the main loop then stopped with one frame
of the block unconsumed, and the first loop generated nothing from a one
frame block.  While a frame is left the position is always in front of it.
---
 src/src_linear.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index cb8a486..3943ced 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -85,9 +85,6 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
-		if (priv->in_used + state->channels * input_index >= priv->in_count)
-			break ;
-
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
 			src_ratio = state->last_ratio + priv->out_gen * (data->src_ratio - state->last_ratio) / priv->out_count ;
 
@@ -106,7 +103,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	input_index = rem ;
 
 	/* Main processing loop. */
-	while (priv->out_gen < priv->out_count && state->channels * input_index < priv->in_count - priv->in_used)
+	while (priv->out_gen < priv->out_count && priv->in_used < priv->in_count)
 	{
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
 			src_ratio = state->last_ratio + priv->out_gen * (data->src_ratio - state->last_ratio) / priv->out_count ;
-- 
2.43.0


From a3bb6b1d1e690acf0e1243fdb997e94fbe338632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 15/17] Revert "fix: linear converter stalling on positions
 within rounding of a block end"

The change is sound but was not needed: a position below one frame, times the
channel count, never rounds up to the channel count, and in_used is zero in
the first loop.  The stall it described was that of a75e4ad, seen on a tree
without that commit.
---
 src/src_linear.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index 3943ced..cb8a486 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -85,6 +85,9 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
+		if (priv->in_used + state->channels * input_index >= priv->in_count)
+			break ;
+
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
 			src_ratio = state->last_ratio + priv->out_gen * (data->src_ratio - state->last_ratio) / priv->out_count ;
 
@@ -103,7 +106,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	input_index = rem ;
 
 	/* Main processing loop. */
-	while (priv->out_gen < priv->out_count && priv->in_used < priv->in_count)
+	while (priv->out_gen < priv->out_count && state->channels * input_index < priv->in_count - priv->in_used)
 	{
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
 			src_ratio = state->last_ratio + priv->out_gen * (data->src_ratio - state->last_ratio) / priv->out_count ;
-- 
2.43.0


From c78eeae48bf5b875e59d99c387a180f8589a2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 16/17] fix: src_callback_read () hanging on data supplied
 after the end of input

When the callback returned zero and supplied data again when it was next
called, or returned a negative count, the read loop never ended.
---
 src/samplerate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2cab6ac..a826bf7 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -224,6 +224,10 @@ src_callback_read (SRC_STATE *state, double src_ratio, long frames, float *data)
 
 		if (src_data.end_of_input == SRC_TRUE && src_data.output_frames_gen == 0)
 			break ;
+
+		/* Data supplied after the end of input or a negative count may get us nowhere. */
+		if (src_data.input_frames_used == 0 && src_data.output_frames_gen == 0)
+			break ;
 		} ;
 
 	state->saved_data = src_data.data_in ;
-- 
2.43.0


From 87fc8d839e8c7a7aa8a82c0d6844e35860da2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 17/17] fix: overflow in ZOH and linear converters with more
 than 8 million channels

---
 src/src_linear.c | 4 ++--
 src/src_zoh.c    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index cb8a486..b81d8b2 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -102,7 +102,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 		} ;
 
 	rem = fmod_one (input_index) ;
-	priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+	priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 	input_index = rem ;
 
 	/* Main processing loop. */
@@ -128,7 +128,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 		input_index += 1.0 / src_ratio ;
 		rem = fmod_one (input_index) ;
 
-		priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+		priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 		input_index = rem ;
 		} ;
 
diff --git a/src/src_zoh.c b/src/src_zoh.c
index 998dcb8..39ea704 100644
--- a/src/src_zoh.c
+++ b/src/src_zoh.c
@@ -96,7 +96,7 @@ zoh_vari_process (SRC_STATE *state, SRC_DATA *data)
 		} ;
 
 	rem = fmod_one (input_index) ;
-	priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+	priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 	input_index = rem ;
 
 	/* Main processing loop. */
@@ -114,7 +114,7 @@ zoh_vari_process (SRC_STATE *state, SRC_DATA *data)
 		input_index += 1.0 / src_ratio ;
 		rem = fmod_one (input_index) ;
 
-		priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+		priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 		input_index = rem ;
 		} ;
 
-- 
2.43.0

