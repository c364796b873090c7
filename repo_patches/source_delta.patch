From ae88988dca733263dc61a27f3580b050b3761494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 01/13] fix: linear converter read before the input buffer for
 one frame blocks

With a one frame input block the loop which interpolates between the saved
last_value and the first input frame stopped too early, so the main loop
read data_in [-channels].
---
 src/src_linear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index 43a0fd4..bdbbde3 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -85,7 +85,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
-		if (priv->in_used + state->channels * (1.0 + input_index) >= priv->in_count)
+		if (priv->in_used + state->channels * input_index >= priv->in_count)
 			break ;
 
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
-- 
2.43.0


From 71e052f44923f4f649bfcaa8f1b66eefde42e728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 02/13] fix: reject a NaN conversion ratio

---
 src/common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index c5b7d90..6b58282 100644
--- a/src/common.h
+++ b/src/common.h
@@ -244,7 +244,8 @@ fmod_one (double x)
 
 static inline int
 is_bad_src_ratio (double ratio)
-{	return (ratio < (1.0 / SRC_MAX_RATIO) || ratio > (1.0 * SRC_MAX_RATIO)) ;
+{	/* Written so that a NaN is also rejected. */
+	return ! (ratio >= (1.0 / SRC_MAX_RATIO) && ratio <= (1.0 * SRC_MAX_RATIO)) ;
 } /* is_bad_src_ratio */
 
 
-- 
2.43.0


From c87d926db0ebef5038bc66fa90470209905fd8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 03/13] fix: return an error instead of aborting for a channel
 count below one

---
 src/samplerate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 6a51f27..2538919 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -491,6 +491,14 @@ psrc_set_converter (int converter_type, int channels, int *error)
 {
 	SRC_ERROR temp_error;
 	SRC_STATE *state ;
+
+	if (channels < 1)
+	{
+		if (error)
+			*error = SRC_ERR_BAD_CHANNEL_COUNT ;
+		return NULL ;
+	}
+
 	switch (converter_type)
 	{
 #ifdef ENABLE_SINC_BEST_CONVERTER
-- 
2.43.0


From 2287b76b32d924f5fda9e3329ae424186e2afa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 04/13] fix: src_callback_read looped forever when the source
 resumed after end of input

---
 src/samplerate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2538919..66ff0cb 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -221,6 +221,10 @@ src_callback_read (SRC_STATE *state, double src_ratio, long frames, float *data)
 
 		if (src_data.end_of_input == SRC_TRUE && src_data.output_frames_gen == 0)
 			break ;
+
+		/* A converter that was not reset after end of input accepts nothing more. */
+		if (src_data.input_frames_used == 0 && src_data.output_frames_gen == 0)
+			break ;
 		} ;
 
 	state->saved_data = src_data.data_in ;
-- 
2.43.0


From 29290457fc5dc593c3f81ef1c4f6d55d122d337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 05/13] fix: treat a negative callback return value as end of
 input

src_process () clamps it to zero frames without end_of_input being set, so
src_callback_read () called the callback again forever.
---
 src/samplerate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/samplerate.c b/src/samplerate.c
index 66ff0cb..c063a7c 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -195,8 +195,10 @@ src_callback_read (SRC_STATE *state, double src_ratio, long frames, float *data)
 			src_data.input_frames = state->callback_func (state->user_callback_data, &ptr) ;
 			src_data.data_in = ptr ;
 
-			if (src_data.input_frames == 0)
+			if (src_data.input_frames <= 0)
+			{	src_data.input_frames = 0 ;
 				src_data.end_of_input = 1 ;
+				} ;
 			} ;
 
 		/*
-- 
2.43.0


From 317555593818f82bfbb0d7b523f6cadedb1a1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 06/13] fix: sinc converter read before its buffer at end of
 input after a ratio drop

---
 src/src_sinc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 716c4a4..4c6a9cc 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1207,7 +1207,15 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		** consumed and this is the last buffer.
 		*/
 
-		if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
+		if (filter->b_len - filter->b_end < half_filter_chan_len + 5 && filter->b_current < half_filter_chan_len)
+		{	/* There is not enough history in front of b_current to move the
+			** data down. If there is enough in hand to go on with, leave this
+			** until more of the buffer has been consumed.
+			*/
+			if (filter->b_end - filter->b_current > half_filter_chan_len)
+				return SRC_ERR_NO_ERROR ;
+			}
+		else if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
 		{	/* If necessary, move data down to the start of the buffer. */
 			len = filter->b_end - filter->b_current ;
 			memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
-- 
2.43.0


From c0848922d6f8957c3e1d4adb85250e068c10b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 07/13] fix: sinc converter failed for input blocks of more
 than INT_MAX samples

---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 4c6a9cc..749f8d6 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1189,7 +1189,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		len = MAX (filter->b_len - filter->b_current - half_filter_chan_len, 0) ;
 		} ;
 
-	len = MIN ((int) (filter->in_count - filter->in_used), len) ;
+	len = (int) MIN (filter->in_count - filter->in_used, (long) len) ;
 	len -= (len % channels) ;
 
 	if (len < 0 || filter->b_end + len > filter->b_len)
-- 
2.43.0


From e88d2bf53822adeaaaee03b7591087675616fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 08/13] fix: src_simple dereferenced a NULL SRC_DATA pointer

---
 src/samplerate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index c063a7c..5a36b9d 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -418,6 +418,9 @@ src_simple (SRC_DATA *src_data, int converter, int channels)
 {	SRC_STATE	*src_state ;
 	int 		error ;
 
+	if (src_data == NULL)
+		return SRC_ERR_BAD_DATA ;
+
 	if ((src_state = src_new (converter, channels, &error)) == NULL)
 		return error ;
 
-- 
2.43.0


From a0f0165a8c8016a15d0d23df74a6533a4c4acf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 09/13] fix: sinc converter lost the tail when flushed with a
 NULL input pointer

src_process () accepts a NULL data_in with zero input frames, but a call of
that kind with end_of_input set was ignored.
---
 src/src_sinc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 749f8d6..3ce6d9a 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1161,7 +1161,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (filter->b_real_end >= 0)
 		return SRC_ERR_NO_ERROR ;	/* Should be terminating. Just return. */
 
-	if (data->data_in == NULL)
+	if (data->data_in == NULL && ! data->end_of_input)
 		return SRC_ERR_NO_ERROR ;
 
 	if (filter->b_current == 0)
@@ -1195,7 +1195,8 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (len < 0 || filter->b_end + len > filter->b_len)
 		return SRC_ERR_SINC_PREPARE_DATA_BAD_LEN ;
 
-	memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
+	if (len > 0)
+		memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
 						len * sizeof (filter->buffer [0])) ;
 
 	filter->b_end += len ;
-- 
2.43.0


From 8210d6b1322d33fdeffa68d87d329211db255887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 10/13] fix: sinc converter lost part of the tail at ratios
 close to 1/256

When the last block was loaded while the buffer still held more than a half
filter length of input, moving the data down did not make room for the zeros
that flush the filter. Too few were added, and with b_real_end set no more
could follow, so the last frames were never generated.
---
 src/src_sinc.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 3ce6d9a..cc41e26 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1208,22 +1208,26 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		** consumed and this is the last buffer.
 		*/
 
-		if (filter->b_len - filter->b_end < half_filter_chan_len + 5 && filter->b_current < half_filter_chan_len)
-		{	/* There is not enough history in front of b_current to move the
-			** data down. If there is enough in hand to go on with, leave this
+		if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
+		{	len = filter->b_end - filter->b_current ;
+
+			/* If there is not enough history in front of b_current to move the
+			** data down, or moving it down does not make enough room for the
+			** zeros, and there is enough in hand to go on with, leave this
 			** until more of the buffer has been consumed.
 			*/
-			if (filter->b_end - filter->b_current > half_filter_chan_len)
+			if (len > half_filter_chan_len && (filter->b_current < half_filter_chan_len
+					|| filter->b_len - len < 2 * half_filter_chan_len + 5))
 				return SRC_ERR_NO_ERROR ;
-			}
-		else if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
-		{	/* If necessary, move data down to the start of the buffer. */
-			len = filter->b_end - filter->b_current ;
-			memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
-							(half_filter_chan_len + len) * sizeof (filter->buffer [0])) ;
-
-			filter->b_current = half_filter_chan_len ;
-			filter->b_end = filter->b_current + len ;
+
+			/* If necessary, move data down to the start of the buffer. */
+			if (filter->b_current >= half_filter_chan_len)
+			{	memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
+								(half_filter_chan_len + len) * sizeof (filter->buffer [0])) ;
+
+				filter->b_current = half_filter_chan_len ;
+				filter->b_end = filter->b_current + len ;
+				} ;
 			} ;
 
 		filter->b_real_end = filter->b_end ;
-- 
2.43.0


From eabdf07fe60e10a84e021776dde03ca5288fcc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 11/13] fix: sinc converter ended its flushing zeros in the
 middle of a frame

With six or more channels the zeros added at the end of input did not end on
a frame boundary. When the ratio was lowered while the tail was being drained,
calc_output_*() could then read beyond b_end, tripping its assertion.
---
 src/src_sinc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index cc41e26..ca84753 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1231,10 +1231,11 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 			} ;
 
 		filter->b_real_end = filter->b_end ;
-		len = half_filter_chan_len + 5 ;
+		len = half_filter_chan_len + 5 * channels ;
 
 		if (len < 0 || filter->b_end + len > filter->b_len)
 			len = filter->b_len - filter->b_end ;
+		len -= (len % channels) ;
 
 		memset (filter->buffer + filter->b_end, 0, len * sizeof (filter->buffer [0])) ;
 		filter->b_end += len ;
-- 
2.43.0


From 4756cfacd39b8b04be9ac5b9dc6e90cce71f8104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 12/13] fix: sinc converter stopped early at a ratio of 1/256
 with more than one channel

---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index ca84753..c0b8cf4 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -243,7 +243,7 @@ sinc_filter_new (int converter_type, int channels)
 		priv->b_len = 3 * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
 		priv->b_len = MAX (priv->b_len, 4096) ;
 		priv->b_len *= channels ;
-		priv->b_len += 1 ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
+		priv->b_len += channels ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
 
 
 		priv->buffer = (float *) calloc (priv->b_len + channels, sizeof (float)) ;
-- 
2.43.0


From 1aa92249f55741c021ec038bf76d6bb9ed9ac0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 13/13] fix: do not overflow int in the zero order hold and
 linear converters with millions of channels

The step to the next input frame was computed as int channels times int
frames. With more than 8388607 channels a step of 256 frames (a ratio of
1/256) overflowed and the converter read far outside the input array.
---
 src/src_linear.c | 4 ++--
 src/src_zoh.c    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index bdbbde3..81212e5 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -102,7 +102,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 		} ;
 
 	rem = fmod_one (input_index) ;
-	priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+	priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 	input_index = rem ;
 
 	/* Main processing loop. */
@@ -128,7 +128,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 		input_index += 1.0 / src_ratio ;
 		rem = fmod_one (input_index) ;
 
-		priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+		priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 		input_index = rem ;
 		} ;
 
diff --git a/src/src_zoh.c b/src/src_zoh.c
index 41ba79a..3991ca0 100644
--- a/src/src_zoh.c
+++ b/src/src_zoh.c
@@ -99,7 +99,7 @@ zoh_vari_process (SRC_STATE *state, SRC_DATA *data)
 		} ;
 
 	rem = fmod_one (input_index) ;
-	priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+	priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 	input_index = rem ;
 
 	/* Main processing loop. */
@@ -117,7 +117,7 @@ zoh_vari_process (SRC_STATE *state, SRC_DATA *data)
 		input_index += 1.0 / src_ratio ;
 		rem = fmod_one (input_index) ;
 
-		priv->in_used += state->channels * psf_lrint (input_index - rem) ;
+		priv->in_used += (long) state->channels * psf_lrint (input_index - rem) ;
 		input_index = rem ;
 		} ;
 
-- 
2.43.0

