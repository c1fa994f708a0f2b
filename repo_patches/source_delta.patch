From 52426886161f2af882d096f381fe53c7d68c165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:48 +0000
Subject: [PATCH 1/5] fix: rlgr3 fast encoder reads one coefficient past the
 end of the block

The second GetNextInput of a Golomb-Rice pair consumed coef[4096] when a
single coefficient was left.  Feed a zero instead, as rfx_rlgr3_encode does.
---
 src/rfxencode_diff_rlgr3.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rfxencode_diff_rlgr3.c b/src/rfxencode_diff_rlgr3.c
index 1bb435e..96b4e68 100644
--- a/src/rfxencode_diff_rlgr3.c
+++ b/src/rfxencode_diff_rlgr3.c
@@ -45,9 +45,16 @@
 #define DQ_GR   (3)   /* decrease in kp after zero symbol in GR mode */
 
 #define GetNextInput do { \
-    input = *coef; \
-    coef++; \
-    coef_size--; \
+    if (coef_size > 0) \
+    { \
+        input = *coef; \
+        coef++; \
+        coef_size--; \
+    } \
+    else \
+    { \
+        input = 0; \
+    } \
 } while (0)
 
 #define CheckWrite do { \
-- 
2.43.0


From 13f6efaf2f81d5dbde597627352bf3531c6868b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:48 +0000
Subject: [PATCH 2/5] fix: wrong tile block length and alpha length for tiles
 with alpha

The tile header carries a fourth length field when alpha is present, so it
is 21 bytes, not 19; and the RLE form of the alpha plane did not count its
flags byte, unlike the raw form.
---
 src/rfxencode_alpha.c   | 4 ++--
 src/rfxencode_compose.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rfxencode_alpha.c b/src/rfxencode_alpha.c
index 065a6c7..12b5bcf 100644
--- a/src/rfxencode_alpha.c
+++ b/src/rfxencode_alpha.c
@@ -274,11 +274,11 @@ rfx_encode_plane(struct rfxencode *enc, const uint8 *plane, int cx, int cy,
         memcpy(s->p, plane, cx * cy);
         s->p += cx * cy;
         stream_write_uint8(s, 0); /* pad if not RLE */
-        bytes = cx * cy + 2;
     }
     else
     {
         LLOGLN(10, ("rfx_encode_plane: ok bytes %d", bytes));
     }
-    return bytes;
+    /* includes the flags byte, and the pad byte if not RLE */
+    return (int) (s->p - holdp);
 }
diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 94236bd..8182223 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -295,7 +295,7 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
@@ -387,7 +387,7 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
-- 
2.43.0


From 9601fd644e20f18ec9d1c72a694259a74f00b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:03 +0000
Subject: [PATCH 3/5] fix: tile set and tile headers written without checking
 the room left

With a small output buffer the tile set header, the quantization tables or
a tile header were written past the end of the caller's buffer.
---
 src/rfxencode_compose.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 8182223..7730a6f 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -228,6 +228,10 @@ rfx_compose_message_tile_yuv(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -275,6 +279,10 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -320,6 +328,10 @@ rfx_compose_message_tile_rgb(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -366,6 +378,10 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     int end_pos;
 
     LLOGLN(10, ("rfx_compose_message_tile_argb:"));
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -438,6 +454,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
     }
     numTiles = num_tiles;
     size = 22 + numQuants * 5;
+    if (stream_get_left(s) < size)
+    {
+        return -1;
+    }
     start_pos = stream_get_pos(s);
     if (flags & RFX_FLAGS_ALPHAV1)
     {
@@ -614,6 +634,10 @@ rfx_compose_message_data(struct rfxencode *enc, STREAM *s,
     }
     tiles_written = rfx_compose_message_tileset(enc, s, buf, width, height, stride_bytes,
                    tiles, num_tiles, quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        return -1;
+    }
     if (rfx_compose_message_frame_end(enc, s) != 0)
     {
         return -1;
-- 
2.43.0


From 6c172a8cb73244eb2dcd8eb383ca16f3658a4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:33 +0000
Subject: [PATCH 4/5] fix: progressive history updated for tiles that are never
 sent

A bad tile or an allocation failure after the first tile made the call
fail after the reference tiles of the earlier ones were replaced, so later
difference tiles were relative to data the decoder never received.  Check
all tiles up front, and end the region early on an allocation failure.
---
 src/rfxencode_compose.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 7730a6f..9824c83 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -800,6 +800,22 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         num_quants = 1;
         quants = (const char *) g_rfx_default_quantization_values;
     }
+    /* check all the tiles first, the history must not be updated
+       if the region is not sent */
+    for (index = 0; index < num_tiles; index++)
+    {
+        if ((tiles[index].quant_y < 0) ||
+            (tiles[index].quant_y >= num_quants) ||
+            (tiles[index].quant_cb < 0) ||
+            (tiles[index].quant_cb >= num_quants) ||
+            (tiles[index].quant_cr < 0) ||
+            (tiles[index].quant_cr >= num_quants) ||
+            (tiles[index].x < 0) || (tiles[index].x / 64 >= RFX_MAX_RB_X) ||
+            (tiles[index].y < 0) || (tiles[index].y / 64 >= RFX_MAX_RB_Y))
+        {
+            return -1;
+        }
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, PRO_WBT_REGION);
     stream_seek_uint32(s); /* blockLen, set later */
@@ -832,18 +848,9 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         quantIdxY = tiles[index].quant_y;
         quantIdxCb = tiles[index].quant_cb;
         quantIdxCr = tiles[index].quant_cr;
-        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
-            (quantIdxCr >= num_quants))
-        {
-            return -1;
-        }
         tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
         xIdx = x / 64;
         yIdx = y / 64;
-        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
-        {
-            return -1;
-        }
         tile_start_pos = stream_get_pos(s);
         stream_write_uint16(s, PRO_WBT_TILE_SIMPLE);
         stream_seek_uint32(s); /* set later */
@@ -866,7 +873,7 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
             rb = xnew(struct rfx_rb);
             if (rb == NULL)
             {
-                return -1;
+                break;
             }
             enc->rbs[xIdx][yIdx] = rb;
         }
-- 
2.43.0


From 95a3d5b2719a6456a367b76ec8a68116244c50b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:33 +0000
Subject: [PATCH 5/5] fix: failed encode call loses the stream header and a
 frame number

When a frame did not fit, the header was marked as sent and the frame
number consumed although the caller has nothing to send, so the stream of
a caller that retries with more room never had a header.
---
 src/rfxencode.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index 5e0e59d..a301920 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -378,6 +378,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
 {
     struct rfxencode *enc;
     int tiles_written;
+    int frame_idx;
+    int header_processed;
     STREAM s;
 
     enc = (struct rfxencode *) handle;
@@ -392,6 +394,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
         {
             rfxencode_reset_encoder(handle);
         }
+        frame_idx = enc->frame_idx;
+        header_processed = enc->header_processed;
         /* Only the first frame should send the RemoteFX header */
         if ((enc->frame_idx == 0) && (enc->header_processed == 0))
         {
@@ -406,12 +410,17 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                          flags);
         if (tiles_written <= 0)
         {
+            /* nothing is sent, the next frame must replace this one */
+            enc->frame_idx = frame_idx;
+            enc->header_processed = header_processed;
             return -1;
         }
         *cdata_bytes = (int) (s.p - s.data);
         return tiles_written;
     }
 
+    frame_idx = enc->frame_idx;
+    header_processed = enc->header_processed;
     /* Only the first frame should send the RemoteFX header */
     if ((enc->frame_idx == 0) && (enc->header_processed == 0))
     {
@@ -424,6 +433,12 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                             buf, width, height, stride_bytes,
                                             tiles, num_tiles,
                                             quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        /* nothing is sent, the next frame must replace this one */
+        enc->frame_idx = frame_idx;
+        enc->header_processed = header_processed;
+    }
     *cdata_bytes = (int) (s.p - s.data);
     return tiles_written;
 }
-- 
2.43.0

