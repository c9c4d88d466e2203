From 1a4952fddc1901452949589e3a655ab5ec1dea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 01/27] fix: writer: accept a match on any of the writer's
 content types

The match flag was cleared by the first content type the ACCEPT frame did
not match and never set again, so a writer whose second or later content
type was accepted failed to open.
---
 fstrm/writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index a623ba1..fb42cf6 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -190,6 +190,7 @@ fstrm__writer_open_bidirectional(struct fstrm_writer *w)
 		res = fstrm_control_match_field_content_type(w->control_accept,
 			ctype.data, ctype.len);
 		if (res == fstrm_res_success) {
+			match = true;
 			match_ctype = ctype.data;
 			len_match_ctype = ctype.len;
 			break;
-- 
2.43.0


From 46d1da5f22ac65d7a3f41ca0390329aedcb36581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 02/27] fix: socket writers: send only the rest after a short
 sendmsg()

After a short write the already sent iovecs were passed to sendmsg() again,
and completing the batch read iov_len past the end of the iovec array.
---
 fstrm/tcp_writer.c  | 13 ++++++++-----
 fstrm/unix_writer.c | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index 4a9bc86..c27a0b9 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -191,15 +191,18 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		while (cur < iovcnt && written >= (ssize_t) iov[cur].iov_len)
+		       written -= iov[cur++].iov_len;
 
 		if (cur == iovcnt)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		/* Only send what is left the next time. */
+		msg.msg_iov = (struct iovec *) /* Grr! */ &iov[cur];
+		msg.msg_iovlen = iovcnt - cur;
+		msg.msg_iov[0].iov_base = (void *)
+			((char *) msg.msg_iov[0].iov_base + written);
+		msg.msg_iov[0].iov_len -= written;
 	}
 }
 
diff --git a/fstrm/unix_writer.c b/fstrm/unix_writer.c
index 72c9167..a14f417 100644
--- a/fstrm/unix_writer.c
+++ b/fstrm/unix_writer.c
@@ -177,15 +177,18 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		while (cur < iovcnt && written >= (ssize_t) iov[cur].iov_len)
+		       written -= iov[cur++].iov_len;
 
 		if (cur == iovcnt)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		/* Only send what is left the next time. */
+		msg.msg_iov = (struct iovec *) /* Grr! */ &iov[cur];
+		msg.msg_iovlen = iovcnt - cur;
+		msg.msg_iov[0].iov_base = (void *)
+			((char *) msg.msg_iov[0].iov_base + written);
+		msg.msg_iov[0].iov_len -= written;
 	}
 }
 
-- 
2.43.0


From 7987dd450b6c10d1ca241f0bae9eb45ac464effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 03/27] fix: reader: report a frame above max_frame_size as
 failure

res still held the success of reading the length, so fstrm_reader_read()
returned success without setting its output.
---
 fstrm/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 240ac0a..ae18d27 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -309,8 +309,10 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 			/* This is a data frame. */
 
 			/* Enforce maximum frame size. */
-			if (unlikely(len > r->max_frame_size))
+			if (unlikely(len > r->max_frame_size)) {
+				res = fstrm_res_failure;
 				goto fail;
+			}
 
 			/* Read the data frame. */
 			ubuf_clip(r->buf, 0);
-- 
2.43.0


From 4914365aeed594feedd5abdacc3eb4e5e6b68334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 04/27] fix: reader, writer: close the transport when opening
 or reading fails

After a failed handshake, or a protocol error in the stream, the transport
stayed open: nothing closed it afterwards, so the descriptor leaked, and a
new attempt to open called the open method of an open transport.
---
 fstrm/reader.c | 9 +++++----
 fstrm/writer.c | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index ae18d27..a6fdc32 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -265,13 +265,13 @@ fstrm_reader_open(struct fstrm_reader *r)
 	if (r->rdwr->ops.write != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__reader_open_bidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__reader_open_unidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		(void)fstrm_rdwr_close(r->rdwr);
+		return res;
 	}
 
 	r->state = fstrm_reader_state_opened;
@@ -352,6 +352,7 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 	}
 fail:
 	r->state = fstrm_reader_state_failed;
+	(void)fstrm_rdwr_close(r->rdwr);
 	return res;
 }
 
diff --git a/fstrm/writer.c b/fstrm/writer.c
index fb42cf6..29cee46 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -276,13 +276,13 @@ fstrm_writer_open(struct fstrm_writer *w)
 	if (w->rdwr->ops.read != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__writer_open_bidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__writer_open_unidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		(void)fstrm_rdwr_close(w->rdwr);
+		return res;
 	}
 
 	w->state = fstrm_writer_state_opened;
-- 
2.43.0


From 471ca73758fa1d8f55736b88c9e6a7f33caaad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 05/27] fix: reader: do not open an open transport again after
 STOP

Between reading the STOP frame and closing, fstrm_reader_open() called the
transport's open method a second time. When a closed reader is opened again
the STOP frame of the previous stream was leaked.
---
 fstrm/reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index a6fdc32..f590dcc 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -255,8 +255,11 @@ fstrm_reader_open(struct fstrm_reader *r)
 {
 	fstrm_res res;
 
-	if (r->state == fstrm_reader_state_opened)
+	if (r->state == fstrm_reader_state_opened ||
+	    r->state == fstrm_reader_state_closing)
+	{
 		return fstrm_res_failure;
+	}
 
 	res = fstrm_rdwr_open(r->rdwr);
 	if (res != fstrm_res_success)
@@ -344,6 +347,7 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 					FSTRM_CONTROL_FINISH, NULL);
 				*/
 				r->state = fstrm_reader_state_closing;
+				fstrm_control_destroy(&r->control_stop);
 				r->control_stop = r->control_tmp;
 				r->control_tmp = NULL;
 				return fstrm_res_stop;
-- 
2.43.0


From 1890774e0d3a5e1e4dcb3163e5d95f53a915c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 06/27] fix: control: refuse to add a content type that is too
 long

fstrm_control_add_field_content_type() is documented to do so.
---
 fstrm/control.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fstrm/control.c b/fstrm/control.c
index 297e7f3..6f754af 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -167,6 +167,11 @@ fstrm_control_add_field_content_type(struct fstrm_control *c,
 				     size_t len_content_type)
 {
 	fs_buf ctype;
+
+	/* Enforce limit on "Content Type" payload length. */
+	if (len_content_type > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)
+		return fstrm_res_failure;
+
 	ctype.len = len_content_type;
 	ctype.data = my_malloc(ctype.len);
 	memcpy(ctype.data, content_type, ctype.len);
-- 
2.43.0


From 813b22aee3ee2eae1fec38e0984324fc60e63f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 07/27] fix: control: the length limit does not include the
 frame header

FSTRM_CONTROL_FRAME_LENGTH_MAX limits the payload, and so does the decoder,
but encoding with the header failed from a payload of 505 bytes on.
---
 fstrm/control.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fstrm/control.c b/fstrm/control.c
index 6f754af..028ba9d 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -370,6 +370,7 @@ fstrm_control_encoded_size(const struct fstrm_control *c,
 			   const uint32_t flags)
 {
 	size_t len = 0;
+	size_t len_max = FSTRM_CONTROL_FRAME_LENGTH_MAX;
 
 	if (flags & FSTRM_CONTROL_FLAG_WITH_HEADER) {
 		/* Escape: 32-bit BE integer. */
@@ -377,6 +378,9 @@ fstrm_control_encoded_size(const struct fstrm_control *c,
 
 		/* Frame length: 32-bit BE integer. */
 		len += sizeof(uint32_t);
+
+		/* The limit does not include the header. */
+		len_max += len;
 	}
 
 	/* Control type: 32-bit BE integer. */
@@ -412,7 +416,7 @@ fstrm_control_encoded_size(const struct fstrm_control *c,
 	}
 
 	/* Sanity check the overall length. */
-	if (len > FSTRM_CONTROL_FRAME_LENGTH_MAX)
+	if (len > len_max)
 		return fstrm_res_failure;
 
 	*len_control_frame = len;
-- 
2.43.0


From 86d2a4ffabbbdae76e8c3a6a49bca80abbe522da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 08/27] fix: capture: accept control frames of the maximum
 length

len_frame_total includes the 8 byte header, the limit does not: control
frames with a payload of more than 503 bytes closed the connection.
---
 src/fstrm_capture.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 1d8c0a8..5c27ae0 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -901,7 +901,7 @@ load_control_frame(struct conn *conn)
 	uint8_t *control_frame = NULL;
 
 	/* Check if the frame is too big. */
-	if (conn->len_frame_total >= FSTRM_CONTROL_FRAME_LENGTH_MAX) {
+	if (conn->len_frame_total > FSTRM_CONTROL_FRAME_LENGTH_MAX + 2*sizeof(uint32_t)) {
 		/* Malformed. */
 		return false;
 	}
-- 
2.43.0


From 663815e4b919940a1910d527c673280932989c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 09/27] fix: writer: refuse frames that cannot be framed

A frame of length zero was sent as the escape sequence that announces a
control frame, and a length above 2^32-1 was truncated: both corrupt the
stream.
---
 fstrm/writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index 29cee46..49b2f52 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -397,6 +397,12 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 	if (unlikely(iovcnt < 1))
 		return fstrm_res_success;
 
+	/* A frame length must be non-zero and fit in 32 bits. */
+	for (int i = 0; i < iovcnt; i++) {
+		if (unlikely(iov[i].iov_len < 1 || iov[i].iov_len > UINT32_MAX))
+			return fstrm_res_invalid;
+	}
+
 	res = fstrm__writer_maybe_open(w);
 	if (res != fstrm_res_success)
 		return res;
-- 
2.43.0


From fb076ebba5c723b618d38c0110afbde0d4f6d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 10/27] fix: iothr: only accept a power of two as
 input_queue_size

This is what the documentation requires and what the queues need: other
even sizes made fstrm_iothr_init() fail.
---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9cf2bf1..3704209 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -162,7 +162,7 @@ fstrm_iothr_options_set_input_queue_size(struct fstrm_iothr_options *opt,
 {
 	if (input_queue_size < FSTRM_IOTHR_INPUT_QUEUE_SIZE_MIN ||
 	    input_queue_size > FSTRM_IOTHR_INPUT_QUEUE_SIZE_MAX ||
-	    input_queue_size & 1)
+	    input_queue_size & (input_queue_size - 1))
 	{
 		return fstrm_res_failure;
 	}
-- 
2.43.0


From 9874ad96cf174a2f7abbfd445c737c8190f9ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 11/27] fix: capture: do not lose synchronisation on frames of
 nearly 4 GiB

With a payload length of 2^32-4 or more len_frame_total wrapped around, the
frame was taken for complete and a bogus frame was written to the output.
---
 src/fstrm_capture.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 5c27ae0..86a8839 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -86,7 +86,7 @@ struct conn {
 	struct capture		*ctx;
 	conn_state		state;
 	uint32_t		len_frame_payload;
-	uint32_t		len_frame_total;
+	size_t			len_frame_total;
 	size_t			len_buf;
 	size_t			bytes_read;
 	size_t			bytes_skip;
@@ -624,7 +624,7 @@ close_write_file(struct capture *ctx)
 static void
 process_data_frame(struct conn *conn)
 {
-	conn_log(CONN_TRACE, conn, "processing data frame (%u bytes)",
+	conn_log(CONN_TRACE, conn, "processing data frame (%zd bytes)",
 		 conn->len_frame_total);
 
 	/*
@@ -913,7 +913,7 @@ load_control_frame(struct conn *conn)
 		return false;
 	}
 	conn_log_data(CONN_TRACE, conn, control_frame, conn->len_frame_total,
-		      "reading control frame (%u bytes): ", conn->len_frame_total);
+		      "reading control frame (%zd bytes): ", conn->len_frame_total);
 
 	/* Decode the control frame. */
 	res = fstrm_control_decode(conn->control,
@@ -994,11 +994,11 @@ can_read_full_frame(struct conn *conn)
 	 * exactly 'len_frame_total'.
 	 */
 	if (conn->len_buf < conn->len_frame_total) {
-		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %u)",
+		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %zd)",
 			 conn->len_buf, conn->len_frame_total);
 		if (conn->len_frame_total > conn->ctx->capture_highwater) {
 			conn_log(CONN_WARNING, conn,
-				"Skipping %u byte message (%zd buffer)",
+				"Skipping %zd byte message (%zd buffer)",
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
-- 
2.43.0


From e87bfe7779cabbd9868e0241680fc1eea3d7d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 12/27] fix: capture: refuse data frames before START and after
 STOP

They were written to the output, even from clients that had not completed
the handshake or offered another content type.
---
 src/fstrm_capture.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 86a8839..916379b 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -956,6 +956,14 @@ can_read_full_frame(struct conn *conn)
 	/* Account for the length of the frame payload. */
 	conn->len_frame_total += conn->len_frame_payload;
 
+	/* Data frames are only allowed between START and STOP. */
+	if (conn->len_frame_payload != 0 &&
+	    conn->state != CONN_STATE_READING_DATA)
+	{
+		cb_close_conn(conn->bev, 0, conn);
+		return false;
+	}
+
 	/* Check if this is a control frame. */
 	if (conn->len_frame_payload == 0) {
 		uint32_t len_control_frame = 0;
-- 
2.43.0


From 2a44fbe104d146745b10c544f8a360fd3e08fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 13/27] fix: capture: fail if the output cannot be written when
 it is closed

Most of the output is usually still in the stdio buffer then. The result of
fclose() was ignored and the program exited successfully.
---
 src/fstrm_capture.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 916379b..33cf2c7 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -609,8 +609,13 @@ close_write_file(struct capture *ctx)
 			return false;
 
 		/* Close the FILE object. */
-		fclose(ctx->output_file);
+		FILE *fp = ctx->output_file;
 		ctx->output_file = NULL;
+		if (fclose(fp) != 0) {
+			fprintf(stderr, "%s: fclose() failed: %s\n",
+				argv_program, strerror(errno));
+			return false;
+		}
 	}
 
 	/* Success. */
-- 
2.43.0


From c7f5099e495a033709e5785ba770d92f275fcf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 14/27] fix: replay: exit with failure if the stream was not
 closed properly

If the STOP frame could not be sent or the peer did not confirm it with a
FINISH frame, frames may have been lost.
---
 src/fstrm_replay.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 0b717cd..996085c 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -288,5 +288,5 @@ int main(int argc, char **argv)
 		fputs("Error: fstrm_writer_close() failed", stderr);
 
 	fstrm_writer_destroy(&w);
-	return 0;
+	return (res == fstrm_res_success) ? EXIT_SUCCESS : EXIT_FAILURE;
 }
-- 
2.43.0


From c9030b6cf534a466d4cf4a33250e85f92387ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 15/27] fix: reader: ignore control frames of unknown types
 between data frames

The protocol requires this for forward compatibility (see control.h), but
decoding such a frame failed and with it the whole stream.
---
 fstrm/rdwr.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index dc181ba..2c71a0e 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -185,8 +185,22 @@ fstrm__rdwr_read_control_frame(struct fstrm_rdwr *rdwr,
 	if (res != fstrm_res_success)
 		return res;
 
-	/* Decode the control frame. */
 	assert(control != NULL);
+
+	/*
+	 * For forward compatibility, a control frame of an unknown type must
+	 * be ignored if it occurs between data frames. It can't be decoded, so
+	 * only tell the caller its type.
+	 */
+	if (!with_escape && type != NULL && len_control_frame >= sizeof(tmp)) {
+		memcpy(&tmp, control_frame, sizeof(tmp));
+		*type = (fstrm_control_type) ntohl(tmp);
+		res = fstrm_control_set_type(control, *type);
+		if (res != fstrm_res_success)
+			return fstrm_res_success;
+	}
+
+	/* Decode the control frame. */
 	res = fstrm_control_decode(control,
 				   control_frame, len_control_frame,
 				   flags);
-- 
2.43.0


From 7195d616aae1aea918f27c2f66003c3c1c912d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 16/27] fix: reader: send FINISH only after STOP was received

FINISH tells the writer that its STOP frame, and so every data frame before
it, was received.  A reader closed early sent it, too, and the close of the
writer succeeded although the rest of the stream was lost.
---
 fstrm/reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index f590dcc..74fbad9 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -385,9 +385,12 @@ fstrm_reader_close(struct fstrm_reader *r)
 		return fstrm_res_failure;
 	}
 
+	/* FINISH acknowledges a STOP frame. */
+	const bool finish = (r->state == fstrm_reader_state_closing);
+
 	r->state = fstrm_reader_state_closed;
 
-	if (r->rdwr->ops.write != NULL) {
+	if (finish && r->rdwr->ops.write != NULL) {
 		/* For bi-directional transports, write the FINISH frame. */
 		res = fstrm__rdwr_write_control(r->rdwr, FSTRM_CONTROL_FINISH, NULL);
 		if (res != fstrm_res_success) {
-- 
2.43.0


From f8b219c8b2e22f72980cfdce31630f854af51087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 17/27] fix: iothr: wake the I/O thread at
 queue_notify_threshold outstanding entries

The threshold was compared with the space that remained in the input queue:
the default of 32 woke the thread at 479 of 511 outstanding entries.
---
 fstrm/iothr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 3704209..fd4bd69 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -437,7 +437,10 @@ fstrm_iothr_submit(struct fstrm_iothr *iothr, struct fstrm_iothr_queue *ioq,
 	entry.free_data = free_data;
 
 	if (likely(len > 0) && iothr->queue_ops->insert(ioq->q, &entry, &space)) {
-		if (space == iothr->opt.queue_notify_threshold)
+		/* An input queue has room for one entry less than its size. */
+		unsigned outstanding = iothr->opt.input_queue_size - 1 - space;
+
+		if (outstanding == iothr->opt.queue_notify_threshold)
 			pthread_cond_signal(&iothr->cv);
 		return fstrm_res_success;
 	} else {
-- 
2.43.0


From 6891da1eae2568a719d97e3683f25bfce9e7558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 18/27] fix: argv: do not read past the end of the option table

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..218c3f7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 96179190ace25d0cb07f1623cb3d645cf300c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 19/27] fix: fstrm_capture: fail if flushing the output fails

---
 src/fstrm_capture.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 33cf2c7..39926db 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -493,7 +493,8 @@ open_write_start(struct capture *ctx)
 	n_written = fwrite(control_frame, len_control_frame, 1, ctx->output_file);
 	if (n_written != 1)
 		goto fail;
-	(void) fflush(ctx->output_file);
+	if (fflush(ctx->output_file) != 0)
+		goto fail;
 
 	/* Success. */
 	ctx->bytes_written += len_control_frame;
@@ -1151,7 +1152,12 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 {
 	struct capture *ctx = user_data;
 	if (ctx->output_file) {
-		fflush(ctx->output_file);
+		/* Buffered data is lost if this fails. Fail hard. */
+		if (fflush(ctx->output_file) != 0) {
+			fprintf(stderr, "%s: fflush() failed: %s\n",
+				argv_program, strerror(errno));
+			exit(EXIT_FAILURE);
+		}
 		fprintf(stderr, "%s: received SIGHUP, flushing output\n", argv_program);
 	}
 }
-- 
2.43.0


From 916ed474132cb89bdbbf6e9a0507fc14602068c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 20/27] fix: replay: exit with failure if a file could not be
 read to its end

---
 src/fstrm_replay.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 996085c..93ef3af 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -199,9 +199,11 @@ init_writer(void)
 	return w;
 }
 
-static void
+/* Returns false if the data in the file could not be read to its end. */
+static bool
 process_file(const char *fname, struct fstrm_writer *w)
 {
+	bool success = true;
 	struct fstrm_reader *r = NULL;
 	struct fstrm_file_options *fopt = NULL;
 	const struct fstrm_control *control = NULL;
@@ -215,7 +217,7 @@ process_file(const char *fname, struct fstrm_writer *w)
 	fstrm_file_options_destroy(&fopt);
 	if (r == NULL) {
 		fprintf(stderr, "Warning: failed to open %s, skipping\n", fname);
-		return;
+		return true;
 	}
 
 	/* Check file content type. */
@@ -223,7 +225,7 @@ process_file(const char *fname, struct fstrm_writer *w)
 	if (res != fstrm_res_success) {
 		fprintf(stderr, "Warning: failed to read control frame from %s, skipping\n", fname);
 		fstrm_reader_destroy(&r);
-		return;
+		return true;
 	}
 
 	res = fstrm_control_match_field_content_type(control,
@@ -232,7 +234,7 @@ process_file(const char *fname, struct fstrm_writer *w)
 	if (res != fstrm_res_success) {
 		fprintf(stderr, "Warning: content type mismatch for %s, skipping\n", fname);
 		fstrm_reader_destroy(&r);
-		return;
+		return true;
 	}
 
 	/* Loop over file data. */
@@ -258,15 +260,17 @@ process_file(const char *fname, struct fstrm_writer *w)
 		} else {
 			/* Abnormal end. */
 			fprintf(stderr, "Error: fstrm_reader_read() failed.\n");
+			success = false;
 			break;
 		}
 	}
 	fstrm_reader_destroy(&r);
+	return success;
 }
 
 int main(int argc, char **argv)
 {
-	int i;
+	int i, rv = EXIT_SUCCESS;
 	fstrm_res res;
 	struct fstrm_writer *w = NULL;
 
@@ -280,13 +284,16 @@ int main(int argc, char **argv)
 	for (i = 0; i < ARGV_ARRAY_COUNT(g_program_args.files); i++) {
 		const char *in_fname;
 		in_fname = ARGV_ARRAY_ENTRY(g_program_args.files, char *, i);
-		process_file(in_fname, w);
+		if (!process_file(in_fname, w))
+			rv = EXIT_FAILURE;
 	}
 
 	res = fstrm_writer_close(w);
-	if (res != fstrm_res_success)
+	if (res != fstrm_res_success) {
 		fputs("Error: fstrm_writer_close() failed", stderr);
+		rv = EXIT_FAILURE;
+	}
 
 	fstrm_writer_destroy(&w);
-	return (res == fstrm_res_success) ? EXIT_SUCCESS : EXIT_FAILURE;
+	return rv;
 }
-- 
2.43.0


From 0d0b16d660c6685e4291fa61ba96e36684c19a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 21/27] fix: fstrm_capture: terminate on SIGTERM and SIGINT
 whenever they arrive

The handler called event_base_loopexit(), which allocates memory and adds a
timer, and so must not be called from a signal handler. A signal that arrived
just before the event loop went to sleep was lost until the next event.
---
 src/fstrm_capture.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 39926db..724a6f6 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -107,6 +107,8 @@ struct capture {
 	struct evconnlistener	*ev_connlistener;
 	struct event		*ev_sighup;
 	struct event		*ev_sigusr1;
+	struct event		*ev_sigterm;
+	struct event		*ev_sigint;
 
 	FILE			*output_file;
 	char			*output_fname;
@@ -1162,6 +1164,14 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 	}
 }
 
+static void
+do_shutdown(__attribute__((unused)) evutil_socket_t sig,
+	    __attribute__((unused)) short events, void *user_data)
+{
+	struct capture *ctx = user_data;
+	event_base_loopexit(ctx->ev_base, NULL);
+}
+
 static bool
 setup_event_loop(struct capture *ctx)
 {
@@ -1196,31 +1206,27 @@ setup_event_loop(struct capture *ctx)
 				       &g_program_ctx);
 	evsignal_add(ctx->ev_sigusr1, NULL);
 
+	/* Register our SIGTERM and SIGINT handlers. */
+	ctx->ev_sigterm = evsignal_new(ctx->ev_base, SIGTERM, &do_shutdown,
+				       &g_program_ctx);
+	evsignal_add(ctx->ev_sigterm, NULL);
+	ctx->ev_sigint = evsignal_new(ctx->ev_base, SIGINT, &do_shutdown,
+				      &g_program_ctx);
+	evsignal_add(ctx->ev_sigint, NULL);
+
 	/* Success. */
 	return true;
 }
 
-static void
-shutdown_handler(int signum __attribute__((unused)))
-{
-	event_base_loopexit(g_program_ctx.ev_base, NULL);
-}
-
 static bool
 setup_signals(void)
 {
 	struct sigaction sa = {
-		.sa_handler = shutdown_handler,
+		.sa_handler = SIG_IGN,
 	};
 
 	if (sigemptyset(&sa.sa_mask) != 0)
 		return false;
-	if (sigaction(SIGTERM, &sa, NULL) != 0)
-		return false;
-	if (sigaction(SIGINT, &sa, NULL) != 0)
-		return false;
-
-	sa.sa_handler = SIG_IGN;
 	if (sigaction(SIGPIPE, &sa, NULL) != 0)
 		return false;
 
@@ -1236,6 +1242,10 @@ cleanup(struct capture *ctx)
 		event_free(ctx->ev_sighup);
 	if (ctx->ev_sigusr1 != NULL)
 		event_free(ctx->ev_sigusr1);
+	if (ctx->ev_sigterm != NULL)
+		event_free(ctx->ev_sigterm);
+	if (ctx->ev_sigint != NULL)
+		event_free(ctx->ev_sigint);
 	if (ctx->ev_connlistener != NULL)
 		evconnlistener_free(ctx->ev_connlistener);
 	if (ctx->ev_base != NULL)
-- 
2.43.0


From 6ec43d5154f33a7518eed35c4a1c3d1975f66038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 22/27] fix: argv: grow the option queue as needed

An argument of several short options ("-twutwu"), or a file of arguments,
can queue more options than there are arguments; they were written past the
end of the queue.
---
 libmy/argv.c | 114 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 77 insertions(+), 37 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 218c3f7..136c57a 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2150,7 +2150,8 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments, which is grown as needed.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2163,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2257,8 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p,
+	  okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2269,6 +2271,58 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static void queue_arg
+ *
+ * DESCRIPTION:
+ *
+ * Add an option which needs a value to the end of our option queue.
+ * One argument may add several of them ("-abc"), and so may a file.
+ *
+ * RETURNS:
+ *
+ * None.
+ *
+ * ARGUMENTS:
+ *
+ * match_p -> Entry in our argv_t structure array or NULL for the file
+ * argument.
+ *
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments, which is grown as needed.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * okay_bp <- Pointer to an integer which is set with 0 if we are out
+ * of memory.
+ */
+static	void	queue_arg(argv_t *match_p, argv_t ***queue_list_p,
+			  int *queue_head_p, int *okay_bp)
+{
+  argv_t	**queue_list;
+  
+  /* do we need to grow the queue? */
+  if (*queue_head_p % ARRAY_INCR == 0) {
+    queue_list = (argv_t **)realloc(*queue_list_p,
+				    sizeof(argv_t *) *
+				    (*queue_head_p + ARRAY_INCR));
+    if (queue_list == NULL) {
+      if (argv_error_stream != NULL) {
+	(void)fprintf(argv_error_stream,
+		      "%s: memory error during argument processing\n",
+		      argv_program);
+      }
+      *okay_bp = ARGV_FALSE;
+      return;
+    }
+    *queue_list_p = queue_list;
+  }
+  
+  (*queue_list_p)[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+}
+
 /*
  * static void do_arg
  *
@@ -2291,7 +2345,8 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments, which is grown as needed.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2355,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2411,7 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    queue_arg(match_p, queue_list_p, queue_head_p, okay_bp);
   }
 }
 
@@ -2421,7 +2475,8 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments, which is grown as needed.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2488,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2580,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2591,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  queue_arg(NULL, queue_list_p, queue_head_p, okay_bp);
 	}
 	continue;
       }
@@ -2708,7 +2762,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2741,7 +2795,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2751,12 +2805,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3124,7 +3178,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3186,22 +3240,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
-
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
   
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3209,12 +3251,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3233,9 +3275,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From a7e5265a002a681c0ec5ad87c8a6f18de834ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 23/27] fix: argv: accept a negative number after an option
 that names a file of arguments

The option that is waiting for its value is null in this case.
---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 136c57a..29ebc6e 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2760,7 +2760,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	   * to Nick Kisseberth for pointing out this oversight.
 	   */
 	  if (char_c == 0 && is_number(*arg_p)
-	      && *queue_head_p > *queue_tail_p) {
+	      && *queue_head_p > *queue_tail_p
+	      && (*queue_list_p)[*queue_tail_p] != NULL) {
 	    
 	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
-- 
2.43.0


From 454b73e86034ec800479c2519cc1e6c82a551ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 24/27] fix: iothr: make the first attempt to open the output
 at once

last_open_attempt starts as 0, so while the monotonic clock shows less than
reopen_interval (up to 10 minutes after the machine was booted) the output was
not opened, and the frames submitted were discarded.
---
 fstrm/iothr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index fd4bd69..56514b8 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -80,7 +80,8 @@ struct fstrm_iothr {
 	/* Whether the writer is opened or not. */
 	bool				opened;
 
-	/* Last time the writer's 'open' method was called. */
+	/* Whether, and the last time, the writer's 'open' method was called. */
+	bool				open_attempted;
 	time_t				last_open_attempt;
 
 	/* Allocated array of input queues, size opt.num_input_queues. */
@@ -575,10 +576,12 @@ fstrm__iothr_maybe_open(struct fstrm_iothr *iothr)
 	my_gettime(-1, &ts);
 #endif
 	since = ts.tv_sec - iothr->last_open_attempt;
-	if (since < (time_t) iothr->opt.reopen_interval)
+	if (iothr->open_attempted &&
+	    since < (time_t) iothr->opt.reopen_interval)
 		return;
 
 	/* Attempt to open the transport. */
+	iothr->open_attempted = true;
 	iothr->last_open_attempt = ts.tv_sec;
 	if (fstrm__iothr_open(iothr) != fstrm_res_success)
 		return;
-- 
2.43.0


From e81fda424d5280e255e909f594e6f14d4ea37b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 25/27] fix: dump: exit with failure if standard output cannot
 be written

---
 src/fstrm_dump.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstrm_dump.c b/src/fstrm_dump.c
index cf7e38e..a2a13bd 100644
--- a/src/fstrm_dump.c
+++ b/src/fstrm_dump.c
@@ -225,5 +225,11 @@ out:
 		fstrm_writer_destroy(&w);
 	}
 
+	/* Data frames are only shown if standard output could be written. */
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "Error: failed to write to standard output.\n");
+		rv = EXIT_FAILURE;
+	}
+
 	return rv;
 }
-- 
2.43.0


From 92c6631823b8bac27610bcf5850a2d830e44c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:58 +0000
Subject: [PATCH 26/27] fix: capture: survive a signal that arrives during
 cleanup

Freeing the signal events restores the signals' default actions, so that
e.g. a second SIGTERM or a late SIGHUP that arrived between then and the
end of the program killed it instead of leaving the exit status alone.
---
 src/fstrm_capture.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 724a6f6..c25802d 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -1304,6 +1304,19 @@ main(int argc, char **argv)
 	/* Shut down. */
 	if (!close_write_file(&g_program_ctx))
 		return EXIT_FAILURE;
+
+	/*
+	 * Deleting the signal events restores the default actions of the
+	 * signals. Don't get killed by a late one.
+	 */
+	sigset_t sigs;
+	sigemptyset(&sigs);
+	sigaddset(&sigs, SIGUSR1);
+	sigaddset(&sigs, SIGHUP);
+	sigaddset(&sigs, SIGINT);
+	sigaddset(&sigs, SIGTERM);
+	sigprocmask(SIG_BLOCK, &sigs, NULL);
+
 	cleanup(&g_program_ctx);
 
 	/* Success. */
-- 
2.43.0


From d1e333c022d69b10f1a195f5b307db4a5acba08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:04 +0000
Subject: [PATCH 27/27] fix: iothr: do not let a trickle of entries defer the
 flush beyond flush_timeout

---
 fstrm/iothr.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 56514b8..8c7fdf9 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -607,6 +607,9 @@ fstrm__iothr_thr(void *arg)
 	fstrm__iothr_thr_setup();
 	fstrm__iothr_maybe_open(iothr);
 
+	struct timespec ts;
+	bool have_deadline = false;
+
 	for (;;) {
 		int res;
 		unsigned count;
@@ -624,25 +627,34 @@ fstrm__iothr_thr(void *arg)
 		if (count != 0)
 			continue;
 
-		struct timespec ts;
+		/*
+		 * Keep the deadline until it has passed. If each wakeup by a
+		 * producer moved it, a steady trickle of entries would defer
+		 * the flush indefinitely.
+		 */
+		if (!have_deadline) {
 #if HAVE_CLOCK_GETTIME
 #if HAVE_PTHREAD_CONDATTR_SETCLOCK
-		int rv = clock_gettime(iothr->clkid_pthread, &ts);
+			int rv = clock_gettime(iothr->clkid_pthread, &ts);
 #else
-		int rv = clock_gettime(CLOCK_REALTIME, &ts);
+			int rv = clock_gettime(CLOCK_REALTIME, &ts);
 #endif
-		assert(rv == 0);
+			assert(rv == 0);
 #else
-		my_gettime(-1, &ts);
+			my_gettime(-1, &ts);
 #endif
-		ts.tv_sec += iothr->opt.flush_timeout;
+			ts.tv_sec += iothr->opt.flush_timeout;
+			have_deadline = true;
+		}
 
 		pthread_mutex_lock(&iothr->cv_lock);
 		res = pthread_cond_timedwait(&iothr->cv, &iothr->cv_lock, &ts);
 		pthread_mutex_unlock(&iothr->cv_lock);
 
-		if (res == ETIMEDOUT)
+		if (res == ETIMEDOUT) {
 			fstrm__iothr_flush_output(iothr);
+			have_deadline = false;
+		}
 	}
 
 	return NULL;
-- 
2.43.0

