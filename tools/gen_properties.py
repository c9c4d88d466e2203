#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to review)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=hook)))

prop("C01","Control frames encode canonically and round-trip",
 "For every control frame of one of the five defined types whose content types are at most 256 bytes each and whose payload (without the 8-byte header) is at most 512 bytes, the size announced in advance equals the number of bytes the encoder writes, those bytes are exactly the documented wire format (START carries only its first content type, STOP and FINISH none), and decoding them, with or without the header, gives back the same type and the same content types in the same order. A content type longer than 256 bytes, a payload longer than 512 bytes, or an output buffer smaller than the encoding is refused. The encoder never writes outside the announced number of bytes.",
 ["inputs","histories"],
 "All five types x with/without header x every list of content-type lengths on a dense grid around every limit (0..257 each, payload 4..520, up to 64 fields) x output buffer sizes around the exact size, plus every operation sequence on one control object up to a depth.",
 "test_control encodes a dozen fixed frames; it never reaches the 256/512 limits, header-included limits, or reuse of an object after other operations.",
 ["fstrm/control.c","fstrm/control.h","fstrm/fstrm-private.h"],
 [("size computation and limit checks","fstrm_control_encoded_size"),("serialisation","fstrm_control_encode"),("field list","fstrm_control_add_field_content_type")],
 observe=["fstrm_control_encoded_size","fstrm_control_encode","fstrm_control_decode","fstrm_control_get_*"])

prop("C02","The control-frame decoder accepts exactly the well-formed frames",
 "Given any byte string, with or without the header flag, decoding succeeds if and only if the bytes are exactly one well-formed control frame (a known type, only content-type fields, consistent inner and outer lengths, at most 512 payload bytes and 256 bytes per content type, at most one content type in START and none in STOP or FINISH), and then the accessors report precisely what the bytes say. The outcome does not depend on what the control object held before, and a refused input leaves the object usable for the next decode. No byte outside the given input is read and no memory is lost.",
 ["inputs","histories"],
 "All strings built from a grammar of 32-bit words and payload chunks up to a word bound, every single-byte/word mutation and truncation of valid frames, payload lengths across 0..1100, each decoded into a fresh object and into objects left by every other input class.",
 "test_control feeds fewer than 30 fixed strings, each to one object, and does not check what is left in the object.",
 ["fstrm/control.c","fstrm/fstrm-private.h"],
 [("bounds-checked loads","fs_load_be32, fs_load_bytes"),("field-count limits per type","fstrm_control_decode")],
 observe=["fstrm_control_decode","fstrm_control_get_type","fstrm_control_get_num_field_content_type","fstrm_control_get_field_content_type"])

prop("C03","Content-type matching is exact",
 "A control frame matches a content type if and only if it is not a STOP or FINISH frame and it either carries no content type at all or carries one that is equal to it byte for byte (same length, embedded NUL bytes significant, any position in the list); an absent content type matches only a frame that carries none. A START frame is judged by its first content type only.",
 ["inputs"],
 "All types x all lists of up to 3 content types over an alphabet with shared prefixes, embedded NULs, empty and maximum-length strings x all candidates from the same alphabet and the absent one, for frames built by the API and for frames decoded from bytes.",
 "test_control checks one candidate per fixed frame; prefixes, embedded NULs, empty strings and second or later list positions are not covered.",
 ["fstrm/control.c"],
 [("match rule","fstrm_control_match_field_content_type")],
 observe=["fstrm_control_match_field_content_type"])

prop("C04","Writer handshake: data flows only after the peer accepted",
 "Opening a writer on a bi-directional transport sends exactly one READY frame listing all its content types in order, and succeeds if and only if the peer answers with a well-formed ACCEPT frame that matches at least one of them (or the writer has none); it then sends exactly one START frame carrying the first of its own content types that matches, and the control frames it reports afterwards are the ones exchanged. On a uni-directional transport opening sends exactly one START frame with the writer's first content type, if any. A peer that answers anything else, or nothing, receives no START frame and no data frame, and the open reports failure. Closing such a writer sends STOP and succeeds only if the peer answers with a well-formed FINISH frame.",
 ["inputs","fault_sequences","configurations"],
 "All writer content-type lists up to 3 over an alphabet x all peer answers (every control type x every list of up to 3 content types, malformed, truncated at every byte, over-long, data frame instead) x a transport failure at every operation.",
 "The tests only run one writer with one matching content type against a well-behaved peer.",
 ["fstrm/writer.c","fstrm/rdwr.c","fstrm/control.c"],
 [("negotiation","fstrm_writer_open / open_bidirectional"),("control frame exchange","fstrm__rdwr_read_control, fstrm__rdwr_write_control_frame")],
 observe=["fstrm_writer_open","transport write/read callbacks","fstrm_writer_get_control"])

prop("C05","Reader handshake: only a matching START opens a reader",
 "Opening a reader on a bi-directional transport consumes one READY frame and answers with exactly one ACCEPT frame listing, in the reader's order, exactly those of its content types that the READY frame matches; on either kind of transport the open then succeeds if and only if the next bytes are a well-formed START frame that matches one of the reader's content types (or the reader has none). Every other peer behaviour makes the open fail, nothing but that ACCEPT frame is ever sent before the open succeeds, and the control frames reported afterwards are the ones exchanged.",
 ["inputs","fault_sequences","configurations"],
 "All reader content-type lists up to 3 x all peer READY/START frames (types, lists up to 3, malformed, truncated at every byte) x a transport failure at every operation.",
 "No test opens a bi-directional library reader at all; file tests use one content type and well-formed input.",
 ["fstrm/reader.c","fstrm/rdwr.c","fstrm/control.c"],
 [("negotiation","fstrm_reader_open / open_bidirectional"),("START check","open_unidirectional")],
 observe=["fstrm_reader_open","transport write/read callbacks","fstrm_reader_get_control"])

prop("C06","A writer emits exactly the framed stream",
 "For every sequence of single and vectored writes, the bytes handed to the transport after the START frame are, for each frame of each successful call in order, its length as a 4-byte big-endian integer followed by its payload, for every batch size, and on close exactly one STOP frame follows; there is nothing else before, between or after. A frame of length zero or longer than 2^32-1 bytes is refused without a byte of that call being sent, and nothing can be written after close or after a transport failure, which is reported to the caller.",
 ["inputs","histories","fault_sequences"],
 "All batch sizes 0..600 and around every multiple of the internal chunk, frame sizes on a dense grid incl. zero and 2^32 neighbourhood, all call sequences (open/write/writev/close/get_control) up to a depth, and a transport failure at every write.",
 "test_writer_hello writes a handful of fixed frames; batches above one chunk, odd lengths, failures and call orders are not sampled.",
 ["fstrm/writer.c","fstrm/rdwr.c"],
 [("iovec assembly and chunking","fstrm__writer_write_iov, write_iov_stupid"),("state machine","fstrm_writer_open/close")],
 observe=["transport write callback","return values"])

prop("C07","A reader returns exactly the frames in the stream",
 "For every input byte stream, each successful read returns the exact bytes of the next data frame, in order; control frames of unknown type between data frames are skipped, and after a STOP frame the reader reports end of stream and consumes nothing beyond it. A truncated stream, a frame longer than the configured maximum or a malformed control frame never produces a successful read, is not reported as a STOP having been received, and no later read succeeds. Frames of every length from 1 to the configured maximum are accepted.",
 ["inputs","histories","configurations"],
 "All token sequences (data frames of several sizes, each control type, unknown types, malformed and truncated tokens) up to a depth, truncation at every byte, lengths around every limit for several configured maxima, and every order of read/close/get_control calls up to a depth.",
 "File tests read only well-formed streams produced by the library itself.",
 ["fstrm/reader.c","fstrm/rdwr.c","libmy/ubuf.h","libmy/vector.h"],
 [("frame loop","fstrm_reader_read / next_data"),("limit","max_frame_size"),("buffer growth","ubuf_reserve")],
 observe=["fstrm_reader_read","fstrm_reader_get_control","bytes consumed from the transport"])

prop("C08","Connected writer and reader agree and never deadlock",
 "When a library writer and a library reader are joined by a bi-directional byte stream, then under every scheduling and every buffering of the two sides both terminate; either both open with the same content type, acceptable to both (or unset), or the reader receives no data frame and the writer's open or, at the latest, its close reports failure. Once both are open, the reader receives exactly the frames the writer wrote, in order, followed by end of stream; if one side disappears it receives an unbroken beginning of them. The writer's close succeeds only if the reader saw the STOP and answered FINISH.",
 ["schedules","configurations","histories"],
 "All content-type list pairs up to 2x2 over an alphabet, up to 3 frames, pipe capacities from 1 byte up, all interleavings of the two threads, and an early close or disappearance of either side at every step.",
 "The socket tests use a single hand-written C reader, one content type and real scheduling.",
 ["fstrm/writer.c","fstrm/reader.c","fstrm/rdwr.c","fstrm/control.c"],
 [("READY/ACCEPT/START/STOP/FINISH exchange","fstrm_writer_open/close, fstrm_reader_open/read/close")],
 observe=["return values on both sides","frames read"])

prop("C09","Transports are opened, closed and destroyed in balance",
 "Over every history of calls on a reader or writer and every pattern of transport failures, the transport's read and write methods are only invoked between a successful open and the matching close, every successful open is followed by exactly one close no later than the next open or the destruction of the object, and the transport is destroyed exactly once, after which nothing of it is used. A failing transport operation is reported by the call that needed it, and all memory is released when the object is destroyed.",
 ["histories","fault_sequences"],
 "Every call sequence (open, read/write, writev, get_control, close, destroy) up to a depth on uni- and bi-directional readers and writers, with failure, end-of-stream or misbehaving peer data injected at every subset of up to 3 transport operations.",
 "The existing tests never inject a transport failure and call the methods in the one expected order.",
 ["fstrm/rdwr.c","fstrm/reader.c","fstrm/writer.c"],
 [("opened flag, close on failure","fstrm_rdwr_*"),("destroy closes if needed","fstrm_reader_destroy, fstrm_writer_destroy")],
 observe=["transport open/close/read/write/destroy callbacks","allocations outstanding"])

prop("C10","Socket writers put every byte on the wire exactly once",
 "For unix and TCP writers, whatever lengths the kernel accepts or returns per call and wherever calls are interrupted by signals, the bytes received by the peer are exactly the stream in order, no byte lost, repeated or altered and the caller's buffers untouched, and handshake replies are read exactly. A connection error or a peer that closes is reported as failure and never as success, never raises SIGPIPE, and never blocks or spins once the call has failed. Every socket that is created is closed exactly once, including when connecting fails.",
 ["fault_sequences","inputs"],
 "For iovec batches of 1..300 entries with several length patterns: every position of every short write (and pairs of short writes, byte-at-a-time), EINTR before any call, an error at any call; for reads every split and EOF/error point; failures of socket, connect and close.",
 "On a loopback socket with small frames the kernel accepts each write whole, so the continuation path never runs in the tests.",
 ["fstrm/unix_writer.c","fstrm/tcp_writer.c","libmy/read_bytes.h"],
 [("sendmsg continuation loop","fstrm__unix_writer_op_write, fstrm__tcp_writer_op_write"),("read loop","read_bytes"),("connect/close","op_open, op_close")],
 observe=["bytes accepted by sendmsg/send/write","return values","descriptors"])

prop("C11","File streams round-trip and never hide an I/O error",
 "Frames written to a file and closed successfully are read back byte for byte in order, ending with end of stream, for every frame size and count. If the file system fails or runs out of space at any byte, some call (write or close) reports failure, the file then holds a prefix of the stream, and reading that prefix returns only complete frames that were written, without ever reporting that a STOP was received. Every file opened is closed exactly once, and a missing or unreadable file makes the open fail.",
 ["fault_sequences","crash_points","inputs"],
 "Frame-size lists on a dense grid through real files; a write error at every byte position, a crash (truncation) at every byte of the file, open and close failures, read errors at every read.",
 "File tests only exercise complete, error-free files.",
 ["fstrm/file.c","fstrm/writer.c","fstrm/reader.c"],
 [("fread/fwrite error handling","fstrm__file_op_read, fstrm__file_op_write, fstrm__file_op_close")],
 observe=["file contents","return values","open streams"])

prop("C12","The single-producer queue is a correct bounded FIFO",
 "Under every interleaving of one producer and one consumer, a queue of N entries (N a power of two, at least 2) delivers the inserted elements intact, exactly once and in order; an insert is refused only when N-1 elements are present and a remove only when none is present at some moment during the call. The remaining space an insert reports and the count a remove reports (after its own element) were true at some moment during the call, and a size that is not a power of two or is below 2 is refused.",
 ["schedules","histories","configurations"],
 "All interleavings, at the granularity of individual shared-memory accesses, of a producer and a consumer performing many operations each (several times around the ring) for N=2,4,8,16 and element sizes 1..64.",
 "test_queue runs real threads for 1 second with one size; it samples a tiny set of schedules.",
 ["libmy/my_queue_mb.c","libmy/my_queue.h","libmy/my_memory_barrier.h"],
 [("head/tail publication order","my_queue_mb_insert, my_queue_mb_remove")],
 state=[dict(name="head, tail",meaning="ring indices, each written by one side",where="struct my_queue")],
 observe=["insert/remove results"])

prop("C13","The multi-producer queue is a correct bounded FIFO",
 "Under every interleaving of several producers and one consumer, a queue of N entries (N a power of two, at least 2) delivers each inserted element intact and exactly once, in an order consistent with the order of the inserts, and every operation appears to take effect at one instant between its call and return, including its refusal when N-1 elements are present (insert) or none (remove) and the space or count it reports. No operation blocks forever.",
 ["schedules","histories","configurations"],
 "All interleavings of 2 or 3 producers and a consumer with several operations each, N=2,4,8, down to individual unsynchronised memory accesses.",
 "test_queue's mutex variant is sampled with two threads only.",
 ["libmy/my_queue_mutex.c","libmy/my_queue.h"],
 [("lock held across each operation","my_queue_mutex_insert, my_queue_mutex_remove")],
 observe=["insert/remove results"])

prop("C14","Accepted frames are delivered exactly once and in order",
 "With a working output, every data frame accepted for submission before shutdown begins and while the output is open appears in the output exactly once, unmodified, as one frame of a well-formed stream that ends with STOP, by the time destruction returns; frames from one input queue appear in submission order. With outputs that fail or close at any point, each accepted frame appears at most once, never corrupted, and frames of one queue never appear out of order; a refused frame never appears.",
 ["schedules","fault_sequences","configurations"],
 "All interleavings of 1-2 producers, the I/O thread and the destroying thread for both queue models, 1-2 input queues of size 2-4, output queue sizes and buffer thresholds that force every flush rule, timeouts at any wait, and transport failures at any operation.",
 "The io tests push frames through real threads and compare the totals at the end; they cannot steer schedules, timeouts or faults.",
 ["fstrm/iothr.c","fstrm/writer.c","libmy/my_queue_mb.c","libmy/my_queue_mutex.c"],
 [("drain loop and flush rules","fstrm__iothr_thr, process_queues, maybe_flush_output, flush_output"),("submission","fstrm_iothr_submit")],
 observe=["bytes given to the transport","fstrm_iothr_submit results"])

prop("C15","Frame ownership: each accepted frame is released exactly once",
 "For every frame accepted by a submission the release callback is invoked exactly once, with the same data and user pointer, not before the library has finished with the data and no later than the return of destruction, whether or not the output was working; for a refused submission it is never invoked and the caller keeps ownership. A submission with no data, zero length or an excessive length is refused as invalid, a full queue as try-again, and the frame's bytes are never modified.",
 ["schedules","fault_sequences","inputs"],
 "All schedules of the iothr configurations (producers, I/O thread, destroy, timeouts) x transport faults at any operation x full-queue, invalid-argument and no-callback submissions.",
 "No test checks the callback count per frame or runs with a failing output.",
 ["fstrm/iothr.c"],
 [("deferred deallocation","fstrm__iothr_flush_output"),("leftover entries","fstrm__iothr_free_queues")],
 observe=["free_func invocations","memory accesses to the payload"])

prop("C16","The I/O thread always terminates and never strands data",
 "Under every schedule, wake-up and timer order, destroying the I/O thread object terminates, with all resources of the library released, and no call on an input queue ever blocks. Whether producers stop submitting or go on at any pace that lets the I/O thread become idle, every accepted frame reaches an open output within two flush timeouts without any further call being needed, even if the wall clock is set meanwhile.",
 ["schedules","configurations"],
 "All interleavings including lost or spurious wake-ups and timer expiry at any wait; deadlock, livelock and leftover data are checked in every reachable state.",
 "Tests pass if they finish; a lost wake-up or a stranded frame on a rare schedule is not observed because destroy flushes.",
 ["fstrm/iothr.c"],
 [("timed wait and flush on timeout","fstrm__iothr_thr"),("shutdown signal","fstrm_iothr_destroy")],
 observe=["termination","virtual time of delivery"])

prop("C17","A failed output is reopened at the configured pace",
 "The I/O thread first tries to open the output as soon as it starts, whatever the clock shows and however the wall clock is set. After the output fails or cannot be opened, it tries to open it again when, and only when, at least the configured number of seconds has passed since the previous attempt, each reopened output receives a complete stream of its own (handshake, START, whole frames), and frames accepted after a successful reopening are delivered. While the output is closed submissions are still accepted without blocking, the frames being discarded and released.",
 ["fault_sequences","schedules","histories"],
 "Every pattern of open/write/close/handshake failures over several reopen cycles, interleaved with submissions and clock steps around the interval, for uni- and bi-directional transports.",
 "No test makes the output fail.",
 ["fstrm/iothr.c","fstrm/writer.c","fstrm/time.c"],
 [("reopen pacing","fstrm__iothr_maybe_open"),("close on failure","fstrm__iothr_flush_output")],
 observe=["transport open times","bytes per connection"])

prop("C18","Input-queue handles are unique and bounded",
 "However many threads request input queues concurrently, each request returns a handle no other request returned until the configured number has been handed out, after which every request returns none; access by index returns the same handle for the same index, distinct handles for distinct indices, and none for an index out of range. Each handle accepts submissions independently of the others.",
 ["schedules","configurations"],
 "All interleavings of up to 3 requesting threads for 1-3 configured queues, mixed with by-index requests.",
 "Tests obtain the handles from a single thread.",
 ["fstrm/iothr.c"],
 [("locked hand-out index","fstrm_iothr_get_input_queue")],
 observe=["returned handles"])

prop("C19","Every configuration that is accepted works",
 "Each option setter accepts exactly the documented range (a power of two between 2 and 16384 for the input queue size) and otherwise leaves the previous value in force; every combination of accepted values yields a working object that behaves as configured (in particular, queue_notify_threshold outstanding entries wake the I/O thread without waiting for the flush timeout), and options may be changed or destroyed after use without affecting objects made from them. Default values apply when options are omitted.",
 ["inputs","configurations"],
 "All setter arguments 0..70000 and boundary values up to 2^32-1, all pairs of boundary configurations run end to end through a small submission workload, reader/writer options with modification after use.",
 "Tests use a few fixed accepted values and never a rejected one.",
 ["fstrm/iothr.c","fstrm/reader.c","fstrm/writer.c","fstrm/file.c","fstrm/unix_writer.c","fstrm/tcp_writer.c"],
 [("range checks","fstrm_*_options_set_*"),("copy of options","*_init")],
 observe=["setter results","behaviour of the created object"])

prop("C20","fstrm_capture records exactly what its clients sent",
 "However client data is fragmented and connections interleave, the output of fstrm_capture is one well-formed stream: START with the configured content type, every data frame completely received on a connection between that connection's START and STOP, byte for byte, once, in that connection's order, and STOP when it terminates; nothing from a connection that did not complete the handshake, nothing sent before START or after STOP, and no partial frame is recorded. Frames are recorded even if the connection later fails.",
 ["inputs","schedules","histories"],
 "Every fragmentation of client streams into up to 3 pieces and byte-by-byte, every interleaving of up to 3 clients' messages, orders in which simultaneous events are handled, disconnect at every byte, termination at every step.",
 "The program test replays one file over one connection.",
 ["src/fstrm_capture.c"],
 [("frame reassembly","cb_read, can_read_full_frame, process_data_frame"),("output framing","open_write_start, close_write_stop")],
 observe=["output file"])

prop("C21","fstrm_capture follows the handshake protocol",
 "For each connection fstrm_capture answers a matching READY with exactly one ACCEPT carrying its content type, answers STOP after START with exactly one FINISH and then closes the connection, and sends nothing else. A READY or START whose content types do not match, any frame out of protocol order (including data before START), or a malformed control frame makes it close that connection without recording anything further from it, and does not disturb other connections.",
 ["inputs","histories"],
 "All sequences of up to 4 messages over an alphabet of about 16 well-formed, mismatching, out-of-order and malformed messages, delivered separately or merged, on one connection and beside a healthy one.",
 "The program test performs one correct handshake.",
 ["src/fstrm_capture.c","fstrm/control.c"],
 [("connection state machine","process_control_frame*, cb_write, cb_close_conn")],
 observe=["bytes sent to clients","connection closure","output file"])

prop("C22","fstrm_capture output survives rotation, flush and shutdown",
 "Each output file, whether ended by rotation (signal or split interval) or by termination, is a complete well-formed stream, and concatenating the data frames of the successive files gives exactly the frames received, none lost, repeated or split across files; at any instant a file's contents are a prefix of such a stream, and after a flush request (SIGHUP) everything received so far is in the file. A split happens when a data frame is received and the split interval has elapsed, and not before (the frame that triggers it goes to either file). If any output cannot be opened, written, flushed or closed the program does not report success, and what it wrote before is a beginning of such a stream.",
 ["crash_points","histories","fault_sequences"],
 "SIGUSR1, SIGHUP, clock steps and SIGTERM/SIGINT at every step of multi-frame histories on 1-2 connections, output errors at every write, inspection of the file after every step.",
 "No test rotates, flushes, splits, or fails the output.",
 ["src/fstrm_capture.c"],
 [("rotation","rotate_output, maybe_rotate_output, open_write_file, close_write_file"),("flush","do_sighup")],
 observe=["output files","exit status"])

prop("C23","fstrm_capture limits hold and keep it responsive",
 "A frame larger than the configured buffer size, counting its 4-byte length, is discarded whole and every other frame is recorded, for every frame length and buffer size, without the connection stalling or losing synchronisation. Never more than the configured maximum number of connections is served at once, a waiting connection is served as soon as another one ends, everything a connection used is released when it ends, and no client behaviour (nor running out of descriptors for a while) makes the program exit, crash or stop serving the others.",
 ["inputs","configurations","histories"],
 "Buffer sizes x frame lengths around the limit, around 2^32 and in sequences, with different fragmentations; all open/close orders of up to 4 clients with limits 1-2.",
 "No test sets a buffer size or a connection limit, or sends an oversized frame.",
 ["src/fstrm_capture.c"],
 [("oversize skip","can_read_full_frame, cb_read"),("connection accounting","cb_accept_conn, cb_close_conn")],
 observe=["output file","client progress"])

prop("C24","fstrm_dump shows and copies a stream faithfully",
 "For every well-formed input file fstrm_dump exits successfully after printing each data frame once, in order, in its escaped form, with its length and the content type announced on standard error, and with an output file named it produces a stream with the same content type and the same data frames that ends with STOP. For every other input it never prints or copies a frame that is not completely in the input; if the input is malformed, holds a frame over the size limit or is unreadable, or standard output or the output file cannot be written, it exits with failure.",
 ["inputs","fault_sequences"],
 "Streams over a token alphabet up to a depth, truncation at every byte (a file cut off without STOP is not treated as malformed), every byte value in payloads, frame lengths around buffer boundaries, output errors at every point.",
 "The program test dumps and copies one fixed file.",
 ["src/fstrm_dump.c","libmy/print_string.h","fstrm/reader.c","fstrm/writer.c","fstrm/file.c"],
 [("copy loop","main"),("escaping","print_string")],
 observe=["stdout","output file","exit status"])

prop("C25","fstrm_replay sends each file's frames once and in order",
 "fstrm_replay performs one handshake for its content type and then sends, as one stream ended by STOP, exactly the data frames of the given files in command-line order, skipping files that cannot be opened, do not begin with a START frame, or have another content type, without altering, repeating or dropping any frame; of a file that is malformed or cut off it sends the complete frames before that point. It exits successfully if, and only if, the connection was accepted, every frame was handed over and the peer confirmed the end of the stream (a skipped or cut off file leaves its status open; a malformed, oversized or unreadable part means failure).",
 ["inputs","fault_sequences","configurations"],
 "All lists of up to 3 files over a set of valid, mismatching, empty, truncated and missing files, unix and TCP, with short writes, refused handshakes and disconnects at every point.",
 "The program test replays one file to one peer.",
 ["src/fstrm_replay.c","fstrm/unix_writer.c","fstrm/tcp_writer.c","fstrm/reader.c"],
 [("file loop","process_file"),("connection set-up","init_writer")],
 observe=["bytes received by the peer","exit status"])

prop("C26","fstrm_capture obeys signals whenever they arrive",
 "Once fstrm_capture serves, SIGTERM or SIGINT arriving at any moment - while it sleeps, just before it goes to sleep, or in the midst of any other work - once or repeatedly, alone or together with other signals, and whether clients fall silent or never pause, makes it stop waiting for events, close its output as a complete stream that contains every frame received before, and exit successfully; no further event is needed for it to notice. Likewise SIGHUP at any moment makes everything recorded before it visible in the output file, SIGUSR1 at any moment leads to a new output file, neither ends the program, and no frame is lost, repeated or damaged by any of them.",
 ["schedules","inputs"],
 "Every instant of a run (hundreds of points between system calls) times every signal, and pairs of them.",
 "The program tests send one SIGTERM to an idle program; a signal that arrives a few instructions before epoll_wait is never sampled.",
 ["src/fstrm_capture.c"],
 [("signal set-up","setup_signals"),("signal events","setup_event_loop"),("flush","do_sighup"),("rotation","do_sigusr1")],
 observe=["exit status","output files","whether it goes on waiting"])

prop("C27","fstrm_capture does what its command line says or refuses it",
 "For every command line, fstrm_capture either starts in exactly the configuration that was given - listening on that Unix path or that address and port and nowhere else, accepting exactly that content type, writing the output file of that name (with --gmtime or --localtime: of the name strftime() makes of it for the current time), with that buffer size, at most that many connections and rotation after that interval, defaults for what was not given - or it ends with a failure status. It refuses a command line without -t, without -w, with neither -u nor -a, with -a but without -p, with an invalid address or port or a Unix path that is too long, with --split but neither --gmtime nor --localtime, with both of these, with --split and -w -, with -w - on a terminal, with an option that does not exist or is ambiguous, with an option whose value is missing and with an argument that belongs to nothing; when refused, or asked for help, it listens nowhere and leaves every existing file, including the output file and the socket path, as it was. Short, long, abbreviated, joined (-x=v, --long=v) and grouped (-tuw) forms mean the same in every order. No command line makes it crash.",
 ["inputs","histories"],
 "All combinations, spellings and orders of twelve options and their values, and arbitrary token sequences; a single wrong acceptance overwrites somebody's file.",
 "The program tests use a handful of fixed command lines.",
 ["src/fstrm_capture.c","libmy/argv.c"],
 [("validation","parse_args"),("Unix address","open_read_unix"),("TCP address","open_read_tcp"),("argument parser","do_list")],
 observe=["exit status","listening sockets","files","behaviour towards clients"])
prop("C28","fstrm_replay does what its command line says or refuses it",
 "For every command line, fstrm_replay either connects once, to exactly the Unix path or address and port given, and sends with exactly the content type given the frames of all files given with -r, in their order, however many there are; or it ends with a failure status. It refuses a command line without -t, without -r, with neither or both of -u and -a, with -a but without -p, with an invalid address or port or a Unix path that is too long, with an option that does not exist or is ambiguous, with an option whose value is missing and with an argument that belongs to nothing; when refused, or asked for help, it connects to nothing. Short, long, abbreviated (--read), joined and grouped forms mean the same in every order. No command line makes it crash.",
 ["inputs","histories"],
 "All combinations, spellings and orders of the options, lists of files of any length, and arbitrary token sequences.",
 "The program tests use a handful of fixed command lines.",
 ["src/fstrm_replay.c","libmy/argv.c"],
 [("options","parse_args"),("connection","init_writer"),("argument parser","do_list")],
 observe=["exit status","address of the connection","bytes sent"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
for p in P:
    assert len(p["title"])<=80,p["id"]
