#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property statements live here so that they are readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "HTTP/1 request heads are read back exactly as they were written",
  """For every well-formed HTTP/1 request head, parsing succeeds and reports exactly the method, the version, the target's path, query, host and port, and every header field (name and trimmed value, in order) that the bytes contain, and the number of bytes consumed is the length of the head.
  The reported target follows the request form: origin-form takes its host and port from the Host field, absolute-form from the target itself, authority-form (CONNECT) from the target, and OPTIONS * has the path *.
  No part of one request is influenced by what the same object parsed before.""",
  ["inputs", "histories"], "the nine standard methods, all targets whose percent-escapes spell UTF-8, all versions and header sets of a well-formed head, after any earlier parse on the same object",
  "The tests parse about a dozen hand-written requests; the grammar product of methods, target forms, header sets, whitespace and prior state is unbounded.",
  ["src/helper.rs", "src/http/request.rs", "src/http/header.rs", "src/url/url.rs"],
  [("token scanners and header loop", "src/helper.rs Helper::parse_header, parse_token_by_func"), ("request line and target forms", "src/http/request.rs Request::parse_buffer, parse_connect_by_host")],
  ["Request::parse, Request::parse_buffer, accessors of Request, HeaderMap, Url"])
p("C02", "HTTP/1 response heads are read back exactly as they were written",
  """For every well-formed HTTP/1 response head, parsing succeeds and reports exactly the version, the three-digit status and every header field (name and trimmed value, in order), whatever the reason phrase, including an empty one.
  The number of bytes consumed is the length of the head, and nothing parsed earlier with the same object remains.""",
  ["inputs", "histories"], "all versions, statuses 100-999, reason phrases and header sets, after any earlier parse on the same object",
  "Three response heads are parsed by the tests.",
  ["src/helper.rs", "src/http/response.rs", "src/http/status.rs"],
  [("status line parse", "src/http/response.rs Response::parse_buffer"), ("header loop", "src/helper.rs Helper::parse_header")],
  ["Response::parse, Response::parse_buffer"])
p("C03", "Truncated heads are partial; complete heads ignore what follows",
  """Every strict prefix of a well-formed request or response head is reported as partial (never complete, never malformed), so a reader may wait for more bytes; the same bytes completed then parse to the same result, however they were split.
  A complete head parses to the same result and consumes the same number of bytes whatever follows it, so pipelined messages in one buffer are each read exactly once and in order, and the result does not depend on the kind of buffer they are read from.""",
  ["inputs", "histories"], "every head, every cut point, every sequence of arrivals, every suffix, every buffer type",
  "Two tests cut one request at one place; no test varies cut points, suffixes or buffer types.",
  ["src/helper.rs", "src/macros.rs", "src/http/request.rs", "src/http/response.rs", "src/error.rs"],
  [("end of data maps to Partial", "src/macros.rs next!/peek!/expect!"), ("completion flag", "src/http/request.rs Request.partial, src/http/response.rs Response.partial")],
  ["WebError::is_partial, Request::is_partial/is_complete, Response::is_partial, returned size, remaining bytes"])
p("C04", "Malformed HTTP/1 heads are refused and never reported complete",
  """A request or response head that breaks the grammar (unknown method or version, illegal byte in the target, in a field name or in a field value, missing colon, missing space, a line end that is not CRLF or LF, a status that is not three digits from 100 to 999, an invalid host or port) is refused with an error that is not the partial one, whatever follows it.
  After the refusal the message is not reported complete.""",
  ["inputs"], "every well-formed head damaged in one of the listed ways, at every position, with any suffix",
  "Only a handful of malformed inputs are tested; request smuggling and desynchronisation come from the ones that are not.",
  ["src/helper.rs", "src/http/request.rs", "src/http/response.rs", "src/http/method.rs", "src/http/status.rs"],
  [("character class tables", "src/helper.rs HEADER_NAME_MAP, HEADER_VALUE_MAP, is_token"), ("line end check", "src/helper.rs Helper::skip_new_line")],
  ["Err value, WebError::is_partial, Request::is_complete"])
p("C05", "No input makes any decoder panic, loop, overflow or over-read",
  """For every byte string given to any parsing or decoding entry point (HTTP/1 heads, chunk headers, URLs and percent-decoding, HPACK blocks and Huffman strings, HTTP/2 frame headers and payloads, base64 settings, WebSocket headers, frames and messages), the call returns a result or an error in a number of steps bounded by the input's size, without panicking or overflowing arithmetic, and never claims to have consumed more than it was given.
  Everything it returned can then be inspected and re-encoded without panicking, and all text it returns is valid UTF-8.""",
  ["inputs", "histories"], "all byte strings and all sequences of them on one decoder",
  "The tests never feed hostile bytes.",
  ["src/helper.rs", "src/http/request.rs", "src/http/response.rs", "src/url/url.rs", "src/http/http2/frame/frame.rs", "src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/huffman.rs", "src/ws/frame_header.rs", "src/ws/dataframe.rs", "src/ws/message.rs"],
  [("length checks before reads", "src/http/http2/frame/*.rs, src/ws/*.rs"), ("bounded integer decoding", "src/http/http2/hpack/decoder.rs Decoder::decode_integer")],
  ["return of the call, panics, step counts of an instrumented buffer"])
p("C06", "An encoded request means what was built, and nothing can be injected",
  """Encoding a request built from any method, target, version, header fields and body yields bytes that an independent HTTP/1 reader, and this library, read back as exactly that request, and the size reported equals the bytes written.
  Characters that would end or split the request target are percent-escaped, and a header field holding CR, LF or NUL is refused, so no value supplied by the caller can add or alter a line.""",
  ["inputs", "programs"], "all requests a caller can build, including hostile paths, queries and header values",
  "Tests round-trip four fixed requests that need no escaping.",
  ["src/http/request.rs", "src/http/header.rs", "src/url/url.rs", "src/serialize.rs"],
  [("target escaping", "src/http/request.rs Parts::get_target"), ("field check", "src/http/header.rs HeaderMap::encode")],
  ["Request::http1_data, Request::encode_header, Display of Request"])
p("C07", "An encoded response means what was built, and nothing can be injected",
  """Encoding a response built from any version, status, header fields and body yields a status line, the fields and the body that an independent HTTP/1 reader, and this library, read back as exactly that response, for every status from 100 to 999, and the size reported equals the bytes written.
  A header field holding CR, LF or NUL is refused.""",
  ["inputs", "programs"], "all responses a caller can build",
  "No test encodes a response and reads it back.",
  ["src/http/response.rs", "src/http/status.rs", "src/http/header.rs", "src/serialize.rs"],
  [("status line", "src/http/status.rs StatusCode::encode"), ("field check", "src/http/header.rs HeaderMap::encode")],
  ["Response::httpdata, Response::encode_header, Response::into_binary"])
p("C08", "The header collection is a case-insensitive map in insertion order",
  """Under every sequence of operations the header collection behaves as an insertion-ordered map keyed by ASCII-case-insensitive name: inserting replaces the value of an existing name in place and otherwise appends, pushing joins values with a semicolon, removing returns and deletes the value, clearing empties it, and lookup, indexing, containment, equality, length, iteration and cloning agree with that map.
  A name differs from another if they differ in anything but the case of ASCII letters, and whether a name or value was given as static text, owned text or bytes makes no difference.""",
  ["histories", "inputs"], "all operation sequences over all names and values, standard and custom",
  "A few single-operation tests exist; equivalence with a map is a statement about all sequences.",
  ["src/http/header.rs", "src/http/name.rs", "src/http/value.rs", "src/helper.rs"],
  [("linear search by case-insensitive equality", "src/http/header.rs HeaderMap::*"), ("name equality and hash", "src/http/name.rs PartialEq/Hash for HeaderName")],
  ["HeaderMap operations"], [("headers", "ordered list of fields", "src/http/header.rs HeaderMap.headers")])
p("C09", "Message body framing is computed exactly from the head",
  """The declared body length is the value of Content-Length when that is a number that fits and 0 otherwise, and the chunked, keep-alive and upgrade answers are yes exactly when the corresponding field lists that option, as a whole token in any letter case.
  A whole number given as a field value reads back as that number.
  Any data encoded as chunks is recovered exactly by reading chunks from the concatenation, an incomplete chunk is reported partial without consuming anything, and a chunk size that is not a hexadecimal number followed by a line end is refused.""",
  ["inputs", "histories"], "all field values, all chunk sequences and all cut points",
  "The tests look at one Content-Length and one chunk.",
  ["src/http/header.rs", "src/http/value.rs", "src/helper.rs"],
  [("numeric conversion", "src/http/value.rs TryInto<isize>/TryInto<usize>"), ("token match", "src/http/header.rs HeaderMap::contains_token"), ("chunk codec", "src/helper.rs parse_chunk_data, encode_chunk_data")],
  ["get_body_len, is_chunked, is_keep_alive, get_upgrade_protocol, parse_chunk_data, encode_chunk_data"])
p("C10", "URL parsing yields the components the URL grammar assigns",
  """Parsing a URL of the form [scheme://[user:password@]host[:port]]/path[?query] yields exactly those components, percent-decoded, with the scheme recognised in any letter case, the port defaulting by scheme, the path defaulting to /, and an IPv6 literal taken as one host.
  The authority ends at the first slash or question mark and the path at the first question mark, so nothing after them can change the host; a truncated or illegal URL (bad escape, bad port, illegal byte, missing ://) is refused as invalid.""",
  ["inputs"], "all URL strings built from the grammar and all single damages of them",
  "Four URLs are tested.",
  ["src/url/url.rs", "src/url/scheme.rs", "src/helper.rs"],
  [("single pass splitter", "src/url/url.rs Url::parse"), ("percent decoding", "src/url/url.rs Url::parse_url_token"), ("scheme table", "src/url/scheme.rs Scheme::parse_scheme")],
  ["Url::parse, TryFrom, FromStr"])
p("C11", "URLs survive writing and re-reading, and percent-coding is lossless",
  """Writing any URL whose components are non-empty text and parsing the result gives the same components back, whatever delimiters or non-ASCII text they contain (of a URL with only a user name or only a password the other reads back empty, and an IPv6 address is written in brackets), and percent-encoding any text and decoding it gives the text back while malformed escapes are refused.
  Building a URL keeps every component given; merging takes from the other URL exactly the components it specifies; the authority and connect strings name exactly the host and port, omitting from the authority only the default port of http and https and the port of a URL without a scheme.
  A URL equals a text exactly when it is written as that text.""",
  ["inputs", "programs"], "all component texts and all sequences of builder and merge calls",
  "The tests print one URL.",
  ["src/url/url.rs", "src/url/builder.rs", "src/url/scheme.rs"],
  [("escaping on output", "src/url/url.rs Display, url_encode, authority_encode"), ("merge", "src/url/url.rs Url::merge")],
  ["Display of Url, Url::url_encode/url_decode, Builder, merge, get_authority, get_connect_url"])
p("C12", "HPACK decoding follows RFC 7541 over every history of blocks",
  """For every sequence of header blocks that a conforming HPACK encoder can produce (indexed fields, literals with, without or never indexed, indexed or literal names, plain or Huffman strings, table size updates), the decoder yields exactly the encoded list of fields, and after each block its dynamic table equals the encoder's.
  A block that refers to an index outside the tables, ends early, carries an invalid Huffman string or an oversized integer, or asks for a table above the allowed limit is refused.
  A field name that is not text, which the library cannot represent, is refused too, never altered.""",
  ["histories", "inputs"], "all block sequences of a conforming encoder, and all single damages of them",
  "A few blocks from the RFC appendix are tested in isolation.",
  ["src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/header_index.rs", "src/http/http2/hpack/huffman.rs"],
  [("representation dispatch", "src/http/http2/hpack/decoder.rs Decoder::decode_with_cb"), ("prefix integers", "Decoder::decode_integer"), ("tables", "src/http/http2/hpack/header_index.rs HeaderIndex")],
  ["Decoder::decode, Decoder::decode_with_cb, HeaderIndex::to_vec/get_size"],
  [("index", "dynamic table shared by reference", "Decoder.index")])
p("C13", "HPACK encoding is decodable by any conforming decoder, forever in step",
  """For every sequence of header lists, the blocks the encoder emits are decoded by an independent RFC 7541 decoder, and by this library's, to exactly those lists (names lowercased), and after each block both sides' dynamic tables are equal, also across evictions, values of any bytes and any length, and a change of the table size made on both sides.""",
  ["histories", "inputs"], "all sequences of header lists and table size changes",
  "Single lists are encoded by the tests; drift between the two tables only shows over histories that overflow the table.",
  ["src/http/http2/hpack/encoder.rs", "src/http/http2/hpack/header_index.rs", "src/http/http2/hpack/huffman.rs"],
  [("index lookup then add", "src/http/http2/hpack/encoder.rs Encoder::encode_header_into"), ("integer encoding", "Encoder::encode_integer_into")],
  ["Encoder::encode, encode_into, encode_header_into"])
p("C14", "The HPACK dynamic table is a bounded FIFO with exact accounting",
  """After every sequence of additions and size changes the dynamic table holds the most recent entries in order, its size is the sum over entries of name length, value length and 32, that size never exceeds the current maximum, an entry larger than the maximum empties the table, and no older entry was evicted while a newer one had to be.
  Every valid index resolves to the static or dynamic entry RFC 7541 assigns to it, every other index to nothing, and searching for a field returns an index that resolves to that field, or to its name when only the name is known.""",
  ["histories", "inputs"], "all operation sequences, sizes and indices",
  "Only a couple of fixed additions are tested.",
  ["src/http/http2/hpack/header_index.rs"],
  [("eviction loop", "src/http/http2/hpack/header_index.rs HeaderIndex::consolidate_table"), ("static table", "STATIC_TABLE_RAW, STATIC_HASH")],
  ["HeaderIndex::add_header, set_max_table_size, get_from_index, find_header, get_size, len, to_vec"],
  [("table/size/max_size", "entries, accounted size, bound", "HeaderIndex")])
p("C15", "Huffman coding round-trips and rejects every non-canonical string",
  """For every byte string, Huffman encoding produces exactly the RFC 7541 Appendix B code padded with ones to a whole octet, and decoding gives the string back.
  Decoding accepts only such strings: one that contains the end-of-string code, is padded with eight or more bits or with bits other than ones, or ends inside a code is refused.""",
  ["inputs"], "all byte strings as plain text and as coded text",
  "Tests cover a few RFC examples, not every symbol, pair, padding or invalid tail.",
  ["src/http/http2/hpack/huffman.rs"],
  [("code table", "src/http/http2/hpack/huffman.rs HUFFMAN_CODE_ARRAY"), ("bitwise decoder and padding check", "HuffmanDecoder::decode")],
  ["HuffmanEncoder::encode, HuffmanEncoder::encode_lower, HuffmanDecoder::decode"])
p("C16", "HTTP/2 control frames are written and read bit-exactly",
  """Encoding any frame header, PING, RST_STREAM, WINDOW_UPDATE, GOAWAY or PRIORITY value produces the octets RFC 9113 lays down, with a length field equal to the payload that follows and the returned size equal to the bytes written, and parsing those octets gives the value back.
  Parsing ignores the reserved bit of stream identifiers and window increments and flags that the frame type does not define, and keeps error codes it does not know.""",
  ["inputs"], "all field values of these frames",
  "There is no frame test at all except for frame kinds.",
  ["src/http/http2/frame/frame.rs", "src/http/http2/frame/mod.rs", "src/http/http2/frame/ping.rs", "src/http/http2/frame/reset.rs", "src/http/http2/frame/window_update.rs", "src/http/http2/frame/go_away.rs", "src/http/http2/frame/priority.rs", "src/http/http2/frame/reason.rs"],
  [("frame header codec", "src/http/http2/frame/frame.rs FrameHeader::parse/encode"), ("per-frame codec", "src/http/http2/frame/*.rs")],
  ["FrameHeader::parse/encode, Frame::parse/encode, Frame::stream_id/flags"])
p("C17", "Invalid HTTP/2 frames are refused and valid ones are not",
  """A frame is accepted exactly when RFC 9113 allows it in isolation: the payload length fits its type (PING 8, RST_STREAM and WINDOW_UPDATE 4, PRIORITY 5, GOAWAY at least 8, SETTINGS a multiple of 6 or empty when it acknowledges, PUSH_PROMISE at least 4), it is on stream zero or not as its type requires, a window increment is not zero, a stream does not depend on itself in PRIORITY, and a promised stream is not zero.
  Every other frame of these types is refused with an error and never panics.
  A promised request is valid exactly when its method is GET or HEAD and it announces no content.""",
  ["inputs"], "all frame headers with all payloads up to well over the valid sizes",
  "No test feeds an invalid frame.",
  ["src/http/http2/frame/frame.rs", "src/http/http2/frame/settings.rs", "src/http/http2/frame/ping.rs", "src/http/http2/frame/priority.rs", "src/http/http2/frame/window_update.rs", "src/http/http2/frame/go_away.rs", "src/http/http2/frame/reset.rs", "src/http/http2/frame/headers.rs"],
  [("stream id rules", "src/http/http2/frame/frame.rs Frame::parse"), ("length rules", "each frame's parse")],
  ["Frame::parse, PushPromise::validate_request"])
p("C18", "Frame padding and stream dependency are removed exactly",
  """For every DATA, HEADERS or PUSH_PROMISE frame sent with padding, and every HEADERS frame sent with a stream dependency, the data or field list obtained is exactly the one of the unpadded frame without dependency, and the HPACK state afterwards is the same.
  A pad length that does not fit in the payload, or a payload too short for the pad length or dependency octets, is refused; the padding flag on other frame types changes nothing.""",
  ["inputs"], "all payloads, pad lengths 0-255, and flags",
  "No test uses padding.",
  ["src/http/http2/frame/frame.rs", "src/http/http2/frame/data.rs", "src/http/http2/frame/headers.rs"],
  [("padding removal", "src/http/http2/frame/frame.rs Frame::read_padding"), ("dependency", "src/http/http2/frame/priority.rs StreamDependency::load")],
  ["Frame::parse, Data::payload, Headers::fields"])
p("C19", "Large HTTP/2 messages are split into frames without loss",
  """Encoding a DATA, HEADERS or PUSH_PROMISE message of any size yields frames none of which exceeds the configured maximum frame size, whose payloads concatenated are exactly the data or the header block, on the right stream, with END_STREAM only on the frame that may carry it (the last DATA, the HEADERS itself) and exactly when it was set, and END_HEADERS exactly on the last frame of the block.
  A header block continues in CONTINUATION frames, which directly follow, and the size returned is the number of bytes written.""",
  ["inputs", "configurations"], "all payload sizes, header lists, flags and maximum frame sizes",
  "No test encodes a frame larger than the limit.",
  ["src/http/http2/frame/data.rs", "src/http/http2/frame/headers.rs"],
  [("data split", "src/http/http2/frame/data.rs Data::encode"), ("header block split", "src/http/http2/frame/headers.rs HeaderBlock::encode, PushPromise::encode")],
  ["Frame::encode output re-read by an independent frame reader"])
p("C20", "SETTINGS are validated, applied last-wins and survive both encodings",
  """Parsing a SETTINGS payload yields for each known parameter the last value given, ignores unknown parameters, and refuses the frame if any enable value is not 0 or 1, the initial window exceeds 2^31-1, or the maximum frame size lies outside 2^14 to 2^24-1.
  Settings written as a frame or as the HTTP2-Settings header value (unpadded base64url of the same payload) read back as the same settings, every parameter included, and text that is not such base64 is refused.""",
  ["inputs"], "all parameter lists, values and texts",
  "One settings value is tested.",
  ["src/http/http2/frame/settings.rs", "src/http/request.rs"],
  [("parameter loop", "src/http/http2/frame/settings.rs Settings::parse_setting"), ("base64 form", "Settings::encode_http_settings, parse_http_settings")],
  ["Settings accessors, Settings::encode, Builder::upgrade_http2"])
p("C21", "WebSocket frames are written and read bit-exactly, masked or not",
  """Writing any frame (final flag, reserved bits, opcode, optional masking key, payload) produces the octets RFC 6455 lays down with the shortest length form, the announced and returned sizes equal the bytes written, and reading them gives the frame back, unmasked, leaving following bytes untouched.
  Masking is an exclusive-or with the key repeated from the first payload byte, whatever number of pieces the payload is written in.""",
  ["inputs"], "all headers, payload sizes around every length form, keys and splits",
  "Six fixed frames are tested.",
  ["src/ws/frame_header.rs", "src/ws/dataframe.rs", "src/ws/mask.rs"],
  [("header codec", "src/ws/frame_header.rs write_header/read_header"), ("masking", "src/ws/mask.rs Masker, mask_data")],
  ["DataFrame::write_to, DataFrame::read_dataframe, frame_header, Masker"])
p("C22", "WebSocket messages are assembled from frames without loss",
  """Assembling a message from its frames in order yields the type of the first frame and the concatenation of their payloads, and a message written and read back is the same message: text stays text, a close keeps its code and reason, ping and pong keep their data.
  Text or a close reason that is not UTF-8, a one-byte close payload, reserved bits, a non-continuation after the first frame, an unknown opcode or no frames at all are refused.""",
  ["inputs", "histories"], "all fragmentations of all messages, including cuts inside a multi-byte character",
  "No test assembles a message.",
  ["src/ws/message.rs", "src/ws/dataframe.rs"],
  [("assembly", "src/ws/message.rs Message::from_dataframes"), ("conversion", "From<Message> for OwnedMessage and back")],
  ["OwnedMessage::from_dataframes, write_to, take_payload, size"])
p("C23", "Invalid or incomplete WebSocket frames are refused",
  """A frame whose length is not in the shortest form, a control frame longer than 125 bytes or fragmented, a frame whose payload has not fully arrived, and a frame longer than the caller's limit are refused, and every other frame header is accepted; the limit is exact.
  A control frame over 125 bytes or an opcode over 15 is never written.""",
  ["inputs"], "all header bytes, all lengths around the boundaries, all cut points, all limits",
  "Only two incomplete frames are tested.",
  ["src/ws/frame_header.rs", "src/ws/dataframe.rs"],
  [("length and control checks", "src/ws/frame_header.rs read_header, write_header"), ("limit and availability", "src/ws/dataframe.rs read_dataframe_with_limit")],
  ["read_header, read_dataframe, read_dataframe_with_limit, write_header, write_to"])
p("C24", "Code tables are total, exact and reversible",
  """Every status code from 100 to 999, and only those, is accepted in numeric and text form and gives its own digits, class and standard reason phrase back; every method, version, scheme, frame type, error code, close code, opcode and settings identifier converts to and from its registered text or number without loss or collision, and unregistered values are refused or kept as given.
  Every octet is classified as letter, digit, hexadecimal digit, token, URI or reason-phrase character as ASCII and the grammars have it.""",
  ["inputs"], "all values of each table's finite domain, and text near them",
  "Doc tests show single values of each table.",
  ["src/http/status.rs", "src/http/method.rs", "src/http/version.rs", "src/url/scheme.rs", "src/http/http2/frame/kind.rs", "src/http/http2/frame/reason.rs", "src/http/http2/frame/flag.rs", "src/http/http2/frame/settings.rs", "src/ws/message.rs", "src/ws/dataframe.rs"],
  [("conversion tables", "the match tables of each type")],
  ["TryFrom/From/as_str/encode/Display of each type"])
p("C25", "Extensions are a map keyed by type that owns its values",
  """Under every sequence of operations the extension store returns for each type exactly the value last inserted and not since removed, gives the previous value back on replacement, counts types correctly, merges by letting the other store win, and drops every value exactly once.""",
  ["histories"], "all operation sequences over several types",
  "One short sequence is tested and drops are not observed.",
  ["src/extensions.rs"],
  [("type-keyed map", "src/extensions.rs Extensions")],
  ["Extensions operations, drop counts"])
p("C26", "Declared limits hold and memory stays proportional to the input",
  """A header list is refused exactly when its size (names, values and 32 per field) exceeds the limit given to the frame parser, an HPACK table never exceeds the limit set, a WebSocket frame longer than the limit given to its reader is refused, and a refused list still leaves the decoder in step for the next block.
  The memory a parser or decoder takes while working on an input stays within a fixed multiple of the input size plus the limits the caller configured, whatever lengths the input announces.""",
  ["inputs", "histories", "configurations"], "all inputs and limits, including bombs of indexed references and huge announced lengths",
  "No test measures memory or sets a limit.",
  ["src/http/http2/frame/headers.rs", "src/http/http2/hpack/header_index.rs", "src/ws/dataframe.rs", "src/helper.rs"],
  [("list size accounting", "src/http/http2/frame/headers.rs HeaderBlock::parse"), ("availability check before copy", "src/ws/dataframe.rs read_dataframe")],
  ["Frame::parse, peak live allocation of the calling thread"])
p("C27", "Codecs used from several threads behave as if each ran alone",
  """Requests, responses, URLs, frames and codecs used independently on several threads give the results they give on one thread, including the first concurrent use of the static tables.
  A dynamic table shared between an encoder or decoder and concurrent readers is never seen by a reader in a state that violates its accounting, and there is no data race.""",
  ["schedules"], "all interleavings of independent codecs and of one writer with several readers",
  "The tests are single-threaded.",
  ["src/http/http2/hpack/header_index.rs", "src/http/http2/hpack/decoder.rs", "src/http/http2/hpack/encoder.rs", "src/http/http2/hpack/huffman.rs"],
  [("read-write lock around the table", "Decoder.index, Encoder.index"), ("lazy static tables", "STATIC_TABLE, STATIC_HASH, HUFFMAN tables")],
  ["results per thread against a single-threaded run, shared table snapshots, race detector"])
p("C28", "HTTP/2 header lists convert to and from requests and responses exactly",
  """A HEADERS or PUSH_PROMISE frame built from any method, scheme, authority, path or status and header fields, encoded and parsed by a peer, yields the same pseudo-fields and fields; converted to a request it has that method, a URL made of that scheme, authority and path, and those headers, and converted to a response it has that status and those headers (the builders may add Host, User-Agent or Server).
  A PUSH_PROMISE is written with the method, authority, scheme and path in the PUSH_PROMISE and its other fields in a HEADERS frame on the promised stream.
  On the wire pseudo-fields come before all others; a pseudo-field whose value is not of its kind is refused, and a list without authority, with an authority that holds / or ?, or with a path that is neither absolute nor * cannot become a request.""",
  ["inputs", "histories"], "all pseudo-field values and header lists over the history of one connection",
  "No test builds a HEADERS frame.",
  ["src/http/http2/frame/headers.rs", "src/http/request.rs", "src/http/response.rs"],
  [("pseudo-field mapping", "src/http/http2/frame/headers.rs HeaderBlock::parse, Parts::encode_header, Parts::build_url"), ("conversion", "Headers::into_request, Headers::into_response")],
  ["Frame::encode/parse, Headers accessors, into_request, into_response"])
p("C29", "Codec operations are free of undefined behaviour",
  """No operation of the library on any input reads or writes memory outside live allocations, uses memory after it was freed, frees it twice, leaks it, reads uninitialised memory or violates the aliasing rules, including the unchecked text conversions and custom write buffers it contains.""",
  ["inputs", "histories", "schedules"], "all inputs and operation sequences that the other properties' workloads generate",
  "Ordinary tests cannot see undefined behaviour that happens to work.",
  ["src/helper.rs", "src/ws/mask.rs", "src/http/status.rs", "src/http/name.rs", "src/extensions.rs"],
  [("unsafe blocks", "src/helper.rs parse_token_by_func_empty, src/ws/mask.rs Masker, src/http/status.rs as_str")],
  ["AddressSanitizer/LeakSanitizer and Miri reports"])
p("C30", "Requests and responses keep head and body through every transformation",
  """Under every sequence of setters, body conversions, replacements, clones, splits and reassemblies a request or response has exactly the method, URL, version, status, headers, extensions and body the sequence gave it; an operation that changes one of these leaves the others alone, a replaced body is handed back unchanged, and a clone is independent of its original.
  A builder yields exactly what was set on it (adding only its documented Host, User-Agent and Server fields), and reports an error if any step was given an invalid value, whatever the later steps were.""",
  ["histories", "inputs"], "all operation sequences over every body type the library converts between",
  "Each test performs one or two transformations on one request.",
  ["src/http/request.rs", "src/http/response.rs"],
  [("conversions", "Request/Response into, into_type, map, replace, replace_clone, into_parts, from_parts"), ("builders", "request::Builder, response::Builder and_then chains")],
  ["accessors, http1_data, body"])
p("C31", "Equality, order, hash and copies of the library's values obey their laws",
  """Two values of a library type (header names and values, header maps, URLs, schemes, methods, versions, status codes, stream identifiers, error codes and reasons, flags, frames and their parts, settings, WebSocket opcodes, close codes, frames and messages) are equal exactly when they stand for the same thing, however each was made (from static or owned text, from a number or read from the wire), and a value equals a text or number exactly when it is that text or number; letter case makes no difference to header names and known schemes, and to nothing else.
  Equality is symmetric and != is its opposite; equal values have equal hashes, so hash sets and maps keep one of each; where values have an order it is total, agrees with equality and follows the number they stand for, so a sorted list or a heap of priority frames yields them by weight; a clone equals its original.""",
  ["inputs"], "all pairs of values of each type",
  "Tests compare a value with the one it was made from; almost no test compares two that differ slightly, sorts, or hashes.",
  ["src/http/name.rs", "src/http/value.rs", "src/http/status.rs", "src/http/http2/frame/mod.rs", "src/http/http2/frame/frame.rs", "src/url/url.rs", "src/http/header.rs", "src/ws/message.rs"],
  [("case-insensitive name equality and hash", "src/http/name.rs PartialEq/Hash for HeaderName"), ("static and owned values", "src/http/value.rs PartialEq/Hash for HeaderValue"), ("weight order", "src/http/http2/frame/frame.rs Ord for PriorityFrame")],
  ["==, !=, cmp, hash, clone, HashSet, BinaryHeap, sort"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
