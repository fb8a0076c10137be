#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the list is easy to review)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["pillowcore/"+f for f in files],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(obs),hook_needed=None)))
HC="HttpConnection.cpp"
prop("C01","Request heads are parsed exactly, however they are split",
 "For every byte sequence sent as an HTTP/1.x request head and every way of splitting it into reads, the server's request parser accepts exactly the heads of its published grammar (request line with method, URI and version; header lines, each with its name, a colon, optional spaces and its value; blank line) and rejects every other at its first offending byte. The reported positions and lengths of method, URI, path, query string, fragment, version and of each header name and value are exactly the byte ranges the grammar assigns them, headers being reported once each and in order. The outcome depends only on the bytes, never on how they were split.",
 ["inputs","schedules"],"every byte string, every split into reads",
 "tests feed a few dozen heads whole or in two or three fixed splits; the statement is about every byte string and every split",
 ["parser/parser.c","parser/parser.h","parser/parser.rl","parser/common.rl"],
 [("generated state machine with resume state",".. parser/parser.c thin_http_parser_execute")],
 [("cs","current automaton state","parser.h http_parser"),("mark/field_start/field_len","pending field positions","parser.h http_parser")],
 ["requestReady arguments","thin_http_parser_execute result fields"])
prop("C02","Receiving a request never touches memory out of bounds or aborts",
 "Whatever bytes a client sends and however reads are sized, fail or return short, receiving and parsing a request never reads or writes outside the receive buffer, never fails an assertion and never dereferences an absent device. Every request field handed to the application lies inside the received bytes.",
 ["inputs","schedules","fault_sequences"],"all input bytes, read sizes, short and failing reads",
 "memory errors need specific sizes and failing reads that the tests do not produce",
 ["HttpConnection.cpp","parser/parser.c","ByteArrayHelpers.h"],
 [("buffer growth before each read","HttpConnection.cpp processInput"),("null-terminating raw views","ByteArrayHelpers.h setFromRawDataAndNullterm")],
 [("_requestBuffer","received bytes","HttpConnection.cpp HttpConnectionPrivate")],["process memory"])
prop("C03","A delivered request equals the bytes the client sent",
 "When a connection announces a request, its method, URI, path, query string, fragment, HTTP version, headers and content are byte for byte those of that request in the input stream, for every request on the connection, including pipelined ones and whatever earlier requests on the same connection contained. Percent-decoded forms and request parameters are those of the current request, never of an earlier one. Each request is announced exactly once, only when its head and its declared content have completely arrived; bytes following it are kept for the next one.",
 ["inputs","histories","schedules"],"all request streams, all splits, all previous requests on the connection",
 "tests use a handful of streams; aliasing between requests and buffer reuse depend on sizes and history",
 [HC,"ByteArrayHelpers.h"],
 [("field views set up when the request is complete",HC+" transitionToSendingHeaders"),("header views",HC+" setupRequestHeaders"),("left-over bytes kept",HC+" transitionToCompleted")],
 [("_requestBuffer","bytes of the current request and following ones",HC)],["requestReady"])
prop("C04","Bad or oversized requests get one error response and a close",
 "A request head that is malformed or longer than 32 KiB, or whose declared content length is negative, unparsable or above 128 MiB, is never announced to the application; the connection writes exactly one HTTP error response (400 for a bad head or negative length, 413 for an excessive or unparsable length), with Connection: close, and then flushes and closes. A client that asks for it with Expect: 100-continue and has content to send gets the interim 100 response before its content is awaited, and no request with content is rejected when it is within the limits.",
 ["inputs","schedules"],"all heads, all declared lengths, all splits",
 "tests check a few oversized and malformed requests only",
 [HC],[("limits checked on every input step",HC+" processInput"),("content length checks",HC+" transitionToReceivingContent"),("error response",HC+" writeRequestErrorResponse")],
 [],["output device bytes","requestReady","closed"])
prop("C05","Response heads are well formed and complete",
 "For every status code, header list and request, the response head written is one status line (request's HTTP version, status code and its standard reason; an unknown code becomes 500), then every header the application gave, in the order given (Content-Type, Connection, Content-Length and Transfer-Encoding being emitted at most once, by the server's rules), then an empty line. Content-Length carries the exact decimal length whenever it is known, and a body with no explicit type gets text/plain.",
 ["inputs"],"all status codes, header collections, requests and content sizes",
 "tests check a few header sets and small lengths",
 [HC,"HttpHelpers.cpp","private/ByteArray.h","ByteArrayHelpers.h"],
 [("response head builder",HC+" writeHeaders")],[("_responseHeadersBuffer","head under construction",HC)],["output device bytes"])
prop("C06","Response bodies are framed correctly and end exactly once",
 "The body bytes on the wire are exactly the content pieces the application wrote for that response, in order, each wrapped as one chunk (hex size, CRLF, data, CRLF) when chunked encoding was negotiated and unwrapped otherwise. The body never exceeds the declared length: a piece that would is dropped whole; HEAD responses and zero-length responses carry no body. The response completes exactly once: when the declared length has been written, at once if there is no body, or when the application ends it (which writes the final zero chunk when chunked).",
 ["inputs","histories"],"all sequences of response calls and sizes",
 "tests exercise a few call sequences",
 [HC],[("content accounting",HC+" writeContent"),("end of content",HC+" endContent"),("headers to content transition",HC+" transitionToSendingContent")],
 [("_responseContentBytesSent","body bytes written",HC),("_responseContentLength","declared length or -1",HC)],["output device bytes","requestCompleted"])
prop("C07","Keep-alive is negotiated correctly",
 "After a completed response the connection stays open for the next request if and only if the client wants it (HTTP/1.1 unless Connection: close; otherwise only with Connection: keep-alive), the response's length is known or chunked, and the application did not ask to close; otherwise it is flushed and closed. Chunked encoding is used only towards HTTP/1.1 clients and only when the length is unknown. The Connection header sent agrees with what the server then does.",
 ["inputs","histories"],"all requests, header sets and lengths",
 "the negotiation has a large product of conditions; tests sample a few",
 [HC],[("negotiation",HC+" writeHeaders"),("act on it",HC+" transitionToCompleted")],
 [("_responseConnectionKeepAlive","outcome of the negotiation",HC)],["output device bytes","closed"])
prop("C08","Connection life cycle: calls out of turn do nothing, closing is final",
 "A connection moves only through receiving headers, receiving content, sending headers, sending content, completed and then back to receiving or to flushing and closed; a response call made in any other state than the one it belongs to writes nothing and changes nothing. Closing, at any point and from within any notification, closes the devices once, announces closed exactly once, and afterwards the connection touches neither device and announces nothing more. A response is completed at most once per request.",
 ["histories","schedules","fault_sequences"],"all sequences of calls and notifications, including calls made from inside notifications",
 "tests run a few linear sequences; re-entrant calls and out-of-order calls have unbounded combinations",
 [HC],[("state guards",HC+" transitionTo*"),("close",HC+" transitionToClosed")],[("_state","life-cycle state",HC)],["requestReady","requestCompleted","closed","device calls"])
prop("C09","Header collections: case-insensitive lookup and lossless editing",
 "Two byte strings are considered the same header name exactly when they have equal length and differ at most in ASCII letter case. Looking up a name returns the value of the first matching header (an empty value when there is none), all values in order, or whether some matching header has the given value. Appending one header or a whole collection keeps all existing headers and adds the new ones in order; a raw 'Name: value' text is split at its first colon with the blanks after it skipped.",
 ["inputs"],"all byte strings and all collections",
 "tests compare a few strings; the claim is over every byte value, length and collection size",
 ["HttpHeader.cpp","HttpHeader.h","ByteArrayHelpers.h"],
 [("comparison","ByteArrayHelpers.h asciiEqualsCaseInsensitive"),("lookup","HttpHeader.cpp getFieldValue/getFieldValues/testFieldValue"),("append","HttpHeader.cpp operator+="),("split","HttpHeader.cpp setFromRawHeader")],[],["return values"])
prop("C10","Numbers are written exactly and leave existing text alone",
 "Appending an integer to a byte string adds exactly its canonical text in the chosen base (no leading zeros, lower-case digits, '-' for negatives) for every value of the integer type, and leaves every earlier byte as it was.",
 ["inputs"],"all values of the integer types used, all prior contents",
 "tests check a handful of values; extremes and prior contents are unbounded",
 ["ByteArrayHelpers.h"],[("digit loop and in-place reversal","ByteArrayHelpers.h appendNumber")],[],["return values"])
prop("C11","Status lines, MIME types and HTTP dates are right for every input",
 "For every integer the status table gives either the text beginning with exactly that three-digit code and a non-empty reason, or nothing for codes outside the standard table, and the reason-only form is that same text without the code. For every file name the MIME type is decided by its extension, case-insensitively, from the known table and is application/octet-stream otherwise. For every valid date-time of the years 1000 to 9999 the HTTP date is the fixed-width RFC 1123 GMT form of that instant.",
 ["inputs"],"all ints, all file names, all valid date-times",
 "tests sample a few codes, names and dates",
 ["HttpHelpers.cpp","ByteArrayHelpers.h"],
 [("status table","HttpHelpers.cpp getStatusCodeAndMessage/getStatusMessage"),("MIME table","HttpHelpers.cpp getMimeTypeForFilename"),("dates","HttpHelpers.cpp getHttpDate")],[],["return values"])
prop("C12","Percent-decoding and request parameters are exact",
 "Percent-decoding replaces each '%' followed by two bytes of the input by the one byte these denote in hexadecimal, copies every other byte, and interprets the result as UTF-8, for every input and length without writing outside its buffer. The request's parameters are exactly the '&'-separated items of its query string, each split at its first '=' and decoded, in order; looking one up returns the first with that name regardless of case, and setting one replaces the first with that name regardless of case or appends a new one, leaving the others untouched.",
 ["inputs"],"all byte strings and lengths, all query strings, all parameter lists",
 "tests sample some strings; the fast and slow paths split at a length boundary and truncated escapes matter only at ends",
 ["ByteArrayHelpers.h",HC],[("in-place decoder","ByteArrayHelpers.h percentDecodeInPlace"),("fast and slow path","ByteArrayHelpers.h percentDecode"),("parameters",HC+" requestParams/requestParamValue/setRequestParam")],[],["return values"])
prop("C13","The file handler serves only files inside its public directory",
 "For every request path (percent-encoded or not, with '..', with symbolic links, with sibling names sharing a prefix), the static file handler opens and serves a file only if it is an existing regular file whose canonical path lies strictly inside the canonical public directory; with no public directory it serves nothing. Every request it declines gets no response from it and is reported as not handled.",
 ["inputs","configurations"],"all request paths, directory layouts and public paths",
 "tests try a few paths in one layout",
 ["HttpHandler.cpp"],[("containment check","HttpHandler.cpp HttpHandlerFile::handleRequest"),("canonical public path","HttpHandler.cpp setPublicPath")],[],["QFile open","handleRequest result"])
prop("C14","Files are transferred exactly, cached by content, in bounded pieces",
 "A served file's response carries exactly the file's bytes with its MIME type and true length: in one response with an ETag derived from the content when it fits the buffer, otherwise piecewise, never queueing more than the buffer size and never skipping, repeating or exceeding file bytes. A request whose If-None-Match equals the ETag gets 304 and no content; a file that cannot be opened gets 403.",
 ["inputs","schedules"],"all file contents, sizes, buffer sizes and drain rates",
 "tests use a few files and sizes",
 ["HttpHandler.cpp"],[("small files","HttpHandler.cpp HttpHandlerFile::handleRequest"),("incremental transfer","HttpHandler.cpp HttpHandlerFileTransfer")],[],["writeResponse/writeHeaders/writeContent calls"])
prop("C15","The router picks the first matching route and binds its parameters",
 "A request goes to the first registered route whose path pattern matches its decoded path and whose method is empty or equals the request's method regardless of case, and to no other; each pattern parameter (':name' one segment, '*name' the rest) is set to the text it matched. If paths matched but no method did, the answer is 405 with Allow listing the methods of all path-matching routes when so configured; if no path matched it is 404 when so configured; otherwise the request is left untouched and reported as not handled.",
 ["inputs","configurations"],"all route tables, paths and methods",
 "tests use a few small tables",
 ["HttpHandlerSimpleRouter.cpp"],[("dispatch","HttpHandlerSimpleRouter.cpp handleRequest"),("patterns","HttpHandlerSimpleRouter.cpp pathToRegExp"),("registration","HttpHandlerSimpleRouter.cpp addRoute")],[],["route targets","writeResponse calls"])
prop("C16","Handler stacks stop at the first handler that takes the request",
 "A handler stack offers a request to its child handlers in order and stops at the first that accepts it, reporting accepted exactly if some child did. The fixed handler answers every request with exactly its configured status and content, the not-found handler answers 404 naming the path, and the function handler calls its function once and reports handled, or not handled if it has none.",
 ["inputs","configurations"],"all stacks, children results and configurations",
 "tests use a few stacks",
 ["HttpHandler.cpp"],[("stack","HttpHandler.cpp HttpHandlerStack::handleRequest"),("fixed/404/function","HttpHandler.cpp")],[],["child calls","writeResponse calls"])
prop("C17","The proxy forwards requests and relays responses faithfully",
 "The proxy sends upstream one request with the client's method, path, query, fragment, headers and content to the configured server. It relays the upstream status, headers and body bytes to the client in order, headers once and before any body, and when the upstream finishes the client's response is brought to its end: closed or completed if content was under way, 503 if nothing had been sent and upstream failed. After the client side completes, closes or is destroyed nothing more is written to it.",
 ["inputs","schedules","fault_sequences"],"all requests, upstream replies, interleavings of upstream and client events",
 "tests run a few end-to-end exchanges; orderings of finish, error and close are sampled",
 ["HttpHandlerProxy.cpp"],[("request forwarding","HttpHandlerProxy.cpp HttpHandlerProxy::handleRequest"),("pipe","HttpHandlerProxy.cpp HttpHandlerProxyPipe")],[],["network manager calls","connection calls"])
prop("C18","Server connections are pooled without sharing or leaking",
 "Every accepted socket is given a connection object that no other open socket is using, taken from the reserve or freshly created and wired to the server's notifications exactly once. When a connection closes, its socket is scheduled for deletion and the object returns to the reserve exactly once, the reserve never exceeding its limit; a socket whose descriptor cannot be adopted creates no connection.",
 ["histories"],"all sequences of accept and close",
 "tests open a few connections; pool reuse depends on long histories",
 ["HttpServer.cpp"],[("pool","HttpServer.cpp HttpServerPrivate take/put/createConnection"),("accept","HttpServer.cpp incomingConnection/this_newConnection")],[("reservedConnections","idle connection objects","HttpServer.cpp")],["connection initialisation"])
prop("C19","Client requests are serialised exactly",
 "For every method, path, header collection and data, the bytes the client's request writer sends are exactly the request line, each header in order as 'name: value', a Content-Length with the exact data length if there is data, an empty line and then the data, each call independent of what earlier calls wrote. The client sends path (/ when there is none) and query of the URL and a Host header with host and any non-default port first.",
 ["inputs","histories"],"all methods, paths, headers, data sizes, previous requests",
 "tests sample some requests; size thresholds and buffer reuse change the code path",
 ["HttpClient.cpp"],[("writer","HttpClient.cpp HttpRequestWriter::write"),("host and uri","HttpClient.cpp HttpClient::sendRequest")],[("_builder","request under construction, empty between calls","HttpClient.cpp")],["device writes"])
prop("C20","Client response messages are assembled exactly and kept apart",
 "For every sequence of parser events, however the pieces are cut, the response shows exactly the header names and values received, in order, and exactly the body bytes received. Nothing of an earlier response - complete, aborted or failed midway - ever appears in a later one.",
 ["inputs","schedules","histories"],"all event sequences and cuts, all earlier messages",
 "tests feed a few responses in a few splits and do not abort mid-header",
 ["HttpClient.cpp"],[("event handlers","HttpClient.cpp HttpResponseParser"),("reset","HttpClient.cpp HttpResponseParser::clear/messageBegin")],[("_field/_value/_lastWasValue","header under assembly","HttpClient.h")],["headers()","content()"])
prop("C21","Each client request finishes exactly once with the right outcome",
 "A client request that was started ends in exactly one finished notification: without error when its response is complete, or with the error that occurred (invalid response, remote close, network, abort). A request issued while another is pending changes nothing; one issued while the client is still inside a parse is started as soon as that parse is over. An existing connection is reused only for the same host and port, while connected and not timed out; interim 100 responses are hidden; HEAD responses end with their headers; received data is never read past the receive buffer.",
 ["histories","schedules","fault_sequences"],"all orders of requests, responses, errors, aborts and re-entrant calls",
 "tests run a few scenarios; ordering of errors, aborts and re-entrant requests is unbounded",
 ["HttpClient.cpp"],[("request","HttpClient.cpp HttpClient::request"),("input","HttpClient.cpp device_readyRead"),("completion","HttpClient.cpp messageComplete/headersComplete"),("errors","HttpClient.cpp device_error/abort")],[("_responsePending","a request is under way","HttpClient.h")],["finished","device calls"])
prop("C22","The network-access adaptor mirrors the client's response",
 "A reply made by the network access manager shows the response's status, every header, cookies and redirect target, yields exactly the response's content bytes in order to its reader without ever reading past them, and finishes exactly once with the error matching the client's. Each HTTP operation is sent with the right method, URL, headers, cookies and data; other schemes go to the base implementation; a client is pooled per authority and reused only when idle.",
 ["inputs","histories"],"all requests, responses, read sizes and pool histories",
 "tests use a few requests",
 ["HttpClient.cpp"],[("reply","HttpClient.cpp NetworkReply"),("manager","HttpClient.cpp NetworkAccessManager::createRequest/client_finished")],[],["QNetworkReply API","HttpClient calls"])
prop("C23","Building byte strings never overflows or corrupts shared data",
 "Appending literals, tokens, byte strings, characters or headers to the server's byte-string builder yields exactly the previous contents followed by the appended bytes, for every size and capacity of a builder that does not share its storage, never writing outside the reserved storage, and the server never appends to a builder whose storage is still shared with another byte string.",
 ["inputs","histories"],"all contents, sizes, capacities and sharing states",
 "the fast path depends on capacity boundaries and on whether the device kept a reference; tests do not reach those",
 ["private/ByteArray.h",HC],[("append fast path","private/ByteArray.h ByteArray::append"),("buffer recycling",HC+" transitionToSendingContent")],[],["resulting bytes"])
prop("C24","The access log writes one faithful line per request",
 "With logging of completed requests each completed response produces exactly one line with the client address, method, URI, version, status, length and elapsed seconds, and nothing at start or close; in trace mode there is one BEGIN line per request, one END line per completed response and one CLOSE line per closed connection. The handler never takes a request, keeps at most one timer per connection and drops it when the connection is destroyed.",
 ["histories","configurations"],"all modes, devices and sequences of requests and connections",
 "tests check a few lines",
 ["HttpHandler.cpp"],[("log handler","HttpHandler.cpp HttpHandlerLog")],[("_requestTimerMap","timer per live connection","HttpHandler.h")],["log device writes"])
prop("C25","Response parsing never reads outside its input and counts body bytes exactly",
 "For every byte sequence fed to the client's response parser in every split, it reads only the bytes given, never fails an assertion or overflows, and hands over body bytes that never exceed the declared Content-Length or chunk size. Every reported piece lies inside the current input, and once an error is reported nothing further is parsed.",
 ["inputs","schedules"],"all byte strings and splits",
 "tests feed well-formed responses in a few splits",
 ["parser/http_parser.c"],[("state machine","parser/http_parser.c http_parser_execute")],[],["callbacks","return value"])
prop("C26","Script handlers receive faithful requests and cannot break the server",
 "A script handler is called with the request's fields and headers as script values, a true result counts as handled, a script error yields a 500 response and a file script is reloaded when its file changes.",
 ["inputs"],"all scripts and requests","tests run a few scripts",
 ["HttpHandlerQtScript.cpp"],[("script handler","HttpHandlerQtScript.cpp")],[],["script values"])
prop("C27","HTTPS connections carry the same HTTP semantics after TLS set-up",
 "Every accepted TLS socket is configured with the server's key and certificate before encryption starts and is then handled like any other connection; a socket that cannot be adopted creates none.",
 ["inputs","histories"],"all accepted sockets","tests do one TLS exchange",
 ["HttpsServer.cpp"],[("accept","HttpsServer.cpp incomingConnection")],[],["socket calls"])
prop("C28","Every complete request is eventually answered or its connection closed",
 "If the application answers every announced request and the network keeps draining, every complete request eventually gets its full response and an idle connection is not left hanging.",
 ["schedules"],"all fair schedules","liveness over unbounded schedules",
 ["HttpConnection.cpp"],[("event loop driven progress","HttpConnection.cpp drain/processInput")],[],["output"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
