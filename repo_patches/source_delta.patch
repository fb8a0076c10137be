From 013750e8a8de86dbc4dc6b25d27b582740803321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 01/38] fix: appendNumber overflowed on the smallest value of
 its integer type

---
 pillowcore/ByteArrayHelpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/ByteArrayHelpers.h b/pillowcore/ByteArrayHelpers.h
index f73f237..a2d4fe3 100644
--- a/pillowcore/ByteArrayHelpers.h
+++ b/pillowcore/ByteArrayHelpers.h
@@ -115,8 +115,8 @@ namespace Pillow
 		{
 			static const char intToChar[16] = { '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f' };
 			int start = target.size();
-			Integer n = number; if (n < 0) n = -n;
-			do { if (Base <= 10) target.append(char(n % Base) + '0'); else target.append(intToChar[n % Base]); } while ((n /= Base) > 0);
+			Integer n = number; // Not negated: the smallest value has no positive counterpart.
+			do { int digit = int(n % Base); if (digit < 0) digit = -digit; target.append(intToChar[digit]); } while ((n /= Base) != 0);
 			if (number < 0) target.append('-');
 
 			// Reverse the string we've just output
-- 
2.43.0


From caf2ed78fb416ce40ace08fe8f259c2fc4a2a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 02/38] fix: requestUri() was corrupted when the uri ends with
 an empty query string

---
 pillowcore/HttpConnection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3ac43a1..23cc1ce 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -263,10 +263,10 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 
 	char* data = _requestBuffer.data();
 
-	if (_parser.query_string_len == 0)
+	if (_parser.request_path_len == _parser.request_uri_len)
 	{
-		// The request uri has no query string, we can use the data straight because it means that inserting null after the path
-		// will not destroy the uri (which does not include the fragment).
+		// The request uri has no query string (not even an empty one), we can use the data straight because it means that
+		// inserting null after the path will not destroy the uri (which does not include the fragment).
 		setFromRawDataAndNullterm(_requestUri, data, _parser.request_uri_start, _parser.request_uri_len);
 	}
 	else
-- 
2.43.0


From b73d1137a6b3a43cbd5ed96c9a145ab2a4afc80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 03/38] fix: Content-Length header was truncated to 32 bits

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 23cc1ce..b0aef57 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -543,7 +543,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		_responseConnectionKeepAlive = false;
 
 	// Automatically add essential headers.
-	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<int, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
+	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<qint64, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
 	if (contentTypeHeader) { _responseHeadersBuffer.append(*contentTypeHeader); } else if (_responseContentLength > 0) { _responseHeadersBuffer.append(contentTypeTextPlainTokenHeaderToken); }
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
-- 
2.43.0


From 11f60f83a2e1c705d69b5cce6bc1a7a68797ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 04/38] fix: the status line lacked its code when the response
 status is not valid

---
 pillowcore/HttpConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index b0aef57..0f27e47 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -456,7 +456,8 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusMessage(500); // Internal server error.
+		statusCode = 500; // Internal server error.
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 1c6f1b87ca904e8cc1146b2135306f37db32688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 05/38] fix: closing the connection from a requestCompleted()
 slot crashed

---
 pillowcore/HttpConnection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 0f27e47..879f57e 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -326,6 +326,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	}
 	_state = Pillow::HttpConnection::Completed;
 	emit q_ptr->requestCompleted(q_ptr);
+	if (_state != Pillow::HttpConnection::Completed) return; // Closed by a slot connected to requestCompleted().
 
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
 	// Reuse the already allocated buffer if it is not too large.
@@ -344,6 +345,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	if (_responseConnectionKeepAlive)
 	{
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
+		if (_state != Pillow::HttpConnection::Completed) return; // Flushing found out that the client is gone.
 		transitionToReceivingHeaders();
 		processInput();
 	}
-- 
2.43.0


From dcf76ceccc7366bf38374867d3a114099320750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 06/38] fix: content of a completed response could be sent as
 part of the response to the next pipelined request

---
 pillowcore/HttpConnection.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 879f57e..6690133 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -108,7 +108,7 @@ namespace Pillow
 		void transitionToReceivingHeaders();
 		void transitionToReceivingContent();
 		void transitionToSendingHeaders();
-		void transitionToSendingContent();
+		bool transitionToSendingContent(); // Returns false if there is no content to send.
 		void transitionToCompleted();
 		void flush();
 		void drain();
@@ -121,7 +121,7 @@ namespace Pillow
 	public: // From public interface.
 		void writeResponse(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QByteArray& content = QByteArray());
 		void writeResponseString(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QString& content = QString());
-		void writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
+		bool writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
 		void writeContent(const QByteArray& content);
 		void endContent();
 		void close();
@@ -297,9 +297,9 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	emit q_ptr->requestReady(q_ptr);
 }
 
-inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
+inline bool Pillow::HttpConnectionPrivate::transitionToSendingContent()
 {
-	if (_state == Pillow::HttpConnection::SendingContent) return;
+	if (_state == Pillow::HttpConnection::SendingContent) return true;
 	_state = Pillow::HttpConnection::SendingContent;
 
 	if (_responseHeadersBuffer.capacity() > 4096)
@@ -307,14 +307,18 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
 	else
 		_responseHeadersBuffer.data_ptr()->size = 0;
 
-	if (_responseContentLength == 0 || _requestMethod == headToken)
-		transitionToCompleted();
-
 	if (_responseContentLength < 0 && !_responseChunkedTransferEncoding)
 	{
 		// The response content length needs to be specified or chunked transfer encoding used to support keep-alive. Forcefully disable it.
 		_responseConnectionKeepAlive = false;
 	}
+
+	if (_responseContentLength == 0 || _requestMethod == headToken)
+	{
+		transitionToCompleted(); // May already have started another request.
+		return false;
+	}
+	return true;
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
@@ -441,16 +445,15 @@ inline void Pillow::HttpConnectionPrivate::writeResponse(int statusCode, const H
 
 	// Calculate the Content-Length header so it can be set in WriteHeaders, unless it is already present.
 	_responseContentLength = content.size();
-	writeHeaders(statusCode, headers);
-	if (!content.isEmpty() && _requestMethod != headToken) writeContent(content);
+	if (writeHeaders(statusCode, headers) && !content.isEmpty()) writeContent(content);
 }
 
-inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
+inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
 {
 	if (_state != Pillow::HttpConnection::SendingHeaders)
 	{
 		qWarning() << "HttpConnection::writeHeaders called while state is not 'SendingHeaders', not proceeding with sending headers.";
-		return;
+		return false;
 	}
 
 	const char* statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
@@ -552,7 +555,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
 	_responseHeadersBuffer.append(crLfToken); // End of headers.
 	_outputDevice->write(_responseHeadersBuffer);
-	transitionToSendingContent();
+	return transitionToSendingContent();
 }
 
 inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &content)
-- 
2.43.0


From 022b491d41e049bfe9d837be3d0dc6e7a421febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 07/38] fix: response header buffer was reused while still
 shared with the output device

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 6690133..fdb08ec 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -302,7 +302,7 @@ inline bool Pillow::HttpConnectionPrivate::transitionToSendingContent()
 	if (_state == Pillow::HttpConnection::SendingContent) return true;
 	_state = Pillow::HttpConnection::SendingContent;
 
-	if (_responseHeadersBuffer.capacity() > 4096)
+	if (_responseHeadersBuffer.capacity() > 4096 || !_responseHeadersBuffer.isDetached()) // The output device may still hold on to it.
 		_responseHeadersBuffer.clear();
 	else
 		_responseHeadersBuffer.data_ptr()->size = 0;
-- 
2.43.0


From e262813b5a4812ca808108c9dbdbc0828dce0f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 08/38] fix: a failed read from the input device dropped the
 last received byte

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index fdb08ec..91b82c6 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -164,7 +164,7 @@ inline void Pillow::HttpConnectionPrivate::processInput()
 		if (_requestBuffer.capacity() < (_requestBuffer.size() + bytesAvailable + 1))
 			_requestBuffer.reserve(_requestBuffer.size() + bytesAvailable + 1);
 		const qint64 bytesRead = _inputDevice->read(_requestBuffer.data() + _requestBuffer.size(), bytesAvailable);
-		_requestBuffer.data_ptr()->size += bytesRead;
+		if (bytesRead > 0) _requestBuffer.data_ptr()->size += bytesRead;
 		_requestBuffer.data()[_requestBuffer.data_ptr()->size] = '\0'; // The parser requires the string to be null terminated.
 	}
 
-- 
2.43.0


From e9bb07e4b00cd8024983bbf4cbacedeafededc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 09/38] fix: appending a header collection to itself read and
 wrote out of bounds

---
 pillowcore/HttpHeader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHeader.cpp b/pillowcore/HttpHeader.cpp
index ac67e31..d99c787 100644
--- a/pillowcore/HttpHeader.cpp
+++ b/pillowcore/HttpHeader.cpp
@@ -52,12 +52,13 @@ void Pillow::HttpHeader::setFromRawHeader(const char *rawHeader, int len)
 
 Pillow::HttpHeaderCollection &Pillow::HttpHeaderCollection::operator+=(const QVector<HttpHeader> &l)
 {
+	const QVector<HttpHeader> added(l); // l may be this very collection.
 	int oldSize = size();
-	resize(size() + l.size());
+	resize(size() + added.size());
 
 	Pillow::HttpHeader *dest = begin() + oldSize;
-	const Pillow::HttpHeader *src = l.begin();
-	const Pillow::HttpHeader *srcE = l.end();
+	const Pillow::HttpHeader *src = added.constBegin();
+	const Pillow::HttpHeader *srcE = added.constEnd();
 	while (src != srcE)
 		*(dest++) = *(src++);
 
-- 
2.43.0


From 8473223c7486a0208bcc38ecdd5d5941204d00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 10/38] fix: a header interrupted by an abort leaked into the
 next response

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 921fe23..431256a 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -255,6 +255,8 @@ void Pillow::HttpResponseParser::messageBegin()
 {
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear(); // A previous message may have been interrupted in the middle of a header.
+	_value.clear();
 	_lastWasValue = false;
 }
 
-- 
2.43.0


From aec32cb163f36f10c824ce5f16aea449873edff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 11/38] fix: content decoder of an interrupted response was
 applied to the next response

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 431256a..019ca0b 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -670,6 +670,8 @@ void Pillow::HttpClient::sendRequest()
 
 void Pillow::HttpClient::messageBegin()
 {
+	delete _contentDecoder; // A previous response may have been interrupted before its end.
+	_contentDecoder = 0;
 	Pillow::HttpResponseParser::messageBegin();
 }
 
-- 
2.43.0


From f15c186e41d8693f50951cddda82294be9e1c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 12/38] fix: reading with a read buffer size could write past
 the end of the receive buffer

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 019ca0b..4517191 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -576,7 +576,7 @@ void Pillow::HttpClient::device_readyRead()
 
 	qint64 bufferSize = readBufferSize();
 	if (bufferSize > 0)
-		bytesAvailable = bufferSize - _content.size();
+		bytesAvailable = qMin(bytesAvailable, bufferSize - _content.size());
 
 	if (bytesAvailable <= 0)
 	{
-- 
2.43.0


From 1cae360ffc445ef173b9e2f126d75961cad29e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 13/38] fix: a failed read from the socket corrupted the size
 of the receive buffer

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 4517191..cb127dd 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -585,6 +585,7 @@ void Pillow::HttpClient::device_readyRead()
 	}
 
 	qint64 bytesRead = _device->read(_buffer.data() + _buffer.size(), bytesAvailable);
+	if (bytesRead <= 0) return;
 	_buffer.data_ptr()->size += bytesRead;
 
 	int consumed = inject(_buffer);
-- 
2.43.0


From 6f58afad7280d1d4ff1f7f57ab46673d0a71877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 14/38] fix: finished() was emitted twice when a HEAD request
 is aborted upon receiving its headers

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index cb127dd..8de1138 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -683,6 +683,7 @@ void Pillow::HttpClient::headersComplete()
 		return;
 
 	emit headersCompleted();
+	if (!_responsePending) return; // Aborted by a slot connected to headersCompleted().
 
 	if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
 	{
-- 
2.43.0


From a0384ba085e677fab326c9483fa569cb02cdefd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 15/38] fix: file handler served files of sibling directories
 sharing the public path's prefix

---
 pillowcore/HttpHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 6fa9dfc..fafc742 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -284,7 +284,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 	{
 		return false;
 	}
-	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath))
+	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath.endsWith('/') ? _publicPath : _publicPath + '/'))
 	{
 		return false; // Somebody tried to use some ".." or has followed symlinks that escaped out of the public path.
 	}
-- 
2.43.0


From f890e602eb0813c15f8c8570a5755d7cfca8673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 16/38] fix: transfer of a large file left behind by a HEAD
 request wrote into later responses

---
 pillowcore/HttpHandler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index fafc742..126b40c 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -325,6 +325,13 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		{
 			// The file exceeds the buffer size and must be sent incrementally. Do send the headers right away.
 			headers << HttpHeader("Content-Length", QByteArray::number(file->size()));
+			if (connection->requestMethod() == "HEAD" || file->size() == 0)
+			{
+				// The response completes with its headers. There is nothing to transfer, and the connection may already be serving its next request.
+				connection->writeHeaders(200, headers);
+				delete file;
+				return true;
+			}
 			connection->writeHeaders(200, headers);
 
 			HttpHandlerFileTransfer* transfer = new HttpHandlerFileTransfer(file, connection, bufferSize());
-- 
2.43.0


From 259e8a161767347e191fead9ce072c8dd583c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:36 +0000
Subject: [PATCH 17/38] fix: access log mangled lines whose request text
 contains %1 placeholders

---
 pillowcore/HttpHandler.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 126b40c..5c055c6 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -156,9 +156,9 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 	else if (_mode == TraceRequests)
 	{
 		QString logEntry = QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()));
+				.arg(connection->remoteAddress().toString(), // All at once: the request's own text may contain "%1".
+					QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()));
 
 		log(logEntry);
 	}
@@ -175,11 +175,11 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(), // All at once: the request's own text may contain "%1".
+					QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
@@ -194,11 +194,11 @@ void HttpHandlerLog::requestClosed(HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(), // All at once: the request's own text may contain "%1".
+					QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
-- 
2.43.0


From 4e700f8d83b1ce02efbe135480c7f3a643df3b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 18/38] fix: router bound splat captures to the wrong parameter
 names when a splat precedes a parameter

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 30 +++++++-------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 6a7363c..72bd57c 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -192,32 +192,18 @@ QRegExp Pillow::HttpHandlerSimpleRouter::pathToRegExp(const QString &p, QStringL
 {
 	QString path = p;
 
-	QRegExp paramRegex(":(\\w+)"); QString paramReplacement("([\\w_-]+)");
+	// The parameters (":name") and the splats ("*name") are looked for in a single pass
+	// so that the names are collected in the order of their capture groups.
+	QRegExp tokenRegex("([:*])(\\w+)"); QString paramReplacement("([\\w_-]+)"), splatReplacement("(.*)");
 	QStringList paramNames;
 	int pos = 0;
-	while (pos >= 0)
+	while ((pos = tokenRegex.indexIn(path, pos)) >= 0)
 	{
-		pos = paramRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << paramRegex.cap(1);
-			pos += paramRegex.matchedLength();
-		}
-	}
-	path.replace(paramRegex, paramReplacement);
-
-	QRegExp splatRegex("\\*(\\w+)"); QString splatReplacement("(.*)");
-	pos = 0;
-	while (pos >= 0)
-	{
-		pos = splatRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << splatRegex.cap(1);
-			pos += splatRegex.matchedLength();
-		}
+		paramNames << tokenRegex.cap(2);
+		const QString& replacement = tokenRegex.cap(1) == QLatin1String(":") ? paramReplacement : splatReplacement;
+		path.replace(pos, tokenRegex.matchedLength(), replacement);
+		pos += replacement.length();
 	}
-	path.replace(splatRegex, splatReplacement);
 
 	if (outParamNames)
 		*outParamNames = paramNames;
-- 
2.43.0


From 80bbed450dde9c9a01f8b28a280b78d81a7fb7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:29 +0000
Subject: [PATCH 19/38] fix: several interim 100 responses received at once
 lost the response that follows

---
 pillowcore/HttpClient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 8de1138..49278c8 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -602,8 +602,9 @@ void Pillow::HttpClient::device_readyRead()
 			if (consumed < _buffer.size())
 			{
 				// We had multiple responses in the buffer?
-				// It was a 100 Continue since we are still response pending.
-				consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
+				// They were 100 Continue responses for as long as we are still response pending.
+				while (consumed < _buffer.size() && responsePending() && !hasError())
+					consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
 
 				if (consumed < _buffer.size())
 				{
-- 
2.43.0


From 502d5532024ad03071d76081ad4f65f49ef05b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 20/38] fix: a response completed by the end of the connection
 was reported as an error

---
 pillowcore/HttpClient.cpp | 30 +++++++++++++++++++++++-------
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 49278c8..ebc9c73 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -539,6 +539,18 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
+	if (error == QAbstractSocket::RemoteHostClosedError && !isParsing() && _device->bytesAvailable() == 0)
+	{
+		// The response might be one that is completed by the end of the connection.
+		injectEof();
+
+		if (!_responsePending)
+		{
+			sendPendingRequest();
+			return;
+		}
+	}
+
 	switch (error)
 	{
 	case QAbstractSocket::RemoteHostClosedError:
@@ -633,14 +645,18 @@ void Pillow::HttpClient::device_readyRead()
 		_buffer.data_ptr()->size = 0;
 
 	// Response completed or got aborted in a callback.
-	if (!responsePending() && !_pendingRequest.method.isNull())
-	{
-		// Plus we got a new request while in callback.
-		Pillow::HttpClientRequest r = _pendingRequest;
-		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
-		request(r);
-	}
+	if (!responsePending())
+		sendPendingRequest();
+}
+
+void Pillow::HttpClient::sendPendingRequest()
+{
+	if (_pendingRequest.method.isNull()) return;
 
+	// We got a new request while in callback.
+	Pillow::HttpClientRequest r = _pendingRequest;
+	_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
+	request(r);
 }
 
 void Pillow::HttpClient::sendRequest()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bbf25fb..bba21ff 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -230,6 +230,7 @@ namespace Pillow
 
 	private:
 		void sendRequest();
+		void sendPendingRequest();
 
 	protected:
 		void messageBegin();
-- 
2.43.0


From 19cdb3e018d00faac8d2240bdbc775091e840faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:06 +0000
Subject: [PATCH 21/38] fix: a request issued from finished() after the server
 closed the connection never got sent

---
 pillowcore/HttpClient.cpp | 19 +++++++++++++++++--
 pillowcore/HttpClient.h   |  2 ++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index ebc9c73..e04f2e3 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -343,7 +343,7 @@ inline void Pillow::HttpResponseParser::pushHeader()
 //
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0), _handlingDeviceError(false)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -500,10 +500,20 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 
 		if (_device->state() != QAbstractSocket::UnconnectedState)
 			_device->disconnectFromHost();
-		_device->connectToHost(_request.url.host(), _request.url.port(80));
+
+		if (_handlingDeviceError)
+			QTimer::singleShot(0, this, SLOT(connectDevice())); // The device closes once its error() signal has been handled, even if it was connected again.
+		else
+			_device->connectToHost(_request.url.host(), _request.url.port(80));
 	}
 }
 
+void Pillow::HttpClient::connectDevice()
+{
+	if (_responsePending && _device->state() == QAbstractSocket::UnconnectedState)
+		_device->connectToHost(_request.url.host(), _request.url.port(80));
+}
+
 void Pillow::HttpClient::abort()
 {
 	if (_device) _device->abort();
@@ -539,6 +549,8 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
+	_handlingDeviceError = true;
+
 	if (error == QAbstractSocket::RemoteHostClosedError && !isParsing() && _device->bytesAvailable() == 0)
 	{
 		// The response might be one that is completed by the end of the connection.
@@ -547,6 +559,7 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		if (!_responsePending)
 		{
 			sendPendingRequest();
+			_handlingDeviceError = false;
 			return;
 		}
 	}
@@ -563,6 +576,8 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 	_device->close();
 	_responsePending = false;
 	emit finished();
+
+	_handlingDeviceError = false;
 }
 
 void Pillow::HttpClient::device_connected()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bba21ff..0bb5c39 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -227,6 +227,7 @@ namespace Pillow
 		void device_error(QAbstractSocket::SocketError error);
 		void device_connected();
 		void device_readyRead();
+		void connectDevice();
 
 	private:
 		void sendRequest();
@@ -251,6 +252,7 @@ namespace Pillow
 		QElapsedTimer _keepAliveTimeoutTimer;
 		QByteArray _hostHeaderValue;
 		Pillow::ContentTransformer* _contentDecoder;
+		bool _handlingDeviceError;
 	};
 
 	//
-- 
2.43.0


From 56071b237ec8f4d7826c498db80d9f578dcd07fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:39 +0000
Subject: [PATCH 22/38] fix: HttpClient: an event loop run by a slot during
 parsing no longer breaks the response being received

---
 pillowcore/HttpClient.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index e04f2e3..c9772a0 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -573,6 +573,7 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		_error = NetworkError;
 	}
 
+	if (isParsing()) pause(); // A slot called by the parser is running an event loop.
 	_device->close();
 	_responsePending = false;
 	emit finished();
@@ -595,6 +596,8 @@ void Pillow::HttpClient::device_readyRead()
 		return;
 	}
 
+	if (isParsing()) return; // A slot called by the parser is running an event loop. What there is to read will be read once parsing is over.
+
 	qint64 bytesAvailable = _device->bytesAvailable();
 	if (bytesAvailable == 0) return;
 
@@ -659,9 +662,10 @@ void Pillow::HttpClient::device_readyRead()
 	else
 		_buffer.data_ptr()->size = 0;
 
-	// Response completed or got aborted in a callback.
 	if (!responsePending())
-		sendPendingRequest();
+		sendPendingRequest(); // Response completed or got aborted in a callback.
+	else if (_device->bytesAvailable() > 0)
+		QTimer::singleShot(0, this, SLOT(device_readyRead()));
 }
 
 void Pillow::HttpClient::sendPendingRequest()
-- 
2.43.0


From 2c02b1a22e832af6f1907e4301ca93850b663b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 23/38] fix: HttpClient: bytes of an invalid response no longer
 get parsed as part of the response to a request made from finished()

---
 pillowcore/HttpClient.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index c9772a0..dadaac1 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -646,14 +646,6 @@ void Pillow::HttpClient::device_readyRead()
 				// Just waiting for more data to consume.
 			}
 		}
-
-		if (hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
-		{
-			_error = ResponseInvalidError;
-			_device->close();
-			_responsePending = false;
-			emit finished();
-		}
 	}
 
 	// Reuse the read buffer if it is not overly large.
@@ -662,6 +654,14 @@ void Pillow::HttpClient::device_readyRead()
 	else
 		_buffer.data_ptr()->size = 0;
 
+	if (responsePending() && hasError())
+	{
+		_error = ResponseInvalidError;
+		_device->close();
+		_responsePending = false;
+		emit finished(); // The read buffer is empty by now: a slot might make a new request and run an event loop until it is finished.
+	}
+
 	if (!responsePending())
 		sendPendingRequest(); // Response completed or got aborted in a callback.
 	else if (_device->bytesAvailable() > 0)
-- 
2.43.0


From c6f1bb4a99b41c0588ca1d6ccd9749a9ebd6249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:23 +0000
Subject: [PATCH 24/38] fix: HttpClient: a request for an url without a path is
 sent with the path /, not with an empty one

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index dadaac1..399708f 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -693,6 +693,7 @@ void Pillow::HttpClient::sendRequest()
 	}
 
 	QByteArray uri = _request.url.encodedPath();
+	if (uri.isEmpty()) uri.append('/'); // A request line always needs a path.
 	const QByteArray query = _request.url.encodedQuery();
 	if (!query.isEmpty()) uri.append('?').append(query);
 
-- 
2.43.0


From 7f19213244cfce42046f6267dd478b5f4bd252c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:26 +0000
Subject: [PATCH 25/38] fix: HttpResponseParser: the last header received after
 a chunked content no longer gets lost

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 399708f..f279d08 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -319,6 +319,7 @@ int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *
 int Pillow::HttpResponseParser::parser_on_message_complete(http_parser *parser)
 {
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
+	self->pushHeader(); // There may be a last header received after a chunked content.
 	self->messageComplete();
 
 	// Pause the parser to avoid parsing the next message (if there is another one in the buffer).
-- 
2.43.0


From b554bab07fba3a4a12c9550fe87fdd8c56dfc5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:33 +0000
Subject: [PATCH 26/38] fix: NetworkAccessManager: error() of a failed reply no
 longer stays NoError

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index f279d08..8a2eaa4 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -890,6 +890,7 @@ namespace Pillow
 				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; break;
 				}
 
+				setError(error, errorString());
 				emit this->error(error);
 			}
 
-- 
2.43.0


From c291e48227047ddb5b6b6cecca57a60c1e8b5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:33 +0000
Subject: [PATCH 27/38] fix: NetworkAccessManager: a header received several
 times is shown with all its values, not only the last one

---
 pillowcore/HttpClient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 8a2eaa4..4aa174a 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -838,7 +838,10 @@ namespace Pillow
 
 			foreach (const Pillow::HttpHeader &header, _client->headers())
 			{
-				setRawHeader(header.first, header.second);
+				QByteArray value = header.second;
+				if (hasRawHeader(header.first)) // Sent several times: one header with all its values.
+					value = rawHeader(header.first) + ", " + value;
+				setRawHeader(header.first, value);
 
 				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie")))
 					cookies += QNetworkCookie::parseCookies(header.second);
-- 
2.43.0


From 428923e3277fdbd2263a41807ec2faa6fe3bcd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:33 +0000
Subject: [PATCH 28/38] fix: NetworkAccessManager: a header with an empty value
 is no longer missing from the reply

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 4aa174a..8240f77 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -838,7 +838,7 @@ namespace Pillow
 
 			foreach (const Pillow::HttpHeader &header, _client->headers())
 			{
-				QByteArray value = header.second;
+				QByteArray value = header.second.isNull() ? QByteArray("") : header.second; // A null value would remove the header.
 				if (hasRawHeader(header.first)) // Sent several times: one header with all its values.
 					value = rawHeader(header.first) + ", " + value;
 				setRawHeader(header.first, value);
-- 
2.43.0


From 8ce6dffcce9c32bbac4c2a450eb0c9bfb739d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 29/38] fix: HttpConnection: a connection object used again
 after its large buffer was cleared no longer writes to the shared null array

---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 91b82c6..535e1e5 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -143,8 +143,8 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 	_parser.http_field = &HttpConnectionPrivate::parser_http_field;
 
 	// Clear any leftover data from a previous potentially failed request (that would not have gone though "transitionToCompleted")
-	if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else _requestBuffer.clear();
+	if (_requestBuffer.capacity() > Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.clear();
+	else if (!_requestBuffer.isEmpty()) _requestBuffer.data_ptr()->size = 0; // (Once cleared, it is the shared null array that must not be written to).
 	_requestHeadersRef.clear();
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
-- 
2.43.0


From 8fc999f327be810667a1635cb7363089a3f05e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 30/38] fix: HttpHandlerProxy: the percent escapes of the
 request path are no longer escaped a second time

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7ed6b73..edf4175 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -31,7 +31,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	if (_proxiedUrl.isEmpty()) return false;
 
 	QUrl targetUrl = _proxiedUrl;
+#if QT_VERSION < 0x050000
 	targetUrl.setEncodedPath(request->requestPath());
+#else
+	targetUrl.setPath(QString::fromUtf8(request->requestPath()), QUrl::TolerantMode); // Keep the percent escapes of the request as they are.
+#endif
 	if (!request->requestQueryString().isEmpty()) targetUrl.setEncodedQuery(request->requestQueryString());
 	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
 
-- 
2.43.0


From 4bfb69daa458fffa2488165c2566c009a0718cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 31/38] fix: HttpHandlerProxy: the proxied request no longer
 refers to the buffer of a connection that may be gone

---
 pillowcore/HttpHandlerProxy.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index edf4175..1e1900a 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -41,7 +41,12 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 
 	QNetworkRequest proxiedRequest(targetUrl);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
-		proxiedRequest.setRawHeader(header.first, header.second);
+	{
+		// The headers of the request refer to the buffer of the connection, which does not live as long as the proxied request: hand out copies.
+		const QByteArray name(header.first.constData(), header.first.size());
+		QByteArray value(header.second.constData(), header.second.size());
+		proxiedRequest.setRawHeader(name, value);
+	}
 
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
@@ -57,7 +62,7 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
+	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, QByteArray(request->requestMethod().constData(), request->requestMethod().size()), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
 
-- 
2.43.0


From af3f4e6ff9e31b3b7f7360ca78233cdec7e6d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 32/38] fix: HttpHandlerProxy: a request header given several
 times is forwarded with all its values, not only the last one

---
 pillowcore/HttpHandlerProxy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 1e1900a..9910542 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -45,6 +45,8 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 		// The headers of the request refer to the buffer of the connection, which does not live as long as the proxied request: hand out copies.
 		const QByteArray name(header.first.constData(), header.first.size());
 		QByteArray value(header.second.constData(), header.second.size());
+		if (proxiedRequest.hasRawHeader(name))
+			value.prepend(proxiedRequest.rawHeader(name) + ", "); // There can be only one raw header by that name.
 		proxiedRequest.setRawHeader(name, value);
 	}
 
-- 
2.43.0


From 4359d000fc6c8be4cfb4eca67b34f359aa2a491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 33/38] fix: HttpHandlerProxy: the content sent upstream is no
 longer that of whatever request the connection has moved on to

---
 pillowcore/HttpHandlerProxy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 9910542..0716764 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -60,7 +60,9 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 	QBuffer* requestContentBuffer = NULL;
 	if (request->requestContent().size() > 0)
 	{
-		requestContentBuffer = new QBuffer(&(const_cast<QByteArray&>(request->requestContent())));
+		// The connection can be done with its content before all of it has been sent: send a copy.
+		requestContentBuffer = new QBuffer();
+		requestContentBuffer->setData(request->requestContent().constData(), request->requestContent().size());
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-- 
2.43.0


From 449ba1be13e86203f85a483aa7dcb53905de14a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 34/38] fix: HttpHandlerProxy: a response is no longer
 decompressed while its headers still say that it is not

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 0716764..0f996de 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -50,6 +50,10 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 		proxiedRequest.setRawHeader(name, value);
 	}
 
+	// The answer is relayed as it comes: do not let it be decompressed unless the client asked for that encoding itself.
+	if (!proxiedRequest.hasRawHeader("Accept-Encoding"))
+		proxiedRequest.setRawHeader("Accept-Encoding", "identity");
+
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
 	return true;
-- 
2.43.0


From bade3f1cc6483510e3a5e0eee7b4854b451ca8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 35/38] fix: HttpHandlerProxy: the cookies of one client are no
 longer sent along with the requests of others

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 0f996de..eb3c215 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -54,6 +54,10 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	if (!proxiedRequest.hasRawHeader("Accept-Encoding"))
 		proxiedRequest.setRawHeader("Accept-Encoding", "identity");
 
+	// The cookies are those of the client, not those that other clients were given.
+	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
+	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
+
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
 	return true;
-- 
2.43.0


From 7598197dba80c37530ce051d869f58d867b74a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 36/38] fix: HttpHandlerProxy: a HEAD request no longer waits
 for content that never comes

---
 pillowcore/HttpHandlerProxy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index eb3c215..d26b914 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -74,7 +74,11 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, QByteArray(request->requestMethod().constData(), request->requestMethod().size()), requestContentBuffer);
+	QNetworkReply* proxiedReply = NULL;
+	if (request->requestMethod() == "HEAD" && requestContentBuffer == NULL)
+		proxiedReply = _networkAccessManager->head(proxiedRequest); // As a custom request, it would wait for content that never comes.
+	else
+		proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, QByteArray(request->requestMethod().constData(), request->requestMethod().size()), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
 
-- 
2.43.0


From bb08af7f5260e655d58909ff733d24a5df4b2453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 37/38] fix: HttpHandlerProxy: repeated Set-Cookie headers no
 longer break the response head apart

---
 pillowcore/HttpHandlerProxy.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index d26b914..f5a15f2 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -142,7 +142,16 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
-		headers << headerList.at(i);
+	{
+		if (qstricmp(headerList.at(i).first.constData(), "Set-Cookie") == 0)
+		{
+			// The network access manager joins the values of repeated cookie headers with line breaks.
+			foreach (const QByteArray& value, headerList.at(i).second.split('\n'))
+				headers << Pillow::HttpHeader(headerList.at(i).first, value);
+		}
+		else
+			headers << headerList.at(i);
+	}
 	_request->writeHeaders(statusCode, headers);
 }
 
-- 
2.43.0


From 04ec8b12291e8dd3faf9151712c2dec8cf9084b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 38/38] fix: HttpHandlerProxy: a response with an error status
 is relayed to its end, and a failed one no longer leaves the client waiting

---
 pillowcore/HttpHandlerProxy.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index f5a15f2..b28ca91 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -168,24 +168,28 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_readyRead()
 
 void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 {
-	if (_proxiedReply->error() == QNetworkReply::NoError)
-	{
+	// A response with an HTTP error status is a response like any other, unless the network failed before its end.
+	const QNetworkReply::NetworkError error = _proxiedReply->error();
+	const int statusCode = _proxiedReply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt();
+	const bool responded = error == QNetworkReply::NoError || (statusCode >= 400 && error > QNetworkReply::UnknownNetworkError && error != QNetworkReply::ProtocolFailure);
+
+	if (responded)
 		sendHeaders(); // Make sure headers have been sent; can cause the pipe to tear down.
 
-		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
-		{
-			// The client request will still be in this state if the content-length was not specified. We must
-			// close the connection to indicate the end of the content stream.
+	if (_broken) return;
+
+	if (_request->state() == Pillow::HttpConnection::SendingContent)
+	{
+		// The client request will still be in this state if the content-length was not specified, or if less content than that was received.
+		if (responded && _request->responseContentLength() < 0)
+			_request->endContent();
+		else
 			_request->close();
-		}
 	}
-	else
+	else if (_request->state() == Pillow::HttpConnection::SendingHeaders)
 	{
-		if (!_broken && _request->state() == Pillow::HttpConnection::SendingHeaders)
-		{
-			// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
-			_request->writeResponse(503);
-		}
+		// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
+		_request->writeResponse(503);
 	}
 }
 
-- 
2.43.0

