"""C17: the proxy."""
from .. import proxyspec as X
from ..unit import Unit
NOTE = "Pipe: the invariant 'broken, or joined to a connection and a reply' is established and kept by every function; each operation on the connection may complete or close it, so every write is followed by a state in which teardown has run, and nothing is written then. sendHeaders is proved for an arbitrary header list (nested loops over headers and cookie lines, no bound), handleRequest for an arbitrary request (all values of every header name, joined in order, as copies; path, query and fragment with their escapes; one request, one pipe), proxiedReply_finished for every error, status and connection state, ElasticNetworkAccessManager::createRequest for an arbitrary list of children."
S = ["HttpHandlerProxy.cpp"]
UNITS = [Unit("HttpHandlerProxyPipe::HttpHandlerProxyPipe", S, X.pipe_ctor), Unit("HttpHandlerProxyPipe::teardown", S, X.teardown), Unit("HttpHandlerProxyPipe::pump", S, X.pump),
         Unit("HttpHandlerProxyPipe::proxiedReply_readyRead", S, X.ready), Unit("HttpHandlerProxyPipe::proxiedReply_finished", S, X.finished_), Unit("HttpHandlerProxyPipe::sendHeaders", S, X.send_headers), Unit("HttpHandlerProxy::handleRequest", S, X.handle), Unit("HttpHandlerProxy::createProxiedReply", S, X.proxied),
         Unit("HttpHandlerProxy::HttpHandlerProxy", S, X.built), Unit("HttpHandlerProxy::setProxiedUrl", S, X.set_url), Unit("HttpHandlerProxy::createPipe", S, X.piped),
         Unit("ElasticNetworkAccessManager::createRequest", S, X.elastic), Unit("ElasticNetworkAccessManager::~ElasticNetworkAccessManager", S, X.elastic_end)]
ASSUMPTIONS = ["QNetworkAccessManager, QNetworkReply, QNetworkRequest and QUrl behave as documented: one reply for one request, raw header values of one name joined, setters of the parts of an URL independent of each other, TolerantMode keeps percent escapes", "the functions of HttpConnection the pipe calls meet their contracts (C05 to C08); each may emit requestCompleted() or closed() before it returns", "error codes of replies to HTTP requests lie in the documented classes: 0, 1-99 network, 201-299, 302, 401-499 answered with an HTTP error status, 399 broken response", "raw header names hold no NUL; virtual functions of HttpHandlerProxy and its pipe that a subclass overrides meet the contracts of those they replace", "values below 2^28 bytes, lists below 2^20 entries"]
BOUNDED = "whole exchanges through HttpServer, proxy and a scripted server: pieces, pipelined and concurrent clients, cut, refused, malformed and hanging servers, clients that leave, handler or server destroyed meanwhile, repeated headers, cookies, encodings (composition of connection, handler, pipe and Qt's network access)"
BOUNDED_SECONDS = 20
