"""C22: the network access adaptor."""
from .. import adaptspec as A
from ..unit import Unit
from ..clientlife import C21
NOTE = "Reply: the class invariant 0 <= position <= size is established and kept, and every slot is proved for an arbitrary header list, content, position and client state: each header is shown (values of one name joined), cookies are those of all Set-Cookie headers in order, the reader gets the next bytes and never more, finished() is emitted once, last, with the error of the client already set. Manager: createRequest is proved for every request, header list, cookie list, pool and outgoing device, operation by operation, to take an idle client of the authority out of the pool or make and register a new one, to wire the reply and then to ask for exactly that request; client_finished puts the sender back once. A pooled client is idle because finished() is emitted only when nothing is pending (C21) and it is taken out before use."
S = ["HttpClient.cpp"]
UNITS = [Unit("NetworkReply::NetworkReply", S, A.construct), Unit("NetworkReply::abort", S, A.aborted), Unit("NetworkReply::bytesAvailable", S, A.available), Unit("NetworkReply::readData", S, A.read),
         Unit("NetworkReply::client_contentReadyRead", S, A.content), Unit("NetworkReply::client_finished", S, A.finished), Unit("NetworkReply::client_headersCompleted", S, A.headers),
         *[Unit("NetworkAccessManager::createRequest(%s)" % n, S, A.create(i)) for i, n in enumerate(("unknown operation", "HEAD", "GET", "PUT", "POST", "DELETE", "custom verb"))],
         Unit("NetworkAccessManager::client_finished", S, A.pool),
         *[u for u in C21 if u.name.split("::")[-1] in ("get", "head", "post", "put", "deleteResource", "statusCode", "headers", "consumeContent", "error", "abort")]]
ASSUMPTIONS = ["QNetworkReply and QNetworkAccessManager behave as documented (setters, signals, cookie jar); QObject::sender() is the client whose finished() runs the slot", "the texts of cookies together are below 2^29 bytes and none is empty, names and values of raw headers below 2^10 bytes", "the manager outlives its replies in use"]
BOUNDED = "whole histories of requests through one manager: pieces, aborts, cut and broken responses, refused connections, overlapping requests, readers of arbitrary size, cookies and redirects, against a real server (composition of manager, reply, client and socket)"
BOUNDED_SECONDS = 25
