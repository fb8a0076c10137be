"""C21: the client's life cycle."""
from ..clientlife import *
NOTE = "Every function of HttpClient is proved from an arbitrary state that satisfies the invariant (a ghost counts the requests started and not yet reported finished; it equals _responsePending; a pending request has no error and a sound parser), to the invariant: it holds when the function returns and when it emits a signal, after which the slots may have called back and the state is arbitrary but for the invariant. finished() is proved to be emitted only for a started request, which it ends, with the error of its cause. Histories of any length follow by induction over these steps."
UNITS = C21
ASSUMPTIONS = ["the socket's functions called here emit no signal before they return, but for connectToHost, which is the last thing the caller does", "slots act on the client through its public functions only", "the port of a url is in -1..65535 and its host determines the encoded host", "the effect of a run of the parser on the client is that of its event handlers (C20, C21), at most the bytes given being consumed (C25)", "QIODevice::read stores at most the requested number of bytes"]
BOUNDED = "whole histories of requests, responses in arbitrary pieces, aborts, errors, disconnections, timeouts and slots that call back, against a real server (composition of client, parser, zlib and socket)"
BOUNDED_SECONDS = 25
