"""C20: response assembly."""
from ..lifespec import *
NOTE = "Every handler of a parser event is proved from an arbitrary state (any pieces received before, any earlier message, complete or not): a header's name and value are the concatenation of their pieces and recorded once, the content is what it was followed by the piece (decoded by the decoder of this response, if any), and the event that begins a message leaves nothing of an earlier one. The property about whole sequences of events follows by induction over them."
UNITS = C20 + C20C
ASSUMPTIONS = ["the parser announces a message before its headers and delivers no event once it is in error (C25)", "zlib's inflate keeps to its documented interface"]
BOUNDED = "whole histories of responses, complete, cut, aborted, broken or cleared from a handler, through the parser and the client (composition with http_parser.c, zlib and the socket)"
BOUNDED_SECONDS = 20
