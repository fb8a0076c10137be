"""C03: a delivered request equals the bytes sent."""
from ..recvspec import *
from .c01 import UNITS as PARSER
NOTE = "Buffering, field views, header set-up (up to 3 headers, bounded), caches, completion hand-over and reset between requests proved for all inputs over contracts; the positions come from the head parser, proved against its automaton."
UNITS = PROCESS + [SEND_HEADERS, RECV_CONTENT, RECV_HEADERS, HTTP_FIELD, INITIALIZE] + SETUP + DECODED + COMPLETED + PARSER
BOUNDED = "setupRequestHeaders beyond 3 headers, and whole request/response histories on one connection through the public interface and a scripted device (composition of the functions under contract, signal wiring, head parser)"
BOUNDED_SECONDS = 40
ASSUMPTIONS = ["positions recorded by the head parser are those of the request's parts (C01)", "writing to a device does not re-enter the connection"]
