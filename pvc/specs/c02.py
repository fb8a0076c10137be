"""C02: receiving never touches memory out of bounds or aborts."""
from ..recvspec import *
from .c01 import UNITS as PARSER
NOTE = "Memory obligations (bounds, null, sizes within capacity, use after free) of the receiving functions for all inputs; setupRequestHeaders for up to 3 headers (bounded); the generated head parser against its automaton for every byte string and split (bounds of every access included)."
UNITS = PROCESS + [RECV_HEADERS, RECV_CONTENT, SEND_HEADERS, HTTP_FIELD, INITIALIZE, ERROR_RESPONSE] + SETUP + PARSER
BOUNDED = "setupRequestHeaders beyond 3 headers, and whole request/response histories on one connection through the public interface and a scripted device (composition of the functions under contract, signal wiring, head parser)"
BOUNDED_SECONDS = 40
ASSUMPTIONS = ["positions recorded by the head parser lie inside the parsed head, in order and separated by delimiters (precondition of transitionToSendingHeaders and setupRequestHeaders; postcondition of the head parser's automaton)",
    "QIODevice::read writes at most the bytes it returns; writing to a device does not re-enter the connection"]
