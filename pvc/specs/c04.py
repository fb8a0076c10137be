"""C04: bad or oversized requests."""
from ..recvspec import *
from .c01 import UNITS as PARSER
NOTE = "processInput, transitionToReceivingContent, writeRequestErrorResponse, flushing and closing: proved for every buffer, read result, parser verdict and content length value; what the parser rejects: its automaton, for every byte string and split."
UNITS = PROCESS + [RECV_HEADERS, RECV_CONTENT, HTTP_FIELD, ERROR_RESPONSE, FLUSHING, DRAIN] + CLOSED + PARSER
BOUNDED = "whole request/response histories on one connection through the public interface and a scripted device (composition of the functions under contract, signal wiring, head parser)"
BOUNDED_SECONDS = 30
ASSUMPTIONS = ["QByteArray::toInt is Qt's documented conversion", "a head of exactly 32768 bytes may be accepted or refused (the parser counts one byte more when the head is complete)"]
