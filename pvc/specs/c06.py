"""C06: response bodies."""
from ..connspec import *
from ..recvspec import SEND_HEADERS
from .c05 import HEADS as _heads
NOTE = "writeContent, endContent, writeResponse, transitionToSendingContent, transitionToCompleted and the public forwarding functions: proved for every content, length, sent count, state and negotiated encoding."
UNITS = list(_heads) + [SEND_HEADERS, WRITE_CONTENT, END_CONTENT, WRITE_RESPONSE, SENDING_CONTENT] + COMPLETED + public_units("writeResponse", "writeResponseString", "writeContent", "endContent")
BOUNDED = "whole request/response histories on one connection through the public interface and a scripted device (composition of the functions under contract, signal wiring, head parser)"
BOUNDED_SECONDS = 25
ASSUMPTIONS = ["writing to a device does not re-enter the connection", "slots connected to requestCompleted use accessors, change parameters or close"]
