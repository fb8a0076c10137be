"""C07: keep-alive."""
from ..connspec import *
from ..recvspec import SEND_HEADERS
from .c05 import HEADS as _heads
NOTE = "The negotiation (writeHeaders), the forced close without a length, and what completion then does: proved for every request, header list and length."
UNITS = list(_heads) + [SEND_HEADERS, END_CONTENT, SENDING_CONTENT, FLUSHING, DRAIN] + COMPLETED
BOUNDED = "whole request/response histories on one connection through the public interface and a scripted device (composition of the functions under contract, signal wiring, head parser)"
BOUNDED_SECONDS = 25
ASSUMPTIONS = ["slots connected to requestCompleted use accessors, change parameters or close"]
