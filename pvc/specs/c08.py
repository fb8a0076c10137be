"""C08: life cycle."""
from ..recvspec import *
NOTE = "Every transition and public function under contract: state guards, actions, order of notifications, frames. Slots may do anything the contract of the signal allows."
UNITS = [WRITE_CONTENT, END_CONTENT, WRITE_RESPONSE, SENDING_CONTENT, FLUSHING, DRAIN, FLUSH, CLOSE] + COMPLETED + CLOSED + [RECV_HEADERS, RECV_CONTENT, SEND_HEADERS, INITIALIZE, INIT_PUBLIC, ERROR_RESPONSE] + PROCESS + public_units("writeResponse", "writeResponseString", "writeHeaders", "writeContent", "endContent", "close", "flush", "drain", "processInput")
BOUNDED = "whole request/response histories on one connection through the public interface and a scripted device (composition of the functions under contract, signal wiring, head parser)"
BOUNDED_SECONDS = 30
ASSUMPTIONS = ["a slot of closed() does not initialise the connection again from inside the notification", "writing to a device does not re-enter the connection"]
