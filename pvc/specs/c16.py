"""C16: handler stacks and simple handlers."""
from ..handlerspec import *
NOTE = "The stack's loop is proved for every list of children with a ghost count of the handlers asked; the fixed, not-found and function handlers for every configuration and request."
UNITS = C16
ASSUMPTIONS = ["handlers do not change the stack's children while they handle a request (foreach iterates over a copy of the list; a handler deleted during the iteration would dangle)", "QObject::children() lists the children in the order they were added"]
BOUNDED = "stacks of real handlers, nested, through the public interface (composition of the functions under contract)"
BOUNDED_SECONDS = 15
