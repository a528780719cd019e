---------------------------- MODULE CoerceTrace ----------------------------
EXTENDS Coerce, TraceCheck
=============================================================================
