----------------------------- MODULE CullTrace -----------------------------
EXTENDS Cull, TraceCheck
=============================================================================
