---------------------------- MODULE Trace_NovBody ----------------------------
(* Trace_Nov with the decoded bodies compared (see the .cfg).                 *)
EXTENDS Trace_Nov
=============================================================================
